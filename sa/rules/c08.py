"""Propagated clauses are consequences of the constraint."""
from ..absint import Engine, Rule, contains, show
from ..core import AnalysisBroken, CALLS, CTORS
from ..effects import Effects
from ..lib import in_region, strip
from .c04 import loops_around

EXPLANATION = (
    "Contents of the clauses submitted during propagation, tracked symbolically on every path from acquiring the reason "
    "buffer to submitting it: the negated constraint literal, one literal per contributing variable, the side and offset of "
    "each order literal, and the circumstances under which a consequence is turned into a fact.")


def last(q):
    return q.split("::")[-1]


def is_state(prog, cls):
    r = prog.records.get(cls)
    if r is None:
        for x in prog.records.values():
            if x["qn"] == cls or x["name"] == cls:
                r = x
                break
    seen = set()
    todo = [r] if r else []
    while todo:
        r = todo.pop()
        if r is None or r["name"] in seen:
            continue
        seen.add(r["name"])
        if last(r["qn"]) == "AbstractConstraintState":
            return True
        todo.extend(prog.records.get(b) for b in r.get("bases") or ())
    return False


class Lits:
    """Which expressions denote the literal of the constraint?"""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.callers = {}
        for f in prog.fns.values():
            for n in f.allnodes():
                if n.k in CALLS or n.k in CTORS:
                    for t in prog.targets(n):
                        self.callers.setdefault(t.id, []).append((f, n))

    def carrier(self, rec, field):
        """Is a field only ever initialised with the literal of the constraint?"""
        key = (rec, field)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        r = self.p.records.get(rec)
        if r is None:
            r = next((x for x in self.p.records.values() if x["qn"] == rec), None)
        if r is None:
            return False
        names = [f["name"] for f in r["fields"]]
        ok, cnt = True, 0
        for f in self.p.fns.values():
            if f.info.kind == "ctor" and f.info.cls in (rec, r["name"], r["qn"]):
                for i in f.inits:
                    if i.get("member") == field and not f.copyctor and not f.movector:
                        cnt += 1
                        ok = ok and self.expr(f, i["e"])
            for n in f.allnodes():
                if n.k == "InitListExpr" and last(n.type.replace("const ", "")).split("<")[0] == last(rec).split("<")[0] and len(n.get("c") or ()) == len(names):
                    cnt += 1
                    ok = ok and self.expr(f, n.get("c")[names.index(field)])
        self.memo[key] = ok and cnt > 0
        return self.memo[key]

    def expr(self, f, e, depth=0):
        e = strip(e)
        if e is None or depth > 8:
            return False
        if e.k in ("InitListExpr",) and len(e.kids) == 1:
            return self.expr(f, e.kids[0], depth + 1)
        if e.k in CALLS and e.fn is not None:
            return e.fn.name == "literal"
        if e.k == "MemberExpr":
            if e.get("name") == "lit_":
                return True
            return bool(e.get("field")) and self.carrier(e.get("field"), e.get("name"))
        if e.k == "DeclRefExpr":
            if e.get("dk") == "param":
                idx = [k for k, p in enumerate(f.params) if p["d"] == e.get("d")]
                if not idx:
                    return False
                key = (f.id, idx[0])
                if key in self.memo:
                    return self.memo[key]
                self.memo[key] = True
                cs = self.callers.get(f.id) or ()
                r = bool(cs)
                for g, n in cs:
                    args = n.get("args") or ()
                    r = r and idx[0] < len(args) and self.expr(g, args[idx[0]], depth + 1)
                self.memo[key] = r
                return r
            for n in f.allnodes():
                if n.k == "DeclStmt":
                    for v in n.get("decls") or ():
                        if v.get("d") == e.get("d"):
                            return v.get("init") is not None and self.expr(f, v["init"], depth + 1)
        return False


class Content(Rule):
    inline_small = 45

    def __init__(self, res, prog, lits, roots, getters, root, prods):
        self.res, self.prog, self.lits, self.roots, self.getters, self.root, self.prods = res, prog, lits, roots, getters, root, prods
        self.clauses = 0
        self.truths = {("d", f.unit, v["d"]) for f in prog.fns.values() for n in f.allnodes() if n.k == "DeclStmt" for v in n.get("decls") or () if "TruthValue" in v.get("t", "")}
        self.adds = prog.info[root].cls.split("::")[-1] == "Solver"
        self.pushes = {}
        self.starts = {}
        self.straight = not any(n.k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt") for n in prog.fns[root].allnodes())

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and (n.fn.name == "add_clause" or n.fn.id in self.acquire) for n in fn.allnodes())

    acquire = frozenset()

    def no_inline(self, i):
        return last(i.cls) in ("Solver", "VarState") and i.id not in self.acquire

    def keep(self, t):
        return t == ("emptyreason",) or t == ("fixed", ("clit",)) or self.straight and t[0] in ("<", "==") and \
            not contains(t, lambda x: x[0] in ("*", "bound", "olit"))

    def keepval(self, k, v):
        return v[0] == "i" and k in self.truths

    # -- terms
    def is_clit(self, t):
        if t == ("i", 1):
            return True
        if t[0] == "clit":
            return True
        if t[0] == "fld" and t[2] == "lit_":
            return True
        if t[0] in ("call",) and last(t[1]) == "literal":
            return True
        if t[0] == "fld":
            return any(self.lits.carrier(r["name"], t[2]) for r in self.prog.records.values() if any(f["name"] == t[2] and f["t"].endswith("int") for f in r["fields"]) and
                       last(r["name"].split("<")[0]) not in ("Solver", "VarState"))
        if t[0] == "arg":
            f = self.prog.fns[self.root]
            return any(p["name"] == t[2] and self.param_is_clit(f, k) for k, p in enumerate(f.params))
        return False

    def param_is_clit(self, f, k):
        key = (f.id, k)
        if key not in self.lits.memo:
            self.lits.memo[key] = True
            cs = self.lits.callers.get(f.id) or ()
            r = bool(cs)
            for g, n in cs:
                a = n.get("args") or ()
                r = r and k < len(a) and self.lits.expr(g, a[k])
            self.lits.memo[key] = r
        return self.lits.memo[key]

    def is_lit_arg(self, t):
        f = self.prog.fns[self.root]
        for k, p in enumerate(f.params):
            if k == 1 and p["t"] == "int":
                if t[0] == "arg" and p["name"] == t[2]:
                    return True
                if t[0] == "phi" and t[-1] == ("d", f.file, p["d"]):
                    # only replaced by the literal that is true
                    for n in f.allnodes():
                        if n.k == "BinaryOperator" and n.get("op") == "=" and strip(n.kids[0]).get("d") == p["d"]:
                            r = strip(n.kids[1])
                            if r.get("v") not in (1, "1") and r.get("name") != "TRUE_LIT":
                                return False
                    return True
        return False

    def neg_clit(self, t):
        if self.adds:
            return t == ("i", -1) or t[0] == "neg" and self.is_lit_arg(t[1])
        if t == ("i", -1):
            return True
        return t[0] == "neg" and self.is_clit(t[1])

    def val(self, E, st, a):
        return E.load(st, a[1]) if a[0] == "ref" else E.load(st, a)

    def store(self, E, st, a):
        o = E.storage(st, a[1] if a[0] == "ref" else a)
        if o is not None and o[0] in ("var", "ref"):
            v = E.load(st, o)
            if v and v[0] in ("ref", "addr"):
                o = E.storage(st, v[1])
        return o

    def call(self, E, ctx, st, n, t, obj, args):
        at = ctx.fn.at(n)
        c = last(t.cls)
        if t.id in self.acquire and c == "Solver":
            # a new clause is started in the buffer
            for x in st.rs:
                if x[0] == "own" and x[1] != ctx.fn.id and ctx.active(x[1]) is not None and not any(y[0] == "sent" for y in st.rs):
                    self.res.bad("buffer", at, "the reason buffer is reused by %s while %s is still filling it" % (ctx.fn.info.short, self.prog.info[x[1]].short),
                                 key="buffer|" + ctx.fn.info.short)
            self.res.ok("buffer", "%s starts a clause" % at)
            c, x = ctx, n
            while c is not None and x is not None:
                lp = loops_around(x)
                while lp is not None:
                    self.starts[id(lp)] = lp
                    lp = loops_around(lp)
                x, c = c.site, c.parent
            keep = frozenset(x for x in st.rs if x[0] not in ("push", "own", "sent", "fact"))
            return [(st.with_rs(keep | {("own", ctx.fn.id)}), ("ref", ("buf",)))]
        if c == "Solver" and t.name in ("update_literal", "get_literal") or c == "Solver" and t.rets == "int" and any("VarState" in p for p in t.pt):
            vs = None
            for k, p in enumerate(t.pt):
                if "VarState" in p:
                    vs = self.ident(E, st, args[k])
            ints = [self.val(E, st, args[k]) for k, p in enumerate(t.pt) if p in ("int", "const int") and k < len(args)]
            truth = [self.choose(self.val(E, st, args[k]), st) for k, p in enumerate(t.pt) if "TruthValue" in p and k < len(args)]
            if truth:
                self.fact(E, ctx, st, n, truth[0], at)
                if truth[0][0] != "i" or self.truth(truth[0]) not in ("Free",):
                    st = st.with_rs(st.rs | {("fact", at)})
            return [(st, ("olit", vs, ints[-1] if ints else ("void",), "update" if truth else "get", at))]
        if c == "Solver" and t.name == "var_state" and args:
            return [(st, ("ref", ("idx", ("vstab",), self.val(E, st, args[0]))))]
        if t.id in self.prods:
            for k in self.prods[t.id]:
                st = st.with_rs(st.rs | {("prod", self.ident(E, st, args[k]))})
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        if c == "VarState" and t.id in self.getters and obj is not None:
            if self.straight and not any(x[0] == "own" for x in st.rs):
                return [(st.with_rs(st.rs | {("read", self.ident(E, st, ("ref", obj)))}), ("bound", self.getters[t.id], self.ident(E, st, ("ref", obj))))]
            return [(st, ("bound", self.getters[t.id], self.ident(E, st, ("ref", obj))))]
        if c == "VarState" and ("order_lit" in t.name or "optional" in t.rets):
            return [(st, ("call", t.q, (self.ident(E, st, ("ref", obj)),) + tuple(self.val(E, st, a) for a in args)))]
        if t.name == "is_fixed" and args:
            v = self.val(E, st, args[0])
            while v[0] == "neg":
                v = v[1]
            if v[0] == "i":
                v = ("i", abs(v[1]))
            if self.is_clit(v):
                v = ("clit",)
            return [(st, ("fixed", v))]
        if t.name == "empty" and obj is not None and not t.inroot:
            if self.vec(t):
                if any(x[0] == "push" for x in st.rs):
                    return [(st, ("b", False))]
                return [(st, ("emptyreason",))]
            return None
        if t.name == "size" and obj is not None and not t.inroot and self.vec(t) and any(x[0] == "own" for x in st.rs):
            if any(x[0] == "push" for x in st.rs):
                return [(st, ("i", 1))]
            e = st.facts.get(("emptyreason",))
            return [(st.fact(("emptyreason",), b), ("i", 0 if b else 1)) for b in (True, False) if e is None or e is b]
        if t.name in ("emplace_back", "push_back") and not t.inroot and obj is not None and args and self.vec(t):
            v = self.val(E, st, args[0])
            self.push(E, ctx, st, n, v, at)
            return [(st.with_rs(st.rs | {("push", v, at)}), ("void",))]
        if t.name in ("resize", "clear") and obj is not None and self.vec(t):
            return [(st, ("void",))]
        if t.name == "add_clause" and "ClauseCreator" in t.cls:
            return self.clause(E, ctx, st, n, t, args, at)
        if t.id in self.roots and t.id != self.root:
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        return None

    def vec(self, t):
        """Member functions of vectors of literals."""
        return t.cls.split("::")[-1].startswith("vector<int,") or t.cls.endswith("vector<int>") or "vector<int," in t.cls

    def ident(self, E, st, a):
        o = E.storage(st, a[1] if a[0] == "ref" else a)
        if o is not None and o[0] in ("var", "ref"):
            v = E.load(st, o)
            if v and v[0] in ("ref", "addr", "deref"):
                return v[1]
            return v
        return o

    def truth(self, t):
        vals = next((e for q, e in self.prog.enums.items() if last(q) == "TruthValue"), None)
        if vals is None:
            return {0: "Free", 1: "True", 2: "False"}.get(t[1])
        it = vals.items() if isinstance(vals, dict) else vals
        for k, v in it:
            if v == t[1]:
                return k
        return None

    def decide(self, t, st):
        """The truth value of a condition under the facts of the path."""
        if t[0] == "b":
            return t[1]
        if t[0] == "!":
            r = self.decide(t[1], st)
            return None if r is None else not r
        if t[0] in ("&&", "||"):
            rs = [self.decide(x, st) for x in t[1:]]
            stop = t[0] == "||"
            if stop in rs:
                return stop
            return None if None in rs else not stop
        if t == ("emptyreason",) or t[0] == "call" and last(t[1]) == "empty":
            if any(x[0] == "push" for x in st.rs):
                return False
            return st.facts.get(("emptyreason",), st.facts.get(t))
        return st.facts.get(t)

    def choose(self, v, st):
        while v[0] == "?":
            c = self.decide(v[1], st)
            if c is None:
                break
            v = v[2] if c else v[3]
        return v

    def fact(self, E, ctx, st, n, v, at):
        v = self.choose(v, st)
        if v[0] == "i" and self.truth(v) == "Free":
            self.res.ok("facts", "%s: not a fact" % at)
            return
        self.res.ok("facts", "%s: may become a fact" % at)
        if not any(x[0] == "own" for x in st.rs):
            return
        pushed = [x for x in st.rs if x[0] == "push"]
        if v[0] != "i":
            self.res.bad("facts", at, "it cannot be established that %s makes an order literal a fact only if the reason is empty" % ctx.fn.info.short,
                         key="facts|unknown|" + ctx.fn.info.short)
            return
        if pushed:
            self.res.bad("facts", at, "%s makes an order literal a fact although the reason is not empty" % ctx.fn.info.short, key="facts|reason|" + ctx.fn.info.short)
        elif st.facts.get(("emptyreason",)) is not True:
            self.res.bad("facts", at, "%s makes an order literal a fact without checking that the reason is empty" % ctx.fn.info.short,
                         key="facts|empty|" + ctx.fn.info.short)

    def push(self, E, ctx, st, n, v, at):
        chain = []
        c, x = ctx, n
        while c is not None and x is not None:
            chain.append((c.fn, x))
            x, c = c.site, c.parent
        self.pushes.setdefault((at, self.neg_clit(v)), chain)
        sign, l = 1, v
        while l[0] == "neg":
            sign, l = -sign, l[1]
        if l[0] != "olit":
            return
        off, b = 0, l[2]
        if b[0] == "+" and b[-1][0] == "i":
            off, b = b[-1][1], b[1]
        if b[0] != "bound":
            return
        self.res.ok("bounds", "%s: order literal at the %s bound" % (at, b[1]))
        good = {(1, "lower", -1), (-1, "upper", 0), (1, "upper", -1), (-1, "lower", 0)}
        if (sign, b[1], off) not in good:
            self.res.bad("bounds", at, "the clause contains the order literal for %s bound%s%s, which neither states the current bound nor its negation" %
                         (b[1], "%+d" % off if off else "", " negated" if sign < 0 else ""), key="bounds|%s|%s" % (ctx.fn.info.short, b[1]))
        elif l[1] is not None and b[2] is not None and l[1] != b[2]:
            self.res.bad("bounds", at, "the order literal of one variable is built with the bound of another one in %s" % ctx.fn.info.short,
                         key="bounds|var|" + ctx.fn.info.short)

    def clause(self, E, ctx, st, n, t, args, at):
        self.clauses += 1
        own = any(x[0] == "own" for x in st.rs)
        done = [(st.with_rs(st.rs | {("sent",)}), ("r", t.q, ctx.fn.id, n.i))]
        v = self.val(E, st, args[0]) if args else ("void",)
        if len(args) > 1:
            ct = self.val(E, st, args[1])
            # the enumerators of Clingo::ClauseType: Learnt, Static, Volatile, VolatileStatic
            name = ("Learnt", "Static", "Volatile", "VolatileStatic")[ct[1]] if ct[0] == "i" and 0 <= ct[1] < 4 else None
            if name and name.startswith("Volatile") and any(x[0] == "fact" for x in st.rs):
                self.res.bad("facts", at, "the consequence of a volatile clause is made a fact", key="facts|volatile")
        if any(x and f[0] == "==" and any(y[0] == "null" for y in f[1:]) and any(contains(y, lambda z: z == ("vstab",)) for y in f[1:]) for f, x in st.facts.items()):
            return done  # the address of a variable's state is not null
        arr = []
        contains(v, lambda x: arr.append(x) if x[0] == "new" and "[" in x[1] else False)
        self.res.ok("literal", "%s in %s" % (at, ctx.fn.info.short))
        if not arr and not own:
            return done
        if arr:
            lits = arr[0][2]
        else:
            lits = [x[1] for x in st.rs if x[0] == "push"]
            self.product(ctx, st, lits, at)
        if any(self.neg_clit(x) for x in lits):
            return done
        if any(f[0] == "fixed" and x and self.is_clit(f[1]) for f, x in st.facts.items()):
            return done
        if self.adds and any(contains(x, self.is_lit_arg) for x in lits):
            return done
        if not self.adds and arr and len(lits) == 2 and self.one_var(lits):
            self.res.ok("order", "%s: order clause" % at)
            return done
        self.res.bad("literal", at, "a clause is submitted by %s that lacks the negated literal of the constraint although that literal may be open" % ctx.fn.info.short,
                     key="literal|" + ctx.fn.info.short)
        return done

    def one_var(self, lits):
        vs, signs = set(), set()
        for x in lits:
            y = x
            sign = 1
            while y[0] == "neg":
                sign, y = -sign, y[1]
            signs |= {1, -1} if y[0] == "phi" else {sign}
            found = []
            contains(x, lambda y: found.append(y[1]) if y[0] == "olit" else found.append(y[2][0]) if y[0] == "call" and "order_lit" in y[1] and y[2] else False)
            if found:
                vs.add(found[0])
            elif not contains(x, lambda y: y[0] == "phi"):
                return False
        return len(vs) <= 1 and len(signs) == 2

    def product(self, ctx, st, lits, at):
        if not self.straight:
            return
        have = {}
        for x in lits:
            sign = 1
            while x[0] == "neg":
                sign, x = -sign, x[1]
            if x[0] != "olit":
                continue
            b, off = x[2], 0
            if b[0] == "+" and b[-1][0] == "i":
                b, off = b[1], b[-1][1]
            side = None
            if b[0] == "bound" and b[2] == x[1]:
                side = {(1, "lower", -1): "lower", (-1, "upper", 0): "upper"}.get((sign, b[1], off))
            have.setdefault(x[1], set()).add(side)
            factors = [y[1] for y in st.rs if y[0] == "prod"]
            if factors and x[1] not in factors:
                # literals for the linear part depend on the sign of the coefficient
                neg = [f for f in st.facts.items() if f[0][0] == "<" and ("i", 0) in f[0][1:] and "co" in repr(f[0])]
                co = set()
                for f, v in neg:
                    if f[2] == ("i", 0):
                        co.add(-1 if v else 1)
                    elif v:
                        co.add(1)
                    else:
                        co.add(-1)
                if len(co) == 1:
                    co = co.pop()
                    self.res.ok("products", "%s: side of the linear variable" % at)
                    if side is not None and side != ("lower" if co > 0 else "upper"):
                        self.res.bad("products", at, "the reason contains the %s bound of a variable with %s coefficient in %s" %
                                     (side, "positive" if co > 0 else "negative", ctx.fn.info.short), key="products|side|" + ctx.fn.info.short)
                    if side is None and sign != co:
                        self.res.bad("products", at, "the consequence restricts a variable with %s coefficient from %s in %s" %
                                     ("positive" if co > 0 else "negative", "below" if co > 0 else "above", ctx.fn.info.short), key="products|cons|" + ctx.fn.info.short)
        for x in st.rs:
            if x[0] == "prod":
                self.res.ok("products", "%s: both bounds of a factor" % at)
                miss = {"lower", "upper"} - have.get(x[1], set())
                if miss:
                    self.res.bad("products", at, "the reason lacks the %s bound of a factor of a product in %s" % (" and ".join(sorted(miss)), ctx.fn.info.short),
                                 key="products|factor|" + ctx.fn.info.short)
            if x[0] == "read" and x[1] is not None and x[1][0] == "idx":
                self.res.ok("products", "%s: variable of the constraint" % at)
                if x[1] not in have:
                    self.res.bad("products", at, "the clause contains no literal for a variable whose bounds were used in %s" % ctx.fn.info.short,
                                 key="products|var|" + ctx.fn.info.short)


def conditions(n, stop):
    """Conditions inside a statement under which a node is executed: (condition, statement)."""
    p, ch = n.parent, n
    while p is not None and p is not stop:
        if p.k in ("IfStmt", "ConditionalOperator") and ch is not p.get("cond") and p.get("cond") is not None and ch is not p.get("init"):
            yield p.get("cond"), p
        elif p.k == "BinaryOperator" and p.get("op") in ("&&", "||") and p.kids[-1] is ch:
            yield p.kids[0], p
        elif p.k in ("SwitchStmt",):
            yield p.get("cond"), p
        if p.k == "CompoundStmt":
            for s in p.kids:
                if s is ch:
                    break
                for x in s.walk():
                    if x.k in ("ContinueStmt", "BreakStmt") and in_region(x, lambda q, c: q.k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt")) is stop:
                        c = in_region(x, lambda q, c2: q.k == "IfStmt")
                        if c is not None and c.get("cond") is not None:
                            yield c.get("cond"), c
        ch, p = p, p.parent


def refs(n):
    return {x.get("d") if x.k == "DeclRefExpr" else x.get("name") for x in n.walk() if x.k in ("DeclRefExpr", "MemberExpr") and x.fn is None and x.get("dk") != "enum"}


def comparisons(c):
    c = strip(c)
    if c.k == "BinaryOperator" and c.get("op") in ("&&", "||"):
        return comparisons(c.kids[0]) + comparisons(c.kids[1])
    if c.k == "UnaryOperator" and c.get("op") == "!":
        return comparisons(c.kids[0])
    return [c]


def innocent(prog, f, c, stmt, push, lits):
    """May a condition keep an element from contributing to the reason?"""
    c = strip(c)
    if c.k in CALLS and c.fn is not None and c.fn.name == "is_fixed":
        a = c.get("args")
        return bool(a) and bool(refs(a[0]) & refs(push))
    if c.k in ("BinaryOperator", "CXXOperatorCallExpr"):
        ops = c.kids if c.k == "BinaryOperator" else c.get("args")
        op = c.get("op") or (c.fn.name[8:] if c.fn is not None else "")
        if len(ops) == 2:
            a, b = strip(ops[0]), strip(ops[1])
            bounds = any(x.k in CALLS and x.fn is not None and last(x.fn.cls) == "VarState" for x in c.walk())
            if op in ("==", "!=") and a.k in ("DeclRefExpr", "MemberExpr") and b.k in ("DeclRefExpr", "MemberExpr") and not bounds:
                return True
            if op in ("<", ">", "<=", ">=") and not bounds:
                # selection of an interval given from outside of the loop
                for x, y in ((a, b), (b, a)):
                    if x.k == "DeclRefExpr" and x.get("dk") == "param" and x.type.replace("const ", "") not in ("bool",) and y.cv is None:
                        return True
    if c.k == "DeclRefExpr" and c.get("dk") == "param" and c.type.endswith("bool"):
        return True
    return False


def both(stmt, names):
    """Do all branches of a conditional contribute?"""
    if stmt.k == "ConditionalOperator":
        return True
    if stmt.k != "IfStmt" or stmt.get("else") is None:
        return False
    has = lambda s: any(x.k in CALLS and x.fn is not None and x.fn.name in names for x in s.walk())
    return has(stmt.get("then")) and has(stmt.get("else"))


def complete(prog, res, lits, pushes, starts):
    """Every element of the loops collecting a reason contributes."""
    for (at, neg), chain in pushes.items():
        if neg:
            continue
        names = {"emplace_back", "push_back"} | {fn.info.name for fn, _ in chain[1:]}
        loop = None
        conds = []
        for fn, n in chain:
            loop = loops_around(n)
            push = (n.get("args") or [n])[0] if fn is chain[0][0] and n is chain[0][1] else n
            conds += [(fn, c, s, push) for c, s in conditions(n, loop)]
            if loop is not None:
                break
        if loop is None or id(loop) in starts:
            continue
        names |= {fn.info.name for fn, _ in chain}
        res.ok("complete", "%s: reason collected in a loop" % at)
        for fn, c, s, push in conds:
            if both(s, names):
                continue
            for x in comparisons(c):
                if not innocent(prog, fn, x, s, push, lits):
                    res.bad("complete", fn.at(s), "an element of the constraint is left out of the reason under a condition in %s" % fn.info.short,
                            key="complete|%s" % fn.info.short)


def products(prog, getters):
    """Functions multiplying bounds of two of their variables."""
    res = {}
    for f in prog.fns.values():
        vs = [k for k, p in enumerate(f.params) if "VarState" in p["t"]]
        if len(vs) < 2 or not f.file.startswith("libclingcon/src"):
            continue
        # locals holding bounds
        hold = {}
        for _ in range(2):
            for n in f.allnodes():
                if n.k == "DeclStmt":
                    for v in n.get("decls") or ():
                        if v.get("init") is not None:
                            s = set(hold.get(v["d"], ()))
                            for x in v["init"].walk():
                                if x.k == "DeclRefExpr":
                                    for k in vs:
                                        if f.params[k]["d"] == x.get("d"):
                                            s.add(k)
                                    s |= set(hold.get(x.get("d"), ()))
                            hold[v["d"]] = s
        found = set()
        for n in f.allnodes():
            ops = None
            if n.k == "BinaryOperator" and n.get("op") == "*":
                ops = n.kids
            elif n.k == "CXXOperatorCallExpr" and n.fn is not None and n.fn.name == "operator*" and len(n.get("args") or ()) == 2:
                ops = n.get("args")
            if not ops:
                continue
            ss = []
            for o in ops:
                s = set()
                for x in o.walk():
                    if x.k == "DeclRefExpr":
                        s |= set(hold.get(x.get("d"), ()))
                        for k in vs:
                            if f.params[k]["d"] == x.get("d"):
                                s.add(k)
                ss.append(s)
            if ss[0] and ss[1] and ss[0] != ss[1]:
                found |= ss[0] | ss[1]
        if len(found) > 1:
            res[f.id] = found
    return res


def run(prog, res, tier):
    res.rule("literal", "every clause submitted during propagation contains the negated literal of its constraint unless that literal is fixed, or is an order clause of one variable")
    res.rule("order", "clauses without the constraint's literal relate order literals of a single variable")
    res.rule("bounds", "order literals at a current bound state exactly that bound (as a reason) or its tightening (as a consequence)")
    res.rule("complete", "every element of a constraint contributes to a reason collected in a loop; only fixed literals and the propagated variable itself are left out")
    res.rule("products", "reasons for bounds of products contain both bounds of both variables, other variables contribute a literal")
    res.rule("facts", "a consequence becomes a fact only if its reason is empty and the clause is not volatile")
    res.rule("buffer", "the shared reason buffer is not reused while a clause is being built in it")
    res.rule("active", "constraints whose literal is false are not propagated")
    eff = Effects(prog)
    getters = {}
    for i in prog.info.values():
        if i.body is not None and last(i.cls) == "VarState" and not i.pt and i.const:
            r = {k[1] for k in eff.dref.get(i.id, ()) if last(k[0]) == "VarState"}
            if r == {"lower_bound_"} or r == {"upper_bound_"}:
                if len(i.body.body.walk_list() if hasattr(i.body.body, "walk_list") else list(i.body.body.walk())) < 12:
                    getters[i.id] = "lower" if r == {"lower_bound_"} else "upper"
    if set(getters.values()) != {"lower", "upper"}:
        raise AnalysisBroken("accessors of bounds not found")
    acquire = {i.id for i in prog.info.values() if i.body is not None and last(i.cls) == "Solver" and i.ret.replace("Clingcon::", "").startswith("std::vector<") and
               i.ret.rstrip().endswith("&") and "const" not in i.ret and not i.pt and "int" in i.rets + i.ret}
    acquire = {x for x in acquire if any(n.k in CALLS and n.fn is not None and n.fn.name == "clear" for n in prog.fns[x].allnodes())}
    if not acquire:
        raise AnalysisBroken("reason buffer not found")
    Content.acquire = acquire
    states = [i for i in prog.info.values() if i.body is not None and i.name == "propagate" and len(i.pt) == 3 and "State" in i.cls and is_state(prog, i.cls)]
    if len(states) < 4:
        raise AnalysisBroken("constraint states not found")
    region = prog.reachable([i.id for i in states])
    region = {x for x in region if x in prog.fns and prog.fns[x].file.startswith("libclingcon/src/constraints") or x in prog.fns and is_state(prog, prog.info[x].cls)}
    roots = find_roots(prog, region, acquire)
    if len(roots) < 4:
        raise AnalysisBroken("no function builds clauses")
    # simple constraints are encoded by the solver itself
    adds = [i.id for i in prog.info.values() if i.body is not None and last(i.cls) == "Solver" and i.name in ("add_dom", "add_simple") and len(i.pt) > 2]
    if len(adds) < 2:
        raise AnalysisBroken("Solver::add_dom or Solver::add_simple not found")
    lits = Lits(prog)
    prods = products(prog, getters)
    total = 0
    for fid in sorted(roots | set(adds)):
        f = prog.fns[fid]
        r = Content(res, prog, lits, roots, getters, fid, prods)
        E = Engine(prog, r, eff)
        E.analyse(f.info, frozenset())
        res.funcs(E.fns_seen | {fid})
        total += r.clauses
        complete(prog, res, lits, r.pushes, r.starts)
    active(prog, res, eff)
    res.need("literal", 6)
    res.need("complete", 3)
    res.need("bounds", 6)


class Active(Rule):
    """The guard under which constraints are propagated."""
    inline_small = 60

    def __init__(self, res, prog, root):
        self.res, self.prog, self.root, self.n = res, prog, root, 0

    def direct(self, fn):
        return any(self.prop(n) for n in fn.allnodes())

    def prop(self, n):
        t = n.fn if n.k in CALLS else None
        return t is not None and t.name == "propagate" and len(t.pt) == 3 and is_state(self.prog, t.cls)

    def keep(self, t):
        return t[0] == "isfalse"

    def call(self, E, ctx, st, n, t, obj, args):
        if t.name in ("is_false", "is_true") and args:
            v = args[0]
            v = E.load(st, v[1]) if v[0] == "ref" else E.load(st, v)
            if contains(v, lambda x: x[0] == "call" and last(x[1]) == "literal"):
                return [(st, ("isfalse",) if t.name == "is_false" else ("!", ("isfalse",)))]
        if t.name == "literal" and not args:
            return [(st, ("call", t.q, ()))]
        if self.prop(n):
            self.n += 1
            self.res.ok("active", "%s propagates a constraint" % ctx.fn.at(n))
            if st.facts.get(("isfalse",)) is not False:
                self.res.bad("active", ctx.fn.at(n), "%s propagates a constraint without checking that its literal is not false" % ctx.fn.info.short,
                             key="active|" + ctx.fn.info.short)
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        return None


def active(prog, res, eff):
    seen = 0
    for i in list(prog.info.values()):
        if i.body is None or last(i.cls) != "Solver":
            continue
        r = Active(res, prog, i.id)
        if not r.direct(prog.fns[i.id]) and not (i.name == "check" and len(i.pt) == 2):
            continue
        E = Engine(prog, r, eff)
        E.analyse(i, frozenset())
        res.funcs(E.fns_seen | {i.id})
        seen += r.n
    if not seen:
        raise AnalysisBroken("no call of the propagation of constraints")


def find_roots(prog, region, acquire):
    """Lowest functions in which a clause is both built and submitted."""
    cg = prog.callgraph()
    sends = lambda x: any(n.k in CALLS and n.fn is not None and n.fn.name == "add_clause" for n in prog.fns[x].allnodes())
    takes = lambda x: any(n.k in CALLS and n.fn is not None and n.fn.id in acquire for n in prog.fns[x].allnodes())
    roots = set()
    order = []
    seen = set()

    def dfs(x):
        if x in seen:
            return
        seen.add(x)
        for y in sorted(cg.get(x, ())):
            if y in region:
                dfs(y)
        order.append(x)
    for x in sorted(region):
        dfs(x)
    for x in order:
        s, a = False, False
        todo, vis = [x], set()
        while todo:
            y = todo.pop()
            if y in vis or y in roots:
                continue
            vis.add(y)
            s = s or sends(y)
            a = a or takes(y)
            todo.extend(z for z in cg.get(y, ()) if z in region)
        if s and a:
            roots.add(x)
    return roots
