"""Propagation of sums: bounds, slack and the literals derived from them."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, parallel
from .c06 import Base, facts, unwas

EXPLANATION = (
    "Path-sensitive symbolic analysis of the propagation of sums: bounds, literals and quotients are symbolic, expressions are compared as "
    "polynomials, and the changes of the slack in an iteration are compared with the bound stated by the literal added to the clause.")


# -- polynomials ----------------------------------------------------------------
def poly(t):
    """A polynomial: products of atoms with their coefficients."""
    t = peel(t)
    if t[0] == "i":
        return {(): t[1]} if t[1] else {}
    if t[0] in ("+", "-") and len(t) == 3:
        return add(poly(t[1]), poly(t[2]), 1 if t[0] == "+" else -1)
    if t[0] in ("neg", "-") and len(t) == 2:
        return add({}, poly(t[1]), -1)
    if t[0] == "*" and len(t) == 3:
        res = {}
        for a, x in poly(t[1]).items():
            for b, y in poly(t[2]).items():
                k = tuple(sorted(a + b, key=repr))
                res[k] = res.get(k, 0) + x * y
        return clean(res)
    return {(t,): 1}


def peel(t):
    while t[0] in ("cast", "copyof") and len(t) == 2:
        t = t[1]
    return t


def clean(p):
    return {k: v for k, v in p.items() if v}


def add(p, q, k=1):
    res = dict(p)
    for x, y in q.items():
        res[x] = res.get(x, 0) + k * y
    return clean(res)


def mul(p, q):
    res = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(sorted(a + b, key=repr))
            res[k] = res.get(k, 0) + x * y
    return clean(res)


def const(p):
    """The value of a constant polynomial."""
    if not p:
        return 0
    return p[()] if set(p) == {()} else None


def froz(p):
    return tuple(sorted(p.items(), key=repr))


def atom(t):
    return {(t,): 1}


def pshow(p):
    return " + ".join("%s%s" % ("" if v == 1 else "%d*" % v, "*".join(show(x) for x in k) or "1") for k, v in p.items())[:160] or "0"


ONE = {(): 1}


class Sum(Base):
    """rs: own (a clause is built), lit (literals in it), init, s0, chg (the slack), in, done (loops), sent, skip."""
    main = "sum"

    def init(self):
        self.clauses = self.exits = self.skips = 0
        self.memo = {}

    def direct(self, fn):
        return fn.info.inroot and (fn.file.startswith("libclingcon/src/constraints") or fn.info.lambda_)

    def no_inline(self, info):
        return not info.inroot or last(info.cls.split("<")[0]) in ("Solver", "VarState") or "ClauseCreator" in info.cls or info.name in ("has_rhs", "rhs", "check_state_")

    def keep(self, t):
        if t[0] in ("<", "=="):
            return any(self.sumterm(x) for x in t[1:]) or any(self.isco(x) for x in t[1:]) or any(self.isvar(x) for x in t[1:])
        return t[0] in ("has_rhs",) or t[0] == "lv" and t[2] == ("clit",)

    def sumterm(self, t):
        return contains(t, lambda x: x == ("rhs",)) and not contains(t, lambda x: x[0] in ("fdiv", "cdiv", "elem"))

    def keepval(self, k, v):
        v = peel(v)
        if contains(v, lambda x: x[0] == "old"):
            return False
        return k[0] in ("d", "ret") and (v[0] in ("ol", "neg", "fdiv", "cdiv") or v == ("i", 0)) or k[0] in ("d", "ret") and v[0] == "new" and "vector" not in str(v[1])

    def bad(self, msg, key, at=None):
        self.res.bad(self.main, at or self.loc, "%s: %s" % (self.what, msg), key="%s|%s" % (self.main, key))

    # -- terms
    def norm(self, E, st, v, depth=0):
        """Fields of the constraint's state and elements in canonical form."""
        if not isinstance(v, tuple) or depth > 40:
            return v
        if v[0] in ("cast", "copyof") and len(v) == 2:
            return self.norm(E, st, v[1], depth + 1)
        if v[0] == "was":
            return self.norm(E, st, v[2], depth + 1)
        if v[0] == "fld" and isinstance(v[2], str):
            o = v[1]
            if v[2] in ("lower_bound_", "upper_bound_") and not contains(o, lambda x: x[0] in ("idx", "vs")):
                return ("cached", v[2][0])
            if v[2] in ("first", "#0", "second", "#1"):
                o = self.norm(E, st, o, depth + 1)
                if o[0] == "cur":
                    o = ("elem",) + o[1:]
                if o[0] == "elem":
                    return ("co" if v[2] in ("first", "#0") else "x", o)
                if o[0] == "olit":
                    return ("ol", o[2], ("at", o)) if v[2] in ("first", "#0") else ("at", o)
                return ("fld", o, v[2])
        if v[0] == "elem" and len(v) > 3:
            return ("elem",) + v[2:]
        if v[0] in ("deref",) and len(v) == 2:
            o = self.norm(E, st, v[1], depth + 1)
            return ("elem",) + o[1:] if o[0] == "cur" else ("deref", o)
        if v[0] == "neg" and v[1][0] == "neg":
            return self.norm(E, st, v[1][1], depth + 1)
        return tuple(self.norm(E, st, x, depth + 1) if isinstance(x, tuple) else x for x in v)

    def isco(self, t):
        t = unwas(t)
        return t[0] == "co" or t[0] == "fld" and t[2] in ("first", "#0") and t[1][0] in ("elem", "cur")

    def isvar(self, t):
        t = unwas(t)
        return t[0] == "x" or t[0] == "fld" and t[2] in ("second", "#1") and t[1][0] in ("elem", "cur")

    def fs(self, E, st):
        return {self.norm(E, st, unwas(t)): b for t, b in st.facts.items()}

    def forms(self, fs):
        """Polynomials known to be at least zero."""
        for t, b in fs.items():
            if t[0] == "<":
                p = add(poly(t[2]), poly(t[1]), -1)
                yield add(p, ONE, -1) if b else add({}, p, -1)
            elif t[0] == "==" and b and len(t) == 3:
                p = add(poly(t[2]), poly(t[1]), -1)
                yield p
                yield add({}, p, -1)

    def nonneg(self, fs, p):
        c = const(p)
        if c is not None:
            return c >= 0
        for f in self.forms(fs):
            c = const(add(p, f, -1))
            if c is not None and c >= 0:
                return True
        return False

    def sign(self, fs, e):
        """The sign of the coefficient of an element."""
        co = ("co", e)
        if self.nonneg(fs, atom(co)):
            return 1
        if self.nonneg(fs, add({}, atom(co), -1)):
            return -1
        return None

    def var(self, E, st, a):
        """The variable whose state is given."""
        for _ in range(10):
            if a[0] == "ref":
                a = a[1]
            elif a[0] == "vs":
                return a[1]
            elif a[0] == "var":
                v = E.load(st, a)
                if v == a:
                    return a
                a = v
            else:
                break
        a = self.norm(E, st, unwas(a))
        if a[0] == "vs":
            return a[1]
        if a[0] == "idx":
            return a[2]
        return a

    def lit(self, l):
        """(sign, variable, value) of an order literal."""
        s = 1
        while l[0] == "neg":
            s, l = -s, l[1]
        if l[0] == "ol":
            return s, l[1], l[2]
        return None

    def ratio(self, d, co, s):
        """The polynomial N with d = ceil(N/co) for positive co and d = floor(N/co) for negative ones."""
        k, rest = None, {}
        for m, c in d.items():
            if len(m) == 1 and m[0][0] in ("fdiv", "cdiv"):
                if k is not None or c not in (1, -1):
                    return None
                k = (c, m[0])
            elif m == ():
                rest[m] = c
            else:
                return None
        if k is None:
            return None
        c, (op, a, b) = k
        n, b = poly(a), poly(b)
        C = atom(co)
        if b == C and c == 1:
            up = op == "cdiv"
        elif b == add({}, C, -1) and c == -1:
            up = op == "fdiv"
        else:
            return None
        # d = up ? ceil(n/co) : floor(n/co)
        if s > 0 and not up:
            n = add(add(n, C, -1), ONE)
        if s < 0 and up:
            n = add(add(n, C), ONE)
        return add(n, mul(rest, C))

    def lows(self, t, s, fs, depth=0):
        """Values that bound a value from below (from above for negative s)."""
        yield poly(t)
        if depth > 4:
            return
        for m, c in poly(t).items():
            if len(m) == 1 and c == 1:
                x = m[0]
                rest = {k: v for k, v in poly(t).items() if k != m}
                opts = []
                if x[0] == ("max" if s > 0 else "min"):
                    opts = list(x[1:])
                if x[0] == "at" and x[1][1] == ("ge" if s > 0 else "le"):
                    opts = [x[1][3]]
                for o in opts:
                    for p in self.lows(o, s, fs, depth + 1):
                        yield add(p, rest)

    # -- events
    def event(self, E, ctx, st, n, t, obj, vals, args):
        at = ctx.fn.at(n)
        cls = last(t.cls.split("<")[0]) if t.cls else ""
        name = t.name
        if cls == "Solver":
            if name == "var_state":
                return [(st, ("ref", ("vs", self.norm(E, st, unwas(vals[0])))))]
            if name in ("get_literal", "update_literal"):
                k = [i for i, p in enumerate(t.pt) if "VarState" in p][0]
                return [(st, ("ol", self.var(E, st, args[k]), self.norm(E, st, unwas(vals[k + 1]))))]
            if name == "temp_reason":
                st = st.with_rs(frozenset(x for x in st.rs if x[0] not in ("own", "lit", "done", "slack", "ineq", "true", "excluded")) | {("own",)})
                return [(st, ("ref", ("buf",)))]
            if name == "mark_inactive":
                self.inactive(E, st, at)
                return [(st, ("x",))]
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        if cls == "VarState" and obj is not None:
            v = self.var(E, st, ("ref", obj))
            k = {"lower_bound": "l", "upper_bound": "u", "min_bound": "min", "max_bound": "max"}.get(name)
            if k:
                return [(st, ("bd", k, v))]
            if name in ("order_lit_ge", "order_lit_le", "order_lit_gt", "order_lit_lt"):
                x = self.norm(E, st, unwas(vals[0]))
                return [(st, ("olit", name[-2:], v, x))]
            if name == "is_assigned":
                return [(st, ("==", ("bd", "l", v), ("bd", "u", v)))]
            return [(st, ("call", name, (v,) + tuple(vals)))]
        if t.inroot and "Constraint" in cls and name in ("begin", "end", "size") and not vals:
            return [(st, ({"begin": "beg", "end": "fin"}.get(name, name),))]
        if t.inroot and "Constraint" in cls and name == "operator[]":
            x = self.norm(E, st, unwas(vals[0]))
            return [(st, ("elem", ("c",)) + x[-2:] if x[0] == "ctr" else ("elem", ("c",), "?", n.i))]
        if name in ("has_rhs", "rhs") and t.inroot:
            return [(st, (name,))]
        if name == "literal" and t.inroot and not vals:
            return [(st, ("clit",))]
        if name in ("floordiv", "ceildiv") and len(vals) == 2:
            return [(st, ("fdiv" if name == "floordiv" else "cdiv",) + tuple(self.norm(E, st, unwas(v)) for v in vals))]
        if t.q == "std::swap" and len(args) == 2:
            lvs = [a[1] if a[0] == "ref" else a for a in args]
            if all(lv[0] in ("var", "fld") for lv in lvs):
                a, b = (E.load(st, lv) for lv in lvs)
                return [(z, ("x",)) for y in E.assign(ctx, st, lvs[0], b, n) for z in E.assign(ctx, y, lvs[1], a, n)]
        if t.q in ("std::max", "std::min") and len(vals) == 2:
            return [(st, (name,) + tuple(self.norm(E, st, unwas(v)) for v in vals))]
        if cls == "optional" and obj is not None:
            o = self.norm(E, st, unwas(E.load(st, obj)))
            if o[0] == "olit":
                if name in ("has_value", "operator bool"):
                    return [(st, ("has", o))]
                if name in ("value", "operator*", "operator->"):
                    return [(st, o)]
        if cls == "Assignment" and name in ("is_true", "is_false", "is_fixed") and vals:
            return [(st, ("lv", name, self.norm(E, st, unwas(vals[0]))))]
        if "vector<int" in t.cls and name in ("emplace_back", "push_back") and vals:
            l = self.norm(E, st, unwas(vals[0]))
            return [(self.pushed(E, st, l), ("x",))]
        if name == "add_clause" and "ClauseCreator" in t.cls:
            return self.submit(E, ctx, st, n, t, vals, args, at)
        return None

    def pushed(self, E, st, l):
        if not any(x[0] == "own" for x in st.rs):
            return st
        return st.with_rs(st.rs | {("lit", l)})

    def branch(self, E, ctx, st, term, value):
        t, b = (term[1], not value) if term[0] == "!" else (term, value)
        t = self.norm(E, st, unwas(t))
        x = self.counted(E, ctx, st, t, b)
        if x is not None:
            return x
        if t[0] in ("<", "==") and ("i", 0) in t[1:]:
            # coefficients are not zero
            c = [x for x in t[1:] if x[0] == "co"]
            if c:
                fs = self.fs(E, st)
                fs[t] = b
                if self.nonneg(fs, atom(c[0])) and self.nonneg(fs, add({}, atom(c[0]), -1)):
                    return None
        if t[0] == "lv" and t[1] == "is_fixed" and b:
            # literals that are fixed can be omitted
            l = t[2]
            if l == ("clit",) or l == ("neg", ("clit",)):
                return st.with_rs(st.rs | {("lit", ("neg", ("clit",)))}) if any(x[0] == "own" for x in st.rs) else st.with_rs(st.rs | {("fixed",)})
            return self.pushed(E, st, l)
        if t[0] == "lv" and t[1] == "is_true" and b:
            l = self.lit(t[2])
            if l is not None:
                st = st.with_rs(st.rs | {("true", l)})
        if t[0] == "<":
            e = self.outer(st)
            if e is not None:
                p = next(iter(self.forms({t: b})))
                co = ("x", e)
                if any(len(m) == 1 and m[0][0] == "bd" and m[0][2] == co for m in p):
                    st = st.with_rs(st.rs | {("ineq", froz(p))})
        return st

    # -- the slack
    def declare(self, E, ctx, st, d, value, n):
        v = self.norm(E, st, unwas(value)) if value is not None else None
        if v is None or d["t"].endswith("&"):
            if d["t"].endswith("&") and value is not None and value[0] == "ref" and value[1][0] == "vs":
                return st, value
            return st, value
        if v == ("beg",):
            return st, ("cur", ctx.fn.unit, d["d"])
        if v == ("i", 0) and n.parent is not None and n.parent.k == "ForStmt":
            return st, ("ctr", ctx.fn.unit, d["d"])
        if d["t"].replace("const ", "") in ("long", "Clingcon::sum_t", "sum_t", "int", "auto", "Clingcon::val_t") and v[0] not in ("ol", "clit"):
            key = (ctx.fn.unit, d["d"])
            p = poly(v)
            st = st.with_rs(frozenset(x for x in st.rs if not (x[0] in ("init", "chg", "slack") and x[1] == key)))
            if p.get((("rhs",),)) == 1 and p.get((("cached", "l"),)) == -1:
                st = st.with_rs(st.rs | {("init", key, froz(p))})
        if v[0] in ("olit", "ol", "neg", "fdiv", "cdiv", "bd"):
            return st, v
        return st, value

    def local(self, E, ctx, st, lv, value, n):
        key = lv[1:3]
        if E.load(st, lv)[0] in ("cur", "ctr"):
            return st, E.load(st, lv)
        old, new = (self.norm(E, st, unwas(x)) for x in (E.load(st, lv), value))
        ini = [x for x in st.rs if x[0] == "init" and x[1] == key]
        if ini:
            d = add(poly(new), poly(old), -1)
            for x in st.rs:
                if x[0] == "chg" and x[1] == key:
                    d = add(d, dict(x[2]))
            rs = frozenset(x for x in st.rs if not (x[0] == "chg" and x[1] == key))
            st = st.with_rs(rs | {("chg", key, froz(d))} if d else rs)
        if new[0] in ("ol", "neg", "olit", "fdiv", "cdiv"):
            return st, new
        return st, value

    # -- loops over the elements
    def outer(self, st):
        """The element whose bound is derived."""
        ls = [x[1] for x in st.rs if x[0] == "in" and x[2] == "o"]
        return ls[0] if len(ls) == 1 else None

    def ours(self, c):
        return contains(unwas(c), lambda x: x[0] == "fld" and x[2] == "constraint_") or c in (("beg",), ("fin",))

    def range(self, E, ctx, st, container, more):
        if not self.ours(container):
            return st
        v = E.range_stmt.get("c")[5]
        return self.step(E, ctx, st, ("elem", ctx.fn.id, v.i), more)

    def counted(self, E, ctx, st, t, b):
        """Conditions of loops with positions."""
        if t[0] == "==" and ("fin",) in t[1:]:
            c = [x for x in t[1:] if x[0] == "cur"]
            if c:
                return self.step(E, ctx, st, ("elem",) + c[0][1:], not b)
        if t[0] in ("<", "==") and ("size",) in t[1:]:
            c = [x for x in t[1:] if x[0] == "ctr"]
            if c:
                return self.step(E, ctx, st, ("elem",) + c[0][1:], b if t[0] == "<" else not b)
        return None

    def step(self, E, ctx, st, e, more):
        hit = [x for x in st.rs if x[0] == "in" and x[1] == e]
        if hit:
            st = self.close(E, ctx, st, e, hit[0][2])
        own = ("own",) in st.rs
        if not more:
            return st.with_rs(st.rs | {("done", e, hit[0][2] if hit else "r" if own else "o")})
        raw = e[-2:]
        st = st.forget(lambda t: t[0] in ("elem", "cur", "ctr") and t[-2:] == raw or t == ("x", e) or t == ("co", e))
        rs = set(x for x in st.rs if not (x[0] == "done" and x[1] == e or not own and x[0] in ("ineq", "true")))
        for x in list(rs):
            if x[0] == "init" and own:
                k = x[1]
                c = [y for y in rs if y[0] == "chg" and y[1] == k]
                if c:
                    rs -= {x, c[0]}
                    rs.add(("init", k, froz(add(dict(x[2]), dict(c[0][2])))))
        rs.add(("in", e, "r" if own else "o"))
        return st.with_rs(frozenset(rs))

    def close(self, E, ctx, st, e, kind):
        fs = self.fs(E, st)
        rs = set(x for x in st.rs if x != ("in", e, kind))
        if kind == "o":
            if ("sent",) not in st.rs:
                self.skipped(fs, st, e)
            rs = {x for x in rs if x[0] not in ("own", "lit", "sent", "slack", "excluded", "ineq", "true", "chg", "init") or x[0] == "init" and not self.inner(x)}
            return st.with_rs(frozenset(rs))
        rs.discard(("sent",))
        self.res.ok(self.main, "%s: element of a reason (%s)" % (self.loc, self.what))
        X = ("x", e)
        lits = [x for x in rs if x[0] == "lit" and self.lit(x[1]) is not None and self.lit(x[1])[1] == X]
        chg = [x for x in rs if x[0] == "chg"]
        rs -= set(lits) | set(chg)
        o = self.outer(st)
        ex = o is not None and fs.get(("==", X, ("x", o)), fs.get(("==", ("x", o), X))) is True
        if ex:
            if lits or chg:
                self.bad("the variable whose bound is derived is part of the reason", "excluded")
            rs.add(("excluded", o))
        elif not lits:
            self.bad("an element is left out of a reason", "omitted")
        elif len(lits) > 1:
            self.bad("several literals are added for an element", "several")
        else:
            s, _, v = self.lit(lits[0][1])
            sg = self.sign(fs, e)
            if sg is None:
                self.bad("the sign of a coefficient is not considered", "sign")
            elif s != sg:
                self.bad("the reason bounds a variable with %s coefficient from the wrong side" % ("positive" if sg > 0 else "negative"), "side|%d" % sg)
            else:
                cur = ("bd", "l" if s > 0 else "u", X)
                B = ("+", v, ("i", 1)) if s > 0 else v
                D = add(poly(B), atom(cur), -1)
                if not D:
                    if chg:
                        self.bad("the slack changes although the reason is the current bound", "changed")
                else:
                    want = add({}, mul(atom(("co", e)), D), -1)
                    if len(chg) != 1 or dict(chg[0][2]) != want:
                        self.bad("the slack changes by %s instead of %s if the reason is weakened to another bound" %
                                 (" and ".join(pshow(dict(x[2])) for x in chg) or "nothing", pshow(want)), "slack|%d" % s)
                    else:
                        k = chg[0][1]
                        S = [dict(x[2]) if ("slack", k) not in st.rs else atom(("S",) + k) for x in st.rs if x[0] == "init" and x[1] == k]
                        good = False
                        for p in self.lows(B, s, fs):
                            N = self.ratio(add(p, atom(cur), -1), ("co", e), s)
                            c = const(add(add(N, S[0], -1), ONE, -1)) if N is not None and S else None
                            good = good or c is not None and c >= 0
                        if not good:
                            self.bad("a reason is weakened further than the slack allows (%s coefficients)" % ("positive" if s > 0 else "negative"), "weak|%d" % s)
                        rs.add(("slack", k))
                        st = st.set(("d",) + k, ("S",) + k)
        return st.with_rs(frozenset(rs))

    def inner(self, x):
        return contains(x[2], lambda y: isinstance(y, tuple) and y and y[0] == "elem")

    SL = {(("rhs",),): 1, (("cached", "l"),): -1}

    def shifted(self, N, co, k):
        """N plus a non-negative multiple (k = 1) of the coefficient is the slack plus one."""
        d = add(add(self.SL, ONE), N, -1)
        if not d:
            return True
        return set(d) == {(co,)} and d[(co,)] * k > 0

    def skipped(self, fs, st, e):
        """The bound of an element is not derived."""
        self.skips += 1
        self.res.ok(self.main, "%s: element without a new bound (%s)" % (self.loc, self.what))
        s = self.sign(fs, e)
        if s is None:
            self.bad("bounds are not derived for some coefficients", "nosign")
            return
        X, co = ("x", e), ("co", e)
        lb, ub = atom(("bd", "l", X)), atom(("bd", "u", X))
        for x in st.rs:
            D = None
            if x[0] == "ineq":
                P = dict(x[1])
                D = add(add(add(P, ub), ONE), lb, -1) if s > 0 else add(add(add(lb, ub, -1), ONE, -1), P, -1)
            if x[0] == "true" and x[1][1] == X and x[1][0] == s:
                v = poly(x[1][2])
                D = add(add(v, ONE), lb, -1) if s > 0 else add(v, ub, -1)
            if D is not None:
                N = self.ratio(D, co, s)
                if N is not None and self.shifted(N, co, s):
                    return
        self.bad("a bound is not derived although it may exceed the slack (%s coefficients)" % ("positive" if s > 0 else "negative"), "skip|%d" % s)

    # -- clauses
    def submit(self, E, ctx, st, n, t, vals, args, at):
        self.clauses += 1
        self.res.ok(self.main, "%s: clause (%s)" % (at, self.what))
        out = [(st, ("r", t.q, ctx.fn.id, n.i))]
        fs = self.fs(E, st)
        arr = []
        contains(vals[0], lambda x: bool(x[0] == "new" and "[" in x[1] and arr.append(x)))
        if arr:
            ls = [self.lit(self.norm(E, st, unwas(x))) for x in arr[0][2]]
            if len(ls) != 2 or None in ls or ls[0][1] != ls[1][1] or ls[0][0] == ls[1][0]:
                self.bad("a clause other than one over two order literals of a variable is added at %s" % at, "order|form", at)
                return out
            p, q = (ls[0], ls[1]) if ls[0][0] > 0 else (ls[1], ls[0])
            # x <= a or not x <= b
            if not self.nonneg(fs, add(poly(p[2]), poly(q[2]), -1)):
                self.bad("the order clause at %s does not hold" % at, "order", at)
            return out
        if ("own",) not in st.rs:
            self.bad("a clause is added that was not built from the constraint at %s" % at, "foreign", at)
            return out
        if any(x[0] == "in" and x[2] == "r" for x in st.rs) or not any(x[0] == "done" and x[2] == "r" for x in st.rs):
            self.bad("a clause is added before all elements contributed at %s" % at, "early", at)
            return out
        lits = [x[1] for x in st.rs if x[0] == "lit"]
        cons = [l for l in lits if l != ("neg", ("clit",))]
        if ("neg", ("clit",)) not in lits and fs.get(("lv", "is_fixed", ("clit",))) is not True:
            self.bad("the clause added at %s lacks the literal of the constraint" % at, "clit", at)
        o = self.outer(st)
        K = dict(self.SL)
        neg = False
        if not cons:
            if o is not None or any(x[0] == "excluded" for x in st.rs):
                self.bad("the clause added at %s lacks its consequence" % at, "noconsequence", at)
                return out
            neg = self.nonneg(fs, add(add({}, K, -1), ONE, -1))
            if not neg:
                self.bad("a conflict is reported although the slack may not be negative at %s" % at, "conflict", at)
        else:
            l = self.lit(cons[0]) if len(cons) == 1 else None
            if l is None or o is None or l[1] != ("x", o):
                self.bad("the consequence of the clause added at %s does not concern the element considered" % at, "consequence", at)
                return out
            s, X, v = l
            sg = self.sign(fs, o)
            if sg != s:
                self.bad("a variable is bounded from the wrong side by its %s coefficient at %s" % ("positive" if sg == 1 else "negative", at), "wrongside|%d" % s, at)
                return out
            cur = ("bd", "l" if s > 0 else "u", X)
            B = add(poly(v), ONE) if s > 0 else poly(v)
            D = add(B, atom(cur), -1)
            N = self.ratio(D, ("co", o), s)
            c = add(add(N, K, -1), ONE, -1) if N is not None else None
            if c is None or c:
                self.bad("the bound derived at %s (%s coefficients) is not the last one the slack permits" % (at, "positive" if s > 0 else "negative"), "bound|%d" % s, at)
                return out
            K = add(K, mul(atom(("co", o)), D), -1)
        ks = {x[1] for x in st.rs if x[0] == "slack"}
        inits = [x for x in st.rs if x[0] == "init" and (not ks or x[1] in ks)]
        if len(ks) > 1 or not any(dict(x[2]) == K for x in inits):
            self.bad("the slack available to the reason of the clause added at %s is not %s" % (at, pshow(K)), "start", at)
        rs = frozenset(x for x in st.rs if x[0] not in ("own", "lit", "done", "slack", "excluded", "chg") and not (x[0] == "init" and self.inner(x)))
        return [(st.with_rs(rs | {("sent",)}), ("r", t.q, ctx.fn.id, n.i))]

    def inactive(self, E, st, at):
        fs = self.fs(E, st)
        self.res.ok(self.main, "%s: marked inactive (%s)" % (at, self.what))
        if not self.nonneg(fs, {(("rhs",),): 1, (("cached", "u"),): -1}) and not self.nonneg(fs, add(add({}, self.SL, -1), ONE, -1)):
            self.bad("the constraint is marked inactive at %s although it may be violated later" % at, "inactive", at)

    def finish(self, E, st, ret):
        self.exits += 1
        if unwas(ret) != ("b", True):
            return
        fs = self.fs(E, st)
        if fs.get(("has_rhs",)) is False or self.nonneg(fs, {(("rhs",),): 1, (("cached", "u"),): -1}):
            return
        if not self.nonneg(fs, dict(self.SL)):
            self.bad("propagation succeeds although the slack may be negative", "noconflict")
        elif fs.get(("lv", "is_true", ("clit",))) is not False and not any(x[0] == "done" and x[2] == "o" for x in st.rs):
            self.bad("propagation succeeds without considering all elements", "incomplete")


class Cached(Sum):
    """The bounds of a sum that are kept. rs: own = {zero, delta, acc, in}."""
    main = "cached"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name in ("add_var_watch", "remove_var_watch", "temp_reason", "mark_inactive"):
            return [(st, ("x",))]
        return super().event(E, ctx, st, n, t, obj, vals, args)

    def keep(self, t):
        return t[0] in ("<", "==")

    def keepval(self, k, v):
        return v[0] in ("ACC", "cached")

    def declare(self, E, ctx, st, d, value, n):
        st, v = super().declare(E, ctx, st, d, value, n)
        if v is not None and unwas(v) == ("i", 0) and not d["t"].endswith("&"):
            k = ("ACC", ctx.fn.unit, d["d"])
            return self.assigned(st, k, {}), k
        return st, v

    def local(self, E, ctx, st, lv, value, n):
        old = E.load(st, lv)
        if old[0] in ("cur", "ctr"):
            return st, old
        k = ("ACC",) + lv[1:3]
        if old == k:
            return self.assigned(st, k, poly(self.norm(E, st, unwas(value)))), k
        return st, value

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] in ("lower_bound_", "upper_bound_"):
            k = ("cached", lv[2][0])
            st = self.assigned(st, k, poly(self.norm(E, st, unwas(value))))
            return [st.set(("f", lv[1], lv[2]), k)]
        return super().write(E, ctx, st, lv, value, n)

    def assigned(self, st, k, p):
        """Record the value given to an accumulator."""
        rs = set(st.rs)
        mine = {x for x in rs if x[0] in ("zero", "delta", "acc") and x[1] == k}
        rs -= mine
        src = [m[0] for m, c in p.items() if len(m) == 1 and c == 1 and m[0][0] in ("ACC", "cached")]
        if not p:
            rs.add(("zero", k))
        elif k in src:
            d = add(p, atom(k), -1)
            for x in mine:
                if x[0] == "delta":
                    d = add(d, dict(x[2]))
                else:
                    rs.add(x)
            rs.add(("delta", k, froz(d)))
        elif len(src) == 1 and len(p) == 1:
            rs |= {(x[0], k) + x[2:] for x in st.rs if x[0] in ("zero", "delta", "acc") and x[1] == src[0]}
        else:
            rs.add(("acc", k, "?"))
        return st.with_rs(frozenset(rs))

    def step(self, E, ctx, st, e, more):
        hit = ("in", e, "o") in st.rs
        if hit:
            st = self.round(E, st, e)
        raw = e[-2:]
        if not more:
            if not hit and any(x[0] in ("acc", "rounds") for x in st.rs):
                # the elements have been visited by another loop
                return None
            return st.with_rs(st.rs | {("done",)})
        st = st.forget(lambda t: t[0] in ("elem", "cur", "ctr") and t[-2:] == raw or t == ("x", e) or t == ("co", e))
        return st.with_rs(st.rs | {("in", e, "o")})

    def round(self, E, st, e):
        fs = self.fs(E, st)
        s = self.sign(fs, e)
        rs = {x for x in st.rs if x != ("in", e, "o") and x[0] != "delta"}
        want = {}
        for k, b in (("l", "u" if s == -1 else "l"), ("u", "l" if s == -1 else "u")):
            want[k] = froz(mul(atom(("co", e)), atom(("bd", b, ("x", e)))))
        for x in [x for x in rs if x[0] == "zero"]:
            got = [y[2] for y in st.rs if y[0] == "delta" and y[1] == x[1]]
            kind = next((k for k in want if got == [want[k]]), "?") if s is not None else "?"
            old = [y for y in rs if y[0] == "acc" and y[1] == x[1]]
            if not got and not old:
                rs.add(("rounds",))
                continue
            if old and old[0][2] != kind:
                kind = "?"
            rs -= set(old)
            rs.add(("acc", x[1], kind))
        return st.with_rs(frozenset(rs))

    # -- verdicts
    def attached(self, E, st, ret):
        for k, f in (("l", "lower"), ("u", "upper")):
            c = ("cached", k)
            self.res.ok(self.main, "%s: %s bound of an attached constraint (%s)" % (self.loc, f, self.what))
            acc = [x[2] for x in st.rs if x[0] == "acc" and x[1] == c]
            if acc and acc != [k] or any(x[0] == "delta" and x[1] == c for x in st.rs) or not acc and ("rounds",) in st.rs:
                self.bad("the %s bound of an attached constraint is not the sum over the bounds of its elements" % f, "attach|%s" % k)
            elif ("zero", c) not in st.rs:
                self.bad("the %s bound of an attached constraint is not computed anew" % f, "fresh|%s" % k)

    def changed(self, E, st, ret, back):
        fs = self.fs(E, st)
        X = mul(atom(("P", 0)), atom(("P", 1)))
        ch = {x[1][1]: dict(x[2]) for x in st.rs if x[0] == "delta"}
        ch = {k: v for k, v in ch.items() if v}
        if any(x[0] in ("zero", "acc") and x[1][0] == "cached" for x in st.rs):
            self.bad("the bounds are overwritten", "overwritten")
            return
        self.res.ok(self.main, "%s: change of a bound (%s)" % (self.loc, self.what))
        for k, s, f in (("l", 1, "lower"), ("u", -1, "upper")):
            p = X if s > 0 else add({}, X, -1)
            if not self.nonneg(fs, p):
                continue
            want = add({}, X, -1) if back else X
            if ch != {k: want}:
                self.bad("a change that concerns the %s bound is %s by %s" % (f, "undone" if back else "applied", ", ".join("changing the %s bound by %s" % (
                    "lower" if q == "l" else "upper", pshow(v)) for q, v in ch.items()) or "doing nothing"), "change|%s" % k)
            elif not back and s > 0 and not self.nonneg(fs, add({}, p, -1)) and unwas(ret) == ("b", False):
                self.bad("a change of the lower bound does not trigger propagation", "trigger")
            return
        self.bad("the sign of a change is not considered", "sign")


def run(prog, res, tier):
    res.rule("sum", "clauses derived from sums follow from their bounds, and no bound is missed")
    eff = Effects(prog)
    impls = [i for i in prog.info.values() if i.body is not None and i.name == "propagate" and len(i.pt) == 3 and "SumConstraintStateImpl" in i.cls]
    if len(impls) < 1:
        raise AnalysisBroken("propagation of sums not found")
    def one(i, res):
        r = Sum(res)
        r.prog, r.loc = prog, i.body.loc
        r.what = "objective" if "Minimize" in i.cls else "sum"
        E = Engine(prog, r, eff)
        E.MAXKEYS = 600
        for st, ret in E.analyse(i, frozenset()):
            r.finish(E, st, ret)
        res.funcs(E.fns_seen)
        if not r.clauses:
            res.bad("sum", r.loc, "%s: no clauses are added" % r.what, key="sum|none")
        if not r.skips:
            res.bad("sum", r.loc, "%s: bounds are not derived" % r.what, key="sum|nobounds")

    parallel(res, impls, one)

    res.rule("cached", "the bounds of a sum that are kept agree with the bounds of its variables")
    for cls in sorted({i.cls for i in impls}):
        for name, num in (("attach", 1), ("update", 2), ("undo", 2)):
            fns = [i for i in prog.info.values() if i.body is not None and i.cls == cls and i.name == name and len(i.pt) == num]
            if len(fns) != 1:
                raise AnalysisBroken("%s of sums not found" % name)
            r = Cached(res)
            r.prog, r.loc = prog, fns[0].body.loc
            r.what = "objective" if "Minimize" in cls else "sum"
            E = Engine(prog, r, eff)
            for st, ret in E.analyse(fns[0], frozenset(), args=[("P", 0), ("P", 1)] if num == 2 else None):
                if num == 1:
                    r.attached(E, st, ret)
                else:
                    r.changed(E, st, ret, name == "undo")
            res.funcs(E.fns_seen)
    res.need("cached", 8)
    res.need("sum", 10)
