"""Assigned order literals become bounds, bounds reach the constraints."""
from ..absint import Engine, State, contains, show, subst
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import Base, facts, one, unwas
from .c09 import negated
from .c11 import Enc, cshow, holds, lshow, ol

EXPLANATION = (
    "Path-sensitive symbolic analysis of the path from an assigned literal to the propagation of constraints: on every path the "
    "bounds set for the variable of the literal, the clauses over neighbouring order literals, the constraint states queued, the "
    "changes passed on to constraints and the conditions to return are compared with their definition.")

ONE = ("i", 1)


def ineqs(fs):
    """The linear inequalities (form >= 0) that hold on a path."""
    for t, b in fs.items():
        if t[0] == "<":
            yield lin(t[2], 1, lin(t[1], -1, {None: -1})) if b else lin(t[1], 1, lin(t[2], -1))
        elif t[0] == "==" and b:
            yield lin(t[1], 1, lin(t[2], -1))
            yield lin(t[2], 1, lin(t[1], -1))


def implied(fs, a, b):
    """Is a <= b known?"""
    goal = lin(b, 1, lin(a, -1))
    if not set(goal) - {None} and goal.get(None, 0) >= 0:
        return True
    for f in ineqs(fs):
        d = dict(goal)
        for k, v in f.items():
            d[k] = d.get(k, 0) - v
        if all(k is None or v == 0 for k, v in d.items()) and d.get(None, 0) >= 0:
            return True
    return False


def is_field(t, name):
    return t[0] == "fld" and t[2] == name


def container(t, name):
    t = unwas(t)
    while t[0] == "ref":
        t = t[1]
    return is_field(t, name)


class Walk(Enc):
    """Common treatment of states; rs: what happened on the path."""
    classes = ("Solver", "Level")
    opaque = ("get_literal", "litmap_at_", "update_litmap_", "var_state", "set_literal", "unset_literal", "get_or_add_literal", "has_literal",
              "pushed_lower", "pushed_upper", "push_lower", "push_upper", "config", "shift")

    def direct(self, fn):
        return fn.info.name not in self.opaque and (last(fn.info.cls) in self.classes or fn.info.lambda_)

    def keepval(self, k, v):
        return False

    def keep(self, t):
        return False

    def no_inline(self, info):
        return info.name in self.opaque or "Clingo::" in info.cls or last(info.cls) in ("VarState", "LitmapEntry")


# ---- literals to bounds -----------------------------------------------------
class Bound(Walk):
    def init(self):
        self.loops = 0
        self.chains = set()
        self.drop = False

    def keepval(self, k, v):
        return k[0] == "d" and v[0] not in ("phi", "undef", "ref") and contains(v, lambda x: x[0] in ("ordlit", "prevlit") or x[:2] == ("arg", 1))

    def keep(self, t):
        return t[0] == "call" and t[1] in ("valid", "is_fixed") or t[0] == "==" and (any(lit_arg(x) for x in t[1:]) or ("fld", ("fact",), "#0") in t[1:]) or \
            t[0] == "istrue" and t[1][0] == "ordlit" or contains(t, lambda x: x == ("chainend",))

    def branch(self, E, ctx, st, term, value):
        """Bounds known to be tight already and literals known to be true are noted."""
        t = unwas(term)
        new = set()
        for f in ineqs({t: value}):
            for x, k in f.items():
                if x is not None and x[0] == "call" and x[1] in ("lower_bound", "upper_bound") and k == (1 if x[1] == "lower_bound" else -1):
                    g = dict(f)
                    del g[x]
                    g = {y: c * (1 if k < 0 else -1) for y, c in g.items()}
                    new.add(("tight", x[1][0], x[2][0], tuple(sorted(g.items(), key=repr))))
        if t[0] == "istrue" and value and t[1][0] != "ordlit":
            new.add(("near", t[1], t[2]))
        return st.with_rs(st.rs | new) if new else st

    def current(self, rs, k, vs):
        for x in rs:
            if x[0] == "set" and x[1] == k and x[2] == vs:
                return x[3]
        return ("call", "upper_bound" if k == "u" else "lower_bound", (vs,))

    def established(self, st, up, vs, value, near, what, at):
        """The bound is adopted and passed on to the neighbours."""
        rs, fs, res = st.rs, facts(st), self.res
        k = "u" if up else "l"
        want = value if up else ("+", value, ONE)
        cur = self.current(rs, k, vs)
        good = lin(cur) == lin(want)
        for x in rs:
            if x[:3] == ("tight", k, vs):
                d = lin(want, -1, dict(x[3]))
                good = good or not set(d) - {None} and (d.get(None, 0) <= 0 if up else d.get(None, 0) >= 0)
        res.ok("bound", "%s: %s" % (at, what))
        if not good:
            res.bad("bound", at, "%s: the variable may keep %s as %s bound" % (what, show(cur), "upper" if up else "lower"), key="bound|%s|set" % k)
        res.ok("chain", "%s: %s" % (at, what))
        passed = ("chain", up, vs, unwas(value)) in rs or ("near", near[0], 1 if up else -1) in rs
        if not passed:
            res.bad("chain", at, "%s: the %s order literals are not implied" % (what, "succeeding" if up else "preceding"), key="chain|%s|none" % k)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        c = last(t.cls.split("<")[0])
        if c == "LitmapEntry" and t.const and obj is not None:
            o = unwas(one(E.load(st, obj)))
            vs = tuple(negated(self.norm(v)) for v in vals)
            return [(st, ("call", t.name, (o,) + vs))]
        if c == "LitmapEntry":
            return [(st, r)]
        if t.name == "is_fixed" and c == "Assignment":
            return [(st, ("call", "is_fixed", ()))]
        if c == "VarState" and obj is not None:
            vs = self.vs(E, st, ("ref", obj))
            if t.name in ("lower_bound", "upper_bound"):
                k = t.name[0]
                if not vals:
                    return [(st, self.current(rs, k, vs))]
                v = self.norm(vals[0])
                self.crossing(st, k, vs, v, at)
                return [(st.with_rs(frozenset(x for x in rs if x[:3] != ("set", k, vs)) | {("set", k, vs, v)}), r)]
            if t.name.startswith("with_") and len(vals) == 2:
                return self.chain(E, ctx, st, n, t, vs, self.norm(vals[0]), vals[1], at)
            return [(st, ("call", t.name, (vs,) + tuple(self.norm(v) for v in vals)))]
        if obj is not None and t.name == "operator()" or t.name == "operator()":
            o = E.load(st, obj) if obj is not None else ("x",)
            o = self.norm(o)
            if o[0] == "chainlit":
                return [(st, ("ordlit",) + o[1:])]
            if o[0] == "chainval":
                return [(st, ("ordval",) + o[1:])]
            if o[0] == "chaininc":
                return self.step(E, ctx, st, at, o, r)
        if obj is not None and container(E.storage(st, obj), "factmap_"):
            if t.name in ("begin", "cbegin", "rbegin"):
                self.loops += 1
                return None
            if t.name in ("emplace_back", "push_back"):
                v = [self.norm(x) for x in vals]
                if len(v) == 1 and v[0][0] == "new":
                    v = [self.norm(x) for x in v[0][2]]
                return [(st.with_rs(frozenset(x for x in rs if x != ("cleared",)) | {("queue", v[0], v[1], v[2])}), r)]
            if t.name == "clear":
                st = self.settle(st, at)
                if not self.loops:
                    self.res.bad("facts", at, "the queued facts are dropped", key="facts|drop")
                return [(st.with_rs(st.rs | {("cleared",)}), r)]
        if c == "PropagateControl" or t.name == "propagate" and "ClauseCreator" in c:
            return [(st, r)]
        if t.name == "push_level_":
            return [(st, r)]
        return Enc.event(self, E, ctx, st, n, t, obj, vals, args)

    def crossing(self, st, k, vs, v, at):
        """Bounds never cross."""
        fs = facts(st)
        other = self.current(st.rs, "l" if k == "u" else "u", vs)
        self.res.ok("cross", "%s: %s bound set to %s" % (at, "upper" if k == "u" else "lower", show(v)))
        if not (implied(fs, other, v) if k == "u" else implied(fs, v, other)):
            self.res.bad("cross", at, "the %s bound is set to %s, which may be %s the %s bound" % (
                "upper" if k == "u" else "lower", show(v), "below" if k == "u" else "above", "lower" if k == "u" else "upper"), key="cross|" + k)

    # facts
    def declare(self, E, ctx, st, d, value, n):
        v = value[1] if value[0] == "copyof" else value
        if v[0] == "elem" and container(E.storage(st, v[1]), "factmap_"):
            st = self.settle(st, ctx.fn.at(n))
            f = ("fact",)
            st = st.forget(lambda x: x == f)
            rs = frozenset(x for x in st.rs if x[0] not in ("set", "chain", "clause", "tight", "near", "lit"))
            return st.with_rs(rs | {("fact", ctx.fn.at(n))}), f
        return st, value

    def settle(self, st, at):
        w = [x for x in st.rs if x[0] == "fact"]
        if not w:
            return st
        fs = facts(st)
        f = ("fact",)
        part = [("fld", f, "#%d" % j) for j in range(4)]
        self.res.ok("facts", "%s: each queued fact" % w[0][1])
        vs = ("call", "var_state", (part[1],))
        known = None
        for t, b in fs.items():
            if t[0] == "==" and part[0] in t[1:]:
                o = t[1] if t[2] == part[0] else t[2]
                if o == ONE:
                    known = b
                elif o == ("i", -1):
                    known = not b
            elif t == ("<", part[0], ("i", 0)) or t == ("<", part[0], ONE):
                known = not b
            elif t == ("<", ("i", 0), part[0]):
                known = b
        for up in (True, False):
            if known is None or known == up:
                self.established(st, up, vs, part[2], (part[3], 1), "fact that a variable is %s a value" % ("at most" if up else "above"), w[0][1])
        rs = frozenset(x for x in st.rs if x[0] not in ("set", "chain", "clause", "fact", "tight", "near", "lit"))
        return st.with_rs(rs)

    # neighbouring order literals
    def chain(self, E, ctx, st, n, t, vs, value, lam, at):
        if t.name not in ("with_gt", "with_lt", "with_ge", "with_le") or lam[0] != "lam":
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        up = t.name in ("with_gt", "with_ge")
        key = (up, vs, unwas(value))
        ids = [x for x in (lam[2] or (lam[1],)) if x in self.p.fns]
        out = []
        if not ids:
            raise AnalysisBroken("%s: body of the traversal not found" % at)
        base = frozenset(x for x in st.rs if x[0] != "chainbegun")
        for x in ids[:1]:
            f = self.p.fns[x]
            ps = [("chainit",), ("chainend",), ("chainlit", up), ("chainval", up), ("chaininc",)]
            s0 = State(st.env, st.facts, base, st.trail).forget(lambda y: y[0] in ("chainit", "chainend", "ordlit", "prevlit"))
            for s, ret in E.follow(ctx, s0, n, f.info, ("lamobj",), ps[:len(f.params)]):
                fs = facts(s)
                b = ret if ret is None else E.decided(s, self.norm(ret))
                self.res.ok("chain", "%s: %s order literals" % (at, "succeeding" if up else "preceding"))
                self.chains.add(up)
                stop = any(y[0] == "==" and v and all(contains(y, lambda w, c=c: w == (c,)) for c in ("chainit", "chainend")) for y, v in fs.items()) or \
                    holds(fs, (("ordlit", up), 1 if up else -1)) is True
                if b == ("b", False):
                    if ("conflict",) not in s.rs:
                        self.res.bad("chain", at, "the traversal of order literals fails without a conflict", key="chain|fail")
                else:
                    if ("conflict",) in s.rs:
                        self.res.bad("chain", at, "a conflict is ignored while passing on a bound", key="chain|ignored")
                    if not stop:
                        self.res.bad("chain", at, "passing on a bound stops before an order literal that is not yet %s" % ("true" if up else "false"), key="chain|stop|%d" % up)
                rs = frozenset(y for y in s.rs if y[0] not in ("clause", "lit"))
                s = s.with_rs(rs).forget(lambda y: y[0] in ("chainit", "chainend", "ordlit", "prevlit"))
                if b == ("b", False):
                    out.append((s, b))
                else:
                    out.append((s.with_rs(rs | {("chain",) + key}), ("b", True)))
        return out

    def step(self, E, ctx, st, at, o, r):
        """The next order literal; the current one must have been implied."""
        fs = facts(st)
        up = None
        for x in list(st.env.values()) + list(st.facts):
            contains(x, lambda y: y[0] == "ordlit" and self.note(y))
        up = self.seen
        if up is None:
            self.res.bad("chain", at, "an order literal is skipped", key="chain|skip")
        else:
            cur = (("ordlit", up), 1 if up else -1)
            done = holds(fs, cur) is True
            for x in st.rs:
                if x[0] == "clause" and cur in x[1]:
                    rest = x[1] - {cur}
                    done = done or all(self.reason(y, up) for y in rest) and len(rest) <= 1
            if not done:
                self.res.bad("chain", at, "an order literal is passed over without being implied (%s)" % "; ".join(
                    cshow(x[1]) for x in st.rs if x[0] == "clause"), key="chain|step|%d" % up)
        self.seen = None
        f = {t: v for t, v in st.facts.items() if not contains(t, lambda y: y[0] in ("chainit", "chainend", "ordlit", "prevlit"))}
        env = {k: subst(v, lambda y: y[0] == "ordlit", ("prevlit", up)) if contains(v, lambda y: y[0] == "ordlit") else v for k, v in st.env.items()}
        return [(State(env, f, frozenset(x for x in st.rs if x[0] not in ("clause", "lit")), st.trail), r)]

    seen = None

    def note(self, y):
        self.seen = y[1]
        return False

    def reason(self, x, up):
        """Is the literal the complement of a literal that implies the current order literal?"""
        l, s = x
        if l == ("prevlit", up):
            return s == (-1 if up else 1)
        # the literal that is being propagated, or a fact
        return l[:2] == ("arg", 1) and s == -1 or l == ONE and s == -1

    def clause(self, E, ctx, st, n, t, vals, at, r):
        out = Enc.clause(self, E, ctx, st, n, t, vals, at, r)
        res = []
        for s, b in out:
            rs = frozenset(("conflict",) if x == "conflict" else x for x in s.rs)
            res.append((s.with_rs(rs), b))
        return res

    def submitted(self, E, ctx, st, ls, at):
        fs = facts(st)
        if any(x[0][0] in ("ordlit",) for x in ls):
            return
        # the conflict with the opposite bound
        self.res.ok("cross", "%s: conflict %s" % (at, cshow(ls)))
        for l, s in ls:
            if l[:2] == ("arg", 1) and s == -1 or l == ONE and s == -1:
                continue
            good = False
            if l[0] == "ol":
                form, vs = dict(l[2]), l[1]
                k = "l" if s > 0 else "u"
                cur = self.current(st.rs, k, vs)
                want = lin(("-", cur, ONE)) if s > 0 else lin(cur)
                # x <= lb - 1 is false, x <= ub is true
                good = form == want
                if good and not any(f.get(cur) == (1 if s > 0 else -1) for f in ineqs(fs)):
                    good = False
            if not good:
                self.res.bad("cross", at, "%s in the conflict %s is not the complement of a bound that was crossed" % (lshow(l, s), cshow(ls)), key="cross|clause")


def scalar_entries(prog, start, pred):
    """Topmost functions of the solver that treat a single literal and satisfy the predicate."""
    reach = prog.reachable([i.id for i in start])
    cand = []
    for x in reach:
        f = prog.fns.get(x)
        if f is None or last(f.info.cls) != "Solver" or f.info.lambda_ or f.info in start:
            continue
        if len(f.params) == 2 and f.info.pt[1].replace("const ", "").rstrip(" &") in ("int", "lit_t", "Clingcon::lit_t", "Clingo::literal_t", "clingo_literal_t") and pred(f):
            cand.append(f)
    ids = {f.id for f in cand}
    below = set()
    for f in cand:
        below |= (prog.reachable(prog.callees(f)) & ids) - {f.id}
    return [f for f in cand if f.id not in below]


def mentions(prog, f, *fields):
    for x in prog.reachable([f.id]):
        g = prog.fns.get(x)
        if g is not None and any(n.k == "MemberExpr" and n.get("name") in fields for n in g.allnodes()):
            return True
    return False


def setters(prog):
    return {i.id for i in prog.info.values() if last(i.cls) == "VarState" and i.name in ("lower_bound", "upper_bound") and len(i.pt) == 1}


def bound(prog, res, eff):
    start = prog.find("Solver::propagate")
    sets = setters(prog)
    es = scalar_entries(prog, start, lambda f: prog.reachable([f.id]) & sets and mentions(prog, f, "litmap_", "factmap_"))
    if not es:
        raise AnalysisBroken("the function that turns a literal into bounds was not found")
    for f in es:
        r = Bound(res)
        r.p = prog
        E = Engine(prog, r, eff)
        E.MAXKEYS = 400
        E.exclude = set()
        exits = E.analyse(f.info, frozenset())
        res.funcs(E.fns_seen)
        good = 0
        for st, ret in exits:
            if ret is None or Engine.decided(st, unwas(one(ret))) != ("b", False):
                st = r.settle(st, f.loc)
            good += exit_(res, r, st, ret, f.loc)
        if not good:
            raise AnalysisBroken("no conflict-free path through " + f.info.short)
        for up in (True, False):
            if up not in r.chains:
                res.bad("chain", f.loc, "%s order literals are never implied" % ("succeeding" if up else "preceding"), key="chain|never|%d" % up)


def lit_arg(t):
    return t[:2] == ("arg", 1)


def exit_(res, r, st, ret, loc):
    fs, rs = facts(st), st.rs
    b = None if ret is None else Engine.decided(st, unwas(one(ret)))
    if b == ("b", False):
        res.ok("result", "conflict")
        if ("conflict",) not in rs and not any(x[0] == "clause" for x in rs):
            res.bad("result", loc, "propagation of a literal is given up without a conflict", key="result|false")
        return 0
    if ("conflict",) in rs:
        res.bad("result", loc, "a conflict is ignored when propagating a literal", key="result|conflict")
        return 0
    true = None
    for t, v in fs.items():
        if t[0] == "==" and ONE in t[1:] and any(lit_arg(x) for x in t[1:]):
            true = v
    queued = [x for x in rs if x[0] == "queue"]
    if true is True or queued:
        res.ok("facts", "exit with facts")
        if ("cleared",) not in rs:
            res.bad("facts", loc, "facts are not propagated", key="facts|left")
        if true is True:
            return 1
    for s in (1, -1):
        entry = valid = lit = None
        for t, v in fs.items():
            if t[0] == "call" and t[1] == "valid" and len(t[2]) == 2 and lit_arg(t[2][1][0]) and t[2][1][1] == s:
                e = t[2][0]
                if e[0] == "call" and e[1] == "litmap_at_" and lit_arg(e[2][0][0]):
                    entry, valid, lit = e, v, t[2][1][0]
        what = "literal that stands for %s <= value" % ("variable" if s > 0 else "not variable")
        res.ok("examined", "exit: %s" % what)
        if valid is None:
            res.bad("examined", loc, "an assigned literal is not looked up as %s" % what, key="examined|%d" % s)
            continue
        if not valid:
            continue
        var, value = ("call", "var", (entry,)), ("call", "value", (entry,))
        q = [x for x in queued if x[2] == var and x[3] == value]
        if queued and q:
            if q[0][1] != ("i", s):
                res.bad("facts", loc, "the fixed %s is queued as the fact %s" % (what, show(q[0][1])), key="facts|sign|%d" % s)
            continue
        fixed = any(t[0] == "call" and t[1] == "is_fixed" and v for t, v in fs.items())
        if ("cleared",) in rs:
            res.bad("facts", loc, "the fixed %s is not queued as a fact" % what, key="facts|none|%d" % s)
            continue
        near = ("call", "succ" if s > 0 else "prev", (entry,))
        r.established(st, s > 0, ("call", "var_state", (var,)), value, (near, 1), what, loc)
    return 1


def run(prog, res, tier):
    res.rule("examined", "an assigned literal is looked up as order literal and as complement of one")
    res.rule("bound", "the bound an order literal stands for is adopted")
    res.rule("cross", "bounds do not cross; conflicting bounds yield a conflict over the literals they stem from")
    res.rule("chain", "a bound is passed on to the neighbouring order literals up to one that is implied already")
    res.rule("facts", "literals fixed at level 0 become facts, and all facts are propagated before they are dropped")
    res.rule("result", "propagation of a literal ends in success or with a conflict")
    eff = Effects(prog)
    bound(prog, res, eff)
