"""Simple constraints and domains are encoded exactly."""
from ..absint import Engine, State, contains, show, subst
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import Base, facts, one, unwas
from .c09 import is_slot, negated, slot

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that turn constraints over a single variable, domains and bounds of other "
    "threads into order literals: the values of the order literals, the clauses and the literals treated as facts on each path are "
    "compared with the definition of the constraint.")


def ol(vs, value):
    """The literal for: variable <= value."""
    return ("ol", vs, tuple(sorted(lin(value).items(), key=repr)))


class Enc(Base):
    """rs: clauses, order literals and stored literals on the path."""
    classes = ("Solver",)
    opaque = ("get_literal", "update_literal", "litmap_add_", "update_litmap_", "litmap_at_", "var_state", "floordiv", "ceildiv",
              "min_bound", "max_bound", "lower_bound", "upper_bound", "var", "invalid", "valid", "has_literal", "set_literal", "get_or_add_literal",
              "add_clause", "add_literal", "add_watch", "assignment", "propagate", "check", "config")

    def init(self):
        self.updates = {}

    def direct(self, fn):
        return fn.info.name not in self.opaque and last(fn.info.cls) in ("Solver",)

    def no_inline(self, info):
        return info.name in self.opaque or "Clingo::" in info.cls or last(info.cls.split("<")[0]) == "IntervalSet"

    def keep(self, t):
        return contains(t, lambda x: x[0] in ("arg", "ol", "call", "cur", "prev"))

    def keepval(self, k, v):
        return k[0] == "d" and v[0] not in ("phi", "undef", "ref") and not contains(v, lambda x: x[0] == "phi")

    def norm(self, v):
        return unwas(one(v))

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        rs = st.rs
        c = last(t.cls.split("<")[0])
        if t.name in ("floordiv", "ceildiv") and len(vals) == 2:
            return [(st, ("call", t.name, tuple(self.norm(v) for v in vals)))]
        if t.name in ("is_true", "is_false", "truth_value") and c == "Assignment":
            l, s = negated(self.norm(vals[0]))
            if t.name == "truth_value":
                return [(st, ("tv", l, s))]
            return [(st, ("istrue", l, s if t.name == "is_true" else -s))]
        if t.name == "decision_level" and c == "Assignment":
            return [(st, ("call", "decision_level", ()))]
        if t.name == "var_state":
            return [(st, ("call", "var_state", (self.norm(vals[0]),)))]
        if t.name in ("get_literal", "update_literal") and c == "Solver":
            u = ol(self.vs(E, st, args[1]), self.norm(vals[2]))
            if t.name == "update_literal":
                self.update(E, ctx, st, at, u, self.norm(vals[3]))
            return [(st.with_rs(rs | {("lit", u)}), u)]
        if t.name == "add_clause" and "ClauseCreator" in c:
            return self.clause(E, ctx, st, n, t, vals, at, r)
        if t.name == "add_literal":
            return [(st, ("fresh", ctx.fn.id, n.i))]
        if t.name in ("litmap_add_", "update_litmap_"):
            return [(st, ("call", t.name, tuple(self.norm(v) for v in vals[1:])))]
        if t.name in ("emplace_back", "push_back") and t.cls.startswith("std::"):
            return [(st, r)]
        if t.name == "emplace" and "optional" in t.cls and obj is not None:
            return [(x, r) for x in E.assign(ctx, st, obj, ("new", t.cls, tuple(vals)), n)]
        if t.name in ("has_value", "operator bool") and "optional" in t.cls and obj is not None:
            v = one(E.load(st, obj))
            if v[0] == "new" and not v[2]:
                return [(st, ("b", False))]
            if contains(v, lambda x: x[0] in ("prev", "pend", "cur")):
                return [(st, ("b", True))]
        if t.name == "litmap_at_":
            return [(st, ("call", "litmap_at_", (negated(self.norm(vals[0])),)))]
        if c == "VarState":
            vs = self.vs(E, st, ("ref", obj)) if obj is not None else ("x",)
            if t.name == "set_literal":
                return [(x, r) for x in E.assign(ctx, st, slot(vs, self.norm(vals[0])), vals[1], n)]
            if t.name == "get_or_add_literal":
                s = slot(vs, self.norm(vals[0]))
                return [(st, ("ref", s) if n.lv else s)]
            if t.name == "var":
                return [(st, ("call", "var", (vs,)))]
            return [(st, ("call", t.name, (vs,) + tuple(self.norm(v) for v in vals)))]
        return None

    def vs(self, E, st, a):
        t = one(E.load(st, a[1] if a[0] == "ref" else a))
        return unwas(t)

    def update(self, E, ctx, st, at, u, truth):
        pass

    def literals(self, v):
        v = one(v)
        if v[0] != "new":
            return None
        xs = [x for x in v[2] if not (x[0] == "new" and not x[2])]
        if len(xs) == 1 and one(xs[0])[0] == "new":
            return self.literals(xs[0])
        return [negated(self.norm(x)) for x in xs]

    def clause(self, E, ctx, st, n, t, vals, at, r):
        ls = self.literals(vals[0])
        if ls is None:
            v = one(vals[0])
            while v[0] == "new" and v[2]:
                v = one(v[2][0])
            ls = [negated(self.norm(v))]
        ls = frozenset(x for x in ls if x != (("i", 1), -1))
        if (("i", 1), 1) in ls:
            ls = frozenset({(("i", 1), 1)})
        ok = st.with_rs(st.rs | {("clause", ls)})
        self.submitted(E, ctx, st, ls, at)
        return [(ok, ("b", True)), (st.with_rs(st.rs | {"conflict"}), ("b", False))]

    def submitted(self, E, ctx, st, ls, at):
        pass

    def write(self, E, ctx, st, lv, value, n):
        if is_slot(lv):
            v = self.norm(value)
            old = {x for x in st.rs if x[0] == "slot" and x[1] == lv}
            return [st.with_rs((st.rs - old) | {("slot", lv, negated(v), ctx.fn.at(n))})]
        return [st]


def holds(fs, lit):
    """Is the literal known to be true (True), not true (False), or unknown; lit is (term, sign)."""
    l, s = lit
    if l == ("i", 1):
        return s > 0
    out = {"Free", "True", "False"}
    for t, b in fs.items():
        if t[0] == "istrue" and t[1] == l:
            k = "True" if t[2] == s else "False"
            out = out & {k} if b else out - {k}
        if t[0] == "==":
            for x, y in (t[1:], t[:0:-1]):
                if x == l and y == ("i", 1):
                    out = out & {"True" if s > 0 else "False"} if b else out
                if x[0] == "tv" and x[1] == l and tval(y):
                    k = tval(y)
                    if x[2] != s:
                        k = {"True": "False", "False": "True"}.get(k, k)
                    out = out & {k} if b else out - {k}
    return True if out <= {"True"} else False if "True" not in out else None  # nothing left: infeasible


def notfalse(fs, lit):
    """Is the literal known not to be false?"""
    l, s = lit
    return holds(fs, lit) is True or holds(fs, (l, -s)) is False


TRUTH = {0: "Free", 1: "True", 2: "False"}


def tval(t):
    """The name of a truth value."""
    if t[0] == "enum":
        return last(t[1])
    if t[0] == "i":
        return TRUTH.get(t[1])
    return None


def bool_arg(fs, k):
    for t, b in fs.items():
        if t[0] == "arg" and t[1] == k:
            return b
    return None


def quotient(t):
    """A term as (kind, constant) where kind is floor or ceil of rhs / co."""
    l = lin(t)
    c = l.pop(None, 0)
    if len(l) != 1:
        return None
    (q, k), = l.items()
    if q[0] != "call" or q[1] not in ("floordiv", "ceildiv") or k not in (1, -1):
        return None
    (a, sa), (b, sb) = negated(q[2][0]), negated(q[2][1])
    if a[:2] != ("arg", 4) or b[:2] != ("arg", 2):
        return None
    floor = q[1] == "floordiv"
    if sa != sb:
        # floor(-x) = -ceil(x)
        floor, k = not floor, -k
    if k != 1:
        return None
    return ("floor" if floor else "ceil", c)


class Simple(Enc):
    def side(self, fs):
        """The sign of the coefficient (None: it is zero)."""
        r = set()
        for t, b in fs.items():
            if t[0] == "<" and t[1] == ("i", 0) and t[2][:2] == ("arg", 2):
                r.add(1 if b else -1)
            if t[0] == "<" and t[2] == ("i", 0) and t[1][:2] == ("arg", 2):
                r.add(-1 if b else 1)
        return 0 if not r else r.pop() if len(r) == 1 else None

    def value(self, fs, value, at):
        s = self.side(fs)
        if s is None:
            return
        q = quotient(value)
        self.res.ok("simple", "%s: value %s" % (at, show(value)))
        if s == 0 or q != (("floor", 0) if s > 0 else ("ceil", -1)):
            self.res.bad("simple", at, "co*var <= rhs for a %s coefficient is not a comparison with %s" % (
                "positive" if s > 0 else "negative" if s < 0 else "non-zero", show(value)), key="simple|value|%d" % s)

    def update(self, E, ctx, st, at, u, truth):
        fs = facts(st)
        s = self.side(fs)
        cl = (self.clit, 1)
        if s is None:
            return
        strict = bool_arg(fs, 5)
        self.res.ok("simple", "%s: order literal updated with %s" % (at, show(truth)))
        if tval(truth) == "Free":
            return
        if truth[0] == "tv" and truth[1] == self.clit and truth[2] == s:
            # a false constraint only fixes the bound if the constraint is strict
            if strict is not True and not notfalse(fs, cl):
                self.res.bad("simple", at, "the bound is fixed by a constraint that may be false", key="simple|nonstrict")
            return
        if tval(truth):
            up = tval(truth) == "True"
            want = up == (s > 0)   # the constraint has to be true or false
            if want and holds(fs, cl) is True or not want and strict is True and holds(fs, (cl[0], -1)) is True:
                return
        self.res.bad("simple", at, "the bound is fixed by %s" % show(truth), key="simple|truth")


def simple(prog, res, eff):
    for i in prog.find("Solver::add_simple"):
        r = Simple(res)
        r.clit = ("arg", 1, i.body.params[1].get("name", ""))
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        kinds = set()
        for st, ret in exits:
            if "conflict" in st.rs:
                res.ok("simple", "exit after a conflict")
                if ret != ("b", False):
                    res.bad("simple", loc, "a conflicting clause is ignored", key="simple|conflict")
                continue
            if ret == ("b", False):
                fs = facts(st)
                res.bad("simple", loc, "failure is reported without a conflict", key="simple|false")
                continue
            if r.side(facts(st)) is not None:
                kinds.add(judge_simple(res, r, st, loc))
        for k, txt in (("slot", "the literal of a strict constraint is never used as order literal"),):
            pass
        if "clauses" not in kinds:
            res.bad("simple", loc, "constraints are never related to order literals", key="simple|none")


def judge_simple(res, r, st, loc):
    fs = facts(st)
    s = r.side(fs)
    strict = bool_arg(fs, 5)
    clit = r.clit
    slots = [x for x in st.rs if x[0] == "slot"]
    clauses = {x[1] for x in st.rs if x[0] == "clause"}
    ols = [x[1] for x in st.rs if x[0] == "lit"]
    if slots:
        for _, lv, (l, sg), at in slots:
            vs, val = lv[1], lv[2][1]
            res.ok("simple", "%s: literal %s for %s" % (at, show((l)), show(val)))
            if vs[0] != "call" or vs[1] != "var_state" or vs[2][0][:2] != ("arg", 3):
                res.bad("simple", at, "the literal is given to another variable", key="simple|var")
            r.value(fs, val, at)
            if strict is not True:
                res.bad("simple", at, "the literal of a constraint that is no equivalence is used as order literal", key="simple|strict")
            if l == clit:
                if sg != s:
                    res.bad("simple", at, "the literal of the constraint is used with the wrong sign", key="simple|sign")
            elif l == ("i", 1):
                if holds(fs, (clit, s * sg)) is not True:
                    res.bad("simple", at, "the order literal is fixed to %s although the constraint is not" % ("true" if sg > 0 else "false"), key="simple|const")
            elif l[0] == "fresh":
                fwd = frozenset({(clit, -s), (l, sg)})
                bwd = frozenset({(clit, s), (l, -sg)})
                if fwd not in clauses or bwd not in clauses:
                    res.bad("simple", at, "the new order literal is not made equivalent to the constraint", key="simple|fresh")
            else:
                res.bad("simple", at, "%s is used as order literal" % show(l), key="simple|odd")
        extra = [c for c in clauses if not any(x[0] == "fresh" for x, _ in c)]
        for c in extra:
            if not any(clit == x for x, _ in c):
                res.bad("simple", loc, "the clause %s is not implied" % cshow(c), key="simple|extra")
        return "slot"
    if not clauses:
        res.ok("simple", "exit without a clause")
        if strict is not False or holds(fs, (clit, -1)) is not True:
            res.bad("simple", loc, "a constraint that may have to hold is skipped", key="simple|skip")
        return "skip"
    res.ok("simple", "exit with clauses %s" % " ".join(sorted(cshow(c) for c in clauses)))
    us = {x for c in clauses for x, _ in c if x[0] == "ol"}
    if len(us) != 1:
        res.bad("simple", loc, "the clauses %s do not refer to one order literal" % " ".join(sorted(cshow(c) for c in clauses)), key="simple|which")
        return "clauses"
    u, = us
    if u[1][0] != "call" or u[1][1] != "var_state" or u[1][2][0][:2] != ("arg", 3):
        res.bad("simple", loc, "the order literal belongs to another variable", key="simple|var")
    r.value(fs, unlin(u[2]), loc)
    cl = [(clit, -1)]
    if holds(fs, (clit, 1)) is True:
        cl.append(None)
    need = frozenset({(clit, -1), (u, s)})
    if need not in clauses and not (holds(fs, (clit, 1)) is True and frozenset({(u, s)}) in clauses) and not (holds(fs, (clit, -1)) is True):
        res.bad("simple", loc, "a true constraint does not imply its bound (%s)" % " ".join(sorted(cshow(c) for c in clauses)), key="simple|forward")
    back = frozenset({(clit, 1), (u, -s)})
    bcl = back in clauses or holds(fs, (clit, -1)) is True and frozenset({(u, -s)}) in clauses
    if strict is True and not bcl and holds(fs, (clit, 1)) is not True:
        res.bad("simple", loc, "the bound does not imply a constraint that is an equivalence", key="simple|backward")
    for c in clauses:
        if c == need or c == frozenset({(u, s)}) and holds(fs, (clit, 1)) is True:
            continue
        if c == back or c == frozenset({(u, -s)}) and holds(fs, (clit, -1)) is True:
            if strict is not True:
                res.bad("simple", loc, "a false constraint implies a bound although it is no equivalence", key="simple|wrong")
            continue
        res.bad("simple", loc, "the clause %s is not implied" % cshow(c), key="simple|extra")
    return "clauses"


def unlin(items):
    t = None
    for x, k in items:
        y = ("i", k) if x is None else x if k == 1 else ("neg", x) if k == -1 else ("*", ("i", k), x)
        t = y if t is None else ("+", t, y)
    return t if t is not None else ("i", 0)


def lshow(x, s):
    t = "[%s<=%s]" % (show(x[1]), show(unlin(x[2]))) if x[0] == "ol" else show(x)
    return t if s > 0 else "-" + t


def cshow(c):
    return "{%s}" % ", ".join(sorted(lshow(x, s) for x, s in c))


# ---- domains -----------------------------------------------------------------
def shift(st, d, live):
    """The next interval becomes the current one."""
    def f(x):
        return x[0] in ("prev", "pend") and x[1] == d

    def g(v):
        if not contains(v, f):
            return v
        v = subst(v, lambda x: x == ("prev", d), ("old", d))
        return subst(v, lambda x: x == ("pend", d), ("prev", d))
    dead = [k for k, v in st.env.items() if k[0] == "d" and k not in live and (v[0] == "i" or contains(v, lambda x: x[0] in ("ol", "cur")))]
    env = {k: g(v) if isinstance(v, tuple) and k[0] == "d" else v for k, v in st.env.items() if k not in dead}
    fs = {t: b for t, b in st.facts.items() if not contains(t, lambda x: x[0] in ("cur", "prev", "pend") and x[1] == d)}
    return State(env, fs, st.rs, st.trail)


class Dom(Enc):
    def keepval(self, k, v):
        return k[0] == "d" and (v[0] in ("i", "arg") or v[0] == "new" and not v[2] or contains(v, lambda x: x[0] in ("prev", "pend", "ol")))

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        c = last(t.cls.split("<")[0])
        at = ctx.fn.at(n)
        if c == "IntervalSet":
            if t.name in ("begin", "rbegin"):
                d = "r" if t.name == "rbegin" else "f"
                rs = frozenset(x for x in st.rs if x not in (("step", d), ("done", d))) | {("began", d)}
                return [(st.with_rs(rs), ("call", t.name, (("dom",),)))]
            if t.name == "empty":
                return [(st, ("call", "empty", (("dom",),)))]
            return [(st, ("call", t.name, (("dom",),)))]
        if t.name in ("operator*", "operator->", "operator++") and ("iterator" in t.cls) and not vals:
            d = "r" if "reverse_iterator" in t.cls else "f"
            if t.name == "operator++":
                if ("done", d) not in st.rs:
                    self.res.bad("dom", at, "an interval is skipped", key="dom|skip|" + d)
                st = st.with_rs((st.rs - {("done", d)}) | {("step", d)})
                st = shift(st, d, {("d", ctx.fn.unit, p["d"]) for p in ctx.fn.params})
                return [(x, r) for x in E.assign(ctx, st, obj[1] if obj[0] == "ref" else obj, ("phi", "it", d), n)] if obj is not None and obj[0] in ("var", "ref") else [(st, r)]
            return [(st, ("cur", d))]
        return Enc.event(self, E, ctx, st, n, t, obj, vals, args)

    def declare(self, E, ctx, st, d, value, n):
        v = value[1] if value[0] == "copyof" else value
        if v[0] == "elem" and v[1][0] in ("var", "ref", "arg", "fld") and ("began", "f") in st.rs:
            return st, ("cur", "f")
        return st, self.norm(v) if contains(v, lambda x: x[0] == "cur") else value

    def local(self, E, ctx, st, lv, value, n):
        v = self.norm(value)
        if contains(v, lambda x: x[0] == "cur"):
            for d in "fr":
                v = subst(v, lambda x: x == ("cur", d), ("pend", d))
            return st, v
        return None

    def end(self, u):
        """The bound an order literal speaks about: (when, direction, lower or upper) if its value is the bound minus one."""
        l = dict(u[2])
        c = l.pop(None, 0)
        if c != -1 or len(l) != 1:
            return None
        (t, k), = l.items()
        if k != 1:
            return None
        t = one(t)
        if t[0] == "new" and len(t[2]) == 1:
            t = one(t[2][0])
        if t[0] != "fld" or t[2] not in ("#0", "#1", "first", "second"):
            return None
        b = one(t[1])
        if b[0] not in ("cur", "prev", "pend", "old"):
            return None
        return (b[0], b[1], 0 if t[2] in ("#0", "first") else 1)

    def islit(self, fs, x):
        return x == (self.lit, -1)

    def submitted(self, E, ctx, st, ls, at):
        fs = facts(st)
        rest = [x for x in ls if x != (self.lit, -1)]
        self.res.ok("dom", "%s: clause %s" % (at, cshow(ls)))
        if len(rest) == len(ls) and holds(fs, (self.lit, 1)) is not True:
            self.res.bad("dom", at, "the domain is enforced regardless of the literal by %s" % cshow(ls), key="dom|lit")
        if not rest:
            if fs.get(("call", "empty", (("dom",),))) is not True:
                self.res.bad("dom", at, "%s excludes all values" % cshow(ls), key="dom|empty")
            return
        ends = []
        for x, s in rest:
            e = self.end(x) if x[0] == "ol" else None
            if e is None or x[1][:2] != ("call", "var_state") or x[1][2][0][:2] != ("arg", 2):
                self.res.bad("dom", at, "%s is not a statement about the intervals" % cshow(ls), key="dom|form")
                return
            ends.append((e, s))
        # one bound on each side of a gap
        lows = [e for e, s in ends if s < 0]
        ups = [e for e, s in ends if s > 0]
        d = ends[0][0][1]
        first = ("step", d) not in st.rs
        ok = len(lows) <= 1 and len(ups) <= 1
        if first:
            ok = ok and (lows == [("cur", "f", 0)] and not ups if d == "f" else ups == [("cur", "r", 1)] and not lows)
        elif d == "f":
            ok = ok and lows == [("cur", "f", 0)] and ups == [("prev", "f", 1)]
        else:
            ok = ok and ups == [("cur", "r", 1)] and lows == [("prev", "r", 0)]
        if not ok:
            self.res.bad("dom", at, "%s does not exclude exactly the values %s" % (cshow(ls), (
                "before the first interval" if d == "f" else "after the last interval") if first else "between two intervals"), key="dom|clause|%s%s" % (d, first))

    def clause(self, E, ctx, st, n, t, vals, at, r):
        out = Enc.clause(self, E, ctx, st, n, t, vals, at, r)
        ds = set()
        for s, b in out:
            for x in s.rs:
                if x[0] == "clause":
                    for l, _ in x[1]:
                        e = self.end(l) if l[0] == "ol" else None
                        if e is not None and e[0] == "cur":
                            ds.add(e[1])
        # the clauses of an iteration are forgotten with it
        return [(s.with_rs(frozenset(x for x in s.rs if x[0] not in ("clause", "lit")) | {("done", d) for d in ds} | ({"empty"} if not ds else set())), b) for s, b in out]

    def update(self, E, ctx, st, at, u, truth):
        fs = facts(st)
        self.res.ok("dom", "%s: order literal %s updated with %s" % (at, lshow(u, 1), show(truth)))
        if tval(truth) == "Free":
            return
        e = self.end(u)
        ok = tval(truth) and e is not None and holds(fs, (self.lit, 1)) is True
        if ok:
            up = tval(truth) == "True"
            d = e[1]
            want = ("cur", "f", 0) if not up else ("cur", "r", 1)
            ok = e == want
            if ok and ("step", d) in st.rs:
                # the value has to be on this side of the gap
                ok = any(self.end(t[1]) == ("prev", d, 1 if d == "f" else 0) and (b and t[2] == (-1 if d == "f" else 1))
                         for t, b in fs.items() if t[0] == "istrue" and t[1][0] == "ol")
        if not ok:
            self.res.bad("dom", at, "the literal %s is fixed to %s" % (lshow(u, 1), show(truth)), key="dom|truth|" + (e[1] if e else "?"))


def dom(prog, res, eff):
    for i in prog.find("Solver::add_dom"):
        r = Dom(res)
        r.lit = ("arg", 1, i.body.params[1].get("name", ""))
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        for st, ret in exits:
            fs = facts(st)
            res.ok("dom", "exit of Solver::add_dom")
            if "conflict" in st.rs:
                if ret != ("b", False):
                    res.bad("dom", loc, "a conflicting clause is ignored", key="dom|conflict")
                continue
            if ret == ("b", False):
                res.bad("dom", loc, "failure is reported without a conflict", key="dom|false")
                continue
            if holds(fs, (r.lit, -1)) is True:
                continue
            if "empty" in st.rs and fs.get(("call", "empty", (("dom",),))) is True:
                continue
            for d, txt in (("f", "lower"), ("r", "upper")):
                if ("began", d) not in st.rs:
                    res.bad("dom", loc, "the %s bounds of the intervals are not enforced" % txt, key="dom|none|" + d)
                ends = [b for t, b in fs.items() if t[0] == "==" and any(x == ("call", "end" if d == "f" else "rend", (("dom",),)) for x in t[1:])]
                if ends and True not in ends:
                    res.bad("dom", loc, "not all intervals are considered", key="dom|all|" + d)
            if not any(x[0] == "step" for x in st.rs) and fs.get(("call", "empty", (("dom",),))) is not False:
                res.bad("dom", loc, "nothing is enforced if there is no value to choose from", key="dom|noempty")


# ---- facts -------------------------------------------------------------------
class Upd(Enc):
    opaque = tuple(x for x in Enc.opaque if x != "update_literal")

    def keepval(self, k, v):
        return False


def possible(fs, k):
    """The values the k-th parameter, a truth value, may have."""
    out = {"Free", "True", "False"}
    for t, b in fs.items():
        if t[0] == "==":
            for x, y in (t[1:], t[:0:-1]):
                if x[0] == "arg" and x[1] == k and tval(y):
                    out = out & {tval(y)} if b else out - {tval(y)}
        if t[0] == "arg" and t[1] == k:
            out = out - {"Free"} if b else out & {"Free"}
    return out


def top(fs):
    """Is the decision level known to be zero?"""
    lv = ("call", "decision_level", ())
    for t, b in fs.items():
        if t == ("<", ("i", 0), lv) and not b or t == ("<", lv, ("i", 1)) and b or t == lv and not b or t[0] == "==" and lv in t and ("i", 0) in t and b:
            return True
    return False


def fact(prog, res, eff):
    for i in prog.find("Solver::update_literal"):
        r = Upd(res)
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        some = set()
        for st, ret in exits:
            fs = facts(st)
            for _, lv, (l, s), at in [x for x in st.rs if x[0] == "slot"]:
                res.ok("fact", "%s: %s for %s" % (at, show(l), show(lv[2][1])))
                if l != ("i", 1):
                    continue
                some.add(s)
                if lv[2][1][:2] != ("arg", 2):
                    res.bad("fact", at, "another value is fixed", key="fact|value")
                if possible(fs, 3) - {"True" if s > 0 else "False"}:
                    res.bad("fact", at, "an order literal is fixed to %s although the truth value may be %s" % (
                        "true" if s > 0 else "false", " or ".join(sorted(possible(fs, 3) - {"True" if s > 0 else "False"})).lower()), key="fact|sign|%d" % s)
                if not top(fs):
                    res.bad("fact", at, "an order literal is fixed above decision level 0", key="fact|level")
        if not exits:
            raise AnalysisBroken("Solver::update_literal has no exits")


class Bounds(Enc):
    def init(self):
        self.kinds = set()

    def keepval(self, k, v):
        return False

    def keep(self, t):
        return False

    def clause(self, E, ctx, st, n, t, vals, at, r):
        # only the clauses themselves matter
        return [(s.with_rs(frozenset()), b) for s, b in Enc.clause(self, E, ctx, st, n, t, vals, at, r)]

    def event(self, E, ctx, st, n, t, obj, vals, args):
        out = Enc.event(self, E, ctx, st, n, t, obj, vals, args)
        return out if out is None else [(s.with_rs(frozenset()), b) for s, b in out]

    def source(self, u):
        l = dict(u[2])
        c = l.pop(None, 0)
        if len(l) != 1:
            return None
        (t, k), = l.items()
        if k != 1 or t[0] != "call" or t[1] not in ("lower_bound", "upper_bound"):
            return None
        return t[1], c, t[2][0]

    def which(self, E, st, t):
        """Does the state belong to the other solver?"""
        t = E.load(st, t) if t[0] == "var" else t
        return contains(t, lambda x: x[0] == "arg" and x[1] == 1)

    def update(self, E, ctx, st, at, u, truth):
        self.res.ok("bounds", "%s: %s updated with %s" % (at, lshow(u, 1), show(truth)))
        s = self.source(u)
        want = None if s is None else "True" if s[:2] == ("upper_bound", 0) else "False" if s[:2] == ("lower_bound", -1) else None
        if want is None or tval(truth) not in (want, "Free"):
            self.res.bad("bounds", at, "%s is fixed to %s" % (lshow(u, 1), show(truth)), key="bounds|truth|" + (s[0] if s else "?"))

    def submitted(self, E, ctx, st, ls, at):
        fs = facts(st)
        self.res.ok("bounds", "%s: clause %s" % (at, cshow(ls)))
        x = next(iter(ls)) if len(ls) == 1 else None
        s = self.source(x[0]) if x and x[0][0] == "ol" else None
        if s is None or s[:2] != (("upper_bound", 0) if x[1] > 0 else ("lower_bound", -1)):
            self.res.bad("bounds", at, "%s is no bound of the other solver" % cshow(ls), key="bounds|clause")
            return
        name, _, o = s
        own = x[0][1]
        self.kinds.add(name)
        if not contains(o, lambda t: t[0] == "arg" and t[1] == 1) or contains(own, lambda t: t[0] == "arg" and t[1] == 1):
            self.res.bad("bounds", at, "the bound %s is passed on in the wrong direction" % lshow(*x), key="bounds|dir|" + name)
        a, b = ("call", name, (own,)), ("call", name, (o,))
        for t, v in fs.items():
            if (t[0] in ("<", "==")) and contains(t, lambda y: y == b or y == a):
                good = t[0] == "<" and set(t[1:]) == {a, b}
                if not good or v != (t[1:] == ((b, a) if name == "upper_bound" else (a, b))):
                    self.res.bad("bounds", at, "tighter bounds are not passed on (%s)" % show(t), key="bounds|cond|" + name)


def bounds(prog, res, eff):
    for i in prog.find("Solver::update_bounds"):
        r = Bounds(res)
        E = Engine(prog, r, eff)
        E.exclude = set()
        E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for n in ("lower_bound", "upper_bound"):
            if n not in r.kinds:
                res.bad("bounds", i.body.loc, "the %s is not passed on" % n.replace("_", " "), key="bounds|none|" + n)


def run(prog, res, tier):
    res.rule("simple", "a constraint over one variable is related to exactly the order literal it stands for")
    res.rule("dom", "the values outside of a domain, and only those, are excluded")
    res.rule("fact", "order literals are fixed to the truth value they have")
    res.rule("bounds", "bounds are passed on to other threads as they are")
    eff = Effects(prog)
    simple(prog, res, eff)
    dom(prog, res, eff)
    fact(prog, res, eff)
    bounds(prog, res, eff)
