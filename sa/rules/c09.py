"""Order literals are registered, linked, and watched."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import Base, facts, one, unwas

EXPLANATION = (
    "Path-sensitive symbolic analysis of all functions that give an order literal to a variable or watch literals: each literal "
    "stored for a variable must be entered in the literal map under its own variable and value and be watched in both polarities, "
    "or be a fact that is queued for propagation; the initialization must watch all constraints.")


def slot(vs, value):
    return ("fld", vs, ("order", value))


def is_slot(t):
    return t[0] == "fld" and isinstance(t[2], tuple) and t[2][0] == "order"


def negated(t):
    """A literal up to its sign: (literal, sign)."""
    s = 1
    while t[0] in ("neg", "copyof") or t[0] == "*" and ("i", 1) in t[1:]:
        if t[0] == "neg":
            s = -s
        t = t[2] if t[0] == "*" and t[1] == ("i", 1) else t[1]
    if t[0] == "i" and t[1] < 0:
        return ("i", -t[1]), -s
    if t[0] == "*" and ("i", -1) in t[1:]:
        return t[2] if t[1] == ("i", -1) else t[1], -s
    if t[0] == "-" and len(t) == 3 and t[1] == ("i", 0):
        return t[2], -s
    return t, s


def same(a, b):
    return negated(unwas(a)) == negated(unwas(b))


class Order(Base):
    """rs: stores, entries of the literal map, facts and watches on the path."""
    classes = ("Solver", "VarState")
    opaque = ("get_or_add_literal", "set_literal", "unset_literal", "get_literal_", "has_literal", "update_litmap_", "litmap_at_", "var_state", "map_offset",
              "min_bound", "max_bound", "lower_bound", "upper_bound", "var", "value", "prev", "succ", "valid", "invalid", "unset", "config",
              "propagate_variables_", "update_upper_", "update_lower_", "push_level_", "lit_lt", "lit_gt", "lit_succ", "lit_prev")

    def init(self):
        self.stores = 0
        self.done = set()
        self.skip = set()

    def direct(self, fn):
        return fn.info.name not in self.opaque and any(
            n.fn is not None and n.fn.name in ("get_or_add_literal", "set_literal", "update_litmap_", "add_watch") or n.k == "MemberExpr" and n.get("name") in ("litmap_", "factmap_")
            for n in fn.allnodes()) and last(fn.info.cls) in ("Solver",)

    def keep(self, t):
        return t[0] == "<" and (calls(t, "min_bound") or calls(t, "max_bound"))

    def ret(self, E, ctx, st, n, value):
        if ctx.parent is None and value is not None:
            st = st.with_rs(st.rs | {("ret", unwas(one(value)))})
        return st

    def key(self, E, st, t):
        t = one(E.load(st, t[1] if t[0] == "ref" else t))
        return unwas(t)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        c = last(t.cls)
        at = ctx.fn.at(n)
        if c == "VarState":
            vs = self.key(E, st, obj) if obj is not None else ("x",)
            if t.name == "get_or_add_literal":
                if not n.lv and False:
                    return None
                s = slot(vs, vals[0])
                return [(st.with_rs(rs | {("slot", s, at)}), ("ref", s) if n.lv else s)]
            if t.name == "set_literal":
                return [(x, r) for x in E.assign(ctx, st, slot(vs, vals[0]), vals[1], n)]
            if t.name == "unset_literal":
                return [(st, r)]
            return [(st, ("call", t.name, (vs,) + tuple(vals)))] if t.name != "var" else [(st, self.var(vs))]
        if c == "LitmapEntry" and t.name in self.opaque and t.name != "unset" and t.const:
            o = self.key(E, st, obj)
            return [(st, ("call", t.name, (o,) + tuple(vals)))]
        if t.name == "map_offset":
            return [(st, ("call", "map_offset", (negated(unwas(vals[0]))[0],)))]
        if t.name == "litmap_at_":
            return [(st, ("call", "litmap_at_", (unwas(vals[0]),)))]
        if t.name == "var_state":
            return [(st, ("call", "var_state", (unwas(vals[0]),)))]
        if t.name == "update_litmap_":
            return [(st.with_rs(rs | {("link", self.key(E, st, args[0]), unwas(vals[1]), vals[2])}), ("call", "update_litmap_", (self.key(E, st, args[0]), unwas(vals[1]), vals[2])))]
        if t.name == "add_watch":
            l, s = negated(unwas(vals[0]))
            return [(st.with_rs(rs | {("watch", l, s)}), r)]
        if t.name == "add_literal":
            return [(st.with_rs(rs | {("fresh", r)}), r)]
        if t.name in ("emplace_back", "push_back") and obj is not None and refers(E.storage(st, obj), "factmap_"):
            v = vals if len(vals) == 4 else list(one(vals[0])[2]) if vals and one(vals[0])[0] == "new" and len(one(vals[0])[2]) == 4 else None
            if v is None:
                self.res.bad("fact", at, "a fact is queued as %s" % " ".join(show(x) for x in vals), key="fact|form|" + at)
                return [(st, r)]
            v = [unwas(x) for x in v]
            self.fact(st, at, v)
            return [(st.with_rs(rs | {("fact", v[0], v[1], v[2])}), r)]
        return None

    @staticmethod
    def var(vs):
        return vs[2][0] if vs[0] == "call" and vs[1] == "var_state" else ("call", "var", (vs,))

    def fact(self, st, at, v):
        lit, var, val, prec = v
        self.res.ok("fact", "%s: %s for variable %s and value %s" % (at, show(lit), show(var), show(val)))
        if lit not in (("i", 1), ("i", -1)):
            self.res.bad("fact", at, "%s is queued as a fact" % show(lit), key="fact|lit|" + at)
            return
        up = lit == ("i", 1)
        # the neighbour the bound is propagated to
        ok = False
        if prec[0] == "fld" and prec[2] in ("first", "second", "#0", "#1") and prec[1][0] == "call" and prec[1][1] == "update_litmap_":
            a = prec[1][2]
            ok = prec[2] in (("second", "#1") if up else ("first", "#0")) and a[1] == lit and a[2] == val and self.var(a[0]) == var
        elif prec[0] == "call" and prec[1] in ("succ", "prev"):
            ok = prec[1] == ("succ" if up else "prev") and var == ("call", "var", prec[2][:1])
        if not ok:
            self.res.bad("fact", at, "the fact %s for value %s is queued with the neighbour %s" % ("<=" if up else ">", show(val), show(prec)), key="fact|prec|" + at)

    def write(self, E, ctx, st, lv, value, n):
        at = ctx.fn.at(n)
        if is_slot(lv):
            self.stores += 1
            v = unwas(value)
            old = {x for x in st.rs if x[0] == "store" and x[1] == lv}
            if not old:
                self.free(st, ctx, lv, v, at)
            return [st.with_rs((st.rs - old) | {("store", lv, v, at)})]
        if lv[0] == "idx" and refers(lv[1], "litmap_"):
            v = one(value)
            while v[0] == "new" and len(v[2]) == 1:
                v = one(v[2][0])
            if v[0] == "new" and len(v[2]) == 5:
                lit, var, val, prev, succ = [unwas(x) for x in v[2]]
                self.entry(st, at, unwas(lv[2]), lit, var, val, prev, succ)
                return [st.with_rs(st.rs | {("entry", lit, var, val)})]
            self.res.bad("map", at, "an entry of the literal map is set to %s" % show(value), key="map|form|" + at)
        return [st]

    def entry(self, st, at, pos, lit, var, val, prev, succ):
        self.res.ok("map", "%s: %s for variable %s and value %s" % (at, show(lit), show(var), show(val)))
        if pos != ("call", "map_offset", (negated(lit)[0],)):
            self.res.bad("map", at, "the literal %s is entered at position %s" % (show(lit), show(pos)), key="map|pos|" + at)
        for x, fs, txt in ((prev, ("first", "#0"), "preceding"), (succ, ("second", "#1"), "succeeding")):
            ok = False
            if x[0] == "fld" and x[2] in fs and x[1][0] == "call" and x[1][1] == "update_litmap_":
                a = x[1][2]
                ok = a[1] == lit and a[2] == val and self.var(a[0]) == var
            if not ok:
                self.res.bad("map", at, "the literal %s is entered with %s as %s literal" % (show(lit), show(x), txt), key="map|link|" + at)

    def free(self, st, ctx, lv, v, at):
        """A literal may only be given to values in the domain that do not have one."""
        fs = facts(st)
        vs, val = lv[1], lv[2][1]
        lo = ("<", val, ("call", "min_bound", (vs,)))
        hi = ("<", val, ("call", "max_bound", (vs,)))
        top = vs[0] == "call" and vs[1] == "var_state" and vs[2][0][0] == "call" and vs[2][0][1] == "var" and val[0] == "call" and val[1] == "value"
        if top:
            # an existing literal that became fixed
            if v not in (("i", 1), ("i", -1)):
                self.res.bad("free", at, "the order literal of an existing entry is replaced by %s" % show(v), key="free|replace|" + at)
            return
        self.res.ok("free", "%s: literal for value %s" % (at, show(val)))
        if fs.get(lo) is not False:
            self.res.bad("free", at, "a literal is given to a value that may be below the domain", key="free|lo|" + ctx.fn.info.q)
        if fs.get(hi) is not True:
            self.res.bad("free", at, "a literal is given to a value that may be above the domain", key="free|hi|" + ctx.fn.info.q)
        none = fs.get(("call", "has_literal", (vs, val))) is False or fs.get(("==", lv, ("i", 0))) is True or fs.get(("==", ("i", 0), lv)) is True or fs.get(lv) is False
        if not none:
            self.res.bad("free", at, "a literal that is in use is replaced", key="free|used|" + ctx.fn.info.q)


def judge(res, st, ret, loc):
    for s in [x for x in st.rs if x[0] == "store"]:
        _, lv, v, at = s
        vs, val = lv[1], lv[2][1]
        var = Order.var(vs)
        if v in (("i", 1), ("i", -1)):
            res.ok("create", "%s: fact for value %s" % (at, show(val)))
            if ("fact", v, var, val) not in st.rs:
                res.bad("create", at, "the order literal of value %s becomes a fact that is not queued for propagation" % show(val), key="create|fact|" + at)
            if not any(x[0] == "link" and x[1] == vs and x[2] == v and x[3] == val for x in st.rs):
                res.bad("create", at, "the neighbours of the fact for value %s are not linked to it" % show(val), key="create|flink|" + at)
        else:
            res.ok("create", "%s: literal for value %s" % (at, show(val)))
            l, sg = negated(v)
            if ("entry", v, var, val) not in st.rs:
                res.bad("create", at, "the order literal of value %s is not entered in the literal map" % show(val), key="create|entry|" + at)
            for s2 in (1, -1):
                if ("watch", l, s2) not in st.rs:
                    res.bad("create", at, "%s order literal of value %s is not watched" % ("the" if s2 == sg else "the negation of the", show(val)), key="create|watch|" + at)
            # an entry of the map may only be overwritten if it is empty
            if ("fresh", l) not in st.rs:
                fs = facts(st)
                ok = False
                for t, b in fs.items():
                    if t[0] == "call" and t[1] == "invalid" and b is True or t[0] == "call" and t[1] == "valid" and b is False:
                        e = t[2][0]
                        if e[0] == "call" and e[1] == "litmap_at_" and negated(e[2][0])[0] == l and (t[1] == "invalid" or False):
                            ok = True
                if not ok:
                    res.bad("create", at, "the literal %s may already stand for another order literal" % show(v), key="create|shared|" + at)


def bounds(prog, res, r, i, st, ret, loc):
    """Values outside the domain have fixed literals."""
    if ret is None or i.name not in ("get_literal", "update_literal"):
        return
    rets = [x[1] for x in st.rs if x[0] == "ret"]
    ret = rets[0] if len(rets) == 1 else unwas(one(ret))
    fs = facts(st)
    lo = [b for t, b in fs.items() if t[0] == "<" and calls(t[2], "min_bound") and t[1][0] == "arg"]
    hi = [b for t, b in fs.items() if t[0] == "<" and calls(t[2], "max_bound") and t[1][0] == "arg"]
    if any(x[0] == "store" for x in st.rs):
        want = [x[2] for x in st.rs if x[0] == "store"]
        if ret not in want and not is_slot(ret):
            res.bad("value", loc, "the literal returned is %s instead of %s" % (show(ret), show(want[0])), key="value|new|" + i.name)
        res.ok("value", "exit of %s with a new literal" % i.name)
    elif ret in (("i", 1), ("i", -1)):
        res.ok("value", "exit of %s with %s" % (i.name, show(ret)))
        if ret[1] < 0 and lo != [True]:
            res.bad("value", loc, "a value is taken to be below the domain without a check", key="value|lo|" + i.name)
        if ret[1] > 0 and hi != [False]:
            res.bad("value", loc, "a value is taken to be above the domain without a check", key="value|hi|" + i.name)
    elif is_slot(ret):
        res.ok("value", "exit of %s with the existing literal" % i.name)
    elif calls(ret, "get_literal"):
        pass
    else:
        res.bad("value", loc, "%s is returned as order literal" % show(ret), key="value|odd|" + i.name)


def order(prog, res, eff):
    seen = set()
    roots = []
    users = [i for i in prog.info.values() if i.body is not None and any(n.fn is not None and n.fn.name in ("get_or_add_literal", "set_literal") and last(n.fn.cls) == "VarState" for n in i.body.allnodes())]
    users = [i for i in users if last(i.cls) != "VarState"]
    if not users:
        raise AnalysisBroken("no function gives order literals to variables")
    for i in users:
        if i.body.lambda_ if hasattr(i.body, "lambda_") else i.lambda_:
            continue
        roots.append(i)
    r = Order(res)
    callers = {}
    for f in prog.fns.values():
        for n in f.allnodes():
            if n.fn is not None:
                callers.setdefault(n.fn.id, set()).add(f.id)
    for i in roots:
        # extracted helpers are judged in the context of their callers
        if i.name not in ("get_literal", "update_literal", "add_simple", "update_domain_") and last(i.cls) == "Solver":
            up = [prog.fns[c].info for c in callers.get(i.id, ())]
            if up and all(last(u.cls) == "Solver" for u in up):
                roots.extend(u for u in up if u not in roots)
                continue
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        for st, ret in exits:
            judge(res, st, ret, loc)
            bounds(prog, res, r, i, st, ret, loc)
            if not any(x[0] == "store" for x in st.rs):
                for x in st.rs:
                    if x[0] == "slot" and not (facts(st).get(("==", x[1], ("i", 0))) is False or facts(st).get(x[1]) is True):
                        res.bad("create", x[2], "a value is left without a literal", key="create|none|" + i.name)
    for n in ("get_literal", "update_literal", "add_simple"):
        if not any(i.name == n for i in roots):
            raise AnalysisBroken("Solver::%s does not give order literals to variables" % n)


# ---- links between neighbours -----------------------------------------------
class Link(Base):
    classes = ("Solver",)
    opaque = ("litmap_at_", "lit_lt", "lit_gt", "lit_succ", "lit_prev", "valid", "invalid", "set_succ", "set_prev", "var", "value")

    def direct(self, fn):
        return fn.info.name not in self.opaque and last(fn.info.cls) == "Solver"

    def keep(self, t):
        return calls(t, "lit_lt") or calls(t, "lit_gt") or t[0] == "arg" or t[0] == "==" and t[1][0] == "arg"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name in ("lit_lt", "lit_gt", "lit_succ", "lit_prev", "lit_le", "lit_ge"):
            return [(st, ("call", t.name, tuple(vals)))]
        if t.name == "litmap_at_":
            return [(st, ("call", t.name, tuple(vals)))]
        if t.name in ("valid", "invalid"):
            return [(st, ("call", t.name, (E.load(st, obj),) + tuple(vals)))]
        if t.name in ("set_succ", "set_prev"):
            return [(st.with_rs(st.rs | {(t.name, unwas(E.load(st, obj)), vals[0], ctx.fn.at(n))}), r)]
        return None


def link(prog, res, eff):
    for i in prog.find("Solver::update_litmap_"):
        r = Link(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        lits = [("arg", k) for k, t in enumerate(i.pt)]
        seen = set()
        for st, ret in exits:
            fs = facts(st)
            ret = one(ret)
            if ret[0] == "var":
                ret = E.load(st, ret)
            res.ok("link", "exit of Solver::update_litmap_")
            for side, nb, setter, inner in ((0, "lit_lt", "set_succ", "lit_succ"), (1, "lit_gt", "set_prev", "lit_prev")):
                nbs = {t for t in terms(list(fs) + [ret] + [x for x in st.rs]) if t[0] == "call" and t[1] == nb}
                if len(nbs) != 1:
                    res.bad("link", loc, "the %s order literal is not determined" % ("preceding" if side == 0 else "succeeding"), key="link|%s" % nb)
                    continue
                x = nbs.pop()
                none = fs.get(("==", x, ("i", 0)))
                if none is None and x in fs:
                    none = not fs[x]
                got = field(E, st, ret, side)
                if none is True:
                    if got != ("i", -1 if side == 0 else 1):
                        res.bad("link", loc, "without %s literal %s is reported" % ("preceding" if side == 0 else "succeeding", show(got)), key="link|default%d" % side)
                elif got != x:
                    res.bad("link", loc, "the %s literal reported is %s" % ("preceding" if side == 0 else "succeeding", show(got)), key="link|report%d" % side)
                ent = ("call", "litmap_at_", (x,))
                valid = fs.get(("call", "valid", (ent, x)))
                sets = [s for s in st.rs if s[0] == setter]
                if none is True or valid is False:
                    if any(s[1] == ent for s in sets):
                        res.bad("link", loc, "an entry that does not stand for the neighbour is changed", key="link|invalid%d" % side)
                    continue
                if none is False and valid is None and not sets:
                    res.bad("link", loc, "the neighbour is not linked to the literal", key="link|none%d" % side)
                    continue
                if none is False:
                    seen.add(side)
                    if not sets:
                        res.bad("link", loc, "the neighbour is not linked to the literal", key="link|none%d" % side)
                    for s in sets:
                        if s[1] != ent:
                            res.bad("link", s[3], "%s is applied to %s" % (setter, show(s[1])), key="link|obj%d" % side)
                        v = one(s[2])
                        lit = [t for t in fs if t[0] == "==" and ("i", 0) in t[1:] and t[1][0] == "arg"] or [t for t in fs if t[0] == "arg"]
                        zero = None
                        for t in lit:
                            zero = fs[t] if t[0] == "==" else not fs[t]
                            l = t[1] if t[0] == "==" else t
                        ok = zero is False and v == l or zero is True and v[0] == "call" and v[1] == inner
                        if not ok:
                            res.bad("link", s[3], "the neighbour is linked to %s %s" % (show(v), "when the literal is dropped" if zero else "when a literal is added"), key="link|val%d" % side)
        for side in (0, 1):
            if side not in seen:
                res.bad("link", loc, "%s literals are not linked" % ("preceding", "succeeding")[side], key="link|side%d" % side)


def terms(ts):
    for t in ts:
        if isinstance(t, tuple) and t:
            if isinstance(t[0], str):
                yield t
            yield from terms([x for x in t if isinstance(x, tuple)])


def field(E, st, ret, k):
    """A component of the returned pair, which may be held in a local variable."""
    for f in (("first", "second")[k], "#%d" % k):
        vs = {v for (t, b, n), v in ((x, v) for x, v in st.env.items() if x[0] == "f") if n == f and (b == ret or b[0] == "var")}
        if len(vs) == 1:
            return unwas(one(vs.pop()))
    if ret[0] == "new" and len(ret[2]) == 2:
        return unwas(one(ret[2][k]))
    return unwas(one(E.load(st, ("fld", ret, ("first", "second")[k]))))


# ---- watches ----------------------------------------------------------------
def forward(prog, res, eff):
    """Clause creators pass watches on."""
    class Fwd(Base):
        def event(self, E, ctx, st, n, t, obj, vals, args):
            if t.name == "add_watch" and "AbstractClauseCreator" not in t.cls:
                thread = vals[1] if len(vals) > 1 else None
                return [(st.with_rs(st.rs | {(vals[0], thread, ctx.fn.at(n))}), ("r", t.q, ctx.fn.id, n.i))]
            return None

        def direct(self, fn):
            return any(n.fn is not None and n.fn.name == "add_watch" for n in fn.allnodes())
    base = [i for i in prog.info.values() if i.name == "add_watch" and last(i.cls) == "AbstractClauseCreator"]
    if not base:
        raise AnalysisBroken("AbstractClauseCreator::add_watch not found")
    impl = [prog.info[x] for b in base for x in prog.overriders.get(b.id, ()) if x in prog.info and prog.info[x].body is not None]
    if not impl:
        raise AnalysisBroken("no implementation of AbstractClauseCreator::add_watch")
    for i in impl:
        E = Engine(prog, Fwd(res), eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, _ in exits:
            res.ok("watch", "exit of %s" % i.q)
            if not any(x[0][0] == "arg" and x[1] in (None, ("b", True)) or x[0][0] == "arg" and x[1] is not None and x[1][0] == "x" for x in st.rs):
                res.bad("watch", i.body.loc, "%s does not pass the watch on%s" % (i.q, " for all threads" if st.rs else ""), key="watch|fwd|" + i.q)


class Inherit(Base):
    """Watching the literals of the previous steps."""
    opaque = ("valid", "invalid", "map_lit")

    def direct(self, fn):
        return last(fn.info.cls) == "Solver" and fn.info.name not in self.opaque

    def init(self):
        self.n = 0

    def settle(self, st, at):
        w = {x[1:] for x in st.rs if x[0] == "watch"}
        cond = [x[1] for x in st.rs if x[0] == "valid"]
        for l, s in w:
            self.n += 1
            if (l, -s) not in w:
                self.res.bad("watch", at, "only one polarity of an inherited order literal is watched", key="watch|inherit|polarity")
            if not calls(l, "map_lit") and not (l[0] in ("+", "phi") or l[0] == "i"):
                self.res.bad("watch", at, "%s is watched instead of the inherited order literal" % show(l), key="watch|inherit|lit")
        if not w and ("entry",) in st.rs and False not in cond:
            self.res.bad("watch", at, "an inherited order literal is not watched", key="watch|inherit|skip")

    def start(self, st, at):
        self.settle(st, at)
        return st.with_rs(frozenset({("entry",)})).forget(lambda x: x[0] == "call" and last(x[1]) in ("map_lit", "valid", "invalid"))

    def declare(self, E, ctx, st, d, value, n):
        if value[0] in ("elem", "copyof") and refers(value, "litmap_") or value[0] == "idx" and value[1][0] == "fld" and value[1][2] == "litmap_":
            st = self.start(st, ctx.fn.at(n))
        return st, value

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name == "map_lit":
            return [(st, ("call", t.name, ()))]
        if t.name in ("valid", "invalid"):
            return [(st, ("call", t.name, (unwas(E.load(st, obj)),)))]
        if t.name == "add_watch":
            l, s = negated(unwas(vals[0]))
            return [(st.with_rs(st.rs | {("watch", l, s)}), r)]
        return None

    def branch(self, E, ctx, st, term, value):
        if calls(term, "invalid"):
            return st.with_rs(st.rs | {("valid", not value)})
        if calls(term, "valid"):
            return st.with_rs(st.rs | {("valid", value)})
        if term[0] == "==" and ("i", 0) in term[1:] and calls(term, "map_lit"):
            return st.with_rs(st.rs | {("valid", not value)})
        return st


def inherit(prog, res, eff):
    for i in prog.find("Solver::watch_literals"):
        r = Inherit(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, _ in exits:
            res.ok("watch", "exit of Solver::watch_literals")
            r.settle(st, i.body.loc)
        if not r.n:
            res.bad("watch", i.body.loc, "inherited order literals are not watched", key="watch|inherit|none")


class InitWatch(Base):
    opaque = ("remove_minimize", "prepare_minimize", "simplify_", "update_minimize", "translate_", "parse", "commit", "master_", "watch_literals")

    def init(self):
        self.cons = set()

    def direct(self, fn):
        return (last(fn.info.cls) == "Propagator" or fn.info.lambda_) and fn.info.name not in self.opaque

    def no_inline(self, info):
        return info.name in self.opaque or last(info.cls) in ("Solver", "InitClauseCreator", "ConstraintBuilder")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        if t.name in ("parse", "simplify_", "translate_", "commit") and t.ret == "bool":
            return [(st.with_rs(rs | {t.name}), r)]
        if t.name == "literal" and not vals and obj is not None:
            return [(st, ("call", "literal", (unwas(E.load(st, obj)),)))]
        if t.name == "number_of_threads":
            return [(st, ("call", "number_of_threads", ()))]
        if t.name == "add_watch":
            v = unwas(vals[0])
            if v[0] == "call" and v[1] == "literal":
                o = v[2][0]
                self.cons.add(("one", o) if calls(o, "front") or calls(o, "back") or o[0] == "idx" and o[2][0] == "i" else ("many", None))
                if "translate_" not in rs:
                    self.res.bad("watch", at, "constraints are watched before translation adds further ones", key="watch|init|order")
                return [(st.with_rs(rs | {"watched"}), r)]
            self.res.bad("watch", at, "%s is watched instead of the literal of a constraint" % show(v), key="watch|init|what")
            return [(st, r)]
        if t.name == "watch_literals":
            o = E.storage(st, obj) if obj is not None else ("x",)
            return [(st.with_rs(rs | {"inherited"}), r)]
        if t.name in ("emplace_back", "push_back", "resize") and obj is not None and unwas(E.storage(st, obj))[0] == "fld" and unwas(E.storage(st, obj))[2] == "solvers_":
            return [(st.with_rs(rs | {"grown"}), r)]
        return None

    def branch(self, E, ctx, st, term, value):
        t = unwas(term)
        if t[0] == "<" and "grown" not in st.rs and calls(t, "number_of_threads") and refers(t, "solvers_") and calls(t, "size"):
            d = lin(t[2], -1, lin(t[1]))
            c = d.pop(None, 0)
            ks = {"n" if calls(x, "number_of_threads") else "s": k for x, k in d.items()}
            new = None
            if ks == {"s": 1, "n": -1} and c == 0:
                new = value
            elif ks == {"s": -1, "n": 1} and c == -1:
                new = not value
            if new is not None:
                return st.with_rs(st.rs | {"new" if new else "same"})
        return st

    def keep(self, t):
        return calls(t, "number_of_threads")


def init(prog, res, eff):
    for i in prog.find("Propagator::init"):
        r = InitWatch(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        names = {"parse", "update_bounds", "simplify_", "translate_", "commit", "add_clause", "propagate"}
        full = 0
        for st, _ in exits:
            if "translate_" not in st.rs or any(t[0] == "r" and last(t[1]) in names and b is False for t, b in facts(st).items()):
                continue
            full += 1
            res.ok("watch", "exit of Propagator::init without a conflict")
            if "inherited" not in st.rs and "same" not in st.rs:
                res.bad("watch", loc, "threads added in a later step do not watch the order literals they inherit", key="watch|init|inherit")
        if not full:
            raise AnalysisBroken("no complete path through Propagator::init")
        if not r.cons:
            res.bad("watch", loc, "the literals of constraints are not watched", key="watch|init|none")
        elif len(r.cons) == 1 and list(r.cons)[0][0] == "one":
            res.bad("watch", loc, "only the literal of %s is watched" % show(list(r.cons)[0][1]), key="watch|init|one")


def run(prog, res, tier):
    res.rule("create", "a literal given to a value is entered in the literal map and watched in both polarities, or queued as a fact")
    res.rule("free", "literals are only given to values in the domain that do not have one")
    res.rule("map", "entries of the literal map state the variable, value and neighbours of their literal")
    res.rule("fact", "facts are queued with their sign, variable, value and neighbour")
    res.rule("link", "neighbouring order literals are linked to a new literal")
    res.rule("value", "fixed literals stand for values outside the domain only")
    res.rule("watch", "literals of constraints and inherited order literals are watched, and watches are passed on")
    eff = Effects(prog)
    order(prog, res, eff)
    link(prog, res, eff)
    forward(prog, res, eff)
    inherit(prog, res, eff)
    init(prog, res, eff)
    for n, k in (("create", 4), ("free", 2), ("map", 1), ("fact", 2), ("link", 4), ("value", 4), ("watch", 4)):
        res.need(n, k)
