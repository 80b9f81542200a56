"""Backtracking restores the search state."""
import re

from ..absint import Engine, Rule, contains, show
from ..core import AnalysisBroken, CALLS
from ..effects import Effects
from ..lib import in_region, strip
from .c04 import conditional, const_cond, is_state, loops_around, root_field, skips

EXPLANATION = (
    "Trail discipline analysis: on every path, a change of a bound above the top level is preceded by saving it and recorded "
    "on a trail; the trails are found from the level constructor and every one must be replayed and truncated on every path "
    "of undo; the update and undo functions of every constraint state are compared symbolically (same condition, inverse effect).")

STATE = "AbstractConstraintState"
VS = "VarState"


def last(q):
    return q.split("::")[-1]


class Roles:
    """Which functions save, restore, set, and query bounds."""

    def __init__(self, prog, eff):
        self.set, self.push, self.pop, self.query = {}, {}, {}, {}
        for i in prog.info.values():
            if i.body is None or i.cls != VS and last(i.cls) != VS or i.kind == "ctor" or i.name == "operator=" or i.lambda_ or i.kind == "dtor":
                continue
            for side in ("lower", "upper"):
                bound, stack = side + "_bound_", side + "_bound_stack_"
                other = ("upper" if side == "lower" else "lower") + "_bound_"
                w = {k[1] for k in eff.mod[i.id] if last(k[0]) == VS}
                r = {k[1] for x in prog.reachable([i.id]) for k in eff.dref.get(x, ()) if last(k[0]) == VS}
                if bound in w and other in w:
                    continue
                grows = any(n.k in CALLS and n.fn is not None and n.fn.name in ("emplace_back", "push_back") for n in on_field(i.body, stack))
                shrinks = any(n.k in CALLS and n.fn is not None and n.fn.name == "pop_back" for n in on_field(i.body, stack))
                if bound in w and stack not in w:
                    self.set[i.id] = side
                elif grows and not shrinks:
                    self.push[i.id] = side
                elif shrinks and not grows:
                    self.pop[i.id] = side
                elif not w and stack in r and len(i.pt) == 1 and i.ret == "bool":
                    self.query[i.id] = side


def on_field(fn, name):
    """Member calls on a field."""
    return [n for n in fn.allnodes() if n.k in CALLS and n.get("obj") is not None and strip(n.get("obj")).k == "MemberExpr" and strip(n.get("obj")).get("name") == name]


def accessors(prog, res, eff, roles):
    """Saving stores the own bound together with the level; restoring takes it back from the own stack."""
    for fid, side in sorted(roles.push.items()):
        f = prog.fns[fid]
        res.funcs({fid})
        own, oth = side + "_bound_", ("upper" if side == "lower" else "lower") + "_bound_"
        res.ok("saved", "%s stores the %s bound and its level" % (f.info.short, side))
        names, params = set(), False
        for n in on_field(f, side + "_bound_stack_"):
            if n.fn is None or n.fn.name not in ("emplace_back", "push_back"):
                continue
            for a in n.get("args") or ():
                names |= {m.get("name") for m in a.walk() if m.k == "MemberExpr"}
                params = params or any(m.k == "DeclRefExpr" for m in a.walk())
        if own not in names and own not in {k[1] for x in prog.reachable([fid]) for k in eff.dref.get(x, ())} or oth in names:
            res.bad("saved", f.at(f.body), "%s does not save the %s bound" % (f.info.short, side), key="saved|push|" + side)
        if own in {k[1] for k in eff.mod[fid]}:
            res.bad("saved", f.at(f.body), "%s changes the %s bound while saving it" % (f.info.short, side), key="saved|push|" + side)
    for fid, side in sorted(roles.pop.items()):
        f = prog.fns[fid]
        res.funcs({fid})
        own, oth = side + "_bound_", ("upper" if side == "lower" else "lower") + "_bound_"
        stack = side + "_bound_stack_"
        res.ok("saved", "%s restores the %s bound" % (f.info.short, side))

        class R(Rule):
            def keep(self, t):
                return True

            def write(self, E, ctx, st, lv, value, n):
                if lv[0] == "fld":
                    return [st.with_rs(st.rs | {(lv[2], value, "late" in st.rs)})]
                return [st]

            def call(self, E, ctx, st, n, t, obj, args):
                if t.name == "pop_back" and obj is not None and field_of(E.storage(st, obj)) == stack:
                    return [(st.with_rs(st.rs | {"cut"}), ("void",))]
                if t.name in ("back", "rbegin", "end") and "cut" in st.rs and obj is not None and field_of(E.storage(st, obj)) == stack:
                    return [(st.with_rs(st.rs | {"late"}), ("r", t.q, ctx.fn.id, n.i))]
                return None
        outs = Engine(prog, R(), eff).analyse(f.info, frozenset())
        for st, _ in outs:
            ws = [x for x in st.rs if isinstance(x, tuple) and x[0] == own]
            good = [x for x in ws if contains(x[1], lambda y: y[0] == "fld" and y[2] == stack) or "call" in repr(x[1]) or x[1][0] == "r"]
            if not ws or not good:
                res.bad("saved", f.at(f.body), "%s shrinks %s without restoring the %s bound from it" % (f.info.short, stack, side), key="saved|pop|" + side)
            elif any(contains(x[1], lambda y: y[0] == "fld" and y[2] == ("upper" if side == "lower" else "lower") + "_bound_stack_") for x in ws):
                res.bad("saved", f.at(f.body), "%s restores the %s bound from the wrong stack" % (f.info.short, side), key="saved|pop|" + side)
            elif any(x[2] for x in ws if contains(x[1], lambda y: y[0] == "fld" and y[2] == stack)):
                res.bad("saved", f.at(f.body), "%s reads the saved %s bound after removing it" % (f.info.short, side), key="saved|pop|" + side)


class Save(Rule):
    """Bounds are saved before they change."""
    inline_small = 60

    def __init__(self, res, prog, roles, trails):
        self.res, self.prog, self.roles, self.trails = res, prog, roles, trails
        self.pairs = {}

    def direct(self, fn):
        return False

    def no_inline(self, info):
        return last(info.cls) == VS

    def keep(self, t):
        return True

    def call(self, E, ctx, st, n, t, obj, args):
        o = E.storage(st, obj) if obj is not None else None
        if o is not None and o[0] in ("ref", "var"):
            o = E.load(st, o)
        if t.id in self.roles.push:
            return [(st.with_rs(st.rs | {("push", self.roles.push[t.id], o, ctx.fn.at(n))}), ("void",))]
        if t.id in self.roles.pop:
            return [(st.with_rs(frozenset(x for x in st.rs if x[1] != self.roles.pop[t.id])), ("void",))]
        if t.id in self.roles.query:
            return [(st, ("pushed", self.roles.query[t.id], o))]
        if t.id in self.roles.set:
            side = self.roles.set[t.id]
            self.res.ok("saved", "%s: %s bound in %s" % (ctx.fn.at(n), side, ctx.fn.info.short))
            ok = any(x[0] == "push" and x[1] == side and x[2] == o for x in st.rs)
            for f, v in st.facts.items():
                if f == ("pushed", side, o) and v:
                    ok = True
                if top_level(f, v):
                    ok = True
            if not ok:
                self.res.bad("saved", ctx.fn.at(n), "the %s bound of a variable is changed in %s without saving it for backtracking" %
                             (side, ctx.fn.info.short), key="saved|%s|%s" % (side, ctx.fn.info.short))
            return [(st.with_rs(st.rs | {("set", side, o, ctx.fn.at(n))}), ("void",))]
        if not t.inroot and o is not None and o[0] == "fld" and t.name in ("emplace_back", "push_back"):
            v = E.load(st, args[0][1]) if args[0][0] == "ref" else E.load(st, args[0])
            return [(st.with_rs(st.rs | {("rec", o[2], v, ctx.fn.at(n))}), ("void",))]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "idx" and lv[1][0] == "fld" and lv[1][2] in ("ldiff_", "udiff_"):
            return [st.with_rs(st.rs | {("diff", lv[1][2], lv[2], ctx.fn.at(n))})]
        return [st]


def top_level(f, v):
    """Does a branch fact say that the level is the top level?"""
    lvl = lambda t: contains(t, lambda x: x[0] == "fld" and x[2] == "level_" or x[0] == "call" and last(x[1]) in ("level", "decision_level"))
    if f[0] == "<" and f[1] == ("i", 0) and lvl(f[2]) and not v:
        return True
    if f[0] == "<" and lvl(f[1]) and f[2] == ("i", 1) and v:
        return True
    if f[0] == "==" and ("i", 0) in f[1:] and lvl(f) and v:
        return True
    if lvl(f) and f[0] in ("fld", "call") and not v:
        return True
    return False


def var_of(t, vs):
    """Is the term the variable of the given state?"""
    return contains(t, lambda x: x == vs)


class Undo(Rule):
    """What happens on the paths of undo."""
    inline_small = 80

    def __init__(self, res, prog, roles):
        self.res, self.prog, self.roles = res, prog, roles
        self.sites = {}
        self.diffs = []

    def direct(self, fn):
        return last(fn.info.cls) in ("Solver", "Level", "Propagator") or fn.info.lambda_ or fn.info.name in ("mark_active",)

    def hit(self, st, what, ctx, n, arg=None):
        chain = []
        c, x = ctx, n
        while c is not None and x is not None:
            chain.append((c.fn, x))
            x, c = c.site, c.parent
        self.sites.setdefault(what, []).append(chain)
        return st.with_rs(st.rs | {what})

    def call(self, E, ctx, st, n, t, obj, args):
        vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
        if t.id in self.roles.pop:
            st = self.hit(st, ("pop", self.roles.pop[t.id]), ctx, n)
            return None if t.body is not None else [(st, ("void",))]
        if t.name == "undo" and t.cls.split("::")[-1].find("State") >= 0 and len(vals) == 2:
            self.diffs.append((ctx, n, vals, dict(st.facts)))
            return [(self.hit(st, ("csundo",), ctx, n), ("void",))]
        if t.name == "mark_todo" and vals and t.inroot:
            if vals[0] == ("b", False):
                st = self.hit(st, ("untodo",), ctx, n)
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        if t.name == "inactive_level" and vals and t.inroot:
            if vals[0] == ("i", 0):
                st = self.hit(st, ("active",), ctx, n)
            return [(st, ("void",))]
        if t.inroot or obj is None:
            return None
        o = E.storage(st, obj)
        f = field_of(o)
        if f is None:
            return None
        if t.name in ("resize", "erase") and o[0] == "fld":
            names = set()
            for v in vals:
                contains(v, lambda x: names.add(x[2]) if x[0] == "fld" else False)
            return [(self.hit(st, ("cut", f, tuple(sorted(names - {f}))), ctx, n), ("void",))]
        if t.name == "clear" and o[0] == "fld":
            return [(self.hit(st, ("clear", f), ctx, n), ("void",))]
        if t.name in ("emplace_back", "push_back", "emplace", "insert") and f == "var_watches_":
            return [(self.hit(st, ("rewatch",), ctx, n), ("void",))]
        if t.name == "pop_back" and o[0] == "fld":
            return [(self.hit(st, ("popback", f), ctx, n), ("void",))]
        return None

    def write(self, E, ctx, st, lv, value, n):
        lv = E.storage(st, lv)
        if lv[0] == "idx" and lv[1][0] == "fld" and value == ("i", 0):
            return [self.hit(st, ("zero", lv[1][2]), ctx, n)]
        if lv[0] == "fld" and value[0] == "new" and not value[2]:
            return [self.hit(st, ("clear", lv[2]), ctx, n)]
        return [st]


def field_of(o):
    while isinstance(o, tuple) and o:
        if o[0] == "fld":
            return o[2]
        if o[0] in ("idx", "elem", "ref"):
            o = o[1]
        elif o[0] == "call" and o[2]:
            o = o[2][0]
        else:
            return None
    return None


def additive(t, sign=1, acc=None):
    acc = [] if acc is None else acc
    if t[0] == "+" and len(t) == 3:
        additive(t[1], sign, acc)
        additive(t[2], sign, acc)
    elif t[0] == "-" and len(t) == 3:
        additive(t[1], sign, acc)
        additive(t[2], -sign, acc)
    else:
        acc.append((sign, t))
    return acc


class Delta(Rule):
    """Effect of update/undo of a constraint state."""
    inline_small = 60

    def direct(self, fn):
        return False

    def keep(self, t):
        return True

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] != "fld" or lv[1][0] != "this":
            return [st]
        op, rhs = None, None
        if n.k == "CompoundAssignOperator":
            op = n.get("op").rstrip("=")
            a = additive(value)
            rhs = value
        d = None
        old = lambda t: t[0] == "fld" and t[2] == lv[2] or t[0] == "was" and t[-1] == lv
        parts = additive(value)
        if any(old(t) and s == 1 for s, t in parts):
            d = tuple(sorted((s, repr(t), t) for s, t in parts if not old(t)))
        return [st.with_rs(st.rs | {(lv[2], tuple((s, t) for s, _, t in d) if d is not None else ("set", value))})]


def signs(facts, x):
    """Possible signs of a term under branch facts."""
    s = {-1, 0, 1}
    for f, v in facts.items():
        if f[0] == "<" and f[1] == x and f[2] == ("i", 0):
            s &= {-1} if v else {0, 1}
        elif f[0] == "<" and f[2] == x and f[1] == ("i", 0):
            s &= {1} if v else {-1, 0}
        elif f[0] == "<" and f[1] == x and f[2] == ("i", 1):
            s &= {-1, 0} if v else {1}
        elif f[0] == "==" and x in f[1:] and ("i", 0) in f[1:]:
            s &= {0} if v else {-1, 1}
    return s


def inverse(prog, res, eff):
    count = 0
    for rec in prog.records.values():
        if not is_state(prog, rec["name"]) or last(rec["short"]) == STATE:
            continue
        ms = {}
        for m in rec["methods"]:
            i = prog.info[m["fn"]]
            if i.body is not None and i.name in ("update", "undo", "propagate") and (i.name == "propagate" or len(i.pt) == 2):
                ms.setdefault(i.name, i)
        if "update" not in ms or "undo" not in ms:
            continue
        short = rec["short"]
        up, un = ms["update"], ms["undo"]
        count += 1
        flds = set()
        own = class_names(prog, rec["name"])
        for i in (up,):
            flds |= {k[1] for k in eff.mod[i.id] if k[0] in own}
        undone = {k[1] for k in eff.mod[un.id] if k[0] in own}
        for f in sorted(flds):
            res.ok("inverse", "%s: %s" % (short, f))
            if f not in undone:
                res.bad("inverse", un.body.at(un.body.body), "%s is changed when a bound changes but not when the change is undone (%s)" % (f, short),
                        key="inverse|%s|%s" % (short, f))
        # symbolic comparison
        outs = {}
        for i in (up, un):
            E = Engine(prog, Delta(), eff)
            outs[i.name] = E.analyse(i, frozenset(), args=[("arg", 0, "i"), ("arg", 1, "diff")], this=("this", short))
            res.funcs(E.fns_seen | {i.id})
        xs = set()
        for st, _ in outs["update"] + outs["undo"]:
            for f, d in st.rs:
                if d and d[0] != "set":
                    for s, t in d:
                        xs.add(t)
        additive_fields = {f for st, _ in outs["update"] for f, d in st.rs if not (d and d[0] == "set")} & flds
        for a, _ in outs["update"]:
            for b, _ in outs["undo"]:
                if not feasible(a, b, xs):
                    continue
                da = {f: d for f, d in a.rs if f in additive_fields}
                db = {f: d for f, d in b.rs if f in additive_fields}
                for f in additive_fields:
                    x, y = da.get(f), db.get(f)
                    if x is None and y is None:
                        continue
                    res.ok("inverse", "%s: %s under matching conditions" % (short, f))
                    neg = tuple(sorted((-s, repr(t)) for s, t in x)) if x and x[0] != "set" else None
                    pos = tuple(sorted((s, repr(t)) for s, t in y)) if y and y[0] != "set" else None
                    if neg != pos:
                        res.bad("inverse", un.body.at(un.body.body), "undoing a change of a bound does not restore %s of %s (update adds %s, undo adds %s)" %
                                (f, short, showd(x), showd(y)), key="inverse|%s|%s" % (short, f))
        # caches invalidated by undo
        if "propagate" in ms:
            pr = ms["propagate"]
            for key, ns in eff.dmod[pr.id].items():
                if key[0] not in own or key[1] in ("todo_",):
                    continue
                for n in ns:
                    if n.k == "BinaryOperator" and n.get("op") == "=" and n.kids[1].cv is not None and n.type == "bool":
                        v = n.kids[1].cv
                        res.ok("cache", "%s.%s" % (short, key[1]))
                        ok = all(any(f == key[1] and len(d) == 2 and d[0] == "set" and d[1][0] == "b" and int(d[1][1]) != int(v) for f, d in st.rs) for st, _ in outs["undo"])
                        if not ok:
                            res.bad("cache", un.body.at(un.body.body), "%s of %s is not invalidated when a bound change is undone" % (key[1], short),
                                    key="cache|%s|%s" % (short, key[1]))
    return count


def showd(d):
    if d is None:
        return "nothing"
    if d and d[0] == "set":
        return "assignment of " + show(d[1])
    return " ".join(("+" if s > 0 else "-") + show(t) for s, t in d)


def feasible(a, b, xs):
    for x in xs:
        s = signs(a.facts, x) & signs(b.facts, x)
        if not s or s == {0}:
            return False
    for f, v in a.facts.items():
        if f in b.facts and b.facts[f] != v:
            return False
    return True


def class_names(prog, name):
    r = {name}
    rec = prog.records.get(name)
    for b in (rec or {}).get("bases") or ():
        r |= class_names(prog, b)
    return r


class Pair(Rule):
    """Marks and membership in the lists undo replays go together."""
    inline_small = 50

    def __init__(self, prog):
        self.prog = prog
        self.ev = 0

    def direct(self, fn):
        return False

    def no_inline(self, info):
        return info.name in ("mark_inactive", "mark_active", "mark_todo", "marked_inactive", "marked_todo", "removable") and STATE in "".join(["AbstractConstraintState" if "State" in info.cls else ""])

    def keep(self, t):
        return True

    def call(self, E, ctx, st, n, t, obj, args):
        vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
        o = None
        if obj is not None:
            o = E.storage(st, obj)
            if o[0] in ("var", "ref"):
                o = E.load(st, o)
        if "State" in t.cls and t.name == "mark_inactive":
            self.ev += 1
            return [(st.with_rs(st.rs | {("inactive", o, ctx.fn.at(n))}), ("void",))]
        if "State" in t.cls and t.name == "mark_todo":
            self.ev += 1
            if vals and vals[0] == ("b", True):
                r = ("wastodo", o)
                return [(st.with_rs(st.rs | {("todo", o, ctx.fn.at(n))}), r)]
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        if not t.inroot and o is not None and field_of(o) in ("inactive_", "todo_") and t.name in ("emplace_back", "push_back"):
            return [(st.with_rs(st.rs | {("in", field_of(o), vals[0], ctx.fn.at(n))}), ("void",))]
        return None


def same(v, o):
    """Does a pointer value denote the object?"""
    strip = lambda t: t[1] if t and t[0] in ("ref", "addr") else t
    return strip(v) == strip(o) or contains(v, lambda x: x == strip(o))


def run(prog, res, tier):
    res.rule("saved", "above the top level a bound is saved and put on the trail before it changes, and the change is announced to the constraints")
    res.rule("trails", "undo replays every trail of the level and cuts it back to where the level began")
    res.rule("inverse", "undoing a bound change has the inverse effect of the change on every constraint state")
    res.rule("cache", "results cached during propagation are invalidated by undo")
    res.rule("membership", "a constraint marked inactive or to do is put on the list that undo (or check) works off")
    res.rule("level", "a new level is opened before changes of that level, and closed by undo")
    eff = Effects(prog)
    roles = Roles(prog, eff)
    if not (set(roles.set.values()) == set(roles.push.values()) == set(roles.pop.values()) == {"lower", "upper"}):
        raise AnalysisBroken("accessors of bounds not found")
    accessors(prog, res, eff, roles)
    # functions changing bounds
    users = set()
    for f in prog.fns.values():
        if last(f.info.cls) == VS:
            continue
        for n in f.allnodes():
            if n.k in CALLS and any(t.id in roles.set or t.id in roles.push for t in prog.targets(n)):
                users.add(f.id)
    trail = {}
    for fid in sorted(users):
        f = prog.fns[fid]
        r = Save(res, prog, roles, trail)
        E = Engine(prog, r, eff)
        outs = E.analyse(f.info, frozenset())
        res.funcs({fid})
        for st, _ in outs:
            for x in st.rs:
                if x[0] == "push":
                    recs = [y for y in st.rs if y[0] == "rec" and var_of(y[2], x[2])]
                    recs = [y for y in recs if y[1] not in ("in_ldiff_", "in_udiff_")]
                    res.ok("saved", "%s: saved %s bound" % (x[3], x[1]))
                    if not recs:
                        res.bad("saved", x[3], "a saved %s bound is not put on the trail in %s" % (x[1], f.info.short), key="saved|trail|" + x[1])
                    for y in recs:
                        trail.setdefault(x[1], set()).add(y[1])
                if x[0] == "set":
                    res.ok("saved", "%s: %s difference" % (x[3], x[1]))
                    d = "ldiff_" if x[1] == "lower" else "udiff_"
                    ds = [y for y in st.rs if y[0] == "diff"]
                    if not any(y[1] == d for y in ds):
                        res.bad("saved", x[3], "the change of a %s bound is not recorded for the constraints in %s" % (x[1], f.info.short),
                                key="saved|diff|" + x[1])
                    inl = [y for y in st.rs if y[0] == "rec" and y[1] == "in_" + d]
                    pending = any(isinstance(k, tuple) and k[0] == "==" and contains(k, lambda z: z[0] == "fld" and z[2] == d) and not v or
                                  isinstance(k, tuple) and k[0] in ("idx",) and contains(k, lambda z: z[0] == "fld" and z[2] == d) and v
                                  for k, v in st.facts.items())
                    if not inl and not pending:
                        res.bad("saved", x[3], "a variable with a changed %s bound is not enqueued in %s" % (x[1], f.info.short),
                                key="saved|queue|" + x[1])
    for side in ("lower", "upper"):
        if len(trail.get(side, ())) > 1:
            res.bad("saved", "", "saved %s bounds are put on several trails: %s" % (side, ", ".join(sorted(trail[side]))), key="saved|several|" + side)
    if trail.get("lower") and trail.get("lower") == trail.get("upper"):
        res.bad("saved", "", "saved lower and upper bounds are put on the same trail", key="saved|same")
    # the trails of a level
    level = prog.record("Solver::Level")
    ctors = [i for i in prog.info.values() if i.body is not None and i.kind == "ctor" and last(i.cls) == "Level" and i.body.inits and
             not i.body.copyctor and not i.body.movector]
    offs = {}
    for i in ctors:
        for x in i.body.inits:
            src = [m.get("name") for m in x["e"].walk() if m.k == "MemberExpr" and m.get("field") and last(m.get("field")) == "Solver"]
            if x.get("member") and src:
                offs[x["member"]] = src[0]
                res.ok("trails", "level records %s = size of %s" % (x["member"], src[0]))
    if len(offs) < 4 and not res.viol:
        raise AnalysisBroken("the level does not record the trails")
    seen = {}
    for o, t in offs.items():
        if t in seen:
            res.bad("trails", ctors[0].body.at(ctors[0].body.body), "the level records %s twice (%s, %s)" % (t, seen[t], o), key="trails|twice|" + t)
        seen[t] = o
    # replay
    roots = [i for i in prog.info.values() if i.body is not None and i.name == "undo" and last(i.cls) == "Propagator"]
    if not roots:
        raise AnalysisBroken("undo callback not found")
    for root in roots:
        r = Undo(res, prog, roles)
        E = Engine(prog, r, eff)
        outs = E.analyse(root, frozenset())
        res.funcs(E.fns_seen)
        at = root.body.at(root.body.body)
        lv = [x for x in E.fns_seen if last(prog.info[x].cls) == "Level"]
        if lv:
            at = prog.fns[lv[0]].at(prog.fns[lv[0]].body)

        def always(pred):
            return outs and all(any(pred(x) for x in st.rs) for st, _ in outs)
        for o, t in sorted(offs.items()):
            res.ok("trails", "undo cuts %s" % t)
            cut = always(lambda x: x[0] == "cut" and x[1] == t and o in x[2])
            for chain in r.sites.get(("popback", t), ()):
                lp = loops_around(chain[0][1])
                if lp is not None and lp.get("cond") is not None and not conditional(chain[0][1], lp) and \
                        {o, t} <= {m.get("name") for m in lp.get("cond").walk() if m.k == "MemberExpr"}:
                    cut = True
            if not cut:
                wrong = [x for x in r.sites if x[0] in ("cut", "clear") and x[1] == t]
                res.bad("trails", at, "undo does not cut %s back to the length it had when the level was opened%s" %
                        (t, " (uses %s)" % ", ".join(wrong[0][2]) if wrong and wrong[0][0] == "cut" and wrong[0][2] else ""), key="trails|cut|" + t)
        acts = []
        for side in ("lower", "upper"):
            ts = trail.get(side) or set()
            for t in ts:
                acts.append((t, ("pop", side), "restore the %s bounds" % side))
                acts.append((t, ("zero", "ldiff_" if side == "lower" else "udiff_"), "reset the pending changes of %s bounds" % side))
        acts.append(("inactive_", ("active",), "reactivate the constraints"))
        acts.append(("removed_var_watches_", ("rewatch",), "restore the removed watches"))
        acts.append(("todo_", ("untodo",), "unmark the constraints to do"))
        for t, a, txt in acts:
            res.ok("trails", "undo works off %s: %s" % (t, txt))
            ch = r.sites.get(a)
            if not ch:
                res.bad("trails", at, "undo does not %s" % txt, key="trails|%s|%s" % (t, a[0]))
                continue
            good = False
            for chain in ch:
                lp = None
                for fn, n in chain:
                    lp = loops_around(n)
                    inl = fn.info.lambda_
                    if lp is not None or inl:
                        break
                if lp is None:
                    good = True
                    continue
                hdr = [lp.get("init"), lp.get("cond"), lp.get("inc")] if lp.k == "ForStmt" else [lp.kids[0], lp.get("cond")]
                names = {m.get("name") for h in hdr if h is not None for m in h.walk() if m.k == "MemberExpr"}
                simple = names & (set(offs) | set(offs.values()) | {"todo_"})
                if t in names or not simple:
                    off = seen.get(t)
                    others = {o for o in offs if o in names and o != off}
                    if others:
                        res.bad("trails", fn.at(lp), "undo works off %s starting from %s" % (t, ", ".join(sorted(others))), key="trails|start|%s|%s" % (t, a[0]))
                    if off and off not in names and lp.k == "ForStmt" and simple and t in names and any(
                            m.k in CALLS and m.fn is not None and m.fn.name in ("begin", "rend", "cbegin") for h in hdr if h is not None for m in h.walk()):
                        pass
                    good = True
                s = skip_in(chain)
                if s is not None:
                    res.bad("trails", s, "undo does not %s for all elements of %s" % (txt, t), key="trails|skip|%s|%s" % (t, a[0]))
            if not good:
                res.bad("trails", at, "undo does not %s recorded in %s" % (txt, t), key="trails|loop|%s|%s" % (t, a[0]))
        for f in ("in_ldiff_", "in_udiff_", "todo_"):
            res.ok("trails", "undo empties %s" % f)
            if not always(lambda x: x[0] == "clear" and x[1] == f):
                res.bad("trails", at, "undo does not empty %s" % f, key="trails|clear|" + f)
        res.ok("level", "undo closes the level")
        if not always(lambda x: x[0] == "popback" and x[1] == "levels_"):
            res.bad("level", at, "undo does not close the level", key="level|close")
        # differences passed to the constraints
        res.ok("inverse", "undo informs the constraints", len(r.diffs))
        sides = set()
        for ctx, n, vals, facts in r.diffs:
            parts = additive(vals[1])
            txt = repr(vals[1])
            for d, b in (("ldiff_", "lower_bound_"), ("udiff_", "upper_bound_")):
                if "'%s'" % d in txt:
                    sides.add(d)
                    sg = [s for s, t in parts if contains(t, lambda x: x[0] == "fld" and x[2] == d)]
                    old = [s for s, t in parts if t[0] == "was" and contains(t, lambda x: x[0] == "fld" and x[2] == b)]
                    if sg and sg != [-1]:
                        res.bad("inverse", ctx.fn.at(n), "pending changes of a bound are not deducted when informing the constraints", key="inverse|pending|" + d)
                    if old and -1 in old and 1 not in old:
                        res.bad("inverse", ctx.fn.at(n), "the constraints are informed about the negated change of a bound", key="inverse|sign|" + d)
        if len(sides) < 2:
            for d in {"ldiff_", "udiff_"} - sides:
                b = "lower" if d == "ldiff_" else "upper"
                if not any(contains(v[1], lambda x: x[0] == "fld" and x[2] == b + "_bound_") for _, _, v, _ in r.diffs):
                    res.bad("inverse", at, "the constraints are not informed about restored %s bounds" % b, key="inverse|informed|" + b)
                else:
                    res.bad("inverse", at, "changes of %s bounds not yet applied to the constraints are undone there" % b, key="inverse|pending|" + d)
        for chain in r.sites.get(("csundo",), ()):
            s = skip_in(chain, allow_diff=True)
            if s is not None:
                res.bad("inverse", s, "some constraints are not informed about restored bounds", key="inverse|skip")
    if inverse(prog, res, eff) < 4:
        raise AnalysisBroken("constraint states not found")
    membership(prog, res, eff)
    watches(prog, res, eff)
    levels(prog, res, eff, roles)


def skip_in(chain, allow_diff=False):
    for fn, n in chain:
        x = n
        loop = loops_around(x)
        while True:
            c = conditional(x, loop)
            if c is not None and not const_cond(c) and not flag_param(fn, c.get("cond")):
                ct = c.get("cond")
                if not (allow_diff and ct is not None and is_zero_test(ct)):
                    if not is_assert(c):
                        return fn.at(n)
            if loop is None:
                break
            s = skips(loop, x)
            if s is not None:
                p = s.parent
                while p is not None and p.k == "CompoundStmt":
                    p = p.parent
                if not (allow_diff and p is not None and p.k == "IfStmt" and is_zero_test(p.get("cond"))):
                    return fn.at(s)
            x = loop
            loop = loops_around(x)
    return None


def flag_param(fn, c):
    """A condition that only tests a flag passed to a helper."""
    c = strip(c) if c is not None else None
    if c is not None and c.k == "UnaryOperator" and c.get("op") == "!":
        c = strip(c.kids[0])
    return c is not None and c.k == "DeclRefExpr" and c.get("dk") == "param" and c.type.endswith("bool")


def is_assert(c):
    return False


def is_zero_test(c):
    return any(x.k == "BinaryOperator" and x.get("op") in ("!=", "==") and any(k.cv == "0" for k in x.kids) for x in c.walk())


def membership(prog, res, eff):
    n0 = 0
    for f in prog.fns.values():
        if "State" in f.info.cls or not f.file.startswith("libclingcon/src"):
            continue
        marks = [n for n in f.allnodes() if n.k in CALLS and n.fn is not None and "State" in n.fn.cls and (
            n.fn.name == "mark_inactive" or n.fn.name == "mark_todo" and n.get("args") and n.get("args")[0].cv not in ("0",))]
        if not marks:
            continue
        r = Pair(prog)
        E = Engine(prog, r, eff)
        outs = E.analyse(f.info, frozenset())
        res.funcs({f.id})
        for st, _ in outs:
            for x in st.rs:
                if x[0] == "inactive":
                    n0 += 1
                    res.ok("membership", "%s inactive" % x[2])
                    if not any(y[0] == "in" and y[1] == "inactive_" and same(y[2], x[1]) for y in st.rs):
                        res.bad("membership", x[2], "a constraint is marked inactive in %s without recording it for undo" % f.info.short, key="membership|inactive")
                if x[0] == "todo":
                    n0 += 1
                    res.ok("membership", "%s todo" % x[2])
                    already = any(k == ("wastodo", x[1]) and v for k, v in st.facts.items())
                    ins = any(y[0] == "in" and y[1] == "todo_" and same(y[2], x[1]) for y in st.rs)
                    if not already and not ins:
                        res.bad("membership", x[2], "a constraint is marked as to do in %s without enqueuing it" % f.info.short, key="membership|todo")
    if n0 < 2 and not res.viol:
        raise AnalysisBroken("marks of constraint states not found")


class Watch(Rule):
    inline_small = 40

    def __init__(self):
        self.n = 0

    def direct(self, fn):
        return False

    def keep(self, t):
        return True

    def no_inline(self, info):
        return "State" in info.cls

    def call(self, E, ctx, st, n, t, obj, args):
        vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
        if obj is not None and not t.inroot:
            o = E.storage(st, obj)
            if field_of(o) == "removed_var_watches_" and t.name in ("emplace_back", "push_back"):
                return [(st.with_rs(st.rs | {("rem", tuple(vals))}), ("void",))]
        if "State" in t.cls and t.name == "update":
            return [(st.with_rs(st.rs | {("upd",)}), ("r", t.q, ctx.fn.id, n.i))]
        return None


def watches(prog, res, eff):
    """Removal of watches during search is recorded."""
    from ..absint import Ctx, State
    k = 0
    search = prog.reachable([i.id for i in prog.info.values() if i.body is not None and last(i.cls) == "Propagator" and i.name in ("propagate", "check")])
    for f in list(prog.fns.values()):
        if f.id not in search or not any(n.k in CALLS and n.fn is not None and n.fn.name == "removable" and n.fn.pt for n in f.allnodes()):
            continue
        if f.info.lambda_ and f.ret == "bool":
            r = Watch()
            E = Engine(prog, r, eff)
            args = [("ref", ("arg", j, p["name"])) if p["t"].endswith("&") else ("arg", j, p["name"]) for j, p in enumerate(f.params)]
            ctx = Ctx(f, ("lamobj",), None, None)
            env = {("d", f.unit, p["d"]): a for p, a in zip(f.params, args)}
            outs = E.run(ctx, State(env, {}, frozenset()))
            for st, ret in outs:
                k += 1
                rem = any(x[0] == "rem" for x in st.rs)
                upd = any(x[0] == "upd" for x in st.rs)
                res.ok("membership", "%s: watch %s" % (f.at(f.body), "removed" if ret == ("b", True) else "kept"))
                if ret == ("b", True) and not rem:
                    res.bad("membership", f.at(f.body), "a watch is removed without recording it for undo", key="membership|watch")
                if ret == ("b", False) and rem:
                    res.bad("membership", f.at(f.body), "a watch is recorded as removed but kept", key="membership|watch-kept")
                if ret == ("b", False) and not upd:
                    res.bad("membership", f.at(f.body), "a watching constraint is not informed about a changed bound", key="membership|inform")
            res.funcs({f.id})
        else:
            # an explicit loop: removal and recording have to occur together
            E = None
            rec = any(n.k in CALLS and n.fn is not None and n.fn.name in ("emplace_back", "push_back") and n.get("obj") is not None and
                      any(m.k == "MemberExpr" and m.get("name") == "removed_var_watches_" for m in n.get("obj").walk()) for n in f.allnodes())
            lam = any(n.k == "LambdaExpr" for n in f.allnodes())
            k += 1
            res.ok("membership", "%s: watches" % f.at(f.body))
            if not rec and not lam:
                res.bad("membership", f.at(f.body), "watches are removed without recording them for undo", key="membership|watch")
    if k == 0 and not res.viol:
        raise AnalysisBroken("removal of watches not found")


class Open(Rule):
    """A level is opened before state changes on propagation."""
    inline_small = 60
    memo = True

    def __init__(self, res, prog, roles, openers):
        self.res, self.prog, self.roles, self.openers = res, prog, roles, openers
        self.ev = 0

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and (n.fn.id in self.openers or n.fn.id in self.roles.set or n.fn.name in ("mark_inactive", "mark_todo"))
                   for n in fn.allnodes())

    def call(self, E, ctx, st, n, t, obj, args):
        if t.id in self.openers:
            self.ev += 1
            self.res.ok("level", "%s opens the level" % ctx.fn.info.short)
            return [(st.with_rs(1), ("void",))]
        if t.id in self.roles.set or "State" in t.cls and t.name in ("mark_inactive", "mark_todo"):
            self.res.ok("level", "%s: %s" % (ctx.fn.at(n), t.name))
            if st.rs == 0:
                self.res.bad("level", ctx.fn.at(n), "propagation changes the state before opening the level of the assignment (%s)" % ctx.fn.info.short,
                             key="level|open")
            return None if t.id not in self.roles.set else [(st, ("void",))]
        return None


class Opens(Rule):
    inline_small = 60

    def keep(self, t):
        return True

    def call(self, E, ctx, st, n, t, obj, args):
        if obj is not None and not t.inroot and t.name in ("emplace_back", "push_back") and field_of(E.storage(st, obj)) == "levels_":
            vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
            return [(st.with_rs(st.rs | {("open", tuple(vals))}), ("void",))]
        return None


def opener(prog, res, eff, f):
    """The level is opened whenever the current one lies below the given one."""
    idx = [j for j, p in enumerate(f.params) if p["t"].replace("const ", "").rstrip("& ") not in () and re.match(r"^(unsigned|int|level_t|uint32_t|unsigned int)", p["s"] or p["t"])]
    if len(idx) != 1:
        return
    par = ("arg", idx[0], f.params[idx[0]]["name"])
    outs = Engine(prog, Opens(), eff).analyse(f.info, frozenset())
    for st, _ in outs:
        op = [x for x in st.rs if x[0] == "open"]
        res.ok("level", "%s: %s" % (f.info.short, "opens" if op else "current level not below the given one"))
        if op:
            if not any(contains(v, lambda x: x == par) for x in op for v in x[1]):
                res.bad("level", f.at(f.body), "the level opened is not the level of the assignment (%s)" % f.info.short, key="level|value")
            continue
        if not any(covers(k, v, par) for k, v in st.facts.items()):
            res.bad("level", f.at(f.body), "no level is opened on a path where the current level may lie below the given one (%s)" % f.info.short,
                    key="level|condition")


def covers(f, v, par):
    """Does a branch fact imply that the current level is at least the given one?"""
    if not isinstance(f, tuple) or f[0] not in ("<", "=="):
        return False
    cur = lambda t: t != par and contains(t, lambda x: x[0] == "call" and last(x[1]) == "level" or x[0] == "fld" and x[2] in ("level_", "levels_")) and t[0] not in ("+", "-")
    if f[0] == "<":
        return cur(f[1]) and f[2] == par and not v or f[1] == par and v and (cur(f[2]) or f[2][0] == "+" and any(cur(x) for x in f[2][1:] if isinstance(x, tuple)) and ("i", 1) in f[2])
    return par in f[1:] and any(cur(x) for x in f[1:]) and v


def levels(prog, res, eff, roles):
    openers = set()
    for f in prog.fns.values():
        if f.info.kind == "ctor" or f.info.lambda_:
            continue
        for n in f.allnodes():
            if n.k in CALLS and n.fn is not None and n.fn.name in ("emplace_back", "push_back") and n.get("obj") is not None and \
                    n.get("obj").k == "MemberExpr" and n.get("obj").get("name") == "levels_":
                openers.add(f.id)
    if not openers:
        raise AnalysisBroken("no function opens a level")
    for fid in sorted(openers):
        opener(prog, res, eff, prog.fns[fid])
    for i in prog.info.values():
        if i.body is not None and last(i.cls) == "Propagator" and i.name == "propagate":
            r = Open(res, prog, roles, openers)
            E = Engine(prog, r, eff)
            E.analyse(i, 0)
            res.funcs(E.fns_seen)
            if r.ev == 0:
                res.bad("level", i.body.at(i.body.body), "propagation does not open the level of the assignment", key="level|open")
