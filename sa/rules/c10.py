"""Clauses and weight constraints reach clingo unchanged."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import Base, facts, one, unwas
from .c09 import negated

EXPLANATION = (
    "Path-sensitive symbolic analysis of the implementations of the clause creator interface: what is stored, what is "
    "handed over to clingo, and under which conditions a request is skipped.")


def base_methods(prog, name):
    return [i for i in prog.info.values() if i.name == name and last(i.cls) == "AbstractClauseCreator"]


def impls(prog, name):
    bs = base_methods(prog, name)
    if not bs:
        raise AnalysisBroken("AbstractClauseCreator::%s not found" % name)
    out = [prog.info[x] for b in bs for x in sorted(prog.overriders.get(b.id, ())) if x in prog.info and prog.info[x].body is not None]
    if not out:
        raise AnalysisBroken("no implementation of AbstractClauseCreator::%s" % name)
    return out


def clingo(t):
    return t.cls.startswith("Clingo::") or "::Clingo::" in t.cls


class Creator(Base):
    """Events of one method of a clause creator."""
    def init(self):
        self.calls = []

    def direct(self, fn):
        return last(fn.info.cls).endswith("ClauseCreator")

    def no_inline(self, info):
        return clingo(info)

    def arg(self, E, st, a):
        if a[0] == "ref" and a[1][0] in ("idx", "elem", "fld"):
            return E.load(st, a[1])
        return Base.arg(self, E, st, a)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        if clingo(t) and t.name in ("add_clause", "add_weight_constraint", "add_minimize", "propagate", "add_literal", "assignment") and t.body is None or \
                clingo(t) and t.name in ("add_clause", "add_weight_constraint", "add_minimize", "propagate", "add_literal", "assignment"):
            return self.request(E, ctx, st, n, t, vals, at, r)
        if clingo(t) and t.name in ("is_true", "is_false"):
            return [(st, ("call", t.name, tuple(vals)))]
        if t.cls.startswith("std::") and obj is not None:
            o = unwas(E.storage(st, obj))
            if o[0] == "fld" and o[2] in self.stores:
                if t.name in ("push_back", "emplace_back", "insert"):
                    return self.store(E, ctx, st, n, t, o[2], vals, at, r)
                if t.name in ("clear", "operator="):
                    return self.cleared(st, o[2], at, r)
        return None

    stores = ()

    def request(self, E, ctx, st, n, t, vals, at, r):
        return [(st.with_rs(st.rs | {("req", t.name, tuple(vals))}), r)]

    def store(self, E, ctx, st, n, t, f, vals, at, r):
        return [(st, r)]

    def cleared(self, st, f, at, r):
        return [(st, r)]


# ---- direct forwarding -----------------------------------------------------
def fields_of(prog, cls):
    for r in prog.records.values():
        if r["qn"] == cls:
            return r
    return None


def containers(prog, cls):
    """Names of the members of a creator that are standard containers."""
    r = fields_of(prog, cls)
    out = set()
    for f in (r or {}).get("fields", ()):
        if "vector" in f["t"] or "deque" in f["t"] or "list" in f["t"]:
            out.add(f["name"])
    return out


class Forward(Creator):
    def init(self):
        self.fwd = []

    def request(self, E, ctx, st, n, t, vals, at, r):
        return [(st.with_rs(st.rs | {("req", t.name, tuple(unwas(v) for v in vals), at)}), r)]


def forward(prog, res, eff, i):
    """add_clause of a creator that talks to clingo directly."""
    r = Forward(res)
    E = Engine(prog, r, eff)
    exits = E.analyse(i, frozenset())
    res.funcs(E.fns_seen)
    loc = i.body.loc
    for st, ret in exits:
        res.ok("clause", "exit of %s" % i.q)
        reqs = [x for x in st.rs if x[0] == "req" and x[1] == "add_clause"]
        if not reqs:
            res.bad("clause", loc, "%s does not pass the clause on" % i.q, key="clause|drop|" + i.q)
        for _, _, v, at in reqs:
            if v[0][0] != "arg" or v[0][1] != 0:
                res.bad("clause", at, "%s is passed on instead of the clause" % show(v[0]), key="clause|what|" + i.q)
            if len(i.pt) > 1 and (len(v) < 2 or v[1][0] != "arg" or v[1][1] != 1):
                res.bad("clause", at, "the type of the clause is lost", key="clause|type|" + i.q)
        # success may only be reported if the clause was accepted
        fs = facts(st)
        ok = [b for t, b in fs.items() if t[0] == "r" and last(t[1]) == "add_clause"]
        if ret == ("b", True) and ok and ok[0] is not True:
            res.bad("clause", loc, "%s reports success for a conflicting clause" % i.q, key="clause|result|" + i.q)


# ---- deferred clauses -------------------------------------------------------
def clause_arg(t):
    return contains(t, lambda x: x[0] == "arg" and x[1] == 0)


class Store(Creator):
    """add_clause of a creator that collects clauses."""
    def init(self):
        self.elems = 0

    def request(self, E, ctx, st, n, t, vals, at, r):
        return [(st, r)]

    def settle(self, st, at):
        if "iter" in st.rs and "pushed" not in st.rs:
            self.res.bad("store", at, "a literal of the clause is not stored", key="store|skip")

    def declare(self, E, ctx, st, d, value, n):
        v = value[1] if value[0] == "copyof" else value
        if v[0] == "elem":
            c = E.load(st, E.storage(st, v[1]))
            if clause_arg(c) or clause_arg(v[1]):
                self.settle(st, ctx.fn.at(n))
                return st.with_rs((st.rs - {"pushed"}) | {"iter"}), ("elem", ("arg", 0, "clause"))
        return st, value

    def local(self, E, ctx, st, lv, value, n):
        # the next position in the clause
        v = unwas(value)
        if v[0] == "+" and v[2] == ("i", 1) and contains(st.env.get(("d",) + lv[1:3], ("x",)), lambda x: x[0] in ("phi", "mut")) or \
                v[0] == "+" and clause_arg(v):
            if "pushed" not in st.rs and "zero" not in st.rs:
                self.res.bad("store", ctx.fn.at(n), "a literal of the clause is not stored", key="store|skip")
            return st.with_rs(st.rs - {"pushed", "iter"}), value
        return None

    def store(self, E, ctx, st, n, t, f, vals, at, r):
        rs = st.rs
        if t.name == "insert" and len(vals) == 3 or t.name == "insert" and len(vals) == 2:
            if not all(contains(v, lambda x: x[0] == "arg" and x[1] == 0) for v in vals[1:]):
                self.res.bad("store", at, "%s is stored" % " ".join(show(x) for x in vals), key="store|what")
            self.elems += 1
            return [(st.with_rs(rs | {"pushed"}), r)]
        v = unwas(vals[0])
        if v == ("i", 0):
            self.settle(st, at)
            if "zero" in rs:
                self.res.bad("store", at, "an empty clause is stored", key="store|twice")
            return [(st.with_rs((rs - {"iter"}) | {"zero"}), r)]
        if "zero" in rs:
            self.res.bad("store", at, "literals are stored after the end of the clause", key="store|late")
        if not (contains(v, lambda x: x[0] in ("elem", "idx", "copyof", "call", "r", "mut", "phi")) or clause_arg(v)) or negated(v)[1] != 1:
            self.res.bad("store", at, "%s is stored instead of a literal of the clause" % show(v), key="store|lit")
        self.elems += 1
        return [(st.with_rs(rs | {"pushed"}), r)]


def deferred(prog, res, eff, i, flds):
    r = Store(res)
    r.stores = flds
    E = Engine(prog, r, eff)
    exits = E.analyse(i, frozenset())
    res.funcs(E.fns_seen)
    loc = i.body.loc
    for st, ret in exits:
        res.ok("store", "exit of %s" % i.q)
        if ret == ("b", False):
            continue
        if "zero" not in st.rs:
            res.bad("store", loc, "a clause is stored without an end", key="store|end")
    if not r.elems:
        res.bad("store", loc, "the literals of clauses are not stored", key="store|none")


def param(t, k):
    """Is the term (a copy or range of) the k-th parameter?"""
    t = one(t)
    if t[0] == "arg":
        return t[1] == k
    if t[0] == "new":
        xs = [x for x in t[2] if not (x[0] == "new" and not x[2])]
        return bool(xs) and all(param(x, k) for x in xs)
    if t[0] in ("call", "r") and last(t[1]) in ("begin", "end", "cbegin", "cend", "data") and len(t) > 2 and isinstance(t[2], tuple):
        return bool(t[2]) and param(t[2][0], k)
    if t[0] == "+":
        return param(t[1], k)
    if t[0] == "fld":
        return param(t[1], k)
    return False


class WStore(Creator):
    def store(self, E, ctx, st, n, t, f, vals, at, r):
        v = [unwas(one(x)) for x in vals]
        if len(v) == 1 and v[0][0] == "new":
            v = [unwas(one(x)) for x in v[0][2]]
        return [(st.with_rs(st.rs | {("stored", tuple(v), at)}), r)]

    def keep(self, t):
        return calls(t, "is_true") or calls(t, "is_false") or t[0] == "<" and contains(t, lambda x: x[0] == "arg")


def weight(prog, res, eff, i, flds):
    r = WStore(res)
    r.stores = flds
    E = Engine(prog, r, eff)
    exits = E.analyse(i, frozenset())
    res.funcs(E.fns_seen)
    loc = i.body.loc
    some = False
    for st, ret in exits:
        fs = facts(st)
        stored = [x for x in st.rs if x[0] == "stored"]
        res.ok("weight", "exit of %s %s" % (i.q, "storing the constraint" if stored else "without storing"))
        if stored:
            some = True
            for _, v, at in stored:
                if len(v) != 4 or not all(param(v[k], k) for k in range(4)):
                    res.bad("weight", at, "the weight constraint is stored as %s" % ", ".join(show(x) for x in v), key="weight|stored")
            continue
        if ret == ("b", False):
            continue
        tr = [b for t, b in fs.items() if t[0] == "call" and t[1] == "is_true" and param(t[2][0], 0) and negated(t[2][0])[1] == 1]
        fa = [b for t, b in fs.items() if t[0] == "call" and t[1] == "is_false" and param(t[2][0], 0) and negated(t[2][0])[1] == 1]
        neg = typ(fs, -1)
        pos = typ(fs, 1)
        if not (tr == [True] and neg is True or fa == [True] and pos is True):
            res.bad("weight", loc, "a weight constraint is dropped although it is not satisfied already", key="weight|skip")
    if not some:
        res.bad("weight", loc, "weight constraints are not stored", key="weight|none")


def typ(fs, sign):
    """Is the type of the weight constraint known to be an implication in the given direction?"""
    for t, b in fs.items():
        if t[0] == "<" and t[2] == ("i", 0) and param(t[1], 3):
            if sign < 0 and b:
                return True
        if t[0] == "<" and t[1] == ("i", 0) and param(t[2], 3):
            if sign > 0 and b:
                return True
        if t[0] == "==":
            for x, y in (t[1:], t[:0:-1]):
                if param(x, 3) and b and (y == ("i", sign) or y[0] == "enum" and last(y[1]) == ("ImplicationLeft" if sign < 0 else "ImplicationRight")):
                    return True
    return None


class Commit(Creator):
    """Handing over what was collected; rs: what was handed over, what was emptied."""
    def init(self):
        self.seen = {}

    def request(self, E, ctx, st, n, t, vals, at, r):
        v = [unwas(x) for x in vals]
        if t.name == "propagate":
            return [(st.with_rs(st.rs | {"propagate"}), r)]
        if t.name in ("assignment", "add_literal"):
            return [(st, r)]
        if t.name == "add_clause" and v:
            ps = [x for x in v[0][2] if not (x[0] == "new" and not x[2])] if v[0][0] == "new" else []
            if len(ps) == 2:
                if ("hand", "add_clause") in st.rs and calls(ps[0], "begin") and ps[0][0] in ("call", "r") and last(ps[0][1]) in ("begin", "cbegin") and \
                        any(refers(ps[0], f) for f in self.stores):
                    self.res.bad("commit", at, "clauses handed over before are part of the next clause", key="commit|begin")
                for x in ps:
                    if x[0] in ("+", "-") and x[2][0] == "i" and x[2][1] != 0:
                        self.res.bad("commit", at, "%s is not the boundary of a clause" % show(x), key="commit|boundary")
        self.seen.setdefault(t.name, []).append((v, at))
        for x in st.rs:
            if isinstance(x, tuple) and x[0] == "cleared" and any(refers(y, x[1]) for y in v):
                self.res.bad("commit", at, "%s is emptied before it is handed over" % x[1], key="commit|early|" + x[1])
        return [(st.with_rs(st.rs | {("hand", t.name)}), r)]

    def cleared(self, st, f, at, r):
        return [(st.with_rs(st.rs | {("cleared", f)}), r)]

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] in self.stores:
            v = one(value)
            if v[0] == "new" and not v[2]:
                return [st.with_rs(st.rs | {("cleared", lv[2])})]
            self.res.bad("commit", ctx.fn.at(n), "%s is set to %s" % (lv[2], show(value)), key="commit|set|" + lv[2])
        return [st]


def commit(prog, res, eff, i, flds, maps):
    r = Commit(res)
    r.stores = flds
    E = Engine(prog, r, eff)
    exits = E.analyse(i, frozenset())
    res.funcs(E.fns_seen)
    loc = i.body.loc
    for st, ret in exits:
        if ret == ("b", False):
            continue
        fs = facts(st)
        if any(t[0] == "r" and last(t[1]) in ("add_clause", "add_weight_constraint") and b is False for t, b in fs.items()):
            res.ok("commit", "exit of %s after a conflict" % i.q)
            continue
        res.ok("commit", "exit of %s without a conflict" % i.q)
        for f in sorted(flds):
            if ("cleared", f) not in st.rs:
                res.bad("commit", loc, "%s is handed over again by the next call" % f, key="commit|again|" + f)
    for name, txt in (("add_clause", "clauses"), ("add_weight_constraint", "weight constraints"), ("add_minimize", "literals of the objective")):
        if not r.seen.get(name):
            res.bad("commit", loc, "collected %s are not handed over" % txt, key="commit|none|" + name)
    for v, at in r.seen.get("add_weight_constraint", ()):
        res.ok("commit", "%s: weight constraint %s" % (at, ", ".join(show(x) for x in v)))
        check_weight(res, v, at)
    for v, at in r.seen.get("add_minimize", ()):
        res.ok("commit", "%s: objective literal %s" % (at, ", ".join(show(x) for x in v)))
        ok = len(v) >= 3 and all(comp(x, k) == 1 for k, x in enumerate(v[:3]))
        if not ok:
            res.bad("commit", at, "a literal of the objective is handed over as %s" % ", ".join(show(x) for x in v), key="commit|minimize")
    for v, at in r.seen.get("add_clause", ()):
        res.ok("commit", "%s: clause %s" % (at, ", ".join(show(x) for x in v)))


def comp(t, k):
    """Sign of the term if it is the k-th component of a stored tuple (up to sign), else None."""
    t, s = negated(one(t))
    t = one(t)
    if t[0] == "fld" and t[2] == "#%d" % k:
        return s
    if t[0] == "fld" and k < 2 and t[2] == ("first", "second")[k]:
        return s
    return None


def check_weight(res, v, at):
    if len(v) < 4:
        res.bad("commit", at, "a weight constraint is handed over without a type", key="commit|weight|args")
        return
    lit = comp(v[0], 0)
    ws = contains(v[1], lambda x: comp(x, 1) == 1)
    b = lin(v[2])
    c = b.pop(None, 0)
    bs = list(b.items())
    bk = bs[0][1] if len(bs) == 1 and comp(bs[0][0], 2) == 1 else None
    ty = comp(v[3], 3)
    if not ws:
        res.bad("commit", at, "the literals of the weight constraint are %s" % show(v[1]), key="commit|weight|lits")
    # lit <-> sum <= b  is  -lit <-> sum >= b + 1
    if lit != -1 or bk != 1 or c != 1 or ty != -1:
        res.bad("commit", at, "a weight constraint is handed over as %s" % ", ".join(show(x) for x in v), key="commit|weight|form")


def run(prog, res, tier):
    res.rule("clause", "clauses submitted during the search are passed on with their type")
    res.rule("store", "clauses submitted during initialization are stored in full")
    res.rule("weight", "weight constraints are stored unless they are satisfied already")
    res.rule("commit", "what was collected is handed over in an equivalent form and only once")
    res.rule("propagate", "collected clauses are handed over before clingo propagates")
    eff = Effects(prog)
    n = 0
    for i in impls(prog, "add_clause"):
        flds = containers(prog, i.cls)
        if not flds:
            forward(prog, res, eff, i)
            continue
        n += 1
        deferred(prog, res, eff, i, flds)
        own = [x for x in prog.info.values() if x.cls == i.cls and x.body is not None]
        for x in own:
            if x.name == "add_weight_constraint":
                weight(prog, res, eff, x, flds)
            if x.name == "commit":
                commit(prog, res, eff, x, flds, None)
            if x.name == "add_minimize":
                r = WStore(res)
                r.stores = flds
                E = Engine(prog, r, eff)
                exits = E.analyse(x, frozenset())
                res.funcs(E.fns_seen)
                for st, ret in exits:
                    res.ok("weight", "exit of %s" % x.q)
                    sts = [y for y in st.rs if y[0] == "stored"]
                    if not sts or not all(len(y[1]) == 3 and all(param(y[1][k], k) for k in range(3)) for y in sts):
                        res.bad("weight", x.body.loc, "a literal of the objective is not stored as it is", key="weight|minimize")
            if x.name == "propagate":
                r = Commit(res)
                r.stores = flds
                E = Engine(prog, r, eff)
                exits = E.analyse(x, frozenset())
                res.funcs(E.fns_seen)
                for st, ret in exits:
                    res.ok("propagate", "exit of %s" % x.q)
                    if "propagate" in st.rs and not all(("cleared", f) in st.rs for f in flds):
                        res.bad("propagate", x.body.loc, "clingo propagates without the clauses collected so far", key="propagate|order")
                if not any("propagate" in st.rs for st, _ in exits):
                    res.bad("propagate", x.body.loc, "propagation is not passed on", key="propagate|none")
        for name in ("add_weight_constraint", "commit", "add_minimize", "propagate"):
            if not any(x.name == name for x in own):
                raise AnalysisBroken("%s::%s not found" % (i.cls, name))
    if not n:
        raise AnalysisBroken("no creator collects clauses")
    for k, m in (("clause", 1), ("store", 1), ("weight", 2), ("commit", 3), ("propagate", 1)):
        res.need(k, m)
