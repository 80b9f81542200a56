"""The objective value, its bound, and the clauses derived from it."""
from ..absint import Engine, Rule, contains, show, subst
from ..core import AnalysisBroken, CALLS
from ..effects import Effects
from ..lib import calls, last, lin, refers

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that compute, record, distribute and adopt the bound of the "
    "objective: on every path the terms written to the shared bound, the bound of a thread, the cost and the weights "
    "handed to the solver are compared, as linear forms, with the definition of the objective value.")

NARROW = ("int", "val_t", "Clingcon::val_t", "unsigned int", "int32_t", "short")


def unwas(t):
    """Former values of fields count as the fields."""
    while True:
        hit = []

        def f(x):
            if x[0] == "was":
                hit.append(x)
                return True
            return False
        if not contains(t, f):
            return t
        w = hit[0]
        t = subst(t, lambda x: x == w, w[2])


def facts(st):
    return {unwas(t): v for t, v in st.facts.items()}


def null_fact(fs, name):
    """Is the pointer field null on this path (True, False, None)?"""
    for t, v in fs.items():
        if t[0] == "==" and ("null",) in t[1:] and any(x[0] == "fld" and x[2] == name for x in t[1:]):
            return v
        if t[0] == "fld" and t[2] == name:
            return not v
        if t[0] in ("call", "r") and last(t[1]) in ("operator bool",) and refers(t, name):
            return not v
    return None


class Base(Rule):
    inline_small = 60
    classes = ("Propagator",)
    opaque = ()

    def __init__(self, res):
        self.res = res
        self.init()

    def init(self):
        pass

    def direct(self, fn):
        return last(fn.info.cls) in self.classes and fn.info.name not in self.opaque

    def no_inline(self, info):
        return info.name in self.opaque or info.name.startswith("safe_")

    def arg(self, E, st, a):
        return E.load(st, a[1]) if a[0] == "ref" else E.load(st, a)

    def call(self, E, ctx, st, n, t, obj, args):
        if t.name.startswith("safe_") and not t.cls:
            return [(st, ("call", t.name, tuple(self.arg(E, st, a) for a in args)))]
        if t.q == "Clingcon::check_valid_value" or t.name == "check_valid_value":
            return [(st, self.arg(E, st, args[0]))]
        return self.event(E, ctx, st, n, t, obj, [self.arg(E, st, a) for a in args], args)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        return None


def is_adjust(t):
    return t[0] == "fld" and t[2] == "adjust_" or t[0] in ("call", "r") and last(t[1]) == "adjust"


def is_shared(t):
    return refers(t, "minimize_bound_")


# ---- value ---------------------------------------------------------------
class Value(Base):
    opaque = ("get_value",)

    def init(self):
        self.products = []
        self.rets = []

    def see(self, ctx, v, n):
        for t, k in lin(v).items():
            if t is not None and calls(t, "get_value"):
                self.products.append((ctx, t, k, n))

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "get_value":
            o = E.load(st, obj) if obj is not None else ("x",)
            return [(st, ("call", t.q, (o,) + tuple(vals)))]
        return None

    def local(self, E, ctx, st, lv, value, n):
        self.see(ctx, value, n)

    def ret(self, E, ctx, st, n, value):
        if value is not None:
            if ctx.parent is None or ctx.fn.info.lambda_ is False and ctx.depth == 0:
                self.rets.append((ctx, value, n))
            else:
                self.see(ctx, value, n)
        return st


def value(prog, res, eff):
    fs = [i for i in prog.find("Propagator::get_minimize_value")]
    for i in fs:
        r = Value(res)
        E = Engine(prog, r, eff)
        E.analyse(i, 0)
        res.funcs(E.fns_seen)
        if not r.products:
            res.bad("value", i.body.loc, "no element contributes coefficient times value to the objective value", key="value|none")
        for ctx, t, k, n in r.products:
            res.ok("value", "%s adds %s" % (ctx.fn.at(n), show(t)))
            gv = []
            contains(t, lambda x: bool(x[0] in ("call", "r") and last(x[1]) == "get_value" and gv.append(x)))
            ok = t[0] == "*" and k == 1 and any(x in gv for x in t[1:])
            other = [x for x in t[1:] if x not in gv] if t[0] == "*" else []
            ok = ok and len(other) == 1 and other[0][0] == "fld" and other[0][2] in ("#0", "first")
            ok = ok and any(x[0] == "fld" and x[2] in ("#1", "second") and x[1] == other[0][1] for x in gv[0][2])
            if not ok:
                res.bad("value", ctx.fn.at(n), "an element contributes %s%s to the objective value instead of coefficient times value" % ("-" if k < 0 else "", show(t)), key="value|element")
            if not contains(t, lambda x: x == ("arg", 0, i.body.params[0]["name"])) and gv:
                res.bad("value", ctx.fn.at(n), "the value of a variable is not taken from the thread asked for", key="value|thread")
        for ctx, v, n in r.rets:
            f = lin(v)
            adj = [k for t, k in f.items() if t is not None and is_adjust(t)]
            rest = {t: k for t, k in f.items() if t is None or not is_adjust(t)}
            res.ok("value", "%s returns %s" % (ctx.fn.at(n), show(v)))
            if adj != [-1] or None in rest or any(k != 1 for k in rest.values()):
                res.bad("value", ctx.fn.at(n), "the objective value is %s; the adjustment (the negated constant) is not subtracted exactly once" % show(v), key="value|adjust")
        for x in prog.reachable([i.id]):
            f = prog.fns.get(x)
            if f is None or not (last(f.info.cls) == "Propagator" or f.info.lambda_ and f.parent is not None and f.parent.id in prog.reachable([i.id]) and last(f.parent.info.cls) == "Propagator"):
                continue
            if not any(n.k in CALLS and n.fn is not None and n.fn.name == "get_value" for n in f.allnodes()):
                continue
            for n in f.allnodes():
                if n.k == "BinaryOperator" and n.get("op") == "*":
                    res.ok("value", "%s multiplies in %s" % (f.at(n), n.type))
                    if n.type in NARROW:
                        res.bad("value", f.at(n), "the product of coefficient and value is computed in 32 bits", key="value|narrow")
        if i.ret in NARROW:
            res.bad("value", i.body.loc, "the objective value is returned in 32 bits", key="value|narrow")


# ---- models -----------------------------------------------------------------
VAL = "objective-value"


def diff(t):
    """A comparison x < y as the linear form x - y."""
    f = lin(t[1])
    return lin(t[2], -1, f)


class Model(Base):
    opaque = ("get_minimize_value", "get_value", "shown")

    def keep(self, t):
        return is_shared(t) or refers(t, "minimize_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "get_minimize_value":
            res = self.res
            res.ok("models", "%s evaluates the objective" % ctx.fn.at(n))
            if not vals or not calls(vals[0], "thread_id"):
                res.bad("models", ctx.fn.at(n), "the objective is not evaluated for the thread that found the model", key="models|thread")
            return [(st, ("app", VAL))]
        if t.name == "Function" and t.q.startswith("Clingo") and vals and vals[0] == ("s", "__csp_cost"):
            good = contains(vals[1], lambda x: x == ("app", VAL)) if len(vals) > 1 else False
            if not good:
                self.res.bad("models", ctx.fn.at(n), "the cost shown in the model is %s" % show(vals[1]), key="models|shown")
            return [(st.with_rs(st.rs | {("shown",)}), ("r", t.q, ctx.fn.id, n.i))]
        if t.name in ("store", "exchange") and obj is not None and refers(obj, "minimize_bound_"):
            return [(st.with_rs(st.rs | {("bound", vals[0])}), None)]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] == "minimize_bound_":
            return [st.with_rs(st.rs | {("bound", value)})]
        if lv[0] == "fld" and lv[2] == "cost":
            return [st.with_rs(st.rs | {("cost", value)})]
        return [st]


def models(prog, res, eff):
    for i in prog.find("Propagator::on_model"):
        r = Model(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        v = ("app", VAL)
        for st, _ in exits:
            fs = facts(st)
            nul = null_fact(fs, "minimize_")
            bounds = [x[1] for x in st.rs if x[0] == "bound"]
            costs = [x[1] for x in st.rs if x[0] == "cost"]
            res.ok("models", "exit of on_model")
            if nul is None:
                res.bad("models", loc, "a model is processed without checking whether there is an objective", key="models|nocheck")
                continue
            if nul:
                if bounds or costs or ("shown",) in st.rs:
                    res.bad("models", loc, "a cost is reported without an objective", key="models|none")
                continue
            if ("shown",) not in st.rs:
                res.bad("models", loc, "the objective value is not added to the model", key="models|notshown")
            hi = lo = None  # what is known about value - bound
            for t, b in fs.items():
                if t[0] not in ("<", "==") or not contains(t, lambda x: x == v):
                    continue
                d = diff(t)
                c = d.pop(None, 0)
                kv = d.pop(v, 0)
                if len(d) != 1:
                    continue
                (o, ko), = d.items()
                if not is_shared(o) or abs(kv) != 1 or ko != -kv:
                    continue
                if t[0] == "==":
                    if b:
                        hi = lo = -c * kv
                    continue
                # kv * (v - m) + c < 0 is b
                if kv == 1:
                    if b:
                        hi = -1 - c if hi is None else min(hi, -1 - c)
                    else:
                        lo = -c if lo is None else max(lo, -c)
                else:
                    if b:
                        lo = c + 1 if lo is None else max(lo, c + 1)
                    else:
                        hi = c if hi is None else min(hi, c)
            if bounds:
                if hi is None or hi > 0:
                    res.bad("models", loc, "the bound is replaced without knowing that the model is not worse than it", key="models|raise")
                for b in bounds:
                    if lin(b) != {v: 1, None: -1}:
                        res.bad("models", loc, "the bound after a model is %s instead of its objective value minus one" % show(b), key="models|bound")
                if not costs:
                    res.bad("models", loc, "the bound is replaced without recording the cost", key="models|cost")
                for c in costs:
                    if c[0] == "new" and len(c[2]) == 1:
                        c = c[2][0]
                    if lin(c) != {v: 1}:
                        res.bad("models", loc, "the recorded cost is %s" % show(c), key="models|costvalue")
            else:
                if lo is None or lo < 1:
                    res.bad("models", loc, "a model that is not worse than the bound does not improve it", key="models|keep")
                if costs:
                    res.bad("models", loc, "a worse model is recorded as cost", key="models|worse")


# ---- adoption by threads ----------------------------------------------------
class Adopt(Base):
    opaque = ("check_full",)

    def init(self):
        self.n = 0

    def direct(self, fn):
        return last(fn.info.cls) == "Propagator"

    def keep(self, t):
        return is_shared(t) or refers(t, "minimize_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if last(t.cls) != "Solver":
            return None
        o = E.storage(st, obj) if obj is not None else None
        if t.name == "update_minimize":
            self.n += 1
            res = self.res
            at = ctx.fn.at(n)
            res.ok("adopt", "%s hands the bound to the thread's solver" % at)
            if not (vals[0][0] == "fld" and vals[0][2] == "minimize_"):
                res.bad("adopt", at, "the constraint passed on is %s" % show(vals[0]), key="adopt|constraint")
            if not calls(vals[1], "decision_level"):
                res.bad("adopt", at, "the level of the update is %s instead of the current decision level" % show(vals[1]), key="adopt|level")
            f = lin(vals[2])
            sh = [k for x, k in f.items() if x is not None and is_shared(x)]
            ad = [k for x, k in f.items() if x is not None and is_adjust(x) and not is_shared(x)]
            if sh != [1] or ad != [1] or len(f) != 2:
                res.bad("adopt", at, "the bound passed on is %s instead of the shared bound plus the adjustment" % show(vals[2]), key="adopt|bound")
            return [(st.with_rs(("updated", o)), None)]
        if t.name == "check" and len(vals) >= 2:
            self.n += 1
            res = self.res
            at = ctx.fn.at(n)
            res.ok("adopt", "%s checks the constraints of a thread" % at)
            fs = facts(st)
            nul = null_fact(fs, "minimize_")
            if st.rs:
                if st.rs[1] != o:
                    res.bad("adopt", at, "the bound is handed to another thread's solver", key="adopt|solver")
            elif nul is not True:
                top = ("i", (1 << 63) - 1)
                unset = any(not b and x[0] == "<" and is_shared(x[1]) and x[2] == top for x, b in fs.items()) or any(b and x[0] == "==" and is_shared(x) and any(y[0] == "i" and y[1] == (1 << 63) - 1 for y in x[1:]) for x, b in fs.items())
                if not unset:
                    res.bad("adopt", at, "constraints are checked without adopting the shared bound of the objective", key="adopt|missing")
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        return None


def adopt(prog, res, eff):
    for i in prog.find("Propagator::check"):
        r = Adopt(res)
        E = Engine(prog, r, eff)
        E.analyse(i, ())
        res.funcs(E.fns_seen)
        if not r.n:
            raise AnalysisBroken("Propagator::check does not reach Solver::check")


class Tighten(Base):
    classes = ("Solver", "Level")

    def keep(self, t):
        return refers(t, "minimize_bound_") or refers(t, "minimize_level_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "mark_todo" or t.name == "insert" and obj is not None and refers(obj, "todo_"):
            a = [v for v in vals if contains(v, lambda x: x[0] == "arg" and x[1] == 0)]
            return [(st.with_rs(st.rs | {("todo", bool(a))}), None)]
        if t.name == "reset" and obj is not None and refers(obj, "minimize_bound_"):
            return [(st.with_rs(st.rs | {("bound", ("null",))}), None)]
        if t.name == "emplace" and obj is not None and refers(obj, "minimize_bound_"):
            return [(st.with_rs(st.rs | {("bound", vals[0])}), None)]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] in ("minimize_bound_", "minimize_level_"):
            return [st.with_rs(st.rs | {("bound" if lv[2] == "minimize_bound_" else "level", value)})]
        return [st]


def one(t):
    return t[2][0] if t[0] == "new" and len(t[2]) == 1 else t


def tighten(prog, res, eff):
    for i in prog.find("Solver::update_minimize"):
        r = Tighten(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        ps = i.body.params
        lvl, bnd = ("arg", 1, ps[1]["name"]), ("arg", 2, ps[2]["name"])
        for st, _ in exits:
            fs = facts(st)
            res.ok("tighten", "exit of Solver::update_minimize")
            has = less = ll = None
            for t, b in fs.items():
                if t[0] in ("call", "r") and last(t[1]) in ("has_value", "operator bool") and refers(t, "minimize_bound_"):
                    has = b
                if t[0] == "<" and contains(t, lambda x: x == bnd) and refers(t, "minimize_bound_"):
                    if t[1] == bnd:
                        less = b
                        if calls(t, "value_or"):
                            has, less = (None, True) if b else (True, False)
                    elif b:
                        less = False
                if t[0] == "<" and contains(t, lambda x: x == lvl) and refers(t, "minimize_level_"):
                    if t[1] == lvl:
                        ll = b
                    elif b:
                        ll = False
            bs = [one(x[1]) for x in st.rs if x[0] == "bound"]
            ls = [one(x[1]) for x in st.rs if x[0] == "level"]
            todo = ("todo", True) in st.rs
            if bs and not (has is False or less is True):
                res.bad("tighten", loc, "the bound of a thread is replaced without knowing that the new one is smaller", key="tighten|raise")
            if any(x != bnd for x in bs):
                res.bad("tighten", loc, "the bound is set to %s" % show(bs[0]), key="tighten|value")
            if any(x != lvl for x in ls):
                res.bad("tighten", loc, "the level of the bound is set to %s" % show(ls[0]), key="tighten|levelvalue")
            if bs and not ls:
                res.bad("tighten", loc, "the level at which the bound was adopted is not recorded", key="tighten|level")
            if not bs and (has is not True or less is not False):
                res.bad("tighten", loc, "a smaller bound is not adopted", key="tighten|ignored")
            if not bs and not ls and ll is not False:
                res.bad("tighten", loc, "the level is not lowered although the objective is not yet propagated below it", key="tighten|lower")
            if ls and not bs and ll is not True:
                res.bad("tighten", loc, "the level of the bound is raised", key="tighten|raiselevel")
            if (bs or ls) and not todo:
                res.bad("tighten", loc, "the objective is not scheduled for propagation with the new bound", key="tighten|todo")


class Skip(Base):
    classes = ()
    opaque = ("update_domain_", "update_constraints_", "propagate")

    def direct(self, fn):
        return last(fn.info.cls) == "Solver" and any(n.k == "MemberExpr" and n.get("name") == "todo_" for n in fn.allnodes())

    def keep(self, t):
        return refers(t, "minimize_level_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name in ("clear", "begin", "swap") and obj is not None and refers(E.storage(st, obj), "todo_"):
            return [(st.with_rs(1), ("r", t.q, ctx.fn.id, n.i))]
        if t.name in ("update_domain_",):
            return [(st.with_rs(2), ("r", t.q, ctx.fn.id, n.i))]
        return None


def skip(prog, res, eff):
    for i in prog.find("Solver::check"):
        r = Skip(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, 0)
        res.funcs(E.fns_seen)
        for st, ret in exits:
            if st.rs:
                continue
            res.ok("level", "exit of Solver::check that leaves constraints unpropagated")
            ok = False
            for t, b in facts(st).items():
                if t[0] == "<" and refers(t[2], "minimize_level_") and not refers(t[1], "minimize_level_") and not b:
                    ok = True
                if t[0] == "<" and refers(t[1], "minimize_level_") and not refers(t[2], "minimize_level_") and b:
                    ok = True
            if not ok:
                res.bad("level", i.body.loc, "the check is skipped without knowing that the objective is already propagated on lower levels", key="level|skip")


# ---- clauses ----------------------------------------------------------------
class Volatile(Base):
    memo = True
    max_depth = 12

    def init(self):
        self.n = 0
        self.want = None

    def direct(self, fn):
        return last(fn.info.cls) not in ("Solver", "Level", "VarState") and any(self.sub(n) for n in fn.allnodes())

    @staticmethod
    def sub(n):
        return n.k in CALLS and n.fn is not None and n.fn.name == "add_clause" and last(n.fn.cls).endswith("ClauseCreator")

    def no_inline(self, info):
        return last(info.cls) in ("Solver", "Level", "VarState") or last(info.cls).endswith("ClauseCreator")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "add_clause" and last(t.cls).endswith("ClauseCreator"):
            self.n += 1
            if contains(vals[0], lambda x: x[0] == "new" and "[" in x[1] and len(x[2]) == 2) and not contains(vals[0], lambda x: x[0] in ("call", "r") and last(x[1]) == "literal"):
                # an order clause of a variable (see C08) does not rest on the bound
                return [(st, ("r", t.q, ctx.fn.id, n.i))]
            v = vals[1] if len(vals) > 1 else ("default",)
            self.res.ok("volatile", "%s submits a clause of type %s" % (ctx.fn.at(n), show(v)))
            if v != self.want and not (v[0] == "enum" and last(v[1]) == "Volatile"):
                self.res.bad("volatile", ctx.fn.at(n), "%s submits a clause resting on the objective bound that outlives the solve call (type %s)" % (ctx.fn.info.short, show(v)),
                             key="volatile|" + ctx.fn.info.short)
            return [(st, ("r", t.q, ctx.fn.id, n.i))]
        return None


def objective_states(prog):
    """Methods of the state classes that use the bound of the objective."""
    users = {last(i.cls) for i in prog.info.values() if i.body is not None and i.cls and any(
        n.k in CALLS and n.fn is not None and n.fn.name == "minimize_bound" and last(n.fn.cls) == "Solver" for n in i.body.allnodes())}
    users.discard("Solver")
    return users


def volatile(prog, res, eff):
    users = objective_states(prog)
    if not users:
        raise AnalysisBroken("no constraint state uses the objective bound")
    entries = [i for i in prog.info.values() if i.body is not None and i.name == "propagate" and len(i.pt) == 3 and
               (last(i.cls) in users or any(u in i.cls for u in users))]
    if not entries:
        raise AnalysisBroken("no propagation of the objective found")
    for i in entries:
        r = Volatile(res)
        r.want = ("i", 2)
        E = Engine(prog, r, eff)
        E.analyse(i, 0)
        res.funcs(E.fns_seen)
        if not r.n:
            raise AnalysisBroken("the propagation of the objective submits no clauses")
    # the right-hand side
    for i in prog.info.values():
        if i.body is None or last(i.cls) not in users:
            continue
        if not any(n.k in CALLS and n.fn is not None and n.fn.name == "minimize_bound" for n in i.body.allnodes()):
            continue
        r = Base(res)
        r.classes = ()
        r.opaque = ("minimize_bound",)
        E = Engine(prog, r, eff)
        for st, ret in E.analyse(i, 0):
            if ret is None:
                continue
            res.ok("rhs", "%s returns %s" % (i.short, show(ret)))
            if i.ret == "bool":
                if not (ret[0] in ("call", "r") and last(ret[1]) in ("has_value", "operator bool") and (calls(ret, "minimize_bound") or refers(ret, "minimize_bound_"))):
                    res.bad("rhs", i.body.loc, "%s does not tell whether there is a bound: %s" % (i.short, show(ret)), key="rhs|has")
            elif "optional" not in i.ret and ret is not None:
                f = lin(ret)
                if len(f) != 1 or list(f.values()) != [1] or not (calls(list(f)[0], "minimize_bound") or refers(list(f)[0], "minimize_bound_") or list(f)[0][0] in ("r", "phi")):
                    res.bad("rhs", i.body.loc, "%s returns %s instead of the bound" % (i.short, show(ret)), key="rhs|value")


# ---- translation --------------------------------------------------------------
class Translate(Base):
    classes = ("MinimizeConstraintState",)
    opaque = ("get_literal", "adjust", "min_bound", "max_bound", "var_state")

    def init(self):
        self.kinds = set()

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and n.fn.name == "add_minimize" for n in fn.allnodes())

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name in self.opaque:
            o = (E.load(st, obj),) if obj is not None else ()
            if t.name == "get_literal":
                o = ()
            return [(st, ("call", t.name, o + tuple(vals)))]
        if t.name == "add_minimize" and len(vals) == 3:
            res, at = self.res, ctx.fn.at(n)
            lit, w, lvl = vals
            res.ok("translate", "%s adds weight %s for %s" % (at, show(w), show(lit)))
            if lvl != ("i", 0):
                res.bad("translate", at, "a part of the objective has priority %s" % show(lvl), key="translate|level")
            if lit == ("i", 1):
                f = lin(w)
                if len(f) == 1 and is_adjust(list(f)[0]):
                    self.kinds.add("adjust")
                    if list(f.values()) != [-1]:
                        res.bad("translate", at, "the constant of the objective is %s" % show(w), key="translate|adjust")
                    return [(st.with_rs(st.rs | {"adjust"}), None)]
                t2, k = list(f.items())[0] if len(f) == 1 else (None, 0)
                p = self.product(t2)
                if k != 1 or p is None or not (p[0][0] == "fld" and p[0][2] in ("#0", "first")) or not self.bound_of(p[1], "min_bound", p[0][1]):
                    res.bad("translate", at, "the least contribution of an element is %s instead of coefficient times lower bound" % show(w), key="translate|base")
                self.kinds.add("base")
                return [(st, None)]
            self.kinds.add("step")
            f = lin(lit)
            g = list(f)[0] if len(f) == 1 else None
            if g is None or not (g[0] == "call" and g[1] == "get_literal"):
                res.bad("translate", at, "the weight is attached to %s" % show(lit), key="translate|lit")
                return [(st, None)]
            if f[g] != -1:
                res.bad("translate", at, "the weight is attached to the order literal instead of its complement", key="translate|sign")
            val = g[2][-1]
            el = w[1] if w[0] == "fld" and w[2] in ("#0", "first") else None
            if el is None:
                res.bad("translate", at, "the weight of a unit step is %s instead of the coefficient" % show(w), key="translate|weight")
            elif not contains(g[2][-2], lambda x: x[0] == "fld" and x[2] in ("#1", "second") and x[1] == el):
                res.bad("translate", at, "the order literal belongs to another variable than the coefficient", key="translate|var")
            lt = [b for x, b in st.facts.items() if x[0] == "<" and x[1] == val and self.bound_of(x[2], "max_bound", el)]
            if lt != [True]:
                res.bad("translate", at, "the steps of an element do not end at the upper bound", key="translate|last")
            if val[0] != "iv":
                res.bad("translate", at, "the steps of an element do not begin at the lower bound but at %s" % show(val), key="translate|first")
            elif val[2] != el:
                res.bad("translate", at, "the steps of an element run over the domain of another one", key="translate|domain")
            return [(st, None)]
        if t.name == "enable_translate_minimize":
            return [(st.with_rs(st.rs | {"enabled"}), None)]
        return None

    # the variable running over the values of a variable
    def declare(self, E, ctx, st, d, value, n):
        if value[0] == "call" and value[1] == "min_bound":
            el = []
            contains(value, lambda x: x[0] == "fld" and x[2] in ("#1", "second") and bool(el.append(x[1])))
            iv = ("iv", d["d"], el[0] if el else None)
            return st.forget(lambda x: x == iv), iv
        return st, value

    def local(self, E, ctx, st, lv, value, n):
        iv = [x for x in lin(value) if x is not None and x[0] == "iv"]
        if iv and iv[0][1] == lv[2]:
            k = lin(value)
            self.res.ok("translate", "%s advances to the next value" % ctx.fn.at(n))
            if k != {iv[0]: 1, None: 1}:
                self.res.bad("translate", ctx.fn.at(n), "the steps of an element advance by %s" % show(value), key="translate|step")
            return st.forget(lambda x: x == iv[0]), iv[0]
        if value[0] == "call" and value[1] == "min_bound":
            d = {"d": lv[2]}
            return self.declare(E, ctx, st, d, value, n)
        return None

    @staticmethod
    def product(t):
        if t is None:
            return None
        if t[0] == "call" and last(t[1]) == "safe_mul":
            a, b = t[2]
        elif t[0] == "*":
            a, b = t[1], t[2]
        else:
            return None
        if a[0] == "fld" and a[2] in ("#0", "first"):
            return a, b
        return b, a

    @staticmethod
    def bound_of(t, name, el):
        if t[0] == "iv" and name == "min_bound":
            return t[2] == el
        return t[0] == "call" and last(t[1]) == name and contains(t, lambda x: x[0] == "fld" and x[2] in ("#1", "second") and x[1] == el)


def translate(prog, res, eff):
    fs = [i for i in prog.info.values() if i.body is not None and i.name == "translate" and "bool" in i.ret and
          any(prog.info[x].name == "add_minimize" for x in prog.reachable([i.id]) if x in prog.info) and "State" in i.cls]
    fs = [i for i in fs if last(i.cls) in objective_states(prog)]
    if not fs:
        raise AnalysisBroken("translation of the objective not found")
    for i in fs:
        r = Translate(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for k, txt in (("adjust", "constant"), ("base", "least contribution of the elements"), ("step", "unit steps of the elements")):
            if k not in r.kinds:
                res.bad("translate", i.body.loc, "the %s is missing in the translated objective" % txt, key="translate|missing|" + k)
        for st, ret in exits:
            res.ok("translate", "exit of the translation")
            if ret is None or ret[0] != "new" or len(ret[2]) != 2:
                continue
            if ret[2][1] == ("b", True) and st.rs != {"adjust", "enabled"}:
                res.bad("translate", i.body.loc, "the objective counts as translated but its constant or the flag is missing", key="translate|incomplete")
            if ret[2][1] == ("b", False) and st.rs:
                res.bad("translate", i.body.loc, "the objective is translated but also kept", key="translate|both")


# ---- parsing and combination ----------------------------------------------------
class Parse(Base):
    classes = ()
    opaque = ("match",)

    def init(self):
        self.n = {}

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and n.fn.name == "add_minimize" and "Builder" in n.fn.cls for n in fn.allnodes())

    def keep(self, t):
        return t[0] == "match"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "match" and len(vals) >= 2 and vals[1][0] == "s":
            return [(st, ("match", vals[1][1]))]
        if t.name == "add_minimize" and "Builder" in t.cls:
            at = ctx.fn.at(n)
            w = vals[0]
            k = None
            if w[0] == "call" and w[1] == "safe_mul" and ("i", 1) in w[2] or w[0] == "call" and w[1] == "safe_mul" and ("i", -1) in w[2]:
                c = [x for x in w[2] if x[0] == "i"][0][1]
                o = [x for x in w[2] if x[0] != "i"]
                k, w = c, o[0] if o else ("x",)
            else:
                f = lin(w)
                if len(f) == 1:
                    w, k = list(f.items())[0]
            mini = [x[1] for x, b in st.facts.items() if x[0] == "match" and b and x[1] in ("minimize", "maximize")]
            self.res.ok("directives", "%s adds an element for %s with factor %s" % (at, "/".join(mini), k))
            for m in mini:
                self.n.setdefault(m, []).append(at)
                if {"minimize": 1, "maximize": -1}.get(m) != k:
                    self.res.bad("directives", at, "an element of &%s is added with factor %s" % (m, k), key="directives|" + m)
            if w is not None and not (w[0] == "fld" and w[2] in ("#0", "first") and vals[1][0] == "fld" and vals[1][2] in ("#1", "second") and w[1] == vals[1][1]):
                self.res.bad("directives", at, "an objective element consists of %s and %s" % (show(w), show(vals[1])), key="directives|elem")
            return [(st, None)]
        return None


def directives(prog, res, eff):
    for i in [x for x in prog.find("parse") if len(x.pt) == 2 and not x.cls]:
        r = Parse(res)
        E = Engine(prog, r, eff)
        E.analyse(i, 0)
        res.funcs(E.fns_seen)
        for m in ("minimize", "maximize"):
            if not r.n.get(m):
                res.bad("directives", i.body.loc, "&%s adds no elements to the objective" % m, key="directives|none|" + m)


class Prepare(Base):
    classes = ()

    def direct(self, fn):
        return fn.info.name == "clingcon_prepare"

    opaque = ("match",)

    def settle(self, st, at):
        m, e, done = st.rs
        if not done and e is not True and m and (m & {("minimize", True), ("maximize", True)} or not {"minimize", "maximize"} <= {x for x, _ in m}):
            self.res.bad("prepare", at, "all models are not enumerated although the program has an objective", key="prepare|missed")

    def branch(self, E, ctx, st, term, value):
        m, e, done = st.rs
        if term[0] == "match":
            return st.with_rs((m | {(term[1], value)}, e, done))
        if term[0] in ("call", "r") and last(term[1]) == "empty":
            return st.with_rs((m, value, done))
        return st

    def keepval(self, k, v):
        return False

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "match" and len(vals) >= 2 and vals[1][0] == "s":
            return [(st, ("match", vals[1][1]))]
        if t.name == "operator=" and "Configuration" in t.cls or t.name == "set_value" and "onfiguration" in t.cls:
            self.res.ok("prepare", "%s sets the number of models" % ctx.fn.at(n))
            m, e, done = st.rs
            if vals[-1] != ("s", "0"):
                self.res.bad("prepare", ctx.fn.at(n), "the number of models is set to %s" % show(vals[-1]), key="prepare|value")
            if not m & {("minimize", True), ("maximize", True)}:
                self.res.bad("prepare", ctx.fn.at(n), "the number of models is changed without an objective", key="prepare|noobj")
            return [(st.with_rs((m, e, True)), None)]
        return None

    def declare(self, E, ctx, st, d, value, n):
        if value[0] in ("elem", "copyof"):
            self.settle(st, ctx.fn.at(n))
            return st.with_rs((frozenset(), None, st.rs[2])), value
        return st, value


def prepare(prog, res, eff):
    for i in prog.find("clingcon_prepare"):
        r = Prepare(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, (frozenset(), None, False))
        res.funcs(E.fns_seen)
        done = False
        for st, ret in exits:
            res.ok("prepare", "exit of clingcon_prepare")
            done = done or st.rs[2]
            r.settle(st, i.body.loc)
        if not done:
            res.bad("prepare", i.body.loc, "the number of models is never adapted to the objective", key="prepare|never")


def run(prog, res, tier):
    res.rule("value", "the objective value is the sum of coefficient times value of the thread asked for, minus the adjustment, in 64 bits")
    res.rule("models", "a model that is not worse than the bound is recorded as cost and lowers the bound to its value minus one; no other model changes either")
    res.rule("adopt", "each thread adopts the shared bound plus the adjustment before it checks constraints")
    res.rule("tighten", "the bound of a thread only decreases; level and propagation of the objective follow")
    res.rule("level", "the check of constraints is skipped only if the objective is propagated on the lower levels")
    res.rule("volatile", "clauses resting on the bound are discarded with the solve call")
    res.rule("rhs", "the right-hand side of the objective is the thread's bound")
    res.rule("translate", "the translated objective has the same value")
    res.rule("directives", "minimize adds, maximize subtracts the elements")
    res.rule("prepare", "all models are enumerated if there is an objective")
    eff = Effects(prog)
    for f in (value, models, adopt, tighten, skip, volatile, translate, directives, prepare):
        f(prog, res, eff)
    for n, k in (("value", 2), ("models", 3), ("adopt", 2), ("tighten", 3), ("level", 1), ("volatile", 2), ("rhs", 2), ("translate", 4), ("directives", 2), ("prepare", 2)):
        res.need(n, k)
