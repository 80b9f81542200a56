"""What happens to step-local data between solve steps."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken, CALLS
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import Base, facts, is_adjust, null_fact, one

EXPLANATION = (
    "Path-sensitive typestate and symbolic analysis of the initialization of a solve step: the order of removal of "
    "step-local data, parsing, extension of the objective and marking of static literals is followed on every path, and "
    "the functions removing and combining the data are compared with what they have to do.")

SOLVER = ("update", "mark_variables", "remove_constraint", "update_bounds", "copy_state", "watch_literals", "shrink_to_fit", "translate",
          "simplify", "translate_minimize", "add_constraint", "statistics", "add_variable")


def every(E, st, obj):
    """Does the receiver range over all solvers: True, False (only some), None (unknown), or is it a fixed one?"""
    o = E.storage(st, obj)
    o = E.load(st, o) if o[0] == "var" else o
    if not refers(o, "solvers_"):
        return None
    if o[0] == "elem":
        return True
    if o[0] == "idx":
        return o[2] if o[2][0] == "i" else contains(o[2], lambda x: x[0] == "phi")
    if o[0] == "+" or contains(o, lambda x: x[0] == "+"):
        return False
    if o[0] in ("call", "r") and last(o[1]) in ("begin", "cbegin"):
        return True
    return None


def covers(evs):
    fixed = [e for e in evs if isinstance(e, tuple)]
    return any(e is True for e in evs) and (not fixed or ("i", 0) in fixed) and not any(e is False for e in evs)


class Init(Base):
    """Events of the initialization: rs is a set of names."""
    opaque = ("remove_minimize", "prepare_minimize", "translate_", "simplify_", "update_minimize", "master_", "solver_", "parse", "commit")

    def init(self):
        self.seen = {}
        self.fail = set()

    def direct(self, fn):
        return (last(fn.info.cls) == "Propagator" or fn.info.lambda_) and fn.info.name not in self.opaque

    def no_inline(self, info):
        return info.name in self.opaque or last(info.cls) in ("Solver", "InitClauseCreator", "ConstraintBuilder")

    def keep(self, t):
        return refers(t, "minimize_") and not refers(t, "minimize_bound_")

    def need(self, ctx, st, n, what, before, why):
        self.res.ok("order", "%s: %s after %s" % (ctx.fn.at(n), what, ", ".join(sorted(before)) or "anything"))
        for b in before:
            if b not in st.rs:
                self.res.bad("order", ctx.fn.at(n), "%s before %s: %s" % (what, b, why), key="order|%s|%s" % (what, b))

    def event(self, E, ctx, st, n, t, obj, vals, args):
        cls = last(t.cls)
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        if cls == "Solver" and t.name in ("update", "mark_variables", "update_bounds"):
            ev = every(E, st, obj) if t.name != "update_bounds" else True
            if t.name == "update":
                self.res.ok("order", "%s: removal of step-local data before parsing" % ctx.fn.at(n))
                if "parsed" in rs:
                    self.res.bad("order", ctx.fn.at(n), "step-local literals are removed after the constraints were read, which drops the new literals", key="order|update")
                self.seen.setdefault(t.name, []).append((ev, ctx.fn.at(n)))
                return [(st.with_rs(rs | {"updated"}), r)]
            if t.name == "mark_variables":
                self.seen.setdefault(t.name, []).append((ev, ctx.fn.at(n)))
                if not (calls(vals[0], "size") and calls(vals[0], "assignment")) or calls(vals[0], "trail"):
                    self.res.bad("static", ctx.fn.at(n), "the literals up to %s are marked static instead of those of the whole assignment" % show(vals[0]), key="static|value")
                self.need(ctx, st, n, "marking static literals", {"translated", "committed"}, "literals added afterwards would be dropped in the next step")
                return [(st.with_rs(rs | {"marked"}), r)]
            self.seen.setdefault(t.name, []).append((None, ctx.fn.at(n)))
            return [(st.with_rs(rs | {"gathered"}), r)]
        if t.name == "remove_minimize":
            return [(st.with_rs(rs | {"removed"}), ("call", "remove_minimize", ()))]
        if t.name == "parse" and not t.cls:
            self.need(ctx, st, n, "parsing", {"removed"}, "the previous objective interferes with the new one")
            return [(st.with_rs(rs | {"parsed"}), r)]
        if t.name == "prepare_minimize":
            return [(st.with_rs(rs | {"prepared"}), ("call", "prepare_minimize", ()))]
        if t.name == "simplify_":
            self.need(ctx, st, n, "simplification", {"parsed"}, "the new constraints would not be simplified")
            return [(st.with_rs(rs | {"simplified"}), r)]
        if t.name == "translate_":
            self.need(ctx, st, n, "translation", {"parsed", "prepared", "simplified"}, "the objective must be complete and must not take part in simplification")
            if not any(calls(v, "prepare_minimize") for v in vals):
                self.res.bad("objective", ctx.fn.at(n), "the objective prepared from the directives is not added", key="objective|dropped")
            return [(st.with_rs(rs | {"translated"}), r)]
        if t.name == "commit":
            return [(st.with_rs(rs | {"committed"}), r)]
        if t.name == "update_minimize" and cls == "Propagator":
            if vals[0] != ("i", (1 << 63) - 1):
                self.res.bad("bound", ctx.fn.at(n), "the bound of the objective is set to %s at the beginning of a step" % show(vals[0]), key="bound|value")
            return [(st.with_rs(rs | {"nobound"}), r)]
        if t.name in ("store", "exchange") and obj is not None and refers(obj, "minimize_bound_"):
            if vals[0] != ("i", (1 << 63) - 1):
                self.res.bad("bound", ctx.fn.at(n), "the bound of the objective is set to %s at the beginning of a step" % show(vals[0]), key="bound|value")
            return [(st.with_rs(rs | {"nobound"}), r)]
        if t.name == "set_check_mode":
            v = vals[0]
            m = {0: "none", 1: "total", 2: "partial", 3: "both"}.get(v[1] if v[0] == "i" else None, last(v[1]).lower() if v[0] == "enum" else show(v))
            return [(st.with_rs(frozenset(x for x in rs if not x.startswith("mode")) | {"mode " + m}), r)]
        if t.body is not None and t.ret == "bool":
            return None
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] == "minimize_bound_":
            if value != ("i", (1 << 63) - 1):
                self.res.bad("bound", ctx.fn.at(n), "the bound of the objective is set to %s at the beginning of a step" % show(value), key="bound|value")
            return [st.with_rs(st.rs | {"nobound"})]
        return [st]


def init(prog, res, eff):
    for i in prog.find("Propagator::init"):
        r = Init(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        names = {"parse", "update_bounds", "simplify_", "translate_", "commit", "add_clause", "propagate"}
        full = 0
        for st, _ in exits:
            fs = facts(st)
            if any(t[0] == "r" and last(t[1]) in names and b is False for t, b in fs.items()):
                continue
            full += 1
            res.ok("complete", "exit of Propagator::init without a conflict")
            for what, txt in (("removed", "the objective of the previous step is not taken out"), ("updated", "step-local data of the solvers is not removed"),
                              ("parsed", "the constraints are not read"), ("simplified", "the constraints are not simplified"), ("prepared", "the objective is not extended"),
                              ("translated", "the constraints are not translated"), ("committed", "the collected clauses are not handed to the solver"),
                              ("marked", "the static literals are not marked"), ("gathered", None)):
                if txt and what not in st.rs:
                    # the list of solvers is never empty, but loops over it may be skipped as far as the analysis can tell
                    if what in ("updated", "marked") and r.seen.get({"updated": "update", "marked": "mark_variables"}[what]):
                        continue
                    res.bad("complete", loc, "initialization can end although %s" % txt, key="complete|" + what)
            nul = null_fact(fs, "minimize_")
            mode = [x for x in st.rs if x.startswith("mode")]
            if nul is not True:
                if "nobound" not in st.rs:
                    res.bad("bound", loc, "the bound of the objective found in an earlier step stays in place", key="bound|stale")
                if mode != ["mode both"]:
                    res.bad("complete", loc, "total assignments are not checked under the model lock although there may be an objective", key="complete|mode")
            elif mode not in (["mode partial"], ["mode both"], ["mode fixpoint"]):
                res.bad("complete", loc, "partial assignments are not checked (%s)" % ", ".join(mode), key="complete|mode2")
        if not full:
            raise AnalysisBroken("no complete path through Propagator::init")
        for what, txt in (("update", "removing step-local data"), ("mark_variables", "marking static literals")):
            evs = r.seen.get(what, [])
            res.ok("all", "%s: %s" % (txt, ", ".join(sorted({w for _, w in evs}))))
            if not evs:
                continue
            if not covers([e for e, _ in evs]):
                res.bad("all", evs[0][1], "%s does not cover the solvers of all threads" % txt, key="all|" + what)
        if not r.seen.get("update_bounds"):
            res.bad("complete", loc, "bounds found by other threads in the previous step are dropped", key="complete|gather")


class Update(Base):
    """Solver::update, one entry of the literal map at a time."""
    classes = ("Solver",)
    opaque = ("update_litmap_", "unset_literal", "unset", "var_state", "map_lit", "var", "value")

    def direct(self, fn):
        return last(fn.info.cls) in ("Solver",) and fn.info.name not in self.opaque

    def init(self):
        self.dropped = 0
        self.pos = set()
        self.first = set()

    def keep(self, t):
        return refers(t, "max_static_var_")

    def settle(self, st, at):
        cs = [x[1] for x in st.rs if x[0] == "cond"]
        cond = cs[0] if len(cs) == 1 else None
        ev = {x for x in st.rs if isinstance(x, tuple) and x[0] not in ("cond", "zero")}
        if cond == "odd":
            self.res.bad("literals", at, "the test for step-local literals is not whether their variable exceeds the last static one", key="literals|cond")
        elif cond is True and ev:
            self.dropped += 1
        if cond is True and ("zero", True) not in st.rs:
            for k, txt in (("vs", "stays in the state of its variable"), ("chain", "stays in the chain of order literals"), ("map", "stays in the literal map")):
                if not any(x[0] == k for x in ev):
                    self.res.bad("literals", at, "a step-local literal %s" % txt, key="literals|" + k)
        elif ev and cond is not True:
            self.res.bad("literals", at, "a literal is dropped that is not known to be local to the step", key="literals|static")

    def branch(self, E, ctx, st, term, value):
        if term[0] == "<" and refers(term, "max_static_var_"):
            d = lin(term[2], -1, lin(term[1]))
            c = d.pop(None, 0)
            ks = {("m" if refers(x, "max_static_var_") else "v"): k for x, k in d.items()}
            vs = [x for x in d if not refers(x, "max_static_var_")]
            cond = "odd"
            if len(vs) == 1 and calls(vs[0], "map_lit") and not calls(vs[0], "abs"):
                # the sign of the literal has to be taken care of by the program
                neg = [b for t, b in facts(st).items() if t[0] == "<" and t[1:] == (vs[0], ("i", 0))]
                if neg == [True]:
                    ks["v"] = -ks["v"]
                elif neg != [False]:
                    ks = {}
            elif len(vs) == 1 and not calls(vs[0], "map_lit"):
                # position in the map plus one (which is checked for the first position)
                self.pos.add(vs[0])
                c = 0 if ks.get("m") == 1 else -1
            elif not vs and len(ks) == 1:
                ks["v"] = -ks["m"]
                self.first.add(-c if ks["m"] == 1 else c + 1)
                self.pos.add(("i", c))
                c = 0 if ks["m"] == 1 else -1
            if ks == {"m": 1, "v": -1} and c == 0:
                cond = value
            elif ks == {"m": -1, "v": 1} and c == -1:
                cond = not value
            return st.with_rs(frozenset(x for x in st.rs if x[0] != "cond") | {("cond", cond)})
        if term[0] == "==" and ("i", 0) in term[1:] and (calls(term, "map_lit") or calls(term, "abs")) and value:
            return st.with_rs(st.rs | {("zero", True)})
        if calls(term, "invalid") and value or calls(term, "valid") and not value:
            return st.with_rs(st.rs | {("zero", True)})
        return st

    def declare(self, E, ctx, st, d, value, n):
        if value[0] in ("elem", "copyof") and refers(value, "litmap_") or value[0] == "idx" and last(value[1][-1] if value[1][0] == "fld" else "") == "litmap_":
            self.settle(st, ctx.fn.at(n))
            st = st.with_rs(frozenset(x for x in st.rs if not isinstance(x, tuple)))
            st = st.forget(lambda x: x[0] == "call" and last(x[1]) in ("map_lit", "abs", "value", "var"))
            if value[0] == "copyof":
                self.res.bad("literals", ctx.fn.at(n), "the entries of the literal map are copied", key="literals|copy")
        return st, value

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name in ("map_lit", "var", "value", "var_state") and (t.const or t.name == "var_state"):
            o = (E.load(st, obj),) if obj is not None else ()
            if t.name == "map_lit" and vals:
                self.pos.add(vals[0])
                return [(st, ("call", t.name, ()))]
            return [(st, ("call", t.name, o + tuple(vals)))]
        if t.name == "reset" and obj is not None and refers(obj, "minimize_bound_"):
            return [(st.with_rs(rs | {"bound"}), r)]
        if t.name == "unset_literal":
            return [(st.with_rs(rs | {("vs",)}), r)]
        if t.name == "update_litmap_":
            if vals[1] != ("i", 0):
                self.res.bad("literals", ctx.fn.at(n), "the chain of order literals is linked to %s when a literal is dropped" % show(vals[1]), key="literals|link")
            if ("vs",) not in rs:
                pass
            return [(st.with_rs(rs | {("chain",)}), r)]
        if t.name == "unset":
            return [(st.with_rs(rs | {("map",)}), r)]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] == "minimize_bound_":
            v = one(value)
            if v[0] == "glob" and "nullopt" in v[1] or v[0] == "new" and not v[2]:
                return [st.with_rs(st.rs | {"bound"})]
            if refers(v, "nullopt") or "nullopt" in repr(v):
                return [st.with_rs(st.rs | {"bound"})]
            self.res.bad("bound", ctx.fn.at(n), "the bound of a thread is set to %s between steps" % show(value), key="bound|thread")
            return [st.with_rs(st.rs | {"bound"})]
        if lv[0] == "fld" and lv[2] == "minimize_level_":
            if value != ("i", 0):
                self.res.bad("bound", ctx.fn.at(n), "the level of the bound is set to %s between steps" % show(value), key="bound|level")
            return [st.with_rs(st.rs | {"level"})]
        return [st]


def update(prog, res, eff):
    for i in [x for x in prog.find("Solver::update") if not x.pt]:
        r = Update(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        for st, _ in exits:
            res.ok("bound", "exit of Solver::update")
            if "bound" not in st.rs:
                res.bad("bound", loc, "a thread keeps the bound of the objective of the previous step", key="bound|thread-stale")
            if "level" not in st.rs:
                res.bad("bound", loc, "a thread keeps the level of the bound of the previous step", key="bound|level-stale")
            r.settle(st, loc)
        if len(r.pos) == 1 and list(r.pos)[0][0] == "i":
            res.bad("literals", loc, "every entry of the literal map is taken for the literal at the same position", key="literals|pos")
        if r.first and min(r.first) != 1:
            res.bad("literals", loc, "the first entry of the literal map is taken for the variable %d" % min(r.first), key="literals|first")
        res.ok("literals", "entries dropped on %d paths" % r.dropped)
        if not r.dropped:
            res.bad("literals", loc, "order literals local to the previous step are not dropped", key="literals|none")


class Remove(Base):
    opaque = ("remove_constraint",)

    def init(self):
        self.objs = []

    def keep(self, t):
        return refers(t, "minimize_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name == "remove_constraint":
            self.objs.append((every(E, st, obj), ctx.fn.at(n)))
            if "null" in rs or not refers(vals[0], "minimize_") and not calls(vals[0], "release") and vals[0][0] != "new" and not vals[0][0] in ("var", "r", "call"):
                self.res.bad("remove", ctx.fn.at(n), "the constraint removed from the solvers is %s" % show(vals[0]), key="remove|what")
            return [(st.with_rs(rs | {"solvers"}), r)]
        if t.name == "release":
            return [(st.with_rs(rs | {"released"}), r)]
        if t.name in ("erase", "pop_back") and obj is not None and refers(E.storage(st, obj), "constraints_"):
            if "released" not in rs:
                self.res.bad("remove", ctx.fn.at(n), "the objective is destroyed while it is handed out", key="remove|owner")
            return [(st.with_rs(rs | {"erased"}), r)]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] == "minimize_":
            return [st.with_rs((st.rs - {"null"}) | ({"null"} if value == ("null",) else set()))]
        return [st]


def remove(prog, res, eff):
    for i in prog.find("Propagator::remove_minimize"):
        r = Remove(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        for st, ret in exits:
            res.ok("remove", "exit of Propagator::remove_minimize")
            nul = None
            for t, b in facts(st).items():
                if t[0] == "==" and ("null",) in t[1:] and refers(t, "minimize_"):
                    nul = b
            if nul is True and not st.rs:
                continue
            for k, txt in (("erased", "stays in the list of constraints"), ("null", "still counts as the current objective")):
                if k not in st.rs:
                    res.bad("remove", loc, "the objective of the previous step %s" % txt, key="remove|" + k)
        if not covers([e for e, _ in r.objs]):
            res.bad("remove", loc, "the objective of the previous step is not removed from the solvers of all threads", key="remove|solvers")


class PrepareMin(Base):
    opaque = ("simplify", "create", "adjust")

    def direct(self, fn):
        return last(fn.info.cls) == "ConstraintBuilder" and fn.info.name not in self.opaque

    def keep(self, t):
        return refers(t, "minimize_") and not refers(t, "minimize_elems_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name == "adjust":
            return [(st, ("call", "adjust", (E.load(st, obj),)))]
        if t.name in ("emplace_back", "push_back", "insert", "emplace") and obj is not None and refers(E.storage(st, obj), "minimize_elems_"):
            at = ctx.fn.at(n)
            if t.name == "insert" and len(vals) == 3 and all(refers(v, "minimize_") for v in vals[1:]) and \
                    (calls(vals[1], "begin") or refers(vals[1], "elements_") and lin(vals[2], -1, lin(vals[1])) != {}):
                return [(st.with_rs(rs | {"elems"}), r)]
            v = vals if len(vals) == 2 else list(vals[-1][2]) if vals[-1][0] == "new" and len(vals[-1][2]) == 2 else vals
            if len(v) == 2 and calls(v[0], "adjust"):
                f = lin(v[0])
                self.res.ok("combine", "%s adds the constant %s" % (at, show(v[0])))
                if list(f.values()) != [-1]:
                    self.res.bad("combine", at, "the constant of the previous objective is added as %s" % show(v[0]), key="combine|adjust")
                if v[1] != ("i", 4294967295) and v[1] != ("i", -1) and "INVALID" not in repr(v[1]):
                    self.res.bad("combine", at, "the constant of the previous objective is added to the variable %s" % show(v[1]), key="combine|var")
                return [(st.with_rs(rs | {"adjust"}), r)]
            self.res.ok("combine", "%s adds %s" % (at, " ".join(show(x) for x in v)))
            if len(v) == 1 and v[0][0] in ("elem", "copyof") or len(v) == 1 and contains(v[0], lambda x: x[0] == "elem" and refers(x, "minimize_")) or \
                    len(v) == 2 and v[0][0] == "fld" and v[1][0] == "fld" and v[0][1] == v[1][1] and (v[0][2], v[1][2]) in (("#0", "#1"), ("first", "second")):
                return [(st.with_rs(rs | {"elems"}), r)]
            self.res.bad("combine", at, "%s is added to the elements of the objective" % " ".join(show(x) for x in v), key="combine|elem")
            return [(st, r)]
        if t.name == "simplify" and not t.cls:
            if len(vals) > 1 and vals[1] != ("b", True):
                self.res.bad("combine", ctx.fn.at(n), "duplicate variables of the objective are not merged with its constants", key="combine|simplify")
            return [(st.with_rs(rs | {"simplified"}), ("call", "simplify", ()))]
        if t.name == "create" and last(t.cls) == "MinimizeConstraint":
            self.res.ok("combine", "%s creates the objective" % ctx.fn.at(n))
            if lin(vals[0]) != {("call", "simplify", ()): 1}:
                self.res.bad("combine", ctx.fn.at(n), "the objective is adjusted by %s instead of the result of its simplification" % show(vals[0]), key="combine|create")
            if not refers(vals[1], "minimize_elems_"):
                self.res.bad("combine", ctx.fn.at(n), "the objective is created from %s" % show(vals[1]), key="combine|elems")
            return [(st.with_rs(rs | {"created"}), ("call", "create", ()))]
        return None


def combine(prog, res, eff):
    fs = [i for i in prog.info.values() if i.body is not None and i.name == "prepare_minimize"]
    if not fs:
        raise AnalysisBroken("prepare_minimize not found")
    for i in fs:
        r = PrepareMin(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        kinds = set()
        for st, ret in exits:
            kinds |= {(null_fact(facts(st), "minimize_"), x) for x in st.rs}
            res.ok("combine", "exit of prepare_minimize")
            nul = None
            empty = None
            for t, b in facts(st).items():
                if t[0] == "==" and ("null",) in t[1:] and refers(t, "minimize_") and not calls(t, "create"):
                    nul = b
                if t[0] in ("call", "r") and last(t[1]) == "empty":
                    empty = b
            if nul is False and "adjust" not in st.rs and "created" in st.rs:
                res.bad("combine", loc, "the constant of the previous objective is lost", key="combine|noadjust")
            if nul is False and "created" not in st.rs and empty is not True:
                res.bad("combine", loc, "the objective is not renewed", key="combine|nocreate")
            if nul is True and "created" not in st.rs and empty is not True:
                res.bad("combine", loc, "a new objective is not created", key="combine|nonew")
            if nul is None and "adjust" not in st.rs:
                res.bad("combine", loc, "the previous objective is not taken into account", key="combine|ignored")
        if not any(k == "elems" for _, k in kinds):
            res.bad("combine", loc, "the elements of the previous objective are lost", key="combine|noelems")


class Translated(Base):
    opaque = ("add_minimize_", "translate", "translate_minimize", "set_state", "master_")

    def direct(self, fn):
        return last(fn.info.cls) == "Propagator" and fn.info.name not in self.opaque

    def keep(self, t):
        return calls(t, "translate_minimize") or calls(t, "translate") or t[0] == "==" and t[1][0] == "arg"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name == "add_minimize_":
            if "translate" in st.rs:
                self.res.bad("objective", ctx.fn.at(n), "the objective is added after the translation", key="objective|late")
            return [(st.with_rs(st.rs | {"added"}), r)]
        if t.name == "translate" and last(t.cls) == "Solver":
            return [(st.with_rs(st.rs | {"translate"}), r)]
        if t.name == "translate_minimize":
            return [(st, ("call", "translate_minimize", ()))]
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] == "minimize_" and value == ("null",):
            return [st.with_rs(st.rs | {"null"})]
        return [st]


def translated(prog, res, eff):
    for i in prog.find("Propagator::translate_"):
        r = Translated(res)
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        for st, ret in exits:
            res.ok("objective", "exit of Propagator::translate_")
            fs = facts(st)
            tm = fs.get(("call", "translate_minimize", ()))
            failed = any(t[0] == "r" and last(t[1]) == "translate" and b is False for t, b in fs.items())
            new = None
            cur = None
            for t, b in fs.items():
                if t[0] == "==" and ("null",) in t[1:]:
                    if any(x[0] == "arg" for x in t[1:]):
                        new = not b
                    elif refers(t, "minimize_"):
                        cur = not b
            if new is True and "added" not in st.rs:
                res.bad("objective", loc, "the objective is not added", key="objective|notadded")
            if failed:
                continue
            if tm is True and cur is not False and "null" not in st.rs:
                res.bad("objective", loc, "a translated objective still counts as current", key="objective|current")
            if "null" in st.rs and tm is not True:
                res.bad("objective", loc, "the objective is dropped although it is not translated", key="objective|lost")
            if tm is None and cur is None and "null" not in st.rs:
                res.bad("objective", loc, "whether the objective was translated is not checked", key="objective|unchecked")


def run(prog, res, tier):
    res.rule("order", "step-local data is removed before constraints are read, the objective is added after simplification, static literals are marked last")
    res.rule("complete", "an initialization that ends without a conflict performs all its phases")
    res.rule("all", "step-local data is removed and static literals are marked in the solvers of all threads")
    res.rule("static", "all literals of the assignment at the end of initialization are static")
    res.rule("bound", "the bound of the objective starts from nothing in each step, globally and per thread")
    res.rule("literals", "exactly the order literals introduced during the previous search are dropped, everywhere")
    res.rule("remove", "the previous objective is removed from all solvers and the list of constraints")
    res.rule("combine", "the new objective extends the previous one including its constant")
    res.rule("objective", "the objective is added before the translation and counts as current unless translated")
    eff = Effects(prog)
    for f in (init, update, remove, combine, translated):
        f(prog, res, eff)
    for n, k in (("order", 3), ("complete", 1), ("all", 2), ("bound", 1), ("literals", 1), ("remove", 2), ("combine", 3), ("objective", 2)):
        res.need(n, k)
