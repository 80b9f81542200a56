"""Isolation of solver threads."""
from ..absint import Engine, Rule, contains, show
from ..core import AnalysisBroken, CALLS
from ..effects import Effects

EXPLANATION = (
    "Effect and ownership analysis: the transitive write effects of the callbacks clingo runs concurrently are computed "
    "per (record, field) and compared with the state shared between threads; the selection of the solver state is checked "
    "on every path from the callbacks (symbolic index); writes to the shared sentinel of the literal map must be guarded.")

SEARCH = ("propagate", "check", "undo", "decide")
# entry points -> index of the parameter that is a thread id (None: taken from a handle)
ENTRIES = {"Propagator::propagate": None, "Propagator::check": None, "Propagator::undo": None, "Propagator::decide": 0,
           "Propagator::on_model": None, "Propagator::get_value": 1, "Propagator::get_minimize_value": 0,
           "clingcon_assignment_get_value": 1}


class Select(Rule):
    inline_small = 60

    def __init__(self, res, prog, entry, tid):
        self.res = res
        self.entry = entry
        self.tid = tid
        self.uses = 0
        self.users = {f.id for f in prog.fns.values() if any(
            n.k == "MemberExpr" and n.get("name") == "solvers_" for n in f.allnodes())}

    def direct(self, fn):
        return fn.info.id in self.users

    def no_inline(self, info):
        return info.cls.split("::")[-1] == "Solver"

    def call(self, E, ctx, st, n, t, obj, args):
        if obj is None or obj[0] != "fld" or obj[2] != "solvers_":
            return None
        if t.name in ("operator[]", "at"):
            i = E.load(st, args[0][1]) if args[0][0] == "ref" else E.load(st, args[0])
            self.uses += 1
            self.res.ok("own-solver", "%s selects solver %s in %s" % (self.entry, show(i), ctx.fn.info.short))
            good = i[0] in ("call", "r") and i[1].split("::")[-1] == "thread_id" or self.tid is not None and i[0] == "arg" and i[1] == self.tid
            if not good:
                self.res.bad("own-solver", ctx.fn.at(n), "%s uses the state of solver '%s' instead of the one of the calling thread" %
                             (self.entry, show(i)), key="own-solver|" + self.entry)
            return [(st, ("idx", obj, i))]
        if t.name in ("size", "empty"):
            return None
        self.res.ok("own-solver", "%s.%s in %s" % (self.entry, t.name, ctx.fn.info.short))
        self.res.bad("own-solver", ctx.fn.at(n), "%s accesses the states of other threads (%s)" % (self.entry, t.name),
                     key="own-solver|%s|%s" % (self.entry, t.name))
        return None


class Sentinel(Rule):
    """Entries returned by a lookup may be the shared sentinel."""
    inline_small = 60

    def __init__(self, res, prog, rec):
        self.res = res
        self.rec = rec
        self.look = {i.id for i in prog.info.values() if i.body is not None and i.ret.endswith("&") and rec in i.ret and
                     not i.ret.startswith("const ") and
                     any(n.k == "DeclRefExpr" and n.get("dk") in ("slocal", "global") for n in i.body.allnodes())}
        self.prog = prog

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and n.fn.id in self.look for n in fn.allnodes())

    def no_inline(self, info):
        return info.cls.split("::")[-1] == self.rec or info.id in self.look

    memo = True

    def call(self, E, ctx, st, n, t, obj, args):
        if t.id in self.look:
            return [(st, ("call", t.q, tuple(E.load(st, a[1]) if a[0] == "ref" else a for a in args)))]
        if t.cls.split("::")[-1] == self.rec and obj is not None and not t.static and t.kind != "ctor":
            o = E.load(st, obj[1]) if obj[0] == "ref" else E.load(st, obj)
            if not (o[0] == "call" and any(self.prog.info[x].q == o[1] for x in self.look)):
                return None
            if t.const:
                vals = tuple(E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args)
                return [(st, ("call", t.q, (o,) + vals))]
            self.res.ok("sentinel", "%s: %s in %s" % (ctx.fn.at(n), t.name, ctx.fn.info.short))
            ok = any((f[0] == "call" and f[1].split("::")[-1] == "valid" and f[2][0] == o and v) or
                     (f[0] == "call" and f[1].split("::")[-1] == "invalid" and f[2][0] == o and not v)
                     for f, v in st.facts.items())
            if not ok:
                self.res.bad("sentinel", ctx.fn.at(n), "%s may modify the entry shared by all threads in %s" % (t.name, ctx.fn.info.short),
                             key="sentinel|%s|%s" % (t.name, ctx.fn.info.short))
        return None


def run(prog, res, tier):
    res.rule("shared-write", "callbacks running concurrently do not write state shared between threads (other than atomics)")
    res.rule("shared-read", "non-atomic shared state written by one callback is not accessed by a concurrent one")
    res.rule("statics", "callbacks running concurrently do not write static or global objects")
    res.rule("own-solver", "a callback only uses the solver state of its own thread")
    res.rule("sentinel", "the entry of the literal map shared by all threads is never modified")
    eff = Effects(prog)
    # constraints are shared by all threads; their states are not
    shared = {"Propagator", "Config", "SolverConfig", "Statistics", "clingcon_theory", "DistinctElement", "AbstractConstraint"}
    todo = ["AbstractConstraint"]
    for r in prog.records.values():
        if any(m["over"] and any(prog.info[o].cls.split("::")[-1] == "AbstractConstraint" for o in m["over"] if o in prog.info) for m in r["methods"]):
            shared.add(r["qn"].split("::")[-1])
    if not {"SumConstraint", "MinimizeConstraint"} <= shared:
        raise AnalysisBroken("constraint classes not recognised: %s" % sorted(shared))
    init_only = lambda i: "InitClauseCreator" in i.cls.split("::")
    types = {}
    for r in prog.records.values():
        for f in r["fields"]:
            types[(r["qn"].split("::")[-1], f["name"])] = f["t"]
    writes, reach = {}, {}
    for m in SEARCH + ("on_model",):
        for i in [x for x in prog.find("Propagator::" + m) if x.cls.split("::")[-1] == "Propagator"]:
            seen, mods, par = eff.closure(i.id, init_only)
            reach.setdefault(m, set()).update(seen)
            writes.setdefault(m, {}).update(mods)
            res.funcs(seen)
    if len(reach) < 5:
        raise AnalysisBroken("search callbacks not found")
    refs = {m: {} for m in reach}
    for m, fs in reach.items():
        for f in fs:
            for k, ns in eff.dref.get(f, {}).items():
                refs[m].setdefault(k, (f, ns[0]))
    short = lambda k: (str(k[0]).split("::")[-1], k[1])
    for m in reach:
        for k, (f, n) in sorted(writes[m].items(), key=lambda x: str(x[0])):
            fn = prog.fns[f]
            if k[0] == "glob":
                res.ok("statics", "%s writes %s" % (m, k[1]))
                g = prog.globals.get(k[1])
                if g is None or not g.get("tls"):
                    res.bad("statics", fn.at(n), "%s (called by %s) writes the static object %s" % (fn.info.short, m, k[1]), key="statics|%s" % k[1])
                continue
            s = short(k)
            res.ok("shared-write", "%s writes %s.%s" % (m, s[0], s[1]))
            if s[0] not in shared:
                continue
            atomic = "atomic" in types.get(s, "")
            if m in SEARCH:
                if not atomic:
                    res.bad("shared-write", fn.at(n), "%s (called by %s) writes %s.%s, which is shared by all threads" %
                            (fn.info.short, m, s[0], s[1]), key="shared-write|%s.%s" % s)
            elif not atomic:
                for m2 in SEARCH:
                    res.ok("shared-read", "%s.%s written by %s, accessed by %s?" % (s[0], s[1], m, m2))
                    for k2, (f2, n2) in refs[m2].items():
                        if short(k2) == s:
                            res.bad("shared-read", prog.fns[f2].at(n2), "%s.%s is written by %s and accessed by %s" % (s[0], s[1], m, m2),
                                    key="shared-read|%s.%s" % s)
        # static objects that are handed out by reference
        for f in reach[m]:
            res.ok("statics", prog.info[f].short)
    # selection of the solver
    uses = 0
    for name, tid in ENTRIES.items():
        for i in prog.find(name):
            if "::" in name and i.cls.split("::")[-1] != "Propagator":
                continue
            r = Select(res, prog, name, tid)
            E = Engine(prog, r, eff)
            E.analyse(i, 0)
            uses += r.uses
            res.funcs(E.fns_seen)
    # the shared sentinel
    r = Sentinel(res, prog, "LitmapEntry")
    if r.look:
        for f in prog.fns.values():
            if r.direct(f):
                E = Engine(prog, r, eff)
                E.analyse(f.info, 0)
                res.funcs(E.fns_seen)
    res.need("shared-write", 60, "writes")
    res.need("own-solver", 8, "selections")
    res.assumptions.append("clingo calls the callbacks of one thread sequentially and holds the model lock while on_model runs")
    res.assumptions.append("effects through pointers held in thread-owned containers are attributed to the record of the pointee")
