"""Statistics are counted, accumulated, reported and reset completely."""
from ..absint import Engine, Rule, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import strip

EXPLANATION = (
    "Field-completeness and typestate analysis of the statistics: symbolic effects of the accumulation and reset "
    "functions are compared field by field, the labels under which the values are reported are extracted from the "
    "reporting code, and the order of accumulation, reporting and reset is checked on every path of the callback.")

RECS = ("Statistics", "SolverStatistics")
# the documented labels of the reported quantities
LABELS = {
    ("Cost",): "cost", ("Init time in seconds", "Total"): "time_init", ("Init time in seconds", "Simplify"): "time_simplify",
    ("Init time in seconds", "Translate"): "time_translate", ("Problem", "Constraints"): "num_constraints",
    ("Problem", "Variables"): "num_variables", ("Problem", "Clauses"): "num_clauses", ("Problem", "Literals"): "num_literals",
    ("Translate", "Constraints removed"): "translate_removed", ("Translate", "Constraints added"): "translate_added",
    ("Translate", "Clauses"): "translate_clauses", ("Translate", "Weight constraints"): "translate_wcs",
    ("Translate", "Literals"): "translate_literals", ("Thread", "Time in seconds", "Propagation"): "time_propagate",
    ("Thread", "Time in seconds", "Check"): "time_check", ("Thread", "Time in seconds", "Undo"): "time_undo",
    ("Thread", "Refined reason"): "refined_reason", ("Thread", "Introduced reason"): "introduced_reason",
    ("Thread", "Literals introduced"): "literals"}


def fields_in(t, names, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == "fld" and t[2] in names:
            acc.add(t[2])
        for x in t:
            if isinstance(x, tuple):
                fields_in(x, names, acc)
    return acc


class Sym(Rule):
    """Collect the field writes of a member function."""
    inline_small = 400

    def __init__(self):
        self.w = []
        self.cond = []
        self.grow = []
        self.names = set()

    def direct(self, fn):
        return fn.info.cls.split("::")[-1] in RECS

    def guards(self, ctx, st, n, what):
        """The values of counters must not decide whether counters are updated."""
        g = sorted({f for t in st.facts for f in fields_in(t, self.names)})
        if g:
            self.cond.append((ctx, n, what, g))

    def write(self, E, ctx, st, lv, value, n):
        self.w.append((ctx, lv, value, n))
        if lv[0] == "fld" and lv[2] in self.names:
            self.guards(ctx, st, n, lv[2])
        return [st]

    def call(self, E, ctx, st, n, t, obj, args):
        if t.cls.split("::")[-1] in RECS and t.name in ("accu", "reset"):
            self.guards(ctx, st, n, t.name)
        if "forward_list" in t.cls or "vector" in t.cls or "list" in t.cls:
            if t.name.split("_")[0] in ("emplace", "insert", "push"):
                vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
                self.grow.append((ctx, n, vals))
        return None


class Report(Rule):
    """Typestate of the statistics callback: (accumulated, reset, reported)."""
    inline_small = 400

    def __init__(self, res, names):
        self.res = res
        self.names = names
        self.labels = {}

    def direct(self, fn):
        return any("UserStatistics" in t or "StatisticsBase" in t for t in fn.info.pt)

    def no_inline(self, info):
        return info.cls.split("::")[-1] in RECS

    @staticmethod
    def owner(v):
        while v and v[0] in ("ref",):
            v = v[1]
        while v and v[0] == "fld" and not v[2].startswith("stats_"):
            v = v[1]
        return v[2] if v and v[0] == "fld" else None

    def call(self, E, ctx, st, n, t, obj, args):
        acc, rst, rep = st.rs
        cls = t.cls.split("::")[-1]
        if cls == "Statistics" and t.name == "accu":
            a = self.owner(args[0])
            o = self.owner(obj)
            self.res.ok("order", "%s.accu(%s)" % (o, a))
            if o != "stats_accu_" or a != "stats_step_":
                self.res.bad("order", ctx.fn.at(n), "%s is accumulated into %s" % (a, o), key="order|accu-args")
            if rst:
                self.res.bad("order", ctx.fn.at(n), "the statistics of the step are accumulated after they were reset", key="order|accu-after-reset")
            if acc:
                self.res.bad("order", ctx.fn.at(n), "the statistics of the step are accumulated twice", key="order|accu-twice")
            return [(st.with_rs((True, rst, rep)), None)]
        if cls == "Statistics" and t.name == "reset":
            self.res.ok("order", "%s.reset()" % self.owner(obj))
            if self.owner(obj) != "stats_step_":
                self.res.bad("order", ctx.fn.at(n), "%s is reset" % self.owner(obj), key="order|reset-accu")
            return [(st.with_rs((acc, True, rep)), None)]
        if t.cls.startswith("Clingo::StatisticsBase") and t.name == "add_subkey":
            k = E.load(st, args[0])
            return [(st, ("sub", obj[1] if obj[0] == "ref" else E.load(st, obj), k[1] if k[0] == "s" else "?"))]
        if t.cls.startswith("Clingo::StatisticsBase") and t.name in ("operator[]", "at"):
            return [(st, ("sub", E.load(st, obj), "[]"))]
        if t.cls.startswith("Clingo::StatisticsBase") and t.name == "set_value":
            path = []
            o = E.load(st, obj)
            while o[0] in ("sub", "idx"):
                if o[0] == "sub":
                    path.append(o[2])
                o = E.load(st, o[1])
            root = o
            path = tuple(x for x in reversed(path) if x != "[]")
            if path and path[0] == "Clingcon":
                path = path[1:]
            v = E.load(st, args[0])
            fs = fields_in(v, self.names)
            # which statistics does the value stem from
            src = set()

            def srcs(t):
                if isinstance(t, tuple) and t:
                    if t[0] == "fld" and isinstance(t[2], str) and t[2].startswith("stats_"):
                        src.add(t[2])
                    if t[0] in ("var", "elem"):
                        w = E.load(st, t) if t[0] == "var" else t[1]
                        if w != t:
                            srcs(w)
                    for x in t:
                        if isinstance(x, tuple):
                            srcs(x)
            srcs(v)
            rn = root[2] if root[0] == "arg" else show(root)
            rj = root[1] if root[0] == "arg" else None
            self.labels.setdefault(path, []).append((ctx.fn.at(n), fs, rj, src))
            rep2 = rep | {(rj, tuple(sorted(src)))}
            if src == {"stats_step_"} and rst:
                self.res.bad("order", ctx.fn.at(n), "the statistics of the step are reported after they were reset", key="order|report-after-reset")
            if src == {"stats_accu_"} and not acc:
                self.res.bad("order", ctx.fn.at(n), "the accumulated statistics are reported before the step is accumulated", key="order|report-before-accu")
            return [(st.with_rs((acc, rst, frozenset(rep2))), None)]
        return None


def run(prog, res, tier):
    res.rule("reset", "resetting a step resets every counter")
    res.rule("accumulate", "accumulation adds every counter of the step to the same counter of the total")
    res.rule("labels", "every counter is reported under its own label")
    res.rule("order", "a step is accumulated once, both totals are reported to their roots, and then the step is reset")
    res.rule("counted", "every counter is maintained by the propagator")
    eff = Effects(prog)
    recs = {r: prog.record(r) for r in RECS}
    names = {f["name"] for r in recs.values() for f in r["fields"] if "forward_list" not in f["t"] and "vector" not in f["t"]}
    for rn, rec in recs.items():
        flds = [f for f in rec["fields"]]
        for i in [x for x in prog.find(rn + "::accu") if x.cls.split("::")[-1] == rn]:
            s = Sym()
            s.names = names - {f["name"] for f in flds if "optional" in f["t"]}
            E = Engine(prog, s, eff)
            E.analyse(i, 0)
            res.funcs(E.fns_seen)
            this = ("this", i.cls)
            ws = {}
            for ctx, lv, value, n in s.w:
                if lv[0] == "fld" and lv[1] == this:
                    ws.setdefault(lv[2], []).append((value, n))
            for f in flds:
                res.ok("accumulate", "%s.%s" % (rn, f["name"]))
                for ctx, n, what, g in s.cond:
                    if what == f["name"] or what == "accu" and "list" in f["t"]:
                        res.bad("accumulate", ctx.fn.at(n), "whether %s is accumulated depends on %s" % (f["name"], ", ".join(g)), key="accumulate|cond|" + f["name"])
                if "forward_list" in f["t"] or "vector" in f["t"]:
                    for ctx, n, vals in s.grow:
                        if not any(contains(v, lambda t: t[0] == "elem") or v[0] == "elem" for v in vals):
                            res.bad("accumulate", ctx.fn.at(n), "the statistics of a new thread are not taken over (%s)" % "; ".join(show(v) for v in vals), key="accumulate|grow")
                    # element-wise: the loop reaches the accumulation of the elements
                    called = {prog.info[x].q for x in prog.reachable([i.id]) if x in prog.info}
                    touched = eff.dref[i.id] if i.id in eff.dref else {}
                    if not any(q.endswith("SolverStatistics::accu") for q in called):
                        res.bad("accumulate", i.body.loc, "the statistics of the threads are not accumulated", key="accumulate|" + f["name"])
                    continue
                vs = ws.get(f["name"], [])
                if not vs:
                    res.bad("accumulate", i.body.loc, "%s.%s is not accumulated" % (rn, f["name"]), key="accumulate|" + f["name"])
                for v, n in vs:
                    src = {x for x in fields_in(v, names)}
                    own = contains(v, lambda t: t == ("fld", this, f["name"]))
                    other = contains(v, lambda t: t[0] == "fld" and t[2] == f["name"] and t[1] != this)
                    opt = "optional" in f["t"]
                    if src != {f["name"]} or not other or (not opt and not (own and v[0] == "+")):
                        res.bad("accumulate", i.body.at(n), "%s.%s is updated to %s" % (rn, f["name"], show(v)), key="accumulate|" + f["name"])
        for i in [x for x in prog.find(rn + "::reset") if x.cls.split("::")[-1] == rn]:
            s = Sym()
            s.names = names - {f["name"] for f in flds if "optional" in f["t"]}
            E = Engine(prog, s, eff)
            E.analyse(i, 0)
            res.funcs(E.fns_seen)
            m = {k[1] for k in eff.mod[i.id] if isinstance(k, tuple) and len(k) == 2 and str(k[0]).split("::")[-1] == rn}
            whole = any(lv in (("this", i.cls), ("var",)) or lv[0] == "this" for _, lv, _, _ in s.w)
            if not whole:
                whole = any(n.k == "CXXOperatorCallExpr" and n.get("oper") == "=" and n.get("obj") is not None and
                            any(x.k == "CXXThisExpr" for x in n.get("obj").walk()) and n.fn is not None and n.fn.cls.split("::")[-1] == rn
                            for n in i.body.allnodes())
            this = ("this", i.cls)
            ws = {lv[2]: (value, n) for _, lv, value, n in s.w if lv[0] == "fld" and lv[1] == this}
            for ctx, n, what, g in s.cond:
                res.bad("reset", ctx.fn.at(n), "whether %s is reset depends on %s" % ("the counters of a thread" if what == "reset" else what, ", ".join(g)), key="reset|cond|" + what)
            for ctx, lv, value, n in s.w:
                if ctx.fn.info.name != "operator=" and lv[0] == "fld" and lv[2] in s.names and fields_in(value, names):
                    res.bad("reset", ctx.fn.at(n), "%s is set to %s when resetting" % (lv[2], show(value)), key="reset|value|" + lv[2])
            for f in flds:
                res.ok("reset", "%s.%s" % (rn, f["name"]))
                if whole:
                    continue
                if "forward_list" in f["t"] or "vector" in f["t"]:
                    called = {prog.info[x].q for x in prog.reachable([i.id]) if x in prog.info}
                    if not any(q.endswith("SolverStatistics::reset") for q in called) and f["name"] not in m:
                        res.bad("reset", i.body.loc, "the statistics of the threads are not reset", key="reset|" + f["name"])
                    continue
                if "optional" in f["t"]:
                    if f["name"] not in m and f["name"] not in ws:
                        res.bad("reset", i.body.loc, "%s.%s is not reset" % (rn, f["name"]), key="reset|" + f["name"])
                    continue
                if f["name"] not in ws or ws[f["name"]][0] not in (("i", 0), ("b", False)) and show(ws[f["name"]][0]) not in ("0", "0.0"):
                    res.bad("reset", i.body.loc, "%s.%s is not reset" % (rn, f["name"]), key="reset|" + f["name"])
    # reporting
    rep = Report(res, names)
    E = Engine(prog, rep, eff)
    ent = [i for i in prog.find("Propagator::on_statistics")]
    exits = []
    for i in ent:
        exits += E.analyse(i, (False, False, frozenset()))
    res.funcs(E.fns_seen)
    if len(rep.labels) < 10:
        raise AnalysisBroken("only %d reported labels recognised" % len(rep.labels))
    for st, _ in exits:
        acc, rst, rp = st.rs
        res.ok("order", "exit of on_statistics")
        loc = ent[0].body.loc
        if not acc:
            res.bad("order", loc, "the statistics of the step are not accumulated", key="order|no-accu")
        if not rst:
            res.bad("order", loc, "the statistics of the step are not reset", key="order|no-reset")
        for rj, src in rp:
            if src and rj is not None and src != (("stats_step_", "stats_accu_")[rj],):
                res.bad("order", loc, "%s is reported as %s statistics" % (src, ("step", "accumulated")[rj]), key="order|roots")
        for rj in (0, 1):
            if not any(r == rj and s for r, s in rp):
                res.bad("order", loc, "nothing is reported for the %s statistics" % ("step", "accumulated")[rj], key="order|missing%d" % rj)
    reported = {}
    for path, regs in sorted(rep.labels.items()):
        want = LABELS.get(path)
        for where, fs, rj, src in regs:
            res.ok("labels", "%s: %s" % (" / ".join(path), ", ".join(sorted(fs))))
            if want is not None and fs != {want}:
                res.bad("labels", where, "%s is reported as '%s'" % (", ".join(sorted(fs)) or "a constant", " / ".join(path)), key="labels|" + "/".join(path))
            if len(fs) == 1:
                reported.setdefault(next(iter(fs)), set()).add(path)
            if path == ("Thread", "Time in seconds", "Total") and fs != {"time_propagate", "time_check", "time_undo"}:
                res.bad("labels", where, "the total time consists of %s" % sorted(fs), key="labels|total")
    for rn, rec in recs.items():
        for f in rec["fields"]:
            if "forward_list" in f["t"] or "vector" in f["t"]:
                continue
            res.ok("labels", f["name"])
            if f["name"] not in reported:
                res.bad("labels", "", "%s.%s is not reported" % (rn, f["name"]), key="labels|missing|" + f["name"])
    # counting
    skip = {"accu", "reset"}
    for rn, rec in recs.items():
        for f in rec["fields"]:
            if "forward_list" in f["t"] or "vector" in f["t"]:
                continue
            res.ok("counted", f["name"])
            hit = False
            for fid, fn in prog.fns.items():
                if fn.info.cls.split("::")[-1] in RECS:
                    continue
                for n in fn.allnodes():
                    if n.k == "MemberExpr" and n.get("name") == f["name"] and (n.get("field") or "").split("::")[-1] in RECS:
                        p = n.parent
                        ch = n
                        while p is not None and p.k in ("ParenExpr", "ImplicitCastExpr"):
                            ch, p = p, p.parent
                        if p is None:
                            continue
                        if p.k == "UnaryOperator" and p.get("op") == "++" or p.k == "CompoundAssignOperator" and p.get("op") == "+=" and p.get("c")[0] is ch or \
                                p.k in ("CXXConstructExpr", "InitListExpr") and n.lv or p.k == "CXXOperatorCallExpr" and p.get("oper") == "=" or \
                                p.k == "BinaryOperator" and p.get("op") == "=" and p.get("c")[0] is ch and strip(p.get("c")[1]).cv not in ("0", 0) and strip(p.get("c")[1]).k not in ("IntegerLiteral", "FloatingLiteral"):
                            hit = True
                if hit:
                    break
            if not hit:
                res.bad("counted", "", "%s.%s is never counted" % (rn, f["name"]), key="counted|" + f["name"])
    res.need("reset", 15, "fields")
    res.need("accumulate", 15, "fields")
