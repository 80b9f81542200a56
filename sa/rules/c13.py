"""Options: both configuration interfaces set the same field from the same parser."""
from ..absint import Ctx, Engine, FALSE, Rule, State, TRUE, contains, decide, show
from ..core import AnalysisBroken, CALLS
from ..effects import Effects

EXPLANATION = (
    "Path-sensitive flow analysis of the two configuration interfaces: for every option name, the configuration fields "
    "written on the paths selecting it and the parsers (with bounds) the values stem from are extracted from the "
    "programmatic interface and from the closures registered for the command line, and compared; deferred per-thread "
    "options are followed through the validation step.")

CONFIG = ("Config", "SolverConfig", "clingcon_theory")


def is_leaf(t):
    """A function that turns text into a value."""
    if t.body is None or not t.pt or "char" not in t.pt[0] or not t.pt[0].endswith("*") or t.ret in ("void",) or "function" in t.ret:
        return False
    for n in t.body.allnodes():
        if n.k in CALLS and n.fn is not None and n.fn.body is None:
            if t.ret.startswith("std::pair") and len(t.pt) == 1:
                return True
            if n.fn.name in ("strncmp", "compare") or n.fn.name in ("operator>>", "stoi", "strtol"):
                return True
    return False


def leaves(term):
    """The parser calls a value stems from: (result type, constant bounds)."""
    res = set()
    if not isinstance(term, tuple):
        return res
    if term and term[0] == "parsed":
        res.add(term[1:])
    for x in term:
        if isinstance(x, tuple):
            res |= leaves(x)
    return res


class Opts(Rule):
    inline_small = 600

    def __init__(self, prog):
        self.p = prog
        self.writes = []
        self.options = {}
        self.lam = None
        self.grown = []
        self.leaf = {i.id for i in prog.info.values() if i.body is not None and is_leaf(i)}

    def direct(self, fn):
        return fn.info.name == "set_value" or fn.info.id in self.leaf or fn.info.cls.endswith("Config")

    def keep(self, t):
        return contains(t, lambda x: x[0] == "call" and x[1] in ("strcmp", "std::strcmp", "strncmp", "std::strncmp")) or \
            contains(t, lambda x: x[0] == "call" and x[1].endswith("has_value"))

    def no_inline(self, info):
        return info.id in self.leaf

    def call(self, E, ctx, st, n, t, obj, args):
        if obj is not None and obj[0] == "fld" and obj[2] == "solver_configs" and t.name.split("_")[0] in ("emplace", "insert", "push", "resize", "assign"):
            self.grown.append((ctx, n, [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]))
        if t.id in self.leaf:
            consts = tuple(show(self.const(E.load(st, a))) for a in args[1:])
            v = ("parsed", t.ret + "/" + t.name, consts)
            return [(st, v)]
        cls = t.cls.split("::")[-1]
        if cls == "ClingoOptions" and t.name in ("add", "add_flag"):
            name = E.load(st, args[1])
            if name[0] == "s":
                key = name[1].split(",")[0]
                tgt = args[3]
                if tgt[0] == "ref":
                    tgt = tgt[1]
                self.options.setdefault(key, []).append((ctx.fn.at(n), t.name, tgt, E.load(st, tgt)))
            return None
        if t.name in ("emplace", "insert", "try_emplace", "insert_or_assign") and obj is not None and obj[0] == "fld" and obj[2] == "deferred":
            if self.lam is not None:
                k = E.load(st, args[0][1]) if args[0][0] == "ref" else E.load(st, args[0])
                v = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
                while k[0] == "new" and k[2]:
                    k = k[2][0]
                self.lam.append(("deferred", show(k), tuple(sorted(leaves(tuple(v))))))
            return None
        return None

    @staticmethod
    def const(v):
        return v if v[0] in ("i", "b", "null", "s", "call", "glob", "enum") else ("any",)

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld":
            if lv[1][0] == "var":
                lv = ("fld", E.load(st, lv[1]), lv[2])
            if self.lam is not None:
                self.lam.append(("write", lv, tuple(sorted(leaves(value))) or (("const", show(value)),)))
            else:
                self.writes.append((ctx, lv, value, n, st))
        return [st]

    def leave(self, E, ctx, st, ret):
        if ret is not None and ret[0] == "new" and len(ret[2]) == 1 and ret[2][0][0] == "lam":
            ret = ret[2][0]
        if ret is not None and ret[0] == "lam" and ret[1] in self.p.fns and len(ret) == 3 and self.lam is None:
            # a closure escapes: determine its effect in this environment
            f = self.p.fns[ret[1]]
            env = dict(st.env)
            for j, q in enumerate(f.params):
                env[("d", f.unit, q["d"])] = ("arg", j, q["name"])
            self.lam = []
            E.run(Ctx(f, ("lamobj",), ctx, None), State(env, {}, st.rs))
            eff = tuple(sorted(set(self.lam), key=repr))
            self.lam = None
            ret = ret + (("eff", eff),)
        return [(st, ret)]


def key_of(st):
    for t, v in st.facts.items():
        if v and t[0] == "==":
            for x in t[1:]:
                if x[0] == "call" and x[1].endswith("strcmp"):
                    for a in x[2]:
                        if a[0] == "s":
                            return a[1]
    return None


def chain(lv):
    c = []
    while lv[0] == "fld":
        c.append(lv[2])
        lv = lv[1]
    return tuple(reversed(c)), lv


def scope(lv, st):
    names, base = chain(lv)
    if "default_solver_config" in names:
        return "default"
    if contains(lv, lambda t: t[0] == "copyof"):
        return "copy"
    if contains(lv, lambda t: t[0] == "elem"):
        return "existing"
    return "thread"


def run(prog, res, tier):
    res.rule("same-keys", "every option can be set through both configuration interfaces")
    res.rule("same-field", "an option sets the same configuration field through both interfaces")
    res.rule("same-parser", "both interfaces convert the value of an option with the same parser and bounds")
    res.rule("own-field", "different options set different fields")
    res.rule("threads", "a per-thread option sets the given thread only, or the default and all existing threads")
    res.rule("used", "the field of every option is read by the propagator")
    res.rule("bounds", "the integer range is confined to the range the arithmetic is safe for and non-empty after validation")
    res.rule("per-solver", "the solver of a thread is created with the configuration and statistics of that thread")
    eff = Effects(prog)
    # the programmatic interface
    r = Opts(prog)
    E = Engine(prog, r, eff)
    for i in prog.find("clingcon_configure"):
        E.analyse(i, 0)
    res.funcs(E.fns_seen)
    conf = {}
    per_thread = set()
    solver_fields = {f["name"] for f in prog.record("SolverConfig")["fields"]}
    fields = {f["name"] for c in ("Config", "SolverConfig") for f in prog.record(c)["fields"]} | {"shift_constraints"}
    for ctx, lv, value, n, st in r.writes:
        names, base = chain(lv)
        if names[-1] not in fields:
            continue
        k = key_of(st)
        if k is None:
            res.bad("same-keys", ctx.fn.at(n), "the field %s is set for every option name" % names[-1], key="same-keys|any|" + names[-1])
            continue
        d = conf.setdefault(k, {"fields": {}, "scopes": set(), "where": ctx.fn.at(n)})
        lf = leaves(value)
        cur = d["fields"].setdefault(names[-1], set())
        cur |= lf or {("const", show(value))} if value[0] not in ("phi", "r") else {("?",)}
        if names[-1] in solver_fields:
            per_thread.add(k)
            sc = scope(lv, st)
            hv = [v for t, v in st.facts.items() if t[0] == "call" and t[1].endswith("has_value")]
            d["scopes"].add((sc, hv[0] if hv else None))
    # parse_bool style parsers split paths instead of returning a term
    # the command line
    r2 = Opts(prog)
    E2 = Engine(prog, r2, eff)
    for i in prog.find("clingcon_register_options"):
        E2.analyse(i, 0)
    res.funcs(E2.fns_seen)
    # deferred targets
    r3 = Opts(prog)
    E3 = Engine(prog, r3, eff)
    exits = []
    for i in prog.find("clingcon_validate_options"):
        exits += E3.analyse(i, 0)
    res.funcs(E3.fns_seen)
    targets = {}
    tscopes = {}
    for ctx, lv, value, n, st in r3.writes:
        names, base = chain(lv)
        if names[-1] in solver_fields:
            for t, v in st.facts.items():
                if v and t[0] == "==":
                    for x in t[1:]:
                        if x[0] in ("enum", "i"):
                            targets.setdefault(show(x), set()).add(names[-1])
                            hv = [v2 for t2, v2 in st.facts.items() if t2[0] == "call" and t2[1].endswith("has_value")]
                            tscopes.setdefault(show(x), set()).add((scope(lv, st), hv[0] if hv else None))
    cli = {}
    for k, regs in r2.options.items():
        for where, how, tgt, val in regs:
            d = cli.setdefault(k, {"fields": {}, "where": where, "deferred": set()})
            if how == "add_flag":
                names, base = chain(tgt)
                d["fields"].setdefault(names[-1] if names else show(tgt), set()).add(("flag",))
                continue
            e = val
            while e[0] == "new" and len(e[2]) >= 1 and e[2][0][0] in ("lam", "new"):
                e = e[2][0]
            if e[0] != "lam" or len(e) < 4:
                raise AnalysisBroken("parser of option %s not resolved: %s" % (k, show(e)))
            for x in e[3][1]:
                if x[0] == "write":
                    names, base = chain(x[1])
                    if names:
                        d["fields"].setdefault(names[-1], set()).update(x[2])
                else:
                    d["deferred"].add(x[1])
                    for f in targets.get(x[1], ("?" + x[1],)):
                        d["fields"].setdefault(f, set()).update(x[2])
    if len(conf) < 15 or len(cli) < 15:
        raise AnalysisBroken("options not recognised (%d programmatic, %d command line)" % (len(conf), len(cli)))
    for k in sorted(set(conf) | set(cli)):
        res.ok("same-keys", k)
        if k not in conf or k not in cli:
            res.bad("same-keys", (conf.get(k) or cli.get(k))["where"],
                    "option %s is only available through the %s interface" % (k, "programmatic" if k in conf else "command line"),
                    key="same-keys|" + k)
            continue
        a, b = conf[k], cli[k]
        fa, fb = set(a["fields"]), set(b["fields"])
        res.ok("same-field", "%s -> %s" % (k, ", ".join(sorted(fa))))
        if fa != fb:
            res.bad("same-field", b["where"], "option %s sets %s through the programmatic interface but %s through the command line" %
                    (k, ", ".join(sorted(fa)), ", ".join(sorted(fb))), key="same-field|" + k)
            continue
        for f in fa:
            pa, pb = a["fields"][f], b["fields"][f]
            res.ok("same-parser", "%s: %s" % (k, sorted(pa)[:1]))
            if ("flag",) in pb or ("?",) in pa or ("?",) in pb:
                continue
            if pa != pb:
                res.bad("same-parser", b["where"], "option %s: values of %s are parsed as %s but as %s on the command line" %
                        (k, f, sorted(pa), sorted(pb)), key="same-parser|%s|%s" % (k, f))
    owner = {}
    for k in conf:
        for f in conf[k]["fields"]:
            res.ok("own-field", "%s <- %s" % (f, k))
            if f in owner and owner[f] != k:
                res.bad("own-field", conf[k]["where"], "options %s and %s both set %s" % (owner[f], k, f), key="own-field|" + f)
            owner.setdefault(f, k)
    need = {("default", False), ("existing", False), ("thread", True)}
    for k in sorted(per_thread):
        res.ok("threads", k)
        if conf[k]["scopes"] != need:
            res.bad("threads", conf[k]["where"], "option %s sets %s" % (k, sorted(conf[k]["scopes"], key=repr)), key="threads|" + k)
    for t, sc in sorted(tscopes.items()):
        if t in {x for d in cli.values() for x in d["deferred"]}:
            res.ok("threads", "deferred " + t)
            if sc != need:
                res.bad("threads", "", "deferred option %s sets %s" % (t, sorted(sc, key=repr)), key="threads|deferred|" + t)
    # thread-specific values are applied after the values for all threads
    for fid in E3.fns_seen:
        f = prog.fns.get(fid)
        for n in f.allnodes() if f is not None else ():
            if n.k != "CXXForRangeStmt":
                continue
            lst = [[x.cv for x in y.get("c") or []] for y in (n.get("c")[0].find("InitListExpr") if n.get("c") else [])]
            lst = [x for x in lst if len(x) == 2 and None not in x]
            v = n.get("loopvar")
            if not lst or v is None or "bool" not in v["t"]:
                continue
            tests = [b for b in n.walk() if b.k == "BinaryOperator" and b.get("op") in ("==", "!=") and
                     any(x.k == "DeclRefExpr" and x.get("d") == v["d"] for x in b.walk()) and
                     any(x.k in CALLS and x.fn is not None and x.fn.name == "has_value" for x in b.walk())]
            if len(tests) == 1:
                res.ok("threads", "%s: order of deferred values" % f.at(n))
                first = bool(int(lst[0][0])) == (tests[0].get("op") == "==")
                if first:
                    res.bad("threads", f.at(n), "thread-specific values are applied before (and overwritten by) values for all threads", key="threads|order")
    # configurations of threads start out from the configuration for all threads
    r4 = Opts(prog)
    E4 = Engine(prog, r4, eff)
    grow = [fid for fid, f in prog.fns.items() if f.body is not None and any(
        n.k in CALLS and n.fn is not None and n.get("obj") is not None and n.fn.name.split("_")[0] in ("emplace", "insert", "push", "resize", "assign") and
        any(x.k == "MemberExpr" and x.get("name") == "solver_configs" for x in n.get("obj").walk()) for n in f.allnodes())]
    for fid in grow:
        E4.analyse(prog.info[fid], 0)
    res.funcs(E4.fns_seen)
    for ctx, n, vals in r4.grown:
        res.ok("threads", "%s: new thread configuration" % ctx.fn.at(n))
        if not any(contains(v, lambda t: t[0] == "fld" and t[2] == "default_solver_config") for v in vals):
            res.bad("threads", ctx.fn.at(n), "the configuration of a new thread does not start from the options given for all threads (%s)" %
                    "; ".join(show(v) for v in vals), key="threads|new")
    # fields are used outside the configuration code
    conffns = set(E.fns_seen) | set(E2.fns_seen) | set(E3.fns_seen)
    core = [i.id for i in prog.info.values() if i.body is not None and i.id not in conffns]
    for f in sorted(owner):
        res.ok("used", f)
        used = any(n.k == "MemberExpr" and n.get("name") == f and (n.get("field") or "").split("::")[-1] in CONFIG
                   for fid in prog.fns if fid not in conffns or prog.info[fid].name == "clingcon_rewrite_ast"
                   for n in prog.fns[fid].allnodes())
        if not used:
            res.bad("used", "", "the value of option %s (%s) is never read" % (owner[f], f), key="used|" + f)
    # bounds
    lo = hi = None
    for g in prog.globals.values():
        if g["qn"].split("::")[-1] in ("MIN_VAL", "MAX_VAL") and g.get("init") is not None and g["init"].cv is not None:
            if g["qn"].endswith("MIN_VAL"):
                lo = int(g["init"].cv)
            else:
                hi = int(g["init"].cv)
    if lo is not None and hi is not None:
        res.ok("bounds", "[%d, %d]" % (lo, hi))
        if lo > hi or hi - lo > 2 ** 31 - 1 or hi + 1 - lo > 2 ** 31 - 1:
            res.bad("bounds", "", "differences of values overflow", key="bounds|limits")
    for k in ("min-int", "max-int"):
        if k not in conf:
            continue
        for f, ls in conf[k]["fields"].items():
            for leaf in ls:
                nums = [int(x) for x in (leaf[1] if len(leaf) > 1 else ()) if x.lstrip("-").isdigit()] if leaf[0] != "const" else []
                res.ok("bounds", "%s parsed with bounds %s" % (k, nums))
                if len(nums) != 2 or nums[0] > nums[1] or (lo is not None and (nums[0] < lo or nums[1] > hi)) or max(abs(x) for x in nums) > 2 ** 30:
                    res.bad("bounds", conf[k]["where"], "option %s accepts values outside of the safe range (%s)" % (k, leaf), key="bounds|" + k)
    for st, ret in exits:
        if ret != TRUE:
            continue
        res.ok("bounds", "validation exit")
        good = False
        for t, v in st.facts.items():
            if t[0] == "<" and v is False and t[1][0] == "fld" and t[2][0] == "fld" and t[1][2] == "max_int" and t[2][2] == "min_int":
                good = True
        if not good:
            res.bad("bounds", prog.find("clingcon_validate_options")[0].body.loc,
                    "options are accepted with an empty integer range", key="bounds|empty")
    # creation of solvers
    for f in prog.fns.values():
        for n in f.allnodes():
            if n.k in CALLS and n.fn is not None and n.fn.name in ("emplace_back", "push_back") and n.get("obj") is not None \
                    and n.get("obj").k == "MemberExpr" and n.get("obj").get("name") == "solvers_":
                calls = {x.fn.name: x for x in n.walk() if x.k in CALLS and x.fn is not None and x.fn.name in ("solver_config", "solver_stats")}
                if not calls:
                    continue
                res.ok("per-solver", f.at(n))
                if len(calls) == 2:
                    ids = []
                    for x in calls.values():
                        a = x.get("args")[0]
                        while len(a.kids) == 1 and a.k != "DeclRefExpr":
                            a = a.kids[0]
                        ids.append((a.k, a.get("d"), a.get("name"), a.cv or a.get("v")))
                    if ids[0] != ids[1]:
                        res.bad("per-solver", f.at(n), "configuration and statistics of different threads are used", key="per-solver|" + f.info.short)
    res.need("same-keys", 15, "options")
    res.need("bounds", 2, "bounds")
