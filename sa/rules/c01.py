"""Conflict discipline: once clingo has refused a clause or propagated to a
conflict, the callback makes no further modification and reports failure."""
from ..absint import Engine, FALSE, Rule, TRUE
from ..core import AnalysisBroken, CALLS
from ..effects import Effects

EXPLANATION = (
    "Path-sensitive typestate analysis (no execution) of the clingo handles from the entry points of the theory: "
    "every path through Propagator::init/propagate/check and the functions they call, with both outcomes of each "
    "call that can report a conflict. Obligations are call sites on handles, function exits, and entry points.")

HANDLES = ("Clingo::PropagateControl", "Clingo::PropagateInit")
FAILING = ("add_clause", "propagate", "add_weight_constraint")

# functions whose boolean result means "no conflict" (their contract is public
# to the rest of the propagator; helpers are judged through them)
ROLES = {"Solver": ("propagate", "check", "simplify", "translate", "update_bounds", "update_bound", "add_simple", "add_dom", "check_full"),
         "Propagator": ("add_dom", "add_simple", "simplify_", "translate_"),
         "AbstractConstraintState": ("propagate", "translate"),
         "AbstractConstraint": (),
         "AbstractClauseCreator": ("add_clause", "propagate", "commit"),
         "AbstractConstraintBuilder": ("add_constraint", "add_nonlinear", "add_distinct", "add_disjoint", "add_dom")}


def role_fns(prog):
    res = {}
    for i in prog.info.values():
        if i.body is None or i.lambda_:
            continue
        if not ("bool" in i.ret):
            continue
        c = i.cls.split("::")[-1]
        if i.name in ROLES.get(c, ()):
            res[i.id] = c
    for base, names in ROLES.items():
        for i in list(prog.info.values()):
            if i.cls.split("::")[-1] == base and i.name in names:
                for o in prog.overriders.get(i.id, ()):
                    if prog.info[o].body is not None and "bool" in prog.info[o].ret:
                        res[o] = base
    for i in prog.info.values():
        if i.body is not None and i.name == "parse" and i.ret == "bool" and not i.cls:
            res[i.id] = "parse"
    return res


def is_event(t):
    return t is not None and not t.inroot and not t.const and t.q.rsplit("::", 1)[0] in HANDLES


class Conflict(Rule):
    memo = True

    def __init__(self, res, prog):
        self.res = res
        self.roles = role_fns(prog)
        self.sites = set()
        self.exits = set()

    def direct(self, fn):
        return any(is_event(n.fn) for n in fn.allnodes() if n.k in CALLS) or fn.info.id in self.roles

    # state: (failed, submitted, tracked)
    def call(self, E, ctx, st, n, t, obj, args):
        if t.cls.split("::")[-1] == "InitClauseCreator" and t.name == "add_clause" and t.body is not None:
            st2 = st.with_rs((st.rs[0], True))
            return E.default_call(ctx, st2, n, t, obj, args)
        if not is_event(t):
            return None
        failed, sub = st.rs
        site = (ctx.fn.info.short, n.line, t.name)
        if site not in self.sites:
            self.sites.add(site)
            self.res.ok("after-conflict", "%s: %s in %s" % (ctx.fn.at(n), t.name, ctx.fn.info.short))
        if failed:
            why = st.trail[0] if st.trail else "a conflict reported before"
            self.res.bad("after-conflict", ctx.fn.at(n),
                         "%s is called after clingo reported a conflict (%s); via %s" % (t.q, why, ctx.path()),
                         key="after-conflict|%s|%s" % (t.name, entry_of(ctx)))
            return []
        if t.name in FAILING:
            note = "%s failed at %s via %s" % (t.name, ctx.fn.at(n), short_path(ctx))
            return [(st.with_rs((False, True)), TRUE), (st.with_rs((True, True), note), FALSE)]
        return None

    def leave(self, E, ctx, st, ret):
        fid = ctx.fn.id
        if fid in self.roles and ctx.rs0 is not None and not ctx.rs0[0]:
            ex = (fid, st.rs[0])
            if ex not in self.exits:
                self.exits.add(ex)
                self.res.ok("swallowed", "%s (conflict %s)" % (ctx.fn.info.short, "pending" if st.rs[0] else "not pending"))
            r = ret
            if r is not None and r[0] == "new" and r[2]:
                r = r[2][0]
            if st.rs[0] and r == TRUE:
                self.res.bad("swallowed", ctx.fn.loc,
                             "%s reports success although clingo reported a conflict (%s)" %
                             (ctx.fn.info.short, st.trail[0] if st.trail else "?"),
                             key="swallowed|" + ctx.fn.info.short)
        return [(st, ret)]


class Spurious(Conflict):
    """Exits that claim a conflict: a clause must have been submitted in this call."""

    def __init__(self, res, prog):
        super().__init__(res, prog)
        self.props = {i for i, c in self.roles.items() if c == "AbstractConstraintState" and prog.info[i].name == "propagate"
                      or c == "Solver" and prog.info[i].name in ("propagate", "check")}

    def call(self, E, ctx, st, n, t, obj, args):
        if t.cls.split("::")[-1] == "InitClauseCreator" and t.name == "add_clause" and t.body is not None:
            return E.default_call(ctx, st.with_rs((st.rs[0], True)), n, t, obj, args)
        if not is_event(t):
            return None
        failed, sub = st.rs
        if failed:
            return []
        if t.name in FAILING:
            return [(st.with_rs((False, True)), TRUE), (st.with_rs((True, True)), FALSE)]
        return None

    def leave(self, E, ctx, st, ret):
        fid = ctx.fn.id
        if fid in self.props and ctx.rs0 == (False, False):
            ex = (fid, st.rs)
            if ex not in self.exits:
                self.exits.add(ex)
                self.res.ok("unfounded", "%s exit with %s" % (ctx.fn.info.short, "a clause submitted" if st.rs[1] else "no clause submitted"))
            if ret == FALSE and not st.rs[0] and not st.rs[1]:
                self.res.bad("unfounded", ctx.fn.loc,
                             "%s reports a conflict without ever having submitted a clause" % ctx.fn.info.short,
                             key="unfounded|" + ctx.fn.info.short)
        return [(st, ret)]


def entry_of(ctx):
    c = ctx
    names = []
    while c is not None:
        names.append(c.fn.info.short)
        c = c.parent
    # the innermost repository function that is not a clause creator
    for x in names:
        if "ClauseCreator" not in x:
            return x + "<" + names[-1]
    return names[-1]


def short_path(ctx):
    p = ctx.path().split(" <- ")
    return " <- ".join(p if len(p) <= 4 else p[:3] + ["..", p[-1]])


def run(prog, res, tier):
    res.rule("after-conflict", "no call on a PropagateControl/PropagateInit handle once it reported a conflict, until the callback returns")
    res.rule("swallowed", "a function whose result means 'no conflict' does not return true with a conflict pending")
    res.rule("unfounded", "propagation does not return false without having submitted a clause")
    eff = Effects(prog)
    runs = []
    for name, excl in (("init", {"ControlClauseCreator"}), ("propagate", {"InitClauseCreator"}), ("check", {"InitClauseCreator"})):
        es = [i for i in prog.find("Propagator::" + name) if i.cls.endswith("Propagator")]
        for e in es:
            for cls in (Conflict, Spurious):
                r = cls(res, prog)
                E = Engine(prog, r, eff)
                E.exclude = excl
                # the check mode of propagate/check uses control handles only
                E.analyse(e, (False, False))
                runs.append(E)
                res.funcs(E.fns_seen)
    res.extra["abstract_steps"] = sum(E.steps for E in runs)
    res.extra["entry_points"] = ["Propagator::init", "Propagator::propagate", "Propagator::check"]
    res.assumptions.append("both outcomes of every clingo call that can report a conflict are possible; loops run any number of times")
    res.need("after-conflict", 10, "call sites")
    res.need("swallowed", 15, "exits")
    res.need("unfounded", 8, "exits")
