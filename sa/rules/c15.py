"""Changed bounds and literals reach the constraints; the queue is emptied before the solver agrees."""
from ..absint import Engine, State, contains, show, subst
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import calls, last, lin, refers
from .c06 import facts, one, unwas
from .c09 import negated
from .c11 import top
from .c12 import Walk, container, is_field, lit_arg, mentions, scalar_entries

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that queue constraints, pass changed bounds on to them, propagate the "
    "queue and simplify at the top level, with loops followed element by element: every element must be treated, and success "
    "may be reported only once nothing is left to do.")


def const_int(t):
    return t[1] if t[0] == "i" else None


def state_call(t, name, k):
    return t.name == name and len(t.pt) == k and last(t.cls.split("<")[0]) not in ("Solver", "Level", "VarState", "LitmapEntry", "Propagator")


class Marks(Walk):
    """The state of a constraint: marks, the queue."""

    def cs(self, E, st, obj):
        t = self.deep(E, st, E.storage(st, obj))
        t = unwas(one(t))
        while t[0] in ("ref", "addr", "deref", "copyof"):
            t = t[1]
        return t

    def deep(self, E, st, t, k=0):
        """Local variables are replaced by what they stand for."""
        if not isinstance(t, tuple) or not t or k > 12:
            return t
        if t[0] == "var":
            v = st.env.get(("d",) + t[1:3])
            return t if v is None or v[0] == "undef" else self.deep(E, st, v, k + 1)
        if t[0] == "ref":
            return self.deep(E, st, t[1], k + 1)
        if t[0] == "fld" and t[2] in ("#0", "#1"):
            # the components of a pair
            return ("fld", self.deep(E, st, t[1], k + 1), "first" if t[2] == "#0" else "second")
        return tuple(self.deep(E, st, x, k + 1) if isinstance(x, tuple) else x for x in t)

    def fork(self, st, key, f=None):
        """A condition on a constraint state."""
        for x in st.rs:
            if x[:-1] == key:
                return [(st, ("b", x[-1]))]
        return [(st.with_rs(st.rs | {key + (b,)}), ("b", b)) for b in (True, False)]

    def marks(self, E, ctx, st, n, t, obj, vals):
        """Events common to all functions: None or a result."""
        r = ("r", t.q, ctx.fn.id, n.i)
        if obj is not None and state_call(t, "marked_inactive", 0):
            return self.fork(st, ("inactive", self.cs(E, st, obj)))
        if obj is not None and state_call(t, "mark_todo", 1):
            o = self.cs(E, st, obj)
            if unwas(one(vals[0])) == ("b", True):
                return [(st.with_rs(frozenset(x for x in st.rs if x[:2] != ("queued", o)) | {("queued", o, b)}), ("b", b)) for b in (True, False)]
            return [(st.with_rs(st.rs | {("unmarked", o)}), r)]
        if obj is not None and container(E.storage(st, obj), "todo_") and t.name in ("emplace_back", "push_back"):
            return [(st.with_rs(st.rs | {("todo", self.cs(E, st, vals[0]))}), r)]
        return None

    @staticmethod
    def marked(rs, o):
        return ("todo", o) in rs or ("inactive", o, True) in rs or ("queued", o, True) in rs


# ---- literals of constraints -----------------------------------------------
class Todo(Marks):
    def init(self):
        self.any = False

    def no_inline(self, info):
        return Walk.no_inline(self, info) or info.id in self.others

    def event(self, E, ctx, st, n, t, obj, vals, args):
        m = self.marks(E, ctx, st, n, t, obj, vals)
        if m is not None:
            out = []
            for s, v in m:
                hit = [x for x in s.rs if x[0] in ("todo",) or x[0] in ("inactive", "queued") and x[-1] is True]
                if hit:
                    self.any = True
                    o = hit[0][1]
                    if not is_field(o, "second") and not is_field(o, "#1"):
                        self.res.bad("todo", ctx.fn.at(n), "%s is queued instead of a constraint of the literal" % show(o), key="todo|what")
                    s = s.with_rs(frozenset(x for x in s.rs if x[0] in ("done",)))
                out.append((s, v))
            return out
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.id in self.others:
            return [(st, ("b", True)), (st, ("b", False))]
        if obj is not None and container(E.storage(st, obj), "lit2cs_") and t.name in ("find", "equal_range", "lower_bound"):
            self.res.ok("todo", "%s: constraints of a literal" % ctx.fn.at(n))
            l, s = negated(self.norm(self.deep(E, st, vals[0])))
            if not lit_arg(l) or s != 1:
                self.res.bad("todo", ctx.fn.at(n), "the constraints of another literal than the assigned one are queued", key="todo|lit")
        if t.name == "operator++" and "iterator" in t.cls.lower() or n.get("oper") == "++":
            if any(x[0] == "pend" for x in st.rs):
                self.res.bad("todo", ctx.fn.at(n), "a constraint of an assigned literal is not queued", key="todo|skip")
            return None
        return None

    def branch(self, E, ctx, st, term, value):
        t = unwas(self.deep(E, st, term))
        if t[0] == "==":
            if any(lit_arg(x) for x in t[1:]) and contains(t, lambda x: is_field(x, "first") or is_field(x, "#0")):
                return st.with_rs((st.rs - {("done",)}) | {("pend",) if value else ("done",)}) if not value or True else st
            if contains(t, lambda x: x[0] in ("call", "r") and last(x[1]) in ("end", "cend", "equal_range")):
                return st.with_rs((st.rs - {("done",), ("pend",)}) | {("done",) if value else ("pend",)})
        return st


def todo(prog, res, eff):
    start = prog.find("Solver::propagate")
    es = scalar_entries(prog, start, lambda f: mentions(prog, f, "lit2cs_"))
    if not es:
        raise AnalysisBroken("the function that queues the constraints of a literal was not found")
    for f in es:
        r = Todo(res)
        r.p = prog
        r.others = {i for i in prog.reachable(prog.callees(f)) if i in prog.fns and last(prog.fns[i].info.cls) == "Solver" and i != f.id and
                    not mentions(prog, prog.fns[i], "lit2cs_") and mentions(prog, prog.fns[i], "litmap_", "factmap_") and len(prog.fns[i].params) == 2 and
                    prog.fns[i].info.ret == "bool"}
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(f.info, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            b = None if ret is None else Engine.decided(st, unwas(one(ret)))
            if b == ("b", False):
                continue
            res.ok("todo", "exit of " + f.info.short)
            if ("done",) not in st.rs:
                res.bad("todo", f.loc, "queueing the constraints of a literal ends before the last of them", key="todo|end")
        if not r.any:
            res.bad("todo", f.loc, "the constraints of an assigned literal are not queued", key="todo|none")


# ---- the queue ------------------------------------------------------------------
class Check(Marks):
    def init(self):
        self.seen = set()

    def no_inline(self, info):
        return Walk.no_inline(self, info) or info.id in self.facts_fns

    def which(self, E, st, t):
        t = E.storage(st, t)
        for k, name in (("u", "in_udiff_"), ("l", "in_ldiff_"), ("t", "todo_"), ("f", "factmap_")):
            if container(t, name):
                return k
        return None

    def diff(self, t):
        """Is the term the change recorded for a variable: (kind, variable)?"""
        t = unwas(t)
        while t[0] in ("ref", "copyof"):
            t = t[1]
        if t[0] == "idx":
            for k, name in (("u", "udiff_"), ("l", "ldiff_")):
                if container(t[1], name):
                    return k, self.norm(t[2])
        return None

    def watches(self, E, st, t):
        """The variable whose watches the term denotes."""
        t = unwas(E.storage(st, t))
        while t[0] in ("ref",):
            t = t[1]
        if t[0] == "idx" and container(t[1], "var_watches_"):
            return self.norm(t[2])
        return None

    def cursor(self, E, st, v):
        """The list traversed by an iterator."""
        v = unwas(v)
        if v[0] in ("call", "r") and last(v[1]) in ("begin", "cbegin") and len(v) > 2 and isinstance(v[2], tuple) and v[2]:
            return self.which(E, st, v[2][0])
        return None

    def local(self, E, ctx, st, lv, value, n):
        v = st.env.get(("d",) + lv[1:3])
        if value[0] == "mut" and v is not None:
            # an iterator that is advanced
            k = self.cursor(E, st, v)
            if k is not None:
                if k in ("u", "l"):
                    st = self.settle_var(st, k, ctx.fn.at(n))
                elif k == "t":
                    st = self.settle_cs(st, ctx.fn.at(n))
                w = unwas(v)
                return st.forget(lambda x: x == w), v
        return None

    def declare(self, E, ctx, st, d, value, n):
        v = value[1] if value[0] == "copyof" else value
        at = ctx.fn.at(n)
        if "iterator" not in d["t"] and not d["name"].startswith("__"):
            k = self.cursor(E, st, v)
            if k == "t" and ("cs",) in st.rs:
                return st, ("cs",)
            if k is not None:
                v = ("elem", unwas(v)[2][0])
        if v[0] in ("elem", "idx"):
            k = self.which(E, st, v[1])
            if k in ("u", "l"):
                st = self.settle_var(st, k, at)
                return st.with_rs(st.rs | {("var", k)}), ("cvar", k)
            if k == "t":
                st = self.settle_cs(st, at)
                return st.with_rs(st.rs | {("cs",)}), ("cs",)
            w = self.watches(E, st, v[1])
            if w is not None:
                st = self.settle_watch(st, at)
                return st.with_rs(st.rs | {("watch", w)}), ("watchof", w)
        return st, value

    # an element of the lists of changed variables
    def settle_var(self, st, k, at):
        st = self.settle_watch(st, at)
        if ("var", k) in st.rs:
            self.res.ok("update", "%s: each variable with a changed %s bound" % (at, "upper" if k == "u" else "lower"))
            if ("passed", k) not in st.rs:
                self.res.bad("update", at, "the change of the %s bound of a variable is not passed on to the constraints" % ("upper" if k == "u" else "lower"), key="update|none|" + k)
            if ("zero", k) not in st.rs:
                self.res.bad("update", at, "the change of the %s bound of a variable is not reset after passing it on" % ("upper" if k == "u" else "lower"), key="update|zero|" + k)
        return st.with_rs(frozenset(x for x in st.rs if x not in (("var", k), ("passed", k), ("zero", k))))

    # an element of the watches of a variable
    def settle_watch(self, st, at):
        w = [x for x in st.rs if x[0] == "watch"]
        if w:
            o = ("fld", ("watchof", w[0][1]), "second")
            rs = st.rs
            self.res.ok("update", "%s: each constraint watching a variable" % at)
            if ("updated", True) not in rs and ("updated", False) not in rs and ("removable", o, True) not in rs:
                self.res.bad("update", at, "a constraint is not told about a changed bound", key="update|watch")
            if ("updated", True) in rs and not self.marked(rs, o):
                self.res.bad("queue", at, "a constraint is not queued although its state changed", key="queue|mark")
            st = st.with_rs(frozenset(x for x in rs if x[0] not in ("watch", "updated") and not (len(x) > 1 and x[1] == o)))
        return st

    # an element of the queue
    def settle_cs(self, st, at):
        rs = st.rs
        if ("cs",) in rs:
            o = ("cs",)
            self.res.ok("queue", "%s: each queued constraint" % at)
            if ("unmarked", o) not in rs:
                self.res.bad("queue", at, "a constraint remains marked as queued", key="queue|unmark")
            if not ({("propagated",), ("isfalse", True), ("conflict",)} & rs):
                self.res.bad("queue", at, "a queued constraint is neither propagated nor false", key="queue|skip")
        return st.with_rs(frozenset(x for x in rs if x not in (("cs",), ("propagated",), ("isfalse", True), ("isfalse", False)) and not (len(x) > 1 and x[1] == ("cs",))))

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        m = self.marks(E, ctx, st, n, t, obj, vals)
        if m is not None:
            return m
        if t.id in self.facts_fns:
            l = negated(self.norm(vals[1])) if len(vals) > 1 else None
            if l != (("i", 1), 1):
                self.res.bad("queue", at, "facts are integrated for %s" % show(self.norm(vals[1])), key="queue|facts")
            s = st.forget(lambda x: is_field(x, "factmap_"))
            s = s.with_rs((rs | {("dirty", "u"), ("dirty", "l")}) - {("clean",)})
            return [(s, ("b", True)), (s.with_rs(s.rs | {("failed",)}), ("b", False))]
        if obj is not None and state_call(t, "removable", len(vals)):
            o = self.cs(E, st, obj)
            return self.fork(st, ("removable", o)) if any(x[0] == "watch" for x in rs) else [(st, ("call", "removable", (o,)))]
        if obj is not None and state_call(t, "update", 2):
            return self.update(E, ctx, st, at, self.cs(E, st, obj), self.norm(vals[0]), vals[1], r)
        if obj is not None and state_call(t, "propagate", 3):
            o = self.cs(E, st, obj)
            if o != ("cs",):
                self.res.bad("queue", at, "%s is propagated instead of the queued constraint" % show(o), key="queue|what")
            if ("conflict",) in rs:
                self.res.bad("queue", at, "a constraint is propagated after a conflict", key="queue|after")
            s = st.forget(lambda x: is_field(x, "factmap_"))
            return [(s.with_rs((rs | {("propagated",)}) - {("clean",)}), ("b", True)), (s.with_rs(rs | {("conflict",)}), ("b", False))]
        if state_call(t, "mark_inactive", 1) and obj is not None:
            return [(st, r)]
        if t.name == "literal" and not vals and obj is not None:
            return [(st, ("call", "literal", (self.cs(E, st, obj),)))]
        if t.name == "constraint" and not vals and obj is not None:
            return [(st, ("call", "constraint", (self.cs(E, st, obj),)))]
        if t.name == "decision_level":
            return [(st, ("call", "decision_level", ()))]
        if t.name == "level" and last(t.cls) == "Level":
            return [(st, ("call", "level", ()))]
        if t.name in ("is_false", "is_true", "truth_value") and last(t.cls) == "Assignment":
            l, s = negated(self.norm(vals[0]))
            if l == ("call", "literal", (("call", "constraint", (("cs",),)),)) or l == ("call", "literal", (("cs",),)):
                if t.name != "truth_value" and s == (1 if t.name == "is_false" else -1):
                    return self.fork(st, ("isfalse",))
            return [(st, r)]
        if obj is not None:
            k = self.which(E, st, obj)
            if k is not None:
                if t.name in ("begin", "cbegin", "rbegin") or t.name == "size" and k != "f":
                    self.seen.add(k)
                    st = st.with_rs(st.rs - {("ended", k)} if t.name != "size" else st.rs)
                    if k == "t":
                        st = st.with_rs(st.rs | {("begun",)})
                    return E.default_call(ctx, st, n, t, obj, args) if t.name != "size" else [(st, ("call", "size", (k,)))]
                if t.name in ("end", "cend", "rend") and k != "f":
                    return [(st, ("call", "end", (k,)))]
                if t.name == "clear":
                    if ("ended", k) in rs:
                        rs = rs - {("ended", k)}
                        st = st.with_rs(st.rs - {("ended", k), ("begun",) if k == "t" else None})
                    elif k != "f":
                        self.res.bad("queue" if k == "t" else "update", at, "the %s is cleared without treating all its elements" % {
                            "t": "queue", "u": "list of changed upper bounds", "l": "list of changed lower bounds", "f": "list of facts"}[k], key="clear|" + k)
                    if k == "t":
                        st = self.settle_cs(st, at)
                        return [(st.with_rs(frozenset(x for x in st.rs if x[0] != "todo") | {("clean",)}), r)]
                    if k in ("u", "l"):
                        st = self.settle_var(st, k, at)
                        return [(st.with_rs(st.rs - {("dirty", k)}), r)]
                if t.name == "empty":
                    return [(st, ("call", "empty", (("fld", ("this", "Solver"), {"u": "in_udiff_", "l": "in_ldiff_", "t": "todo_", "f": "factmap_"}[k]),)))]
            w = self.watches(E, st, obj)
            if w is not None and t.name in ("begin", "cbegin", "rbegin"):
                if w[0] == "cvar":
                    self.pending = w[1]
                    return None
        if t.name in ("remove_if", "for_each", "partition", "stable_partition") and t.q.startswith("std::"):
            return self.sweep(E, ctx, st, n, t, obj, args, vals)
        return None

    def sweep(self, E, ctx, st, n, t, obj, args, vals):
        """An algorithm over the watches of a variable."""
        b = vals[0]
        if not (b[0] in ("call", "r") and len(b) > 2 and isinstance(b[2], tuple) and b[2]):
            return None
        w = self.watches(E, st, b[2][0])
        lam = [self.arg(E, st, a) for a in args if self.arg(E, st, a)[0] == "lam"]
        if w is None or not lam:
            return None
        ids = [x for x in (lam[0][2] or (lam[0][1],)) if x in self.p.fns]
        out = [st]
        for x in ids[:1]:
            f = self.p.fns[x]
            cur = st.with_rs(st.rs | {("watch", w)})
            for s, ret in E.follow(ctx, cur, n, f.info, ("lamobj",), [("watchof", w)]):
                s = self.settle_watch(s, ctx.fn.at(n))
                out.append(s)
        uniq = {}
        for s in out:
            uniq[s.rs] = s
        return [(s, ("r", t.q, ctx.fn.id, n.i)) for s in uniq.values()]

    def update(self, E, ctx, st, at, o, co, diff, r):
        w = [x for x in st.rs if x[0] == "watch"]
        co, d = self.norm(self.deep(E, st, co)), self.diff(self.deep(E, st, diff))
        self.res.ok("update", "%s: a constraint is told about a changed bound" % at)
        if not w:
            self.res.bad("update", at, "%s is updated outside of the treatment of watches" % show(o), key="update|outside")
            return [(st, ("b", True)), (st, ("b", False))]
        el = ("watchof", w[0][1])
        if o not in (("fld", el, "second"), ("fld", el, "#1")):
            self.res.bad("update", at, "%s is updated instead of the watching constraint" % show(o), key="update|cs")
        if co not in (("fld", el, "first"), ("fld", el, "#0")):
            self.res.bad("update", at, "a constraint is updated with %s instead of the value it watches with" % show(co), key="update|co")
        var = w[0][1]
        if d is None or d[1] != var or var[0] != "cvar":
            self.res.bad("update", at, "a constraint is updated with %s, which is not the change of the bound of the variable" % show(unwas(diff)), key="update|diff")
        elif d[0] != var[1]:
            self.res.bad("update", at, "variables with changed %s bounds are updated with the change of the other bound" % ("upper" if var[1] == "u" else "lower"), key="update|kind")
        if ("zero", var[1] if var[0] == "cvar" else "") in st.rs:
            self.res.bad("update", at, "the change is reset before it is passed on", key="update|early")
        return [(st.with_rs(st.rs | {("updated", b)}), ("b", b)) for b in (True, False)]

    pending = None

    def call(self, E, ctx, st, n, t, obj, args):
        self.pending = None
        out = Walk.call(self, E, ctx, st, n, t, obj, args)
        if self.pending is not None and out is None:
            # the watches of the variable are traversed
            k = self.pending
            self.pending = None
            s = st.with_rs(st.rs | {("passed", k)})
            return E.default_call(ctx, s, n, t, obj, args)
        return out

    def range(self, E, ctx, st, container, more):
        k = self.which(E, st, container)
        return st if more or k is None else st.with_rs(st.rs | {("ended", k)})

    def branch(self, E, ctx, st, term, value):
        t = self.deep(E, st, unwas(term))
        for k in "ult":
            if t[0] == "==" and value and ("call", "end", (k,)) in t[1:] or t[0] == "<" and not value and t[2] == ("call", "size", (k,)):
                return st.with_rs(st.rs | {("ended", k)})
        if t[0] == "==" and not value and ("call", "end", ("t",)) in t[1:] and any(self.cursor(E, st, x) == "t" for x in t[1:]):
            return st.with_rs(st.rs | {("cs",)})
        return st

    def cs(self, E, st, obj):
        t = Marks.cs(self, E, st, obj)
        return ("cs",) if ("cs",) in st.rs and self.cursor(E, st, t) == "t" else t

    def write(self, E, ctx, st, lv, value, n):
        d = self.diff(lv)
        if d is not None:
            if d[1] == ("cvar", d[0]) and unwas(one(value)) == ("i", 0):
                st = self.settle_watch(st, ctx.fn.at(n))
                if ("passed", d[0]) not in st.rs:
                    self.res.bad("update", ctx.fn.at(n), "the change of a bound is reset without passing it on to the constraints", key="update|lost|" + d[0])
                return [st.with_rs(st.rs | {("zero", d[0])})]
            self.res.bad("update", ctx.fn.at(n), "the change recorded for %s is set to %s" % (show(d[1]), show(value)), key="update|write")
        return [st]

    def keep(self, t):
        return contains(t, lambda x: is_field(x, "factmap_")) or t[0] == "call" and t[1] == "empty" or contains(t, lambda x: x[0] == "call" and x[1] == "level" or is_field(x, "level_") or is_field(x, "minimize_level_"))


def level_term(x):
    return x == ("call", "level", ()) or is_field(x, "level_")


def check(prog, res, eff):
    ff = {f.id for f in prog.fns.values() if last(f.info.cls) == "Solver" and not f.info.lambda_ and len(f.params) == 2 and f.info.ret == "bool" and
          f.info.pt[1].replace("const ", "") == "int" and any(n.k == "MemberExpr" and n.get("name") == "factmap_" for n in f.allnodes())}
    for i in prog.find("Solver::check"):
        r = Check(res)
        r.p = prog
        r.facts_fns = ff
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(i, frozenset({("dirty", "u"), ("dirty", "l")}))
        res.funcs(E.fns_seen)
        loc = i.body.loc
        full = 0
        for st, ret in exits:
            fs, rs = facts(st), st.rs
            b = None if ret is None else Engine.decided(st, unwas(one(ret)))
            res.ok("return", "exit of Solver::check")
            if ("begun",) in rs:
                res.bad("queue", loc, "Solver::check returns without emptying the queue", key="queue|left")
            if b == ("b", False):
                if ("conflict",) not in rs and ("failed",) not in rs:
                    res.bad("return", loc, "Solver::check fails without a conflict", key="return|false")
                continue
            if ("conflict",) in rs or ("failed",) in rs:
                res.bad("return", loc, "Solver::check ignores a conflict", key="return|conflict")
                continue
            # levels that have not been propagated
            other = later = False
            for t, v in fs.items():
                if t[0] == "==" and not v and any(level_term(x) for x in t[1:]) and ("call", "decision_level", ()) in t[1:]:
                    other = True
                if t[0] == "<" and level_term(t[1]) and is_field(t[2], "minimize_level_") and not v:
                    later = True
                if t[0] == "<" and level_term(t[2]) and is_field(t[1], "minimize_level_") and v:
                    later = True
            if other and later and ("dirty", "u") in rs and ("dirty", "l") in rs:
                continue
            full += 1
            for k, txt in (("u", "upper"), ("l", "lower")):
                if ("dirty", k) in rs:
                    res.bad("return", loc, "Solver::check succeeds without passing on changed %s bounds" % txt, key="return|dirty|" + k)
            if ("clean",) not in rs:
                res.bad("return", loc, "Solver::check succeeds without propagating the queue", key="return|queue")
            if not any(t[0] == "call" and t[1] == "empty" and refers(t, "factmap_") and v for t, v in fs.items()):
                res.bad("return", loc, "Solver::check succeeds although there may be facts that have not been integrated", key="return|facts")
        if not full:
            raise AnalysisBroken("no conflict-free path through Solver::check")
        for k, txt, rule in (("u", "changed upper bounds are", "update"), ("l", "changed lower bounds are", "update"), ("t", "the queue is", "queue")):
            if k not in r.seen:
                res.bad(rule, loc, "%s never treated" % txt, key="never|" + k)


# ---- simplification ----------------------------------------------------------------
class Simplify(Walk):
    def direct(self, fn):
        return last(fn.info.cls) == "Solver" and fn.info.name == "simplify"

    def no_inline(self, info):
        return True

    def keep(self, t):
        return refers(t, "trail_offset_") or refers(t, "todo_")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        c = last(t.cls.split("<")[0])
        if t.name == "propagate" and "ClauseCreator" in c:
            # the trail grows
            f = {x: v for x, v in st.facts.items() if not contains(x, lambda y: y == ("size", "now"))}
            env = {k: subst(v, lambda y: y == ("size", "now"), ("size", "old")) for k, v in st.env.items()}
            s = State(env, f, rs, st.trail)
            return [(s.with_rs(rs | {("propagated",)}), ("b", True)), (s.with_rs(rs | {("conflict",)}), ("b", False))]
        if t.name == "assignment":
            return [(st, ("assignment",))]
        if t.name == "trail":
            return [(st, ("trail",))]
        o = unwas(one(E.load(st, obj))) if obj is not None else ("x",)
        if t.name == "size" and o == ("trail",):
            return [(st, ("size", "now"))]
        if t.name in ("begin", "end") and o == ("trail",):
            return [(st, ("i", 0) if t.name == "begin" else ("size", "now"))]
        if t.name == "operator+" and o in (("i", 0), ("size", "now")) or t.name == "operator+" and len(vals) == 2:
            a, b = (o, vals[0]) if obj is not None else vals
            return [(st, self.norm(b) if a == ("i", 0) else ("+", a, self.norm(b)))]
        if t.name == "empty" and obj is not None and container(E.storage(st, obj), "todo_"):
            return [(st, ("call", "empty", (("fld", ("this", "Solver"), "todo_"),)))]
        if c == "Solver" and t.name == "check":
            s = st.forget(lambda x: is_field(x, "todo_"))
            return [(s.with_rs((rs | {("checked",)}) - {("range",)}), ("b", True)), (s.with_rs(rs | {("conflict",)}), ("b", False))]
        if c == "Solver" and t.ret == "bool" and len(vals) == 3:
            a, b = self.norm(vals[1]), self.norm(vals[2])
            return self.literals_from(st, at, a, b)
        if c == "Solver" and t.ret == "bool" and len(vals) == 2 and unwas(one(vals[1]))[0] == "new":
            v = [self.norm(x) for x in unwas(one(vals[1]))[2]]
            if len(v) == 2:
                return self.literals_from(st, at, v[0], v[1])
        return None

    def literals_from(self, st, at, a, b):
        self.res.ok("simplify", "%s: trail from %s to %s" % (at, show(a), show(b)))
        if not is_field(unwas(a), "trail_offset_"):
            self.res.bad("simplify", at, "the literals propagated start at %s and not where the last propagation ended" % show(a), key="simplify|from")
        if b != ("size", "now"):
            self.res.bad("simplify", at, "the literals propagated end at %s and not at the end of the trail" % show(b), key="simplify|to")
        s = st.forget(lambda x: is_field(x, "todo_"))
        rs = frozenset(x for x in st.rs if x[0] not in ("hi", "checked")) | {("hi", b)}
        return [(s.with_rs(rs), ("b", True)), (s.with_rs(rs | {("conflict",)}), ("b", False))]

    def write(self, E, ctx, st, lv, value, n):
        if is_field(lv, "trail_offset_"):
            v = self.norm(value)
            self.res.ok("simplify", "%s: trail offset set to %s" % (ctx.fn.at(n), show(v)))
            if v != ("size", "now") and v != ("size", "old"):
                self.res.bad("simplify", ctx.fn.at(n), "the position on the trail is set to %s" % show(v), key="simplify|offset")
            elif ("hi", v) not in st.rs:
                self.res.bad("simplify", ctx.fn.at(n), "the position on the trail advances over literals that have not been propagated", key="simplify|skip")
            # the value of the field is not followed further
            st = State({k: v for k, v in st.env.items() if not (k[0] == "f" and k[2] == "trail_offset_")}, st.facts, st.rs, st.trail)
        return [st]


def simplify(prog, res, eff):
    for i in prog.find("Solver::simplify"):
        r = Simplify(res)
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        full = 0
        for st, ret in exits:
            fs, rs = facts(st), st.rs
            b = None if ret is None else Engine.decided(st, unwas(one(ret)))
            res.ok("simplify", "exit of Solver::simplify")
            if b == ("b", False):
                if ("conflict",) not in rs:
                    res.bad("simplify", loc, "simplification fails without a conflict", key="simplify|false")
                continue
            if ("conflict",) in rs:
                res.bad("simplify", loc, "simplification ignores a conflict", key="simplify|conflict")
                continue
            full += 1
            done = any(t[0] == "==" and v and ("size", "now") in t[1:] and any(is_field(x, "trail_offset_") for x in t[1:]) or
                       t[0] == "<" and not v and is_field(t[1], "trail_offset_") and t[2] == ("size", "now") for t, v in fs.items())
            if not done or ("propagated",) not in rs:
                res.bad("simplify", loc, "simplification succeeds although literals on the trail may not have been propagated", key="simplify|trail")
            if not any(t[0] == "call" and t[1] == "empty" and refers(t, "todo_") and v for t, v in fs.items()):
                res.bad("simplify", loc, "simplification succeeds although constraints may be queued", key="simplify|todo")
        if not full:
            raise AnalysisBroken("no conflict-free path through Solver::simplify")


# ---- propagation -----------------------------------------------------------------------
class Changes(Walk):
    def init(self):
        self.some = False

    def direct(self, fn):
        return last(fn.info.cls) == "Solver" and fn.id not in self.scalar

    def no_inline(self, info):
        return info.id in self.scalar or Walk.no_inline(self, info)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        rs = st.rs
        at = ctx.fn.at(n)
        if t.id in self.scalar:
            self.some = True
            v = self.norm(vals[1])
            self.res.ok("changes", "%s: %s" % (at, show(v)))
            if ("level",) not in rs:
                self.res.bad("changes", at, "a literal is propagated before the state of its decision level is set up", key="changes|level")
            if negated(v)[1] != 1:
                self.res.bad("changes", at, "the complement of the assigned literal is propagated", key="changes|sign")
            return [(st.with_rs(rs - {("pend",)}), ("b", True)), (st.with_rs((rs - {("pend",)}) | {("conflict",)}), ("b", False))]
        if t.name == "push_level_" or t.name == "emplace_back" and obj is not None and container(E.storage(st, obj), "levels_"):
            return [(st.with_rs(rs | {("level",)}), ("r", t.q, ctx.fn.id, n.i))]
        if n.get("oper") == "++" or t.name == "operator++":
            if ("pend",) in rs:
                self.res.bad("changes", at, "an assigned literal is skipped", key="changes|skip")
            return None
        return None

    def local(self, E, ctx, st, lv, value, n):
        if value[0] == "+" and unwas(value[2]) == ("i", 1) and ("pend",) in st.rs:
            self.res.bad("changes", ctx.fn.at(n), "an assigned literal is skipped", key="changes|skip")
        return None

    def declare(self, E, ctx, st, d, value, n):
        v = value[1] if value[0] == "copyof" else value
        if v[0] == "elem":
            if ("pend",) in st.rs:
                self.res.bad("changes", ctx.fn.at(n), "an assigned literal is skipped", key="changes|skip")
            return st.with_rs((st.rs | {("pend",)})), value
        return st, value

    def branch(self, E, ctx, st, term, value):
        t = unwas(term)
        if t[0] == "==" and contains(t, lambda x: x[0] in ("call", "r") and last(x[1]) in ("end", "cend") or x[:1] == ("arg",) and x[1] > 0):
            return st.with_rs((st.rs - {("done",), ("pend",)}) | {("done",) if value else ("pend",)})
        return st


def changes(prog, res, eff):
    start = prog.find("Solver::propagate")
    sc = scalar_entries(prog, start, lambda f: mentions(prog, f, "lit2cs_") or mentions(prog, f, "litmap_", "factmap_"))
    if not sc:
        raise AnalysisBroken("the function that propagates a literal was not found")
    for i in start:
        r = Changes(res)
        r.scalar = {f.id for f in sc}
        E = Engine(prog, r, eff)
        E.exclude = set()
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            b = None if ret is None else Engine.decided(st, unwas(one(ret)))
            res.ok("changes", "exit of Solver::propagate")
            if b == ("b", False):
                if ("conflict",) not in st.rs:
                    res.bad("changes", i.body.loc, "propagation fails without a conflict", key="changes|false")
                continue
            if ("conflict",) in st.rs:
                res.bad("changes", i.body.loc, "propagation ignores a conflict", key="changes|conflict")
            elif ("done",) not in st.rs or ("pend",) in st.rs:
                res.bad("changes", i.body.loc, "propagation succeeds before the last assigned literal", key="changes|end")
        if not r.some:
            res.bad("changes", i.body.loc, "assigned literals are not propagated", key="changes|none")


def run(prog, res, tier):
    res.rule("changes", "each assigned literal is propagated on its decision level")
    res.rule("todo", "all constraints of an assigned literal are queued")
    res.rule("update", "each constraint that watches a variable is told about the change of its bound, once")
    res.rule("queue", "constraints with changes are queued; each queued constraint is unmarked and propagated unless it is false")
    res.rule("return", "success is reported only when no changes, queued constraints or facts are left")
    res.rule("simplify", "simplification ends only when the whole trail has been propagated and nothing is queued")
    eff = Effects(prog)
    changes(prog, res, eff)
    todo(prog, res, eff)
    check(prog, res, eff)
    simplify(prog, res, eff)
