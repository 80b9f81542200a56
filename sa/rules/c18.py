"""Directives are handed to the builder with their meaning."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, lin, parallel
from .c06 import facts, one, unwas
from .c12 import implied
from .c16 import Build, EMPTY, ONE, element_of, form, freeze, part, sides, signed, walk
from .c17 import INVALID, Parse, neutral

EXPLANATION = (
    "Path-sensitive symbolic analysis of the parser, started once for each kind of directive: what is requested from the builder for "
    "the elements and the guard of the atom on each path is compared with the definition of the directive.")

KINDS = ("minimize", "maximize", "dom", "distinct", "disjoint", "show")


def call(name, *args):
    return ("call", name, args)


class Directive(Parse):
    main = "directive"

    def init(self):
        Parse.init(self)
        self.asked = 0
        self.treated = 0

    # terms of the atom
    @property
    def atom(self):
        return ("elem", self.top)

    @property
    def elements(self):
        return call("elements", self.atom)

    @property
    def element(self):
        return call("front", call("tuple", ("elem", self.elements)))

    @property
    def atomlit(self):
        return call("solver_literal", call("literal", self.atom))

    def argument(self, end):
        return call(end, call("arguments", self.element))

    def matched(self, st, name):
        """Does the element match an operator (None: not tested)?"""
        for t, b in facts(st).items():
            if t[0] == "match" and t[1] == self.element and t[2] == name and t[3] == ("i", 2):
                return b
        return None

    # bookkeeping: ("due",) while an element has not been treated
    def done(self, st):
        self.treated += 1
        return st.with_rs(st.rs - {("due",)})

    def exempt(self, st):
        """May the current element be skipped?"""
        return False

    def item(self, st, more):
        """The next element of the atom."""
        if ("due",) in st.rs and not self.exempt(st):
            self.bad("an element of %s is skipped" % self.kind, "skip")
        return st.with_rs(st.rs | {("due",)} if more else st.rs - {("due",)})

    def around(self, E, ctx, st, container, more):
        if self.neu(E, st, unwas(container)) == self.elements:
            return self.item(st, more)
        return Parse.around(self, E, ctx, st, container, more)

    def keep(self, t):
        return t[0] == "match" or Parse.keep(self, t)

    def ask(self, st, name, args, at, loc=None):
        """A request to the builder."""
        self.bad("%s asks for %s" % (self.kind, name), "odd|" + name)
        return st

    def builder(self, E, ctx, st, n, t, vals, args, at, r):
        if t.name in ("show_signature", "show_variable", "add_show", "add_minimize", "add_dom", "add_distinct", "add_disjoint", "add_constraint", "add_nonlinear"):
            self.res.ok(self.main, "%s: %s" % (at, t.name))
            self.asked += 1
            ok = self.ask(E, st, t.name, [self.given(E, st, a, v) for a, v in zip(args, vals)], at)
            ok = ok.with_rs(ok.rs | {("done", t.name)})
            if t.ret != "bool":
                return [(ok, r)]
            return [(ok, ("b", True)), (ok.with_rs(ok.rs | {"conflict"}), ("b", False))]
        return Parse.builder(self, E, ctx, st, n, t, vals, args, at, r)

    def given(self, E, st, a, v):
        o = self.home(E, st, a[1] if a[0] == "ref" else a)
        w = E.load(st, o) if o[0] == "var" else v
        if w[0] in ("lc", "ivs", "sums"):
            return w
        return self.neu(E, st, v)

    def judge(self, st):
        if ("done", self.wanted) not in st.rs and self.needed(st):
            self.bad("%s is ignored on some path" % self.kind, "ignored")

    def needed(self, st):
        return True

    def expect(self, what, got, want, at):
        if got != want:
            self.res.bad(self.main, at, "%s: the %s is %s" % (self.kind, what, show(got) if isinstance(got, tuple) else got), key="%s|%s|%s" % (self.main, self.kind, what))


class Objective(Directive):
    wanted = "add_minimize"

    def needed(self, st):
        return ("some",) in st.rs

    def item(self, st, more):
        st = Directive.item(self, st, more)
        return st.with_rs(st.rs | {("some",)}) if more else st

    def term(self, E, ctx, st, n, t, vals, args, at, r):
        tm = [self.neu(E, st, v) for v, p in zip(vals, t.pt) if "TheoryTerm" in p]
        if tm and t.ret == "void":
            self.expect("term", tm[0], self.element, at)
        return [(self.done(s), x) for s, x in Parse.term(self, E, ctx, st, n, t, vals, args, at, r)]

    def step(self, ctx, st, k, v, more):
        if v[0] == "lc" and ("open", k) in st.rs:
            st = st.with_rs(st.rs | {("undone", k)})
        if v[0] == "lc" and not more:
            if ("undone", k) in st.rs and ("asks", k) in st.rs:
                self.bad("a term of %s is dropped" % self.kind, "dropped")
            st = st.with_rs(st.rs - {("undone", k), ("asks", k)})
        if v[0] == "lc" and more and not form(v)[1]:
            return None
        st = Parse.step(self, ctx, st, k, v, more)
        if st is not None and v[0] == "lc":
            st = st.with_rs(st.rs | {("open", k)} if more else st.rs - {("open", k)})
        return st

    def ask(self, E, st, name, args, at):
        if name != self.wanted:
            return Directive.ask(self, st, name, args, at)
        co, var = args
        l, s = signed(co)
        x, p = l[1:] if l[0] == "part" else (None, None)
        y, q = var[1:] if var[0] == "part" else (None, None)
        self.expect("variable", (y, q), (x, "second"), at)
        src = x[2][0] if x is not None and x[0] == "call" and x[1].startswith("at") else element_of(x) if x is not None else None
        src = self.home(E, st, src) if src is not None else None
        f = form(E.load(st, src)) if src is not None and src[0] == "var" else EMPTY
        self.expect("sum", tuple((s * k, h) for k, h in f[1]), ((1 if self.kind == "minimize" else -1, ("parsed", self.element)),), at)
        if f[2]:
            self.bad("the constant of a simplified sum is lost", "const")
        return st.with_rs((st.rs - {("open", src)}) | {("asks", src)})


class Domain(Directive):
    wanted = "add_dom"

    def number(self, x):
        return call("number", call("evaluate", x))

    def bounds(self, st):
        m = self.matched(st, "..")
        if m is None:
            return None
        lo, hi = (self.argument("front"), self.argument("back")) if m else (self.element, self.element)
        r = lin(self.number(hi))
        r[None] = r.get(None, 0) + 1
        return lin(self.number(lo)), r

    def exempt(self, st):
        b = self.bounds(st)
        if b is None:
            return False
        for t, v in facts(st).items():
            if t[0] == "<" and not v and (lin(t[1]), lin(t[2])) == b:
                return True
            if t[0] == "<" and v and lin(t[1]) == {k: x - (k is None) for k, x in b[1].items() if x - (k is None)} and lin(t[2]) == b[0]:
                return True
        return False

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name == "add" and last(t.cls.split("<")[0]) == "IntervalSet" and obj is not None:
            at = ctx.fn.at(n)
            b = self.bounds(st)
            lo, hi = (lin(self.neu(E, st, v)) for v in vals[:2])
            self.res.ok(self.main, "%s: values from %s" % (at, show(self.neu(E, st, vals[0]))))
            if b is None:
                self.res.bad(self.main, at, "intervals are treated like values", key="dom|match")
            elif b != (lo, hi):
                self.res.bad(self.main, at, "the values from %s up to %s are added" % (show(self.neu(E, st, vals[0])), show(self.neu(E, st, vals[1]))), key="dom|values|%s" % self.matched(st, ".."))
            st = self.done(st)
            o = self.home(E, st, obj)
            return [(x, ("x",)) for x in E.assign(ctx, st.with_rs(st.rs | {("added",)}), o, ("ivs", self.element), n)]
        return Directive.event(self, E, ctx, st, n, t, obj, vals, args)

    def ask(self, E, st, name, args, at):
        if name != self.wanted:
            return Directive.ask(self, st, name, args, at)
        self.expect("literal", args[0], self.atomlit, at)
        self.expect("variable", args[1], call("add_variable", call("evaluate", ("part", call("guard", self.atom), "second"))), at)
        if ("added",) in st.rs:
            self.expect("domain", args[2], ("ivs", self.element), at)
        return st


class Disjoint(Directive):
    wanted = "add_disjoint"

    @property
    def duration(self):
        return call("number", call("evaluate", self.argument("back")))

    def exempt(self, st):
        return implied(facts(st), self.duration, ("i", 0))

    def push(self, E, ctx, st, n, o, vals, at, r):
        if not implied(facts(st), ONE, self.duration):
            self.res.bad(self.main, at, "empty intervals are considered", key="directive|disjoint|empty")
        return [(self.done(s), x) for s, x in Parse.push(self, E, ctx, st, n, o, vals, at, r)]

    def ask(self, E, st, name, args, at):
        if name != self.wanted:
            return Directive.ask(self, st, name, args, at)
        self.expect("literal", args[0], self.atomlit, at)
        want = {(1, ("one", self.duration, call("add_variable", call("evaluate", self.argument("front")))))}
        f = form(args[1])
        got = set(f[1])
        self.expect("sequence of intervals", tuple(sorted(got - want, key=repr)), (), at)
        return st


class Distinct(Directive):
    FULL = ("lc", ((1, ("terms",)),), False)
    BACK = {"first": EMPTY, "second": ("i", 0), "#0": EMPTY, "#1": ("i", 0)}
    wanted = "add_distinct"

    def check(self, at, f, v, what):
        """A term and its constant have been stored."""
        f = form(f)
        self.res.ok(self.main, "%s: %s" % (at, what))
        self.expect("term", f[1], ((1, ("parsed", self.element)),), at)
        l = lin(unwas(v))
        # the constant is moved to the other side twice
        if (f[2] is not True or l != {("simp", f[1]): -1}):
            self.bad("the constant of a term is %s" % show(v), "const")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        at = ctx.fn.at(n)
        c = last(t.cls.split("<")[0])
        o = self.home(E, st, obj) if obj is not None else None
        if c == "vector" and o is not None and o[0] == "var" and self.types.get(o[1:3], "").count("pair") > 1:
            back = ("fld", ("obj",) + o[1:3], "#back")
            if t.name in ("emplace_back", "push_back"):
                vs = [unwas(v) for v in vals]
                if len(vs) == 1 and vs[0][0] == "new" and len(vs[0][2]) == 2:
                    vs = list(vs[0][2])
                if len(vs) == 2:
                    a = args[0] if len(args) == 2 else vs[0]
                    f = unwas(E.load(st, a[1]) if a[0] == "ref" else vs[0])
                    self.check(at, f, vs[1], "element")
                    return [(x, ("x",)) for x in E.assign(ctx, self.done(st), o, self.FULL, n)]
                if not vs:
                    st = E.assign(ctx, st, o, self.FULL, n)[0]
                    for k, v in self.BACK.items():
                        st = st.set(("f", back, k), v)
                    return [(self.done(st.with_rs(st.rs | {("filled", back)})), back)]
            if t.name in ("back",):
                return [(st, back)]
        return Directive.event(self, E, ctx, st, n, t, obj, vals, args)

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[1][0] == "fld" and lv[1][2] == "#back":
            return [st.set(("f", lv[1], lv[2]), unwas(value))]
        return Directive.write(self, E, ctx, st, lv, value, n)

    def item(self, st, more):
        for x in [x for x in st.rs if x[0] == "filled"]:
            b = x[1]
            v = {k: st.env.get(("f", b, k), ("x",)) for k in self.BACK}
            first, second = [v[x] if v[x] != self.BACK[x] else v[y] for x, y in (("first", "#0"), ("second", "#1"))]
            self.check(self.loc, first, second, "element")
            st = st.with_rs(st.rs - {x})
        return Directive.item(self, st, more)

    def ask(self, E, st, name, args, at):
        if name != self.wanted:
            return Directive.ask(self, st, name, args, at)
        self.expect("literal", args[0], self.atomlit, at)
        return st


class Show(Directive):
    wanted = "add_show"

    def ask(self, E, st, name, args, at):
        ev = call("evaluate", self.element)
        if name == "add_show":
            return st
        m = self.matched(st, "/")
        if name == "show_signature":
            self.expect("signature", (m,) + tuple(args), (True, call("name", call("evaluate", self.argument("front"))), call("number", call("evaluate", self.argument("back")))), at)
            return self.done(st)
        if name == "show_variable":
            self.expect("variable", (m,) + tuple(args), (False, call("add_variable", ev)), at)
            return self.done(st)
        return Directive.ask(self, st, name, args, at)


RULES = {"minimize": Objective, "maximize": Objective, "dom": Domain, "distinct": Distinct, "disjoint": Disjoint, "show": Show}


def run(prog, res, tier):
    res.rule("directive", "each directive asks for what it denotes, for each of its elements")
    eff = Effects(prog)
    rec, own = {}, {}
    fns = [i for i in prog.find("Clingcon::parse") if i.body is not None and any("TheoryAtoms" in p for p in i.pt)]
    if not fns:
        raise AnalysisBroken("no function parses theory atoms")

    def one(task, res):
        i, kind = task
        r = RULES[kind](res)
        r.rec, r.own, r.types = rec, own, eff._dtype
        r.res_prog = prog
        r.kind, r.op, r.loc = kind, "=", i.body.loc
        r.top = [("arg", k, p["name"]) for k, p in enumerate(i.body.params) if "TheoryAtoms" in i.pt[k]][0]
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            sides(r.settle(st).rs, ret, res, r.main, r.loc)
        if not r.treated:
            res.bad("directive", r.loc, "the elements of %s directives are ignored" % kind, key="directive|elements|" + kind)
        if not r.asked:
            res.bad("directive", r.loc, "%s directives are ignored" % kind, key="directive|none|" + kind)
    parallel(res, [(i, kind) for kind in KINDS for i in fns], one)
    res.need("directive", 8)
