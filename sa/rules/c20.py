"""Terms are translated into what they denote."""
from ..absint import Engine, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, parallel
from .c06 import Base, facts, unwas
from .c16 import ONE, element_of, form, join, part, signed, walk
from .c17 import INVALID, Parse, neutral

EXPLANATION = (
    "Path-sensitive symbolic analysis of the recursive functions over theory terms, started once for each kind of term: the terms appended "
    "to a sum, and the symbols that terms evaluate to, are compared with the definition of the operation on the results for its arguments.")

TYPES = {"tuple": 0, "list": 1, "set": 2, "function": 3, "number": 4, "symbol": 5}
OPERATORS = (("-", 1), ("+", 2), ("-", 2), ("*", 2), ("/", 2), ("\\", 2), ("**", 2), ("..", 2))
KINDS = OPERATORS + tuple((t, None) for t in TYPES)
SAFE = {"+": "safe_add", "-": "safe_sub", "*": "safe_mul", "/": "safe_div", "\\": "safe_mod", "**": "safe_pow"}
SYMBOLS = {"Infimum": 0, "Number": 1, "String": 4, "Function": 5, "Supremum": 7}


def call(name, *args):
    return ("call", name, args)


class Kinds(Parse):
    """The type and name of the term treated are known."""
    subject = None
    case = None

    def matches(self, E, st, vals):
        v = self.neu(E, st, vals[0])
        if v == self.subject:
            name = Parse.matches(self, E, st, [("x",)] + list(vals[1:]))[2:]
            return ("b", self.case[1] is not None and name == (self.case[0], ("i", self.case[1])))
        return Parse.matches(self, E, st, vals)

    def typed(self, t):
        """Decides conditions about the type of the term."""
        if t[0] in ("==", "!=") and call("type", self.subject) in t[1:]:
            k = [y for y in t[1:] if y != call("type", self.subject)]
            if len(k) == 1:
                k = k[0][1] if k[0][0] == "i" else TYPES.get(last(k[0][1]).lower()) if k[0][0] == "enum" else None
                if k is not None:
                    return (k == (TYPES["function"] if self.case[1] is not None else TYPES[self.case[0]])) == (t[0] == "==")
        return None

    def branch(self, E, ctx, st, term, value):
        if self.subject is not None:
            t, b = (term[1], not value) if term[0] == "!" else (term, value)
            d = self.typed(tuple(self.neu(E, st, x) if isinstance(x, tuple) else x for x in t))
            if d is not None:
                return st if d == b else None
        return Parse.branch(self, E, ctx, st, term, value)

    def argument(self, end):
        return call(end, call("arguments", self.subject))

    @property
    def label(self):
        return "%s/%d" % self.case if self.case[1] is not None else self.case[0]


class Sums(Kinds):
    """What is appended to a sum for a term."""
    main = "term"

    def init(self):
        Kinds.init(self)
        self.done = {}
        self.inside = None

    def term(self, E, ctx, st, n, t, vals, args, at, r):
        out = [(a, v) for a, v, p in zip(args, vals, t.pt) if p.endswith("&") and "vector" in p and not p.startswith("const ")]
        tm = [self.neu(E, st, v) for v, p in zip(vals, t.pt) if "TheoryTerm" in p]
        if len(out) == 1 and len(tm) == 1 and self.inside is None and t.body is not None and t.id not in self.done:
            self.done[t.id] = 0
            a = out[0][0]
            given = [v if x[0] != "ref" or not p.endswith("&") or p.startswith("const ") else x for x, v, p in zip(args, vals, t.pt)]
            o = E.storage(st, a[1] if a[0] == "ref" else a)
            for self.case in KINDS:
                self.subject, self.inside, self.at = tm[0], o, t.body.loc
                for s in E.assign(ctx, st.with_rs(frozenset()), o, ("lc", ((1, ("initial",)),), False), n):
                    for s2, ret in E.follow(ctx, s, n, t, None, given):
                        self.done[t.id] += 1
                        self.compare(E, s2, o, t)
                self.subject = self.case = self.inside = None
        return Kinds.term(self, E, ctx, st, n, t, vals, args, at, r)

    def variables(self, E, st, v):
        """The variables of a term: none, a single one, the one of an element or those of several elements."""
        v = unwas(v)
        while v[0] in ("copyof", "ref") and len(v) == 2:
            v = unwas(v[1])
        if v == INVALID:
            return ()
        if v[0] == "var":
            v = unwas(E.load(st, v))
        if v[0] == "new" and "vector" in v[1]:
            xs = [unwas(x) for x in v[2] if not (x[0] == "new" and "alloc" in x[1] and not x[2])]
            while len(xs) == 1 and xs[0][0] == "new" and ("[" in xs[0][1] or "initializer_list" in xs[0][1]):
                xs = [unwas(x) for x in xs[0][2]]
            return tuple(y for x in xs for y in self.variables(E, st, x))
        if v[0] == "lc":
            return tuple(y for s, h in v[1] for y in (self.variables(E, st, h[1]) if h[0] == "all" else (h,)))
        if v[0] == "part" and v[2] == "second":
            v = ("fld", v[1], "second")
        x, p = part(v)
        if p == "second" and element_of(x) is not None:
            src = self.home(E, st, element_of(x))
            if src[0] == "var" and E.load(st, src)[0] == "lc":
                return (("vars", src),)
        return (self.neu(E, st, v),)

    def push(self, E, ctx, st, n, o, vals, at, r):
        vs = [unwas(v) for v in vals]
        if len(vs) == 1 and vs[0][0] == "new" and len(vs[0][2]) == 2:
            vs = [unwas(v) for v in vs[0][2]]
        if self.inside is None or o != self.inside or len(vs) != 2:
            return Kinds.push(self, E, ctx, st, n, o, vals, at, r)
        co = vs[0]
        x, p = part(signed(co)[0])
        src = self.home(E, st, element_of(x)) if p == "first" and element_of(x) is not None else None
        if src is not None and src[0] == "var" and src != o and E.load(st, src)[0] == "lc" and self.variables(E, st, vs[1]) == (("vars", src),):
            # the terms of another vector
            f = form(E.load(st, o))
            for s, h in E.load(st, src)[1]:
                f = join(f, s * signed(co)[1], h)
            st = st.with_rs(frozenset(x for x in st.rs if x[0] != "due"))
            return [(x, r) for x in E.assign(ctx, st, o, f, n)]
        xs = self.variables(E, st, vs[1])
        if co[0] == "*" or co[0] == "call" and last(co[1]) == "safe_mul":
            h = self.multiplied(E, st, co[2] if co[0] == "call" else co[1:], xs, at)
            st = st.with_rs(frozenset(x for x in st.rs if x[0] != "due"))
        else:
            h = ("one", self.deep(E, st, co), xs[0] if len(xs) == 1 else xs if xs else INVALID)
        f = form(E.load(st, o))
        return [(x, r) for x in E.assign(ctx, st, o, join(f, 1, h), n)]

    def multiplied(self, E, st, cos, xs, at):
        """The product of two elements."""
        srcs = []
        for c in cos:
            x, p = part(c)
            src = self.home(E, st, element_of(x)) if x is not None and element_of(x) is not None else None
            if p != "first" or src is None or src[0] != "var" or E.load(st, src)[0] != "lc":
                return ("odd", cos)
            srcs.append(src)
        want = {("vars", x) for x in srcs}
        if len(xs) == 1 and set(xs) < want:
            # the other one has no variable
            other = (want - set(xs)).pop()[1]
            if any(self.none(E, st, t, b, other) for t, b in facts(st).items()):
                xs = tuple(want)
        if len(want) != 2 or len(xs) != 2 or set(xs) != want:
            self.res.bad(self.main, at, "the product of two terms has other variables than the terms", key="term|product")
        hs = [E.load(st, x)[1] for x in srcs]
        if any(len(h) != 1 for h in hs):
            return ("odd", cos)
        return ("product", frozenset(h[0] for h in hs))

    def none(self, E, st, t, b, src):
        """Does a condition say that an element has no variable?"""
        if t[0] == "==" and INVALID in t[1:] and b:
            x = [y for y in t[1:] if y != INVALID]
            return len(x) == 1 and self.variables(E, st, x[0]) == (("vars", src),)
        if t[0] == "<" and t[2] == INVALID and not b:
            return self.variables(E, st, t[1]) == (("vars", src),)
        if t[0] == "call" and last(t[1]) == "is_valid_var" and not b:
            return self.variables(E, st, t[2][0]) == (("vars", src),)
        return False

    def step(self, ctx, st, k, v, more):
        if self.inside is not None and v[0] == "lc" and k != self.inside:
            if ("due", k) in st.rs:
                self.res.bad(self.main, self.at, "a product is dropped", key="term|due")
            st = st.with_rs(st.rs | {("due", k)} if more else st.rs - {("due", k)})
        return Kinds.step(self, ctx, st, k, v, more)

    def wanted(self):
        name, arity = self.case
        f, b = ("parsed", self.argument("front")), ("parsed", self.argument("back"))
        number = call("number", call("evaluate", self.subject))
        if arity == 1:
            return {(1 if name == "+" else -1, f)}
        if arity == 2:
            if name in "+-":
                return {(1, f), (1 if name == "+" else -1, b)}
            if name == "*":
                return {(1, ("product", frozenset(((1, f), (1, b)))))}
            if name == "..":
                return None
            return {(1, ("one", number, INVALID))}
        if name == "number":
            return {(1, ("one", call("number", self.subject), INVALID))}
        if name in ("list", "set"):
            return None
        return {(1, ("one", ONE, call("add_variable", call("evaluate", self.subject))))}

    def compare(self, E, st, o, t):
        v = E.load(st, o)
        got = set(form(v)[1]) if v[0] == "lc" else {(1, ("odd", v))}
        name = "vector of products" if "vector" in t.pt[-1].replace("vector", "", 1) else "vector"
        self.res.ok(self.main, "%s: %s appends %s to a %s" % (self.at, self.label, "; ".join("%d %s" % (s, show(h)) for s, h in sorted(got, key=repr)), name))
        want = self.wanted()
        if any(x[0] == "within" for x in st.rs):
            self.res.bad(self.main, self.at, "a loop over the terms of %s ends early" % self.label, key="term|%s|%s|early" % (name, self.label))
        if want is None:
            if self.case == ("..", 2):
                return  # refused when it is evaluated
            self.res.bad(self.main, self.at, "%s terms are accepted" % self.label, key="term|%s|%s|accepted" % (name, self.label))
        elif got != want | {(1, ("initial",))} and not (any(h[0] == "product" for _, h in want) and got == {(1, ("initial",))} and ("none",) in st.rs):
            self.res.bad(self.main, self.at, "%s appends %s" % (self.label, "; ".join("%d %s" % (s, show(h)) for s, h in sorted(got, key=repr))), key="term|%s|%s" % (name, self.label))


class Symbols(Kinds):
    """What a term evaluates to."""
    main = "symbol"

    def keep(self, t):
        return True

    def keepval(self, k, v):
        return k[0] == "ret" or Kinds.keepval(self, k, v)

    def compare(self, st, ret, fn):
        ok = self.matching(st, ret)
        self.res.ok(self.main, "%s: %s evaluates to %s" % (self.loc, self.label, show(ret)))
        if not ok:
            self.res.bad(self.main, self.loc, "%s evaluates to %s" % (self.label, show(ret)), key="symbol|" + self.label)

    def matching(self, st, ret):
        name, arity = self.case
        ret = self.plain(ret)
        what = last(ret[1]) if ret[0] == "call" else None
        fs = facts(st)
        if arity == 2 and name != "..":
            f, b = (call("number", self.evaluated(self.argument(x))) for x in ("front", "back"))
            xs = [(f, b), (b, f)] if name in "+*" else [(f, b)]
            return ret in [call("Number", call(SAFE[name], *x)) for x in xs]
        if arity == 1:
            x = self.evaluated(self.argument("front"))
            if what == "Number":
                return ret == call("Number", call("safe_inv", call("number", x)))
            named = any(y == call("name", x) for t in fs for y in walk(self.plain(t)))
            return what == "Function" and ret[2][:2] == (call("name", x), call("arguments", x)) and ret[2][2:] in ((("!", call("is_positive", x)),), (call("is_negative", x),)) and named
        if name == "number":
            return ret == call("Number", call("number", self.subject))
        if name == "symbol":
            quoted = [b for t, b in fs.items() if t[0] == "==" and ("i", 34) in t[1:]]
            if what == "String":
                return quoted.count(False) == 0 and quoted.count(True) > 0 and self.stripped(ret[2][0])
            if what == "Id":
                ret = call("Function", ret[2][0], ("lc", (), False), *ret[2][1:])
            return what in ("Function", "Id") and ret[2][0] == call("name", self.subject) and (len(ret[2]) == 2 or ret[2][2] == ("b", True)) and self.list(ret[2][1]) == () and True not in quoted[-1:]
        if name in ("tuple", "function"):
            if what != "Function" or len(ret[2]) == 3 and ret[2][2] != ("b", True):
                return False
            if ret[2][0] not in ((("s", ""),) if name == "tuple" else (call("name", self.subject),)):
                return False
            x = self.evaluated(("elem", call("arguments", self.subject)))
            got = self.list(ret[2][1])
            return got == (x,) or got == () and any(y[0] == "none" for y in st.rs)
        return False

    def evaluated(self, x):
        return call("evaluate", x)

    def plain(self, t):
        """A term without conversions of strings; recursive calls under a common name."""
        t = self.trans(t)
        return t

    def trans(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ("copyof", "ref") and len(t) == 2:
            return self.trans(t[1])
        if t[0] == "call" and isinstance(t[2], tuple):
            n = last(t[1])
            if n in ("c_str", "data") and len(t[2]) == 1:
                return self.trans(t[2][0])
            if n == last(self.start_name):
                n = "evaluate"
            return ("call", n, tuple(self.trans(x) for x in t[2]))
        if t[0] == "new" and "basic_string" in t[1] and len(t[2]) in (1, 2) and ("alloc" in str(t[2][-1]) or len(t[2]) == 1):
            return self.trans(t[2][0])
        return tuple(self.trans(x) if isinstance(x, tuple) else x for x in t)

    def list(self, x):
        """The symbols in a list of arguments."""
        x = unwas(x)
        while x[0] == "new" and ("Span" in x[1] or "vector" in x[1] or "initializer_list" in x[1]):
            xs = [y for y in x[2] if not (y[0] == "new" and not y[2] and ("ToIterator" in y[1] or "alloc" in y[1]))]
            if not xs:
                return ()
            if len(xs) > 1:
                return None
            x = unwas(xs[0])
        if x[0] == "lc":
            r = []
            for s, h in x[1]:
                if h[0] == "all":
                    r.append(self.trans(neutral(h[1])))
                elif h[0] == "one" and h[1][0] == "part" and h[1][2] == "first" and h[2] == ("part", h[1][1], "second"):
                    r.append(self.trans(neutral(h[1][1])))
                else:
                    r.append(h)
            return tuple(r)
        return None

    def stripped(self, x):
        """Are the quotes removed before escape sequences are replaced?"""
        if x[0] != "unquoted":
            return False
        x = x[1]
        if x[0] == "new" and "Span" in x[1] and len(x[2]) >= 2:
            b, e = x[2][:2]
            if b[0] == "+" and e[0] in ("+", "-") and b[1][0] == "it" and e[1][0] == "end":
                return b[2] == ("i", 1) and e[2] == ("i", -1 if e[0] == "+" else 1)
            if b[0] == "it" or e[0] == "end":
                return False
        raise AnalysisBroken("%s: unknown range of characters %s" % (self.loc, show(x)))

    def unescapes(self, t):
        return t.inroot and "string" in t.ret and len(t.pt) == 1 and "TheoryTerm" not in t.pt[0] and t.body is not None

    def no_inline(self, info):
        return self.unescapes(info) or Kinds.no_inline(self, info)

    def direct(self, fn):
        return not self.unescapes(fn.info) and Kinds.direct(self, fn)

    def term(self, E, ctx, st, n, t, vals, args, at, r):
        if t.id != self.start and t.body is not None and not ctx.active(t.id):
            given = [v if x[0] != "ref" or not p.endswith("&") or p.startswith("const ") else x for x, v, p in zip(args, vals, t.pt)]
            return E.follow(ctx, st, n, t, None, given)
        return Kinds.term(self, E, ctx, st, n, t, vals, args, at, r)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if self.unescapes(t):
            self.texts[t.id] = t
            return [(st, ("unquoted", self.neu(E, st, vals[0])))]
        return Kinds.event(self, E, ctx, st, n, t, obj, vals, args)


class Text(Base):
    """Escape sequences; rs: ("escaped",), ("in",), ("out", characters)."""
    main = "symbol"
    ESCAPES = {110: 10, 92: 92, 34: 34}

    def init(self):
        self.loops = 0

    def direct(self, fn):
        return fn.info.inroot

    def no_inline(self, info):
        return not info.inroot

    def keep(self, t):
        return True

    def keepval(self, k, v):
        return k[0] == "d" and v[0] in ("b", "i")

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if obj is not None and "basic_string" in t.cls and t.name in ("push_back", "operator+=", "append") and vals:
            v = unwas(vals[-1])
            self.res.ok(self.main, "%s: %s is appended" % (ctx.fn.at(n), show(v)))
            out = [x for x in st.rs if x[0] == "out"]
            st = st.with_rs(st.rs - set(out) | {("out", (out[0][1] if out else ()) + (v,))})
            return [(st, ("x",))]
        return None

    def range(self, E, ctx, st, container, more):
        self.loops += 1
        esc, out = ("escaped",) in st.rs, [x[1] for x in st.rs if x[0] == "out"]
        if ("in",) in st.rs:
            st = self.compare(ctx, st, esc, out[0] if out else ())
            if st is None:
                return None
        elif out:
            self.res.bad(self.main, ctx.fn.loc, "characters are added to strings", key="symbol|text|added")
        rs = frozenset(x for x in st.rs if x[0] not in ("in", "out"))
        return st.with_rs(rs | {("in",)} if more else rs)

    def compare(self, ctx, st, esc, out):
        fs = {t: b for t, b in facts(st).items() if t[0] == "==" and any(x[0] == "elem" for x in t[1:])}
        after = set()
        for c in (110, 92, 34, 65):
            if any(([x[1] for x in t[1:] if x[0] == "i"] == [c]) != b for t, b in fs.items()) or esc and c == 65:
                continue
            want = [self.ESCAPES[c]] if esc else [] if c == 92 else [c]
            got = [c if x[0] == "elem" else x[1] if x[0] == "i" else None for x in out]
            after.add(not esc and c == 92)
            if got != want:
                self.res.bad(self.main, ctx.fn.loc, "the character %s%s in a string is turned into %s" % ("\\" if esc else "", chr(c) if c != 65 else "c", got), key="symbol|text|%s|%s" % (esc, c))
        if not after:
            return None
        st = st.with_rs(st.rs - {("escaped",)})
        return st.with_rs(st.rs | {("escaped",)}) if True in after else st


def run(prog, res, tier):
    res.rule("symbol", "each term evaluates to the symbol it denotes")
    res.rule("term", "each term appends what it denotes to the sum")
    eff = Effects(prog)
    rec, own = {}, {}
    fns = [i for i in prog.find("Clingcon::parse") if i.body is not None and any("TheoryAtoms" in p for p in i.pt)]
    if not fns:
        raise AnalysisBroken("no function parses theory atoms")

    def one(task, res):
        i, kind = task
        r = Sums(res)
        r.rec, r.own, r.types = rec, own, eff._dtype
        r.res_prog = prog
        r.kind, r.op, r.loc = kind, "<=", i.body.loc
        r.top = [("arg", k, p["name"]) for k, p in enumerate(i.body.params) if "TheoryAtoms" in i.pt[k]][0]
        E = Engine(prog, r, eff)
        E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        if not any(r.done.values()):
            res.bad("term", r.loc, "no terms are parsed for %s" % kind, key="term|none|" + kind)
    parallel(res, [(i, kind) for kind in ("__sum_h", "__nsum_h") for i in fns], one)
    res.need("term", 2)
    todo = [i for i in prog.info.values() if i.body is not None and i.q.startswith("Clingcon::") and len(i.pt) == 1 and "TheoryTerm" in i.pt[0] and i.ret.endswith("Symbol")]
    rs = Symbols(res)
    rs.rec, rs.own, rs.types, rs.res_prog = rec, own, eff._dtype, prog
    todo = [i for i in todo if rs.recursive(i)]
    if not todo:
        raise AnalysisBroken("no function evaluates terms")
    texts = {}
    for i in todo:
        for case in KINDS:
            r = Symbols(res)
            r.rec, r.own, r.types, r.res_prog, r.texts = rec, own, eff._dtype, prog, texts
            r.kind, r.op, r.loc, r.top, r.start, r.start_name = None, None, i.body.loc, None, i.id, i.q
            r.case, r.subject = case, ("arg", 0, i.body.params[0]["name"])
            E = Engine(prog, r, eff)
            exits = E.analyse(i, frozenset())
            res.funcs(E.fns_seen)
            for st, ret in exits:
                r.compare(st, ret, i)
            if not exits and case[0] not in ("..", "list", "set"):
                res.bad("symbol", r.loc, "%s is refused" % r.label, key="symbol|%s|refused" % r.label)
    for t in texts.values():
        r = Text(res)
        E = Engine(prog, r, eff)
        E.analyse(t, frozenset())
        res.funcs(E.fns_seen)
        if not r.loops:
            raise AnalysisBroken("%s: no loop over the characters" % t.body.loc)
