"""Constraints are handed to the propagator with their meaning."""
import itertools

from ..absint import Engine, contains, show, subst
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, lin
from .c06 import Base, facts, one, unwas
from .c09 import negated
from .c11 import Enc
from .c12 import implied

EXPLANATION = (
    "Path-sensitive symbolic analysis of the builder that receives the constraints of the parser: the linear combinations collected in "
    "vectors, the constraints created and the clauses added on each path are compared with the constraint requested; the encodings of "
    "binary distinct and disjoint constraints are compared by a truth table over their literals and the order of the two terms.")

ONE = ("i", 1)
EMPTY = ("lc", (), False)


def form(t):
    """The linear combination a vector holds: ((sign, source), ...), whether simplify was applied."""
    t = unwas(t)
    while t[0] in ("copyof", "ref"):
        t = t[1]
    if t[0] == "lc":
        return t
    if t[0] == "new" and t[1].startswith(("std::vector", "vector", "std::initializer_list", "const std::pair", "std::pair<int, unsigned int>[")):
        xs = [unwas(x) for x in t[2] if not (x[0] == "new" and not x[2] and ("alloc" in x[1] or x[1] == t[1] or "*" in x[1]))]
        if not xs:
            return EMPTY
        if xs[0][0] == "it" and len(xs) > 1 and xs[1] == ("end", xs[0][1]) and xs[0][2] == ("i", 0):
            return form(xs[0][1])
        if all(x[0] == "new" and "pair<" in x[1] and "[" not in x[1] and "vector" not in x[1] and len(x[2]) == 2 for x in xs):
            f = EMPTY
            for x in xs:
                f = term(f, x[2][0], x[2][1])[0]
            return f
        if len(xs) == 1 or xs[-1][0] == "new" and "alloc" in xs[-1][1]:
            return form(xs[0])
    return ("lc", ((1, ("all", freeze(t))),), False)


def freeze(t):
    """Components as terms that do not change when components are written."""
    t = unwas(t) if isinstance(t, tuple) else t
    names = {"#0": "first", "#1": "second"}
    while isinstance(t, tuple) and contains(t, lambda x: x[0] == "fld" and x[2] in ("first", "second", "#0", "#1")):
        hit = []
        contains(t, lambda x: x[0] == "fld" and x[2] in ("first", "second", "#0", "#1") and not contains(x[1], lambda y: y[0] == "fld" and y[2] in ("first", "second", "#0", "#1")) and not hit.append(x))
        t = subst(t, lambda x: x == hit[0], ("part", hit[0][1], names.get(hit[0][2], hit[0][2])))
    return t


def order(x):
    return repr(x[1]), x[0]


def mul(f, k):
    return ("lc", tuple(sorted(((k * s, h) for s, h in f[1]), key=order)), f[2])


def join(f, s, h):
    return f if (s, h) in f[1] else ("lc", tuple(sorted(f[1] + ((s, h),), key=order)), f[2])


def canon(f):
    """A combination up to its sign."""
    if f[1] and min(f[1], key=order)[0] < 0:
        return mul(f, -1)[1], -1
    return f[1], 1


def part(t):
    """A component of an element: (element, "first" or "second")."""
    t = unwas(t)
    if t[0] == "fld" and t[2] in ("first", "second", "#0", "#1"):
        return unwas(t[1]), {"#0": "first", "#1": "second"}.get(t[2], t[2])
    return None, None


def signed(t):
    """A term up to its sign."""
    l = lin(unwas(t))
    if len(l) == 1:
        (x, k), = l.items()
        if x is None:
            return ("i", abs(k)), 1 if k >= 0 else -1
        if k in (1, -1):
            return x, k
    return unwas(t), 1


def term(f, co, var, sources=True):
    """Add a term to a combination; also the container the term was taken from."""
    (co, s), var = signed(co), unwas(var)
    x, p = part(co)
    y, q = part(var)
    src = element_of(x) if x is not None else None
    if x is not None and x == y and p == "first" and q == "second" and src is not None:
        return join(f, s, ("all", freeze(src))), (s, src)
    if co[0] == "i":
        s, co = (s * co[1], ONE) if co[1] in (1, -1) else (s, co)
    return join(f, s, ("one", freeze(co), freeze(var))), None


def element_of(x):
    """The container an element belongs to."""
    while x[0] in ("copyof", "ref"):
        x = x[1]
    if x[0] == "elem":
        return unwas(x[1])
    if x[0] == "idx":
        return unwas(x[1])
    if x[0] == "it":
        return x[1]
    if x[0] in ("call", "r") and last(x[1]) in ("front", "begin", "cbegin", "back") and isinstance(x[2], tuple) and x[2]:
        return unwas(x[2][0])
    return None


def inner(v):
    """An iterator without conversions."""
    v = unwas(v)
    while v[0] in ("new", "copyof") and "iterator" in str(v[1]) and len(v) > 2 and len(v[2]) == 1:
        v = unwas(v[2][0])
    return v


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from walk(x)


class Build(Enc):
    """rs: ("con", literal, combination, right-hand side), ("clause", literals), ("made", kind, arguments)."""
    main = ""
    follow_add = False

    elems = None
    res_prog = None

    def direct(self, fn):
        return last(fn.info.cls) == "ConstraintBuilder" and (self.follow_add or fn.info.name != "add_constraint") or fn.info.lambda_

    def no_inline(self, info):
        return last(info.cls) != "ConstraintBuilder" and not info.lambda_

    def keep(self, t):
        # not the progress of a loop
        return not (t[0] in ("==", "<") and contains(t, lambda x: x[0] == "phi" or x[0] == "i" and not -2 <= x[1] <= 2))

    def keepval(self, k, v):
        return k[0] == "d" and (contains(v, lambda x: x[0] in ("lc", "fresh", "it")) or v in (ONE, ("i", -1)))

    def lit(self, v):
        return negated(self.norm(v))

    def lcval(self, E, st, a, v):
        """The combination passed as an argument."""
        return form(v)

    def constrain(self, st, lit, f, rhs, strict, at):
        r = lin(self.norm(rhs))
        c = self.con(lit, f, r)
        new = {c}
        if strict is True:
            # the negation: -f <= -rhs - 1
            r2 = {k: -x for k, x in r.items()}
            r2[None] = r2.get(None, 0) - 1
            new.add(self.con((lit[0], -lit[1]), mul(f, -1), r2))
        if isinstance(strict, tuple):
            new.add(("passed", strict))
        return st.with_rs(st.rs | new)

    def con(self, lit, f, r):
        r = dict(r)
        if f[2]:
            c, s = canon(f)
            k = ("simp", c)
            r[k] = r.get(k, 0) - s
        r = {freeze(k): x for k, x in r.items() if x}
        return ("con", lit, frozenset(f[1]), tuple(sorted(r.items(), key=repr)))

    def advance(self, st):
        """The next element is considered."""
        return st

    def event(self, E, ctx, st, n, t, obj, vals, args):
        r = ("r", t.q, ctx.fn.id, n.i)
        at = ctx.fn.at(n)
        c = last(t.cls.split("<")[0])
        o = E.storage(st, obj) if obj is not None else None
        self.positions(ctx, n, t, o, vals)
        if c == "vector" and o is not None:
            if t.name in ("emplace_back", "push_back"):
                return self.push(E, ctx, st, n, o, vals, at, r)
            if t.name == "assign":
                f = form(("new", "vector", tuple(vals)))
                return [(x, r) for x in E.assign(ctx, self.fresh(st, o), obj, f, n)]
            if t.name == "insert" and len(vals) == 3 and inner(vals[0])[0] in ("it", "end"):
                src = inner(vals[1])
                if src[0] != "it" or src[2] != ("i", 0) or inner(vals[2]) != ("end", src[1]):
                    self.res.bad(self.main, at, "only some terms are inserted", key=self.main + "|insert")
                    return [(st, r)]
                f = form(E.load(st, src[1]) if src[1][0] == "var" else src[1])
                st = st.with_rs(st.rs - {("pend", src[1])})
                cur = E.load(st, o)
                g = EMPTY if cur[0] in ("undef", "mut") else form(cur)
                if g[2]:
                    self.res.bad(self.main, at, "terms are added to a simplified sum", key=self.main + "|late")
                for s_, h in f[1]:
                    g = join(g, s_, h)
                return [(x, r) for x in E.assign(ctx, self.fresh(st, o), o, ("lc", g[1], False), n)]
            if t.name == "clear":
                return [(x, r) for x in E.assign(ctx, self.fresh(st, o), obj, EMPTY, n)]
            if t.name == "reserve":
                return [(st, r)]
            if t.name in ("begin", "end", "cbegin", "cend"):
                v = E.load(st, obj)
                x = (o if o[0] == "var" else obj) if v[0] == "lc" else unwas(v)
                return [(st, ("it", x, ("i", 0)) if "begin" in t.name else ("end", x))]
            if t.name == "empty":
                v = E.load(st, obj)
                f = form(v)
                return [(st, ("b", True) if not f[1] else ("zero", canon(f)[0]) if v[0] == "lc" else ("==", ("call", "size", (unwas(v),)), ("i", 0)))]
            if t.name == "size":
                v = unwas(E.load(st, obj))
                if v[0] == "lc":
                    v = ("lcs", tuple(sorted((h for _, h in v[1]), key=repr)))
                return [(st, ("call", "size", (v,)))]
        if "iterator" in t.cls or t.q.startswith("__gnu_cxx") or t.name == "next" and t.q.startswith("std::"):
            return self.iterator(E, ctx, st, n, t, obj, vals, args, r)
        if t.name in ("for_each", "transform") and t.q.startswith("std::"):
            x = self.algorithm(E, ctx, st, n, t, vals, args, at, r)
            if x is not None:
                return x
        if t.name == "back_inserter" and args:
            return [(st, ("inserter", E.storage(st, args[0][1] if args[0][0] == "ref" else args[0])))]
        if t.name == "simplify" and args:
            f = self.lcval(E, st, args[0], vals[0])
            a = args[0][1] if args[0][0] == "ref" else args[0]
            cn, s = canon(f)
            v = ("simp", cn) if s > 0 else ("neg", ("simp", cn))
            return [(x, v) for x in E.assign(ctx, st, a, ("lc", f[1], True), n)]
        if t.name == "add_literal":
            k = 1 + max([x[1] for x in st.rs if x[0] == "nfresh"] + [0])
            if "conflict" in st.rs:
                k = min(k, 9)
            if k > 9:
                raise AnalysisBroken("%s: unbounded number of literals" % at)
            return [(st.with_rs(frozenset(x for x in st.rs if x[0] != "nfresh") | {("nfresh", k)}), ("fresh", k))]
        if t.name in ("add_simple",) and c == "Propagator":
            return self.simple(E, ctx, st, n, args, vals, at)
        if t.name == "create" and c == "SumConstraint":
            return [(st, ("sumc", self.lit(vals[0]), self.norm(vals[1]), self.lcval(E, st, args[2], vals[2])))]
        if t.name == "create" and c.endswith("Constraint"):
            return [(st, ("made", c, (("lit",) + self.lit(vals[0]),) + tuple(unwas(v) for v in vals[1:])))]
        if t.name == "make_unique" and t.q.startswith("std::"):
            ct = [x for x in ("NonlinearConstraint", "SumConstraint", "DistinctConstraint", "DisjointConstraint") if x in (n.type or "") or x in t.q]
            if ct:
                return [(st, ("made", ct[0], (("lit",) + self.lit(vals[0]),) + tuple(unwas(v) for v in vals[1:])))]
        if t.name == "add_constraint" and c == "Propagator":
            v = unwas(vals[0])
            while v[0] in ("new", "copyof") and len(v) > 2 and len(v[2]) == 1:
                v = unwas(v[2][0])
            if v[0] == "sumc":
                return [(self.constrain(st, v[1], v[3], v[2], None, at), r)]
            if v[0] == "made":
                return [(st.with_rs(st.rs | {v}), r)]
            self.res.bad(self.main, at, "a constraint of unknown origin is added", key=self.main + "|odd")
            return [(st, r)]
        if t.name == "add_constraint" and not self.follow_add and c in ("ConstraintBuilder", "AbstractConstraintBuilder"):
            strict = unwas(vals[3])
            strict = strict[1] if strict[0] == "b" else unwas(vals[3])
            s1 = self.constrain(st, self.lit(vals[0]), self.lcval(E, st, args[1], vals[1]), vals[2], strict, at)
            return [(s1, ("b", True)), (s1.with_rs(s1.rs | {"conflict"}), ("b", False))]
        if t.name == "add_dom" and c == "Propagator":
            v = ("made", "dom", (("lit",) + self.lit(vals[1]),) + tuple(unwas(v) for v in vals[2:]))
            return [(st.with_rs(st.rs | {v}), ("b", True)), (st.with_rs(st.rs | {v, "conflict"}), ("b", False))]
        if t.name == "config":
            return [(st, r)]
        if t.name in ("safe_inv", "safe_add", "safe_sub", "safe_mul"):
            return None
        return Enc.event(self, E, ctx, st, n, t, obj, vals, args)

    def iterator(self, E, ctx, st, n, t, obj, vals, args, r):
        ops = ([E.load(st, obj)] if obj is not None else []) + vals
        ops = [unwas(x) for x in ops]
        name = t.name
        if not ops or ops[0][0] != "it":
            return None
        it = ops[0]
        if name in ("operator++", "operator--", "operator+="):
            st = self.advance(st)
            return [(st.forget(lambda x: x == it), None if obj is not None and not n.lv else obj)]
        if name in ("operator+", "next"):
            k = ops[1] if len(ops) > 1 else ONE
            return [(st, ("it", it[1], (it[2], k)))]
        if name in ("operator!=", "operator=="):
            m = ("more", n.i, it[1])
            return [(st.forget(lambda x: x == m), m if name == "operator!=" else ("!", m))]
        if name in ("operator*", "operator->"):
            return [(st, it)]
        return None

    def declare(self, E, ctx, st, d, value, n):
        v = unwas(value)
        while v[0] == "copyof":
            v = v[1]
        if v[0] in ("it", "end") and d.get("name", "").startswith("__"):
            return st, ("x", n.i, d["d"])
        if v[0] == "new" and v[1].startswith("std::vector") or v[0] == "lc":
            st = st.with_rs(frozenset(x for x in st.rs if not (x[0] == "flipped" and x[1][0] == "var" and x[1][2] == d["d"])))
            return st, form(v)
        if "vector" in d.get("t", "") and not d["t"].endswith("&") and v[0] == "arg":
            return st, form(v)
        return st, value

    def push(self, E, ctx, st, n, o, vals, at, r):
        vals = [unwas(v) for v in vals]
        if len(vals) == 1 and vals[0][0] == "new" and len(vals[0][2]) == 2:
            vals = [unwas(v) for v in vals[0][2]]
        if len(vals) == 1:
            vals = [("fld", vals[0], "first"), ("fld", vals[0], "second")]
        cur = E.load(st, o)
        if len(vals) != 2 or cur[0] not in ("lc", "new", "arg", "mut", "undef"):
            return None
        f = EMPTY if cur[0] in ("undef", "mut") else form(cur)
        g, src = term(f, vals[0], vals[1])
        lcsrc = src is not None and src[1][0] == "var" and E.load(st, src[1])[0] == "lc"
        if f[2] and not lcsrc:
            self.res.bad(self.main, at, "a term is added to a simplified sum", key=self.main + "|late")
        if src is not None:
            st = st.with_rs(st.rs - {("pend", src[1])})
            v = E.load(st, src[1]) if src[1][0] == "var" else ("x",)
            if v[0] == "lc":
                # the terms of another local combination
                g = f
                for s_, h in v[1]:
                    g = join(g, s_ * src[0], h)
                g = ("lc", g[1], v[2] if all(h in {h2 for _, h2 in v[1]} for _, h in g[1]) else False)
                if v[2] and f[1] and not f[2]:
                    self.res.bad(self.main, at, "a simplified sum is added to another one", key=self.main + "|late")
        return [(x, r) for x in E.assign(ctx, st, o, g, n)]

    def positions(self, ctx, n, t, o, vals):
        """The variables that hold positions in the sequence of terms."""

    def range(self, E, ctx, st, container, more):
        k = unwas(container)
        v = E.load(st, container) if container[0] == "var" else container
        return self.step(ctx, st, k, v, more)

    def step(self, ctx, st, k, v, more):
        """A loop over the elements of a container continues or ends."""
        m = ("iter", k)
        if v[0] == "lc":
            if more:
                return st.with_rs(st.rs | {m})
            if m not in st.rs and v[1]:
                return None
            return self.fresh(st.with_rs(st.rs - {m}), k)
        if ("pend", k) in st.rs:
            self.res.bad(self.main, ctx.fn.loc, "terms are dropped", key=self.main + "|dropped")
        if more:
            return st.with_rs((st.rs | {("pend", k), m}) - {("none", k)})
        rs = st.rs - {("pend", k)}
        return st.with_rs(rs | {("none", k)} if m not in rs else rs)

    def branch(self, E, ctx, st, term, value):
        if term[0] == "more" and term[2] != self.elems:
            return self.step(ctx, st, term[2], E.load(st, term[2]) if term[2][0] == "var" else term[2], value)
        if contains(term, lambda x: x[0] == "lcs"):
            for t in [x for x in walk(term) if x[0] == "call" and x[1] == "size" and x[2][0][0] == "lcs" and x[2][0][1]]:
                if implied({term: value}, t, ("i", 0)):
                    return None
            if ("call", "size", (("lcs", ()),)) in term[1:] and term[0] == "<" and term[2] == ("call", "size", (("lcs", ()),)) and value:
                return None
        return st

    def local(self, E, ctx, st, lv, value, n):
        if lv[0] == "var" and st.env.get(("d", lv[1], lv[2]), ("x",))[0] == "lc" and value[0] != "lc":
            return self.fresh(st, lv), form(value)
        return None

    def algorithm(self, E, ctx, st, n, t, vals, args, at, r):
        """for_each and transform are loops."""
        it = unwas(vals[0])
        lam = [v for v in vals if v[0] == "lam"]
        if it[0] != "it" or not lam:
            return None
        ids = [x for x in (lam[0][2] or (lam[0][1],)) if x in self.res_prog.fns]
        if not ids:
            return None
        f = self.res_prog.fns[ids[0]]
        k = it[1]
        out = []
        zero = self.range(E, ctx, st, k, False)
        if zero is not None:
            out.append((zero, r))
        st = self.range(E, ctx, st, k, True)
        if st is None:
            return out
        for s, ret in E.follow(ctx, st, n, f.info, ("lamobj",), [("elem", k, ctx.fn.id, n.i)]):
            if t.name == "transform":
                dst = [unwas(x) for x in vals if x[0] == "inserter"]
                if not dst or ret is None:
                    return None
                nxt = [x for x, _ in self.push(E, ctx, s, n, dst[0][1], [one(ret) if ret[0] == "new" and len(ret[2]) == 1 else ret], at, r) or []]
            else:
                nxt = [s]
            for s2 in nxt:
                s2 = self.range(E, ctx, s2, k, False)
                if s2 is not None:
                    out.append((s2, r))
        return out

    def fresh(self, st, o):
        return st.with_rs(frozenset(x for x in st.rs if not (x[0] == "flipped" and x[1] == o)))

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] in ("first", "#0", "second", "#1"):
            src = element_of(E.storage(st, lv[1]))
            if src is not None and src[0] == "var" and E.load(st, src)[0] == "lc":
                l, s = signed(unwas(value))
                x, p = part(l)
                if s > 0 and x is not None and E.storage(st, x) == E.storage(st, lv[1]) and p == part(lv)[1]:
                    return [st]
                if x is None or lv[2] not in ("first", "#0") or s > 0 or element_of(x) != src or p != "first":
                    self.res.bad(self.main, ctx.fn.at(n), "a term is changed to %s" % show(value), key=self.main + "|write")
                    return [st]
                m = ("flipped", src, n.i)
                return [st] if m in st.rs else E.assign(ctx, st.with_rs(st.rs | {m}), src, mul(E.load(st, src), -1), n)
        return [st]

    def simple(self, E, ctx, st, n, args, vals, at):
        """add_simple(cc, lit, co, var, rhs, strict)"""
        vals = [unwas(v) for v in vals]
        strict = vals[5][1] if vals[5][0] == "b" else vals[5]
        (co, s), var = signed(vals[2]), vals[3]
        x, p = part(co)
        y, q = part(var)
        src = element_of(x) if x is not None else None
        if src is not None and x == y and (p, q) == ("first", "second"):
            v = E.load(st, src) if src[0] == "var" else src
            f = mul(form(v), s)
            ok = any(b and t[0] == "==" and ("i", 1) in t[1:] and any(z[:2] == ("call", "size") and z[2] == (unwas(v),) for z in t[1:]) for t, b in facts(st).items())
            self.res.ok(self.main, "%s: constraint over a single variable" % at)
            if not ok:
                self.res.bad(self.main, at, "only the first term of a constraint is considered", key=self.main + "|first")
        else:
            f = ("lc", ((s, ("one", freeze(co), freeze(var))),), False)
        st = self.constrain(st, self.lit(vals[1]), f, vals[4], strict, at)
        st = st.with_rs(st.rs | {("strict", strict)})
        return [(st.with_rs(st.rs | {"ok"}), ("b", True)), (st.with_rs(st.rs | {"conflict"}), ("b", False))]


def sides(rs, ret, res, kind, loc):
    """Paths on which adding failed have to report it; True if the path is done."""
    if "conflict" in rs:
        res.ok(kind, "exit after a conflict")
        if ret != ("b", False):
            res.bad(kind, loc, "a conflict is ignored", key=kind + "|conflict")
        return True
    if ret == ("b", False):
        res.bad(kind, loc, "failure is reported without a conflict", key=kind + "|false")
        return True
    return False


def skips(st, lit):
    """Is the literal known to be false?"""
    for t, b in facts(st).items():
        if t[0] == "istrue" and t[1] == lit and b and t[2] == -1:
            return True
        if t[0] == "==" and b and any(x[:2] == ("tv", lit) for x in t[1:]):
            e = [x for x in t[1:] if x[0] in ("enum", "i")]
            w = [x for x in t[1:] if x[0] == "tv"]
            if e and w:
                k = last(e[0][1]) if e[0][0] == "enum" else {0: "Free", 1: "True", 2: "False"}.get(e[0][1])
                if k == ("False" if w[0][2] > 0 else "True"):
                    return True
    return False


def known_true(st, lit):
    for t, b in facts(st).items():
        if t[0] == "istrue" and t[1] == lit and b and t[2] == 1:
            return True
        if t[0] == "==" and b and any(x[:2] == ("tv", lit) for x in t[1:]):
            e = [x for x in t[1:] if x[0] in ("enum", "i")]
            w = [x for x in t[1:] if x[0] == "tv"]
            if e and w:
                k = last(e[0][1]) if e[0][0] == "enum" else {0: "Free", 1: "True", 2: "False"}.get(e[0][1])
                if k == ("True" if w[0][2] > 0 else "False"):
                    return True
    return False


def boolarg(st, a):
    for t, b in facts(st).items():
        if t == a:
            return b
    return None


def params(i, *names):
    return [("arg", k, p.get("name", "")) for k, p in enumerate(i.body.params)]


# ---- sums -------------------------------------------------------------------
class Sum(Build):
    main = "sum"
    follow_add = True


def cshow(c):
    return "%s -> %s <= %s" % ("%s%s" % ("-" if c[1][1] < 0 else "", show(c[1][0])), " + ".join("%s%s" % ("-" if s < 0 else "", show(h[-1])) for s, h in sorted(c[2], key=repr)) or "0",
                               " + ".join("%s*%s" % (k, show(x) if x else "1") for x, k in c[3]) or "0")


def prune(st, c):
    """Leave out sequences known to be empty."""
    none = {x[1] for x in st.rs if x[0] == "none"}
    fs = facts(st)
    for t in fs:
        for x in walk(t):
            if x[:2] == ("call", "size") and implied(fs, x, ("i", 0)):
                none.add(x[2][0])
    return (c[0], c[1], frozenset(x for x in c[2] if not (x[1][0] == "all" and x[1][1] in {freeze(y) for y in none})), c[3])


def sums(prog, res, eff, fns):
    for i in fns:
        r = Sum(res)
        r.res_prog = prog
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        lit, elems, rhs, strict = params(i)
        r0 = lin(rhs)
        r1 = {k: -x for k, x in r0.items()}
        r1[None] = r1.get(None, 0) - 1
        f = form(elems)
        c0, c1 = r.con((lit, 1), f, r0), r.con((lit, -1), mul(f, -1), r1)
        for st, ret in exits:
            got = {prune(st, x) for x in st.rs if x[0] == "con"}
            s = boolarg(st, strict)
            via = [x[1] for x in st.rs if x[0] == "strict"]
            for v in via:
                if v == strict:
                    s = "same"
                elif s is None or v != s:
                    res.bad("sum", loc, "a constraint is added with another strictness", key="sum|strictness")
            if sides(st.rs, ret, res, "sum", loc) and not got:
                continue
            if not got:
                res.ok("sum", "exit without a constraint")
                if not (s is False and skips(st, lit)):
                    res.bad("sum", loc, "a constraint that may have to hold is skipped", key="sum|skip")
                continue
            want = {prune(st, c0)} | ({prune(st, c1)} if s is True else set())
            res.ok("sum", "exit with " + ", ".join(sorted(map(cshow, got))))
            if s is None:
                res.bad("sum", loc, "the constraint is the same whether it is strict or not", key="sum|any")
            for c in want - got:
                res.bad("sum", loc, "the constraint %s is missing" % cshow(c), key="sum|missing")
            for c in got - want:
                res.bad("sum", loc, "the constraint %s was not requested" % cshow(c), key="sum|extra")


# ---- products ---------------------------------------------------------------
class Product(Build):
    main = "product"


def products(prog, res, eff, fns):
    for i in fns:
        r = Product(res)
        r.res_prog = prog
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        lit, cab, a, b, cc, c, rhs, strict = params(i)
        seen = False
        for st, ret in exits:
            fs = facts(st)
            zero = {t: v for t, v in ((x, fs.get(("==", x, ("i", 0)), fs.get(("==", ("i", 0), x)))) for x in (cab, cc))}
            for x in (cab, cc):
                if zero[x] is None and fs.get(x) is not None:
                    zero[x] = not fs[x]
            s = boolarg(st, strict)
            cons = {x for x in st.rs if x[0] == "con"}
            made = {x for x in st.rs if x[0] == "made"}
            if sides(st.rs, ret, res, "product", loc) and not cons:
                continue
            if not cons and not made:
                res.ok("product", "exit without a constraint")
                if not (s is False and skips(st, lit)):
                    res.bad("product", loc, "a constraint that may have to hold is skipped", key="product|skip")
                continue
            for x in made:
                seen = True
                g = x[2]
                res.ok("product", "exit with a product constraint")
                sg = g[0][2] if g[0][0] == "lit" else 0
                ok = x[1] == "NonlinearConstraint" and len(g) == 7 and g[0][1] == lit and sg in (1, -1)
                if ok:
                    w = [cab, a, b, cc, c, rhs]
                    for j, (u, v) in enumerate(zip(g[1:], w)):
                        if j in (1, 2) and u in (a, b):
                            continue
                        l = lin(u)
                        e = lin(v, sg) if j in (0, 3, 5) else lin(v)
                        if j == 5 and sg < 0:
                            e[None] = e.get(None, 0) - 1
                        ok = ok and l == e
                    ok = ok and {g[2], g[3]} == {a, b}
                if not ok:
                    res.bad("product", loc, "the constraint %s was not requested" % show(x), key="product|extra")
            signs = {x[2][0][2] for x in made if x[2][0][0] == "lit"}
            if made and 1 not in signs:
                res.bad("product", loc, "the requested constraint is missing", key="product|missing")
            if made and (s is None or s != (-1 in signs)):
                res.bad("product", loc, "a %s constraint is added as %s" % ("strict" if s is not False else "non-strict", "equivalence" if -1 in signs else "implication"), key="product|strict")
            if made and cons:
                res.bad("product", loc, "two constraints are added", key="product|both")
            for x in cons:
                res.ok("product", "exit with " + cshow(x))
                _, l, f, rr = x
                ok = l == (lit, 1) and dict(rr) == lin(rhs) and zero[cab] is True
                if f:
                    ok = ok and f == frozenset({(1, ("one", cc, c))})
                else:
                    ok = ok and zero[cc] is True
                if not ok and not (l == (lit, -1)):
                    res.bad("product", loc, "%s is no consequence of the product constraint" % cshow(x), key="product|linear")
            if cons:
                strictness = [x for x in st.rs if x[0] == "strictadd"]
                if not strictness:
                    neg_ = any(x[1] == (lit, -1) for x in cons)
                    if s is None and not r.passed(st, strict) or s is not None and not r.passed(st, strict) and s != neg_:
                        res.bad("product", loc, "a linear constraint is added with another strictness", key="product|lstrict")
        if not seen:
            raise AnalysisBroken("%s: no product constraint found" % loc)


def passed(self, st, strict):
    return ("passed", strict) in st.rs


Product.passed = passed


# ---- binary distinct and disjoint constraints -------------------------------
def assignments(lits):
    lits = sorted(lits, key=repr)
    for bs in itertools.product((True, False), repeat=len(lits)):
        yield dict(zip(lits, bs))


def value(a, l):
    if l[0] == ONE:
        return l[1] > 0
    return a[l[0]] == (l[1] > 0)


def count(clauses, cons, lit, b, holds):
    """Number of assignments to the other literals that satisfy the clauses and constraints."""
    lits = {l for c in clauses for l, _ in c} | {c[1][0] for c in cons} | {lit}
    lits.discard(ONE)
    k = 0
    for a in assignments(lits):
        if a[lit] == b and all(any(value(a, l) for l in c) for c in clauses) and all(not value(a, c[1]) or holds(c) for c in cons):
            k += 1
    return k


class Pair(Build):
    """Encodings of two terms; settled whenever the next pair is considered."""

    def init(self):
        Build.init(self)
        self.pairs = 0
        self.index = set()

    def positions(self, ctx, n, t, o, vals):
        v = [o] + [unwas(x) for x in vals]
        if t.name in ("operator[]", "at") and o == self.elems or t.name in ("operator+", "next", "operator+=") and any(x is not None and x[0] == "it" and x[1] == self.elems for x in v):
            self.index.update((ctx.fn.unit, x.get("d")) for x in n.walk() if x.k == "DeclRefExpr")

    def advance(self, st):
        return self.settle(st)

    def local(self, E, ctx, st, lv, value, n):
        x = Build.local(self, E, ctx, st, lv, value, n)
        if x is not None:
            return x
        if n is not None and n.k in ("UnaryOperator", "CompoundAssignOperator") and lv[1:3] in self.index and not any(x[0] == "pend" for x in st.rs):
            return self.settle(st), value
        return None

    def range(self, E, ctx, st, container, more):
        if unwas(container) == self.elems:
            st = self.settle(st)
            return st.with_rs(st.rs | {("looped",)})
        return Build.range(self, E, ctx, st, container, more)

    def step(self, ctx, st, k, v, more):
        st = Build.step(self, ctx, st, k, v, more)
        if st is not None and any(x[0] == "none" for x in st.rs):
            return None  # a term without variables
        return st

    def settle(self, st):
        rs = st.rs
        if "conflict" in rs:
            return st
        cons = {x for x in rs if x[0] == "con"}
        clauses = {x[1] for x in rs if x[0] == "clause"}
        zero = {t[1] for t, b in facts(st).items() if t[0] == "zero"}
        if cons or clauses or zero:
            self.pairs += 1
            self.res.ok(self.main, "pair of terms: %s" % (", ".join(sorted(map(cshow, cons))) or "nothing added"))
            self.judge(st, cons, clauses, facts(st))
            rs = rs | {("considered",)}
        st = st.with_rs(frozenset(x for x in rs if x[0] not in ("con", "clause", "nfresh", "none", "iter")))
        return st.forget(lambda t: t[0] == "zero" or contains(t, lambda x: x[0] == "simp") or contains(t, lambda x: x[0] == "fresh"))

    def handles(self, hs):
        """Do the handles denote two different elements?"""
        hs = sorted(hs, key=repr)
        if len(hs) != 2:
            return False
        if all(h[0] == "it" for h in hs):
            if all(h[1] == self.elems and h[2][0] == ("i", 0) for h in hs):
                hs = [("idx", h[1], h[2][1]) for h in hs]
            else:
                return any(a[1] == self.elems == b[1] and b[2] == (a[2], ONE) for a, b in (hs, hs[::-1]))
        if all(h[0] == "idx" and h[2][0] == "i" for h in hs) and self.main == "distinct":
            return {h[2][1] for h in hs} == {0, 1}
        return all(element_of(h) == self.elems for h in hs)

    def bad(self, msg, key):
        self.res.bad(self.main, self.loc, msg, key=self.main + "|" + key)


class Distinct(Pair):
    main = "distinct"

    def judge(self, st, cons, clauses, fs):
        """Compare the encoding of a pair of terms with their being different."""
        lit = self.litarg
        zero = [(t[1], b) for t, b in fs.items() if t[0] == "zero"]
        forms = {frozenset(c[2]) for c in cons} | {frozenset(z) for z, _ in zero}
        forms |= {frozenset((-s, h) for s, h in f) for f in forms}
        base = [f for f in forms if len(f) == 2 and {s for s, _ in f} == {1, -1}]
        hs = {h[1][1] for f in forms for _, h in f if h[0] == "all" and h[1][0] == "part" and h[1][2] == "first"}
        if len(forms) != 2 or len(base) != 2 or not self.handles(hs):
            return self.bad("the constraints %s do not compare two terms" % ", ".join(sorted(map(cshow, cons))), "form")
        base = sorted(base, key=repr)[0]
        a, b = [h[1][1] for k in (1, -1) for s, h in base if s == k]
        c, s = canon(("lc", tuple(sorted(base, key=order)), True))
        # a + ca = b + cb iff base = cb - ca
        diff = {("part", b, "second"): 1, ("part", a, "second"): -1}
        sdiff = dict(diff)
        sdiff[("simp", c)] = s
        if any(z for _, z in zero):
            eq = None
            for t, v in fs.items():
                if t[0] == "==":
                    l = {freeze(k): x for k, x in lin(t[1], 1, lin(t[2], -1)).items()}
                    if l in (sdiff, {k: -x for k, x in sdiff.items()}):
                        eq = v
            for e in ((True, False) if eq is None else (eq,)):
                for bl in (True, False):
                    if count(clauses, cons, lit, bl, lambda c: False) != (0 if e and bl else 1):
                        self.bad("two %s constants are considered %s" % ("equal" if e else "different", "different" if e else "equal"), "const|%s" % e)
            return None

        def holds(c):
            k = 1 if c[2] == base else -1
            r = dict(c[3])
            q = r.pop(None, 0)
            return None if r != {x: k * y for x, y in diff.items()} else k * d <= q
        for d in (-2, -1, 0, 1, 2):
            for c in cons:
                if holds(c) is None:
                    return self.bad("%s does not compare the terms" % cshow(c), "rhs")
            for bl in (True, False):
                if not bl and known_true(st, lit):
                    continue
                n, want = count(clauses, cons, lit, bl, holds), 0 if bl and d == 0 else 1
                if n != want:
                    self.bad("a %s constraint over %s terms %s" % ("true" if bl else "false", "equal" if d == 0 else "different",
                                                                   "is satisfied" if want == 0 else "has no solution" if n == 0 else "has several solutions"), "truth|%s|%s" % (bl, d == 0))


class Disjoint(Pair):
    main = "disjoint"

    def judge(self, st, cons, clauses, fs):
        """Compare the encoding of two intervals with their being disjoint."""
        lit = self.litarg
        hs = set()
        for f in [c[2] for c in cons] + [t[1] for t in fs if t[0] == "zero"]:
            for s, h in f:
                x = h[2] if h[0] == "one" and h[1] == ONE else None
                if x is None or x[0] != "part" or x[2] != "second":
                    return self.bad("%s is no difference of two starting points" % show(h), "form")
                hs.add(x[1])
        if not self.handles(hs):
            return self.bad("the constraints %s do not compare two intervals" % ", ".join(sorted(map(cshow, cons))), "form")
        a, b = sorted(hs, key=repr)
        da, db, va, vb = ("part", a, "first"), ("part", b, "first"), ("part", a, "second"), ("part", b, "second")

        def term(f, env):
            return sum(s * env[h[2]] for s, h in f)

        def rhs(r, env):
            v = 0
            for k, c in r:
                if k is None:
                    v += c
                elif freeze(k) in env:
                    v += c * env[freeze(k)]
                elif k[0] != "simp":
                    return None
            return v

        def possible(env, same):
            for t, v in fs.items():
                if t[0] == "zero" and v != (same and sum(s for s, _ in t[1]) == 0):
                    return False
                if t[0] in ("<", "=="):
                    x = rhs(lin(t[1], 1, lin(t[2], -1)).items(), env)
                    if x is not None and v != (x < 0 if t[0] == "<" else x == 0):
                        return False
            return True

        for c in cons:
            if rhs(c[3], {da: 1, db: 1, va: 0, vb: 0}) is None:
                return self.bad("%s does not relate two intervals" % cshow(c), "rhs")
        for same, x, y, d in itertools.product((False, True), (1, 2, 3), (1, 2, 3), range(-4, 5)):
            env = {da: x, db: y, va: d, vb: 0}
            if same and d or not possible(env, same):
                continue
            apart = d >= y or -d >= x
            for bl in (True, False):
                if not bl and known_true(st, lit):
                    continue
                n = count(clauses, cons, lit, bl, lambda c: term(c[2], env) <= rhs(c[3], env))
                want = 1 if apart or not bl else 0
                if n != want:
                    self.bad("a %s constraint over %s intervals %s" % ("true" if bl else "false", "disjoint" if apart else "overlapping",
                                                                       "is satisfied" if want == 0 else "has no solution" if n == 0 else "has several solutions"), "truth|%s|%s" % (bl, apart))


def pairs(prog, res, eff, fns, rule, made):
    for i in fns:
        r = rule(res)
        r.res_prog = prog
        r.loc = i.body.loc
        lit, elems = params(i)[:2]
        r.litarg, r.elems = lit, elems
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            st = r.settle(st)
            if sides(st.rs, ret, res, r.main, r.loc):
                continue
            ms = [x for x in st.rs if x[0] == "made"]
            res.ok(r.main, "exit%s" % (" with a constraint" if ms else ""))
            for m in ms:
                if m[1] != made or m[2][0] != ("lit", lit, 1) or m[2][1] != elems:
                    res.bad(r.main, r.loc, "the constraint %s was not requested" % show(m), key=r.main + "|extra")
            fs = facts(st)
            size = ("call", "size", (elems,))
            few = implied(fs, size, ONE) or not implied(fs, ("i", 2), size) and any(t[0] == "more" and t[2] == elems for t in fs) or ("looped",) in st.rs
            if not ms and ("considered",) not in st.rs and not skips(st, lit) and (not few or implied(fs, ("i", 3), size)):
                res.bad(r.main, r.loc, "a constraint that may have to hold is skipped", key=r.main + "|skip")
        if not r.pairs:
            res.bad(r.main, r.loc, "constraints over two terms are not encoded", key=r.main + "|none")


def domains(prog, res, eff, fns):
    for i in fns:
        r = Build(res)
        r.res_prog = prog
        r.main = "dom"
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        loc = i.body.loc
        lit, var, elems = params(i)
        for st, ret in exits:
            ms = [x for x in st.rs if x[0] == "made"]
            res.ok("dom", "exit%s" % (" with a domain" if ms else ""))
            for m in ms:
                if m[1] != "dom" or m[2] != (("lit", lit, 1), var, elems):
                    res.bad("dom", loc, "the domain %s was not requested" % show(m), key="dom|extra")
            if sides(st.rs, ret, res, "dom", loc):
                continue
            if not ms and not skips(st, lit):
                res.bad("dom", loc, "a domain that may have to hold is skipped", key="dom|skip")


# ---- further requests ---------------------------------------------------------
FORWARD = {"solver_literal": ("ClauseCreator", "solver_literal"), "add_literal": ("ClauseCreator", "add_literal"), "is_true": ("Assignment", "is_true"),
           "add_clause": ("ClauseCreator", "add_clause"), "add_show": ("Propagator", "show"), "show_signature": ("Propagator", "show_signature"),
           "show_variable": ("Propagator", "show_variable"), "add_variable": ("Propagator", "add_variable"), "add_minimize": ("vector", "emplace_back")}


class Forward(Base):
    target = ()

    def direct(self, fn):
        return last(fn.info.cls) == "ConstraintBuilder"

    def no_inline(self, info):
        return last(info.cls) != "ConstraintBuilder"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        c = last(t.cls.split("<")[0])
        if c.endswith(self.target[0]) and t.name in (self.target[1], "push_back" if self.target[1] == "emplace_back" else ""):
            vs = tuple(unwas(v) for v in vals)
            if len(vs) == 1 and vs[0][0] == "new" and len(vs[0][2]) == 2:
                vs = vs[0][2]
            return [(st.with_rs(st.rs | {("asked", vs, E.storage(st, obj) if obj is not None and c == "vector" else None)}), ("answer",))]
        return None


def forwards(prog, res, eff, over):
    for name, target in sorted(FORWARD.items()):
        for i in over(name):
            r = Forward(res)
            r.target = target
            E = Engine(prog, r, eff)
            exits = E.analyse(i, frozenset())
            res.funcs(E.fns_seen)
            ps = tuple(params(i))
            for st, ret in exits:
                res.ok("forward", "%s asks for %s" % (name, target[1]))
                asked = [x for x in st.rs if x[0] == "asked"]
                if not asked:
                    res.bad("forward", i.body.loc, "%s is ignored on some path" % name, key="forward|none|" + name)
                for x in asked:
                    if x[1][:len(ps)] != ps:
                        res.bad("forward", i.body.loc, "%s asks for %s(%s)" % (name, target[1], ", ".join(show(v) for v in x[1])), key="forward|args|" + name)
                if asked and i.ret != "void" and ret != ("answer",):
                    res.bad("forward", i.body.loc, "%s answers %s" % (name, show(ret or ("x",))), key="forward|ret|" + name)


def run(prog, res, tier):
    res.rule("sum", "a sum is added with its terms, bound and literal; a strict one together with its negation; it is skipped only if it is false and not strict")
    res.rule("product", "a product is added with its terms, bound and literal; a strict one together with its negation; it becomes linear only without product term")
    res.rule("distinct", "a distinct constraint over two terms holds exactly if they differ; a larger one is added unless it is false")
    res.rule("disjoint", "a disjoint constraint over two intervals holds exactly if they do not overlap; a larger one is added unless it is false")
    res.rule("dom", "a domain is added with its literal, variable and elements unless the literal is false")
    res.rule("forward", "literals, clauses, variables, show statements and objective terms are passed on unchanged")
    eff = Effects(prog)

    def over(name):
        fs = [i for i in prog.find("ConstraintBuilder::" + name) if i.body is not None]
        if not fs:
            raise AnalysisBroken("no builder implements %s" % name)
        return fs
    sums(prog, res, eff, over("add_constraint"))
    products(prog, res, eff, over("add_nonlinear"))
    pairs(prog, res, eff, over("add_distinct"), Distinct, "DistinctConstraint")
    pairs(prog, res, eff, over("add_disjoint"), Disjoint, "DisjointConstraint")
    domains(prog, res, eff, over("add_dom"))
    forwards(prog, res, eff, over)
    for k in ("sum", "product", "distinct", "disjoint", "dom", "forward"):
        res.need(k, 2)
