"""Relations over sums are handed to the builder with their meaning."""
import itertools

from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, lin, parallel
from .c06 import facts, unwas
from .c09 import negated
from .c12 import implied
from .c16 import Build, EMPTY, ONE, canon, count, cshow, element_of, form, freeze, known_true, mul, part, sides, signed, walk

EXPLANATION = (
    "Path-sensitive symbolic analysis of the parser, started once for each kind of theory atom and relation: the elements collected, "
    "the constraints and clauses requested from the builder and the literals created on each path are compared with the definition of "
    "the relation by a truth table over the literals and the value of the sum.")

OPS = {"<=": lambda d: d <= 0, "<": lambda d: d < 0, ">=": lambda d: d >= 0, ">": lambda d: d > 0, "=": lambda d: d == 0, "!=": lambda d: d != 0}
RELATIONS = {"__sum_h": False, "__sum_b": True, "__diff_h": False, "__diff_b": True, "__nsum_h": False, "__nsum_b": True}
INVALID = ("i", 4294967295)


def string(v):
    """The characters of a constant string."""
    v = unwas(v)
    while wrapped(v):
        v = unwas(v[2][0])
    return v[1] if v[0] == "s" else None


def wrapped(v):
    return v[0] in ("new", "copyof", "call") and len(v) > 2 and isinstance(v[2], tuple) and len(v[2]) in (1, 2) and isinstance(v[1], str) and "string" in v[1]


def neutral(t):
    """Terms of the theory without the way they are obtained."""
    t = unwas(t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ("copyof", "ref") and len(t) == 2:
        return neutral(t[1])
    if wrapped(t) and t[0] == "new":
        return neutral(t[2][0])
    if t[0] in ("call", "r") and len(t) > 2 and isinstance(t[2], tuple):
        return ("call", last(t[1]), tuple(neutral(x) if isinstance(x, tuple) else x for x in t[2]))
    if t[0] in ("fld", "part"):
        return ("part", neutral(t[1]), {"#0": "first", "#1": "second"}.get(t[2], t[2]))
    if t[0] == "idx" and t[2][:1] == ("i",):
        return ("call", "front" if t[2][1] == 0 else "back" if t[2][1] == 1 else "at%d" % t[2][1], (neutral(t[1]),))
    if t[0] == "elem":
        return ("elem", neutral(t[1]))
    return t


class Parse(Build):
    """Adds the terms parsed: handle ("parsed", term) for what the recursive parser of terms appends."""
    kind = op = None

    def init(self):
        Build.init(self)
        self.judged = 0
        self.depth = 0

    def direct(self, fn):
        return not self.recursive(fn.info) and self.unit(fn.info)

    def unit(self, info):
        return info.q.startswith(("Clingcon::(anonymous", "Clingcon::parse", "Clingcon::match", "Clingcon::simplify")) or info.lambda_

    def no_inline(self, info):
        return self.recursive(info) or last(info.cls) in ("AbstractConstraintBuilder", "ConstraintBuilder") or "Clingo" in info.cls

    def recursive(self, info):
        """Does it work on theory terms recursively?"""
        r = self.rec.get(info.id)
        if r is None:
            self.rec[info.id] = r = any("TheoryTerm" in p for p in info.pt) and info.body is not None and self.reaches(info)
        return r

    def reaches(self, info):
        seen, todo = set(), [info]
        while todo:
            i = todo.pop()
            if i.body is None:
                continue
            for n in i.body.allnodes():
                f = n.fn
                if f is None or f.id == info.id:
                    if f is not None:
                        return True
                    continue
                if f.id not in seen and f.inroot:
                    seen.add(f.id)
                    todo.append(f)
        return False

    def neu(self, E, st, v, depth=0):
        """A term of the theory with local variables replaced."""
        def go(t, d):
            if not isinstance(t, tuple) or not t or d > 12:
                return t
            if t[0] == "var":
                w = E.load(st, t)
                w = unwas(w)
                return t if w == t or w[0] in ("lc", "undef", "mut", "phi") else go(w, d + 1)
            if t[0] == "new" and len(t[2]) == 1 and "pair" in t[1]:
                return go(t[2][0], d + 1)
            return tuple(go(x, d + 1) if isinstance(x, tuple) else x for x in t)
        return neutral(go(unwas(v), 0))

    def branch(self, E, ctx, st, term, value):
        t, b = (term[1], not value) if term[0] == "!" else (term, value)
        if t[0] == "more" and t[2] != self.elems:
            return self.loop(E, ctx, st, t[2], b)
        if t[0] == "<" and not b and all(x[:2] == ("call", "size") and x[2][0][0] == "lcs" for x in t[1:]) and set(t[1][2][0][1]) < set(t[2][2][0][1]):
            return None
        if t[0] == "==" and b and all(x[:2] == ("call", "size") and x[2][0][0] == "lcs" for x in t[1:]) and t[1] != t[2]:
            return None
        if t[0] == "==" and ("null",) in t[1:] and b and any(x[0] in ("fld", "var", "part", "call") for x in t[1:]):
            return None
        return Build.branch(self, E, ctx, st, term, value)

    # -- events
    def event(self, E, ctx, st, n, t, obj, vals, args):
        at = ctx.fn.at(n)
        c = last(t.cls.split("<")[0])
        r = ("r", t.q, ctx.fn.id, n.i)
        if t.name == "match" and len(vals) == 3 and "TheoryTerm" in (t.pt[0] if t.pt else ""):
            return [(st, self.matches(E, st, vals))]
        if t.name == "strcmp" and len(vals) == 2:
            v = self.same(E, st, vals[0], vals[1])
            return [(st, ("i", 0 if v else 1) if v is not None else r)]
        if n.get("oper") in ("==", "!=") or t.name in ("operator==", "operator!="):
            v = self.same(E, st, *(([E.load(st, obj)] if obj is not None else []) + vals)[:2])
            its = [x for x in ([unwas(E.load(st, obj))] if obj is not None else []) + [unwas(v) for v in vals] if x[0] in ("it", "end")]
            if len(its) == 2 and its[0][1] == its[1][1] and {x[0] for x in its} == {"it", "end"}:
                m = ("more", n.i, its[0][1])
                return [(st.forget(lambda x: x == m), m if "!=" in (n.get("oper") or t.name) else ("!", m))]
            if v is not None:
                return [(st, ("b", v == ((n.get("oper") or t.name[8:]) == "==")))]
        if t.name == "gcd" and len(vals) == 2:
            return [(st, self.gcd(vals))]
        if "ConstraintBuilder" in c:
            x = self.builder(E, ctx, st, n, t, vals, args, at, r)
            if x is not None:
                return x
        if self.recursive(t):
            return self.term(E, ctx, st, n, t, vals, args, at, r)
        if t.name == "check_valid_value" and vals:
            return [(st, unwas(vals[0]))]
        if t.inroot and t.body is not None and not self.no_inline(t) and ctx.active(t.id) and not t.lambda_:
            return self.again(E, ctx, st, n, t, obj, vals, args)
        if "Iterator" in t.cls and obj is not None and unwas(E.load(st, obj))[0] == "it":
            x = self.iterator(E, ctx, st, n, t, obj, vals, args, r)
            if x is not None:
                return [(a, ("elem", b[1]) if t.name in ("operator*", "operator->") else b) for a, b in x]
        if t.cls.startswith("Clingo::") or t.q.startswith("Clingo::"):
            x = self.api(E, ctx, st, n, t, obj, vals, args, at)
            if x is not None:
                return x
        return Build.event(self, E, ctx, st, n, t, obj, vals, args)

    def api(self, E, ctx, st, n, t, obj, vals, args, at):
        """Accessors of the theory data."""
        c = last(t.cls.split("<")[0])
        if obj is not None and t.name in ("begin", "end") and not vals:
            x = self.neu(E, st, E.load(st, obj))
            return [(st, ("it", x, ("i", 0)) if t.name == "begin" else ("end", x))]
        if obj is not None and (t.const or t.name in ("front", "back", "size", "empty")) and not vals and t.name not in ("operator*", "operator->"):
            return [(st, ("call", t.name, (self.neu(E, st, E.load(st, obj)),)))]
        if t.name == "operator[]" and obj is not None:
            return [(st, self.neu(E, st, ("idx", E.load(st, obj), unwas(vals[0]))))]
        if c in ("Number",) or t.name == "Number":
            return [(st, ("call", "Number", tuple(unwas(v) for v in vals)))]
        return None

    def matches(self, E, st, vals):
        v, name, arity = self.neu(E, st, vals[0]), string(vals[1]), unwas(vals[2])
        if self.kind is not None and v[:2] == ("call", "term"):
            return ("b", name == self.kind and arity == ("i", 0))
        return ("match", v, name, arity)

    def same(self, E, st, a, b):
        """Are two strings the same?"""
        xs = [string(v) if string(v) is not None else self.known(self.neu(E, st, v)) for v in (a, b)]
        return None if None in xs else xs[0] == xs[1]

    def known(self, v):
        if v[0] == "part" and v[1][:2] == ("call", "guard") and v[2] == "first":
            return self.op
        if v[:2] == ("call", "name") and v[2][0][:2] == ("call", "term"):
            return self.kind
        return None

    def gcd(self, vals):
        xs = set()
        for v in vals:
            v = unwas(v)
            xs |= set(v[1]) if v[0] == "gcd" else {self.operand(v)}
        return ("gcd", tuple(sorted(xs, key=repr)))

    def operand(self, v):
        l, _ = signed(v)
        x, p = part(l)
        src = element_of(x) if x is not None else None
        if src is not None and p == "first":
            return ("coefs", src)
        return l

    def again(self, E, ctx, st, n, t, obj, vals, args):
        """A recursive call; the local variables of the caller are kept."""
        self.depth += 1
        if self.depth > 12:
            raise AnalysisBroken("%s: unbounded recursion" % ctx.fn.at(n))
        try:
            own = self.locals(t.body)
            vs = [v if v[0] == "lc" or a[0] != "ref" or not t.pt[j].endswith("&") or t.pt[j].startswith("const ") else a
                  for j, (a, v) in enumerate(zip(args, vals))]
            saved = {k: v for k, v in st.env.items() if k in own}
            out = []

            def mine(x):
                return x[0] == "var" and ("d",) + x[1:3] in own
            for s, ret in E.follow(ctx, st.forget(mine), n, t, obj, vs):
                s = s.forget(mine)
                for k in own:
                    if k in saved:
                        s = s.set(k, saved[k])
                out.append((s, ret))
            return out
        finally:
            self.depth -= 1

    def locals(self, fn):
        r = self.own.get(fn.id)
        if r is None:
            r = {("d", fn.unit, p["d"]) for p in fn.params}
            for x in fn.allnodes():
                for d in x.get("decls") or ():
                    if isinstance(d, dict) and "d" in d:
                        r.add(("d", fn.unit, d["d"]))
                        r.update(("d", fn.unit, b["d"]) for b in d.get("binds") or ())
            self.own[fn.id] = r
        return r

    def builder(self, E, ctx, st, n, t, vals, args, at, r):
        if t.name == "solver_literal":
            return [(st, ("call", "solver_literal", (self.neu(E, st, vals[0]),)))]
        if t.name == "add_variable":
            return [(st, ("call", "add_variable", (self.neu(E, st, vals[0]),)))]
        if t.name == "is_true":
            l, s = self.lit(vals[0])
            return [(st, ("b", s > 0) if l == ONE else ("istrue", l, s))]
        if t.name == "add_clause":
            return self.clause(E, ctx, st, n, t, vals, at, r)
        if t.name == "add_nonlinear":
            return self.product(E, ctx, st, vals, at)
        if t.name in ("show_signature", "show_variable", "add_show", "add_minimize", "add_dom", "add_distinct", "add_disjoint"):
            v = ("asked", t.name, tuple(self.request(E, st, a, v) for a, v in zip(args, vals)))
            ok = st.with_rs(st.rs | {v})
            if t.ret != "bool":
                return [(ok, r)]
            return [(ok, ("b", True)), (ok.with_rs(ok.rs | {"conflict"}), ("b", False))]
        return None

    def request(self, E, st, a, v):
        return self.neu(E, st, v)

    def term(self, E, ctx, st, n, t, vals, args, at, r):
        """A call of a recursive function over theory terms."""
        tm = [self.neu(E, st, v) for v, p in zip(vals, t.pt) if "TheoryTerm" in p]
        out = [(a, v) for a, v, p in zip(args, vals, t.pt) if p.endswith("&") and "vector" in p and not p.startswith("const ")]
        if not out:
            return [(st, ("call", t.name, tuple(tm)))]
        if len(out) != 1 or len(tm) != 1:
            raise AnalysisBroken("%s: %s is no parser of terms" % (at, t.q))
        a, v = out[0]
        o = E.storage(st, a[1] if a[0] == "ref" else a)
        cur = E.load(st, o)
        if cur[0] == "fld" and cur[1][0] == "fld" and cur[1][2] == "#back":
            cur = st.env.get(("f",) + cur[1:3], cur)
        f = EMPTY if cur[0] in ("undef", "mut") else form(cur)
        if f[2]:
            self.res.bad(self.main, at, "a term is added to a simplified sum", key=self.main + "|late")
        used = {("pend", x[1]) for x in walk(tm[0]) if x[0] == "elem"}
        st = st.with_rs(frozenset(x for x in st.rs if not (x[0] == "pend" and ("pend", self.neu(E, st, x[1])) in used)))
        g = ("lc", tuple(sorted(set(f[1]) | {(1, ("parsed", tm[0]))}, key=lambda x: (repr(x[1]), x[0]))), False)
        return [(x, r) for x in E.assign(ctx, self.fresh(st, o), o, g, n)]

    # -- products of variables
    def product(self, E, ctx, st, vals, at):
        lit, cab, a, b, cc, c, rhs, strict = [unwas(v) for v in vals]
        srcs = {x[1] for x in (cab, cc) if x[0] == "tco"} | {x[1] for x in st.rs if x[0] == "untaken"}
        for co, vars_, size in ((cab, (a, b), 2), (cc, (c,), 1)):
            if co == ("i", 0):
                continue
            if co[0] != "tco" or co[2] != size:
                self.res.bad(self.main, at, "the coefficient %s does not belong to the sum" % show(co), key=self.main + "|nco")
                continue
            if any(v[:3] != ("tvar", co[1], size) for v in vars_) or size == 2 and {v[3] for v in vars_} != {"front", "back"}:
                self.res.bad(self.main, at, "the variables %s do not belong to their coefficient" % ", ".join(map(show, vars_)), key=self.main + "|nvar")
        s = strict[1] if strict[0] == "b" else strict
        if any(x[0] == "untaken" for x in st.rs):
            self.res.bad(self.main, at, "a term is dropped", key=self.main + "|ndropped")
        if not srcs:
            # a constant
            srcs = {k[1] for k in st.rs if k[0] == "vec"}
        if len(srcs) != 1:
            self.res.bad(self.main, at, "terms of several sums", key=self.main + "|nsums")
            return [(st, ("b", True))]
        src = srcs.pop()
        f = form(E.load(st, src) if src[0] == "var" else src)
        st = st.with_rs(frozenset(x for x in st.rs if x[0] not in ("taken", "untaken")))
        st = st.forget(lambda t: t[0] in ("tco", "tvar") or t[0] == "elem" and t[1][0] == "var")
        s1 = self.constrain(st, self.lit(lit), f, rhs, s, at)
        return [(s1, ("b", True)), (s1.with_rs(s1.rs | {"conflict"}), ("b", False))]

    @staticmethod
    def home(E, st, v):
        o = E.storage(st, v)
        return o if o[0] == "var" else v

    def sizes(self, st, x):
        """The possible numbers of variables of a term."""
        size = ("call", "size", (("part", neutral(x), "second"),))
        r = set(range(5))
        for t, b in facts(st).items():
            if t[0] in ("==", "<") and any(neutral(y) == size for y in t[1:]):
                u, v = t[1:]
                for k in range(5):
                    m = [k if neutral(y) == size else y[1] if y[0] == "i" else None for y in (u, v)]
                    if None not in m and (m[0] == m[1] if t[0] == "==" else m[0] < m[1]) != b:
                        r.discard(k)
            if t[0] == "call" and t[1] == "empty" and neutral(t[2][0]) == size[2][0]:
                r = {k for k in r if (k == 0) == b}
        return r

    def step(self, ctx, st, k, v, more):
        if more and ("iter", k) not in st.rs:
            st = st.with_rs(frozenset(x for x in st.rs if x[0] not in ("untaken", "taken", "open")))
        if v[0] == "lc" and "vector" in self.types.get(k[1:3], "").replace("vector", "", 1):
            # an element has been considered
            if ("open", k) in st.rs:
                if ("taken", k) not in st.rs:
                    elem = [x for t in st.facts for x in walk(t) if x[0] == "elem" and x[1][0] == "var" and "vector" in self.types.get(x[1][1:3], "").replace("vector", "", 1)]
                    r = self.sizes(st, elem[0]) if elem else {1}
                    if r <= {0}:
                        return None
                    st = st.with_rs(st.rs | {("untaken", k)})
                st = st.with_rs(st.rs - {("open", k), ("taken", k)})
            if more:
                st = st.with_rs(st.rs | {("open", k)})
        return Build.step(self, ctx, st, k, v, more)

    # -- vectors
    def push(self, E, ctx, st, n, o, vals, at, r):
        vals = [self.deep(E, st, v) for v in vals]
        used = [x[1] for v in vals for x in walk(v) if x[0] == "elem"]
        st = st.with_rs(frozenset(x for x in st.rs if not (x[0] == "pend" and self.neu(E, st, x[1]) in used)))
        return Build.push(self, E, ctx, st, n, o, vals, at, r)

    def deep(self, E, st, v):
        """The theory terms of a value in their neutral form."""
        v = unwas(v)
        l = v[1] if v[0] == "neg" else v
        return ("neg", self.neu(E, st, l)) if v[0] == "neg" and l[0] == "call" else self.neu(E, st, v) if v[0] == "call" and v[1] in ("number", "add_variable") else v

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[2] in ("first", "#0"):
            it = E.storage(st, lv[1])
            src = element_of(it)
            cur = E.load(st, src) if src is not None and src[0] == "var" else None
            if cur is not None and cur[0] == "lc":
                v = unwas(value)
                if v[0] == "/":
                    return self.divide(E, ctx, st, src, cur, v, n)
                it = self.position(ctx, st, it, n)
                if it[0] == "it" and it[2] != ("i", 0):
                    return self.tail(E, ctx, st, it, src, cur, value, n)
        return Build.write(self, E, ctx, st, lv, value, n)

    def position(self, ctx, st, it, n):
        """The element at a position that starts at the former size of the vector."""
        if it[0] != "idx":
            return it
        for x in st.rs:
            if x[0] == "start" and (it[2] == x[2] or it[2][0] == "phi" and it[2][3] == x[1]):
                fs = facts(st);
                if it[2] == x[2] and not any(b and t[0] == "<" and t[1] == it[2] and t[2][:2] == ("call", "size") or
                                             not b and t[0] == "==" and it[2] in t[1:] and any(y[:2] == ("call", "size") for y in t[1:]) for t, b in fs.items()):
                    self.res.bad(self.main, ctx.fn.at(n), "the loop does not reach the end of the terms", key=self.main + "|end")
                return ("it", it[1], (("i", 0), x[2]))
        return it

    def declare(self, E, ctx, st, d, value, n):
        v = unwas(value)
        k = ("d", ctx.fn.unit, d["d"])
        if any(x[0] == "start" and x[1] == k for x in st.rs):
            st = st.with_rs(frozenset(x for x in st.rs if not (x[0] == "start" and x[1] == k)))
        if v[:2] == ("call", "size") and v[2][0][0] == "lcs":
            st = st.with_rs(st.rs | {("start", k, v)})
        return Build.declare(self, E, ctx, st, d, value, n)

    def tail(self, E, ctx, st, it, src, cur, value, n):
        """The terms after a position change their sign."""
        l, s = signed(unwas(value))
        x, p = part(l)
        if s > 0 and x is not None and p == "first" and E.storage(st, x) in (it, E.storage(st, it)):
            return [st]
        pos = it[2][1] if isinstance(it[2], tuple) and len(it[2]) == 2 and it[2][0] == ("i", 0) else None
        if x is None or p != "first" or s > 0 or element_of(x) != src or pos is None or pos[:2] != ("call", "size") or pos[2][0][0] != "lcs":
            self.res.bad(self.main, ctx.fn.at(n), "a term is changed to %s" % show(value), key=self.main + "|write")
            return [st]
        m = ("flipped", src, n.i)
        if m in st.rs:
            return [st]
        before = {h for h in pos[2][0][1]}
        g = ("lc", tuple(sorted(((s2 if h in before else -s2, h) for s2, h in cur[1]), key=lambda y: (repr(y[1]), y[0]))), cur[2])
        return E.assign(ctx, st.with_rs(st.rs | {m}), src, g, n)

    def divide(self, E, ctx, st, src, cur, v, n):
        x, p = part(unwas(v[1]))
        d = unwas(v[2])
        at = ctx.fn.at(n)
        m = ("flipped", src, n.i)
        if m in st.rs:
            return [st]
        if x is None or p != "first" or element_of(x) != src or d[0] != "gcd" or ("coefs", src) not in d[1] or cur[2] is False:
            self.res.bad(self.main, at, "a term is changed to %s" % show(v), key=self.main + "|write")
            return [st]
        fs = facts(st)
        if not implied(fs, ONE, d) and fs.get(("==", ("i", 0), d), fs.get(("==", d, ("i", 0)))) is not False:
            self.res.bad(self.main, at, "division by a divisor that may be zero", key=self.main + "|zero")
        st = E.assign(ctx, st.with_rs(st.rs | {m}), src, ("lc", cur[1], ("div", d)), n)[0]
        return [self.scaled(st)]

    def scaled(self, st):
        """Sums and bounds that have both been divided by the same divisor are as good as the original ones."""
        env = {}
        for k, v in st.env.items():
            if k[0] == "d" and v[0] == "lc" and isinstance(v[2], tuple):
                d = v[2][1]
                c, s = canon(v)
                if ("simp", c) not in d[1]:
                    continue
                for q, sg in ((("/", ("simp", c), d), 1), (("/", ("neg", ("simp", c)), d), -1)):
                    for k2, w in st.env.items():
                        if k2[0] == "d" and unwas(w) == q and sg == s:
                            env[k] = ("lc", v[1], True)
                            env[k2] = q[1]
        for k, v in env.items():
            st = st.set(k, v)
        return st.forget(lambda t: t[0] == "gcd") if env else st

    def con(self, lit, f, r):
        if isinstance(f[2], tuple):
            # all terms and the bound are divided by d
            d = f[2][1]
            c, s = canon(f)
            k = ("/", ("simp", c), d)
            k2 = ("/", ("neg", ("simp", c)), d)
            r = dict(r)
            r[k] = r.get(k, 0) + (-r.pop(k2) if k2 in r else 0) - s
            if ("simp", c) not in d[1]:
                r[("indivisible",)] = 1
            f = ("lc", f[1], False)
        return Build.con(self, lit, f, r)

    def local(self, E, ctx, st, lv, value, n):
        v = unwas(value)
        x, p = part(v)
        end = None
        if v[0] in ("call", "r") and last(v[1]) in ("front", "back") and isinstance(v[2], tuple) and v[2] and part(v[2][0])[1] == "second":
            x, end = part(v[2][0])[0], last(v[1])
        if v[0] == "idx" and v[2] in (("i", 0), ("i", 1)):
            y, q = part(E.load(st, v[1]) if v[1][0] == "var" else v[1])
            if q == "second":
                x, end = y, "front" if v[2] == ("i", 0) else "back"
        src = self.home(E, st, element_of(x)) if x is not None and element_of(x) is not None else None
        if src is not None and src[0] == "var" and E.load(st, src)[0] == "lc" and n is not None and n.k == "BinaryOperator" and (p == "first" or end):
            sz = self.sizes(st, x)
            if len(sz) != 1:
                self.res.bad(self.main, ctx.fn.at(n), "the number of variables is not considered", key=self.main + "|nsize")
                return st, value
            k = min(sz)
            if v[0] == "idx" and v[2][1] >= k:
                self.res.bad(self.main, ctx.fn.at(n), "there are not enough variables", key=self.main + "|index")
            if end:
                return st, ("tvar", src, k, end)
            # a coefficient is stored
            old = unwas(E.load(st, lv))
            fs = facts(st)
            if not (old == ("i", 0) or fs.get(("==", old, ("i", 0)), fs.get(("==", ("i", 0), old))) is True or fs.get(old) is False):
                self.res.bad(self.main, ctx.fn.at(n), "an earlier term is overwritten", key=self.main + "|overwrite")
            return st.with_rs(st.rs | {("taken", src)}), ("tco", src, k)
        if v[0] == "/" and v[2][0] == "gcd":
            st2 = self.scaled(st.set(("d", lv[1], lv[2]), v))
            return st2, st2.env[("d", lv[1], lv[2])]
        return Build.local(self, E, ctx, st, lv, value, n)

    def keep(self, t):
        if t[0] == "call" and t[1] in ("empty", "has_guard") or ("null",) in t[1:] or t[0] == "<" and any(x[0] == "gcd" for x in t[1:]):
            return False
        return Build.keep(self, t)

    def keepval(self, k, v):
        return Build.keepval(self, k, v) or k[0] == "d" and contains(v, lambda x: x[0] in ("simp", "gcd", "tco", "tvar"))

    # -- loops over theory atoms
    def range(self, E, ctx, st, container, more):
        return self.loop(E, ctx, st, container, more)

    def loop(self, E, ctx, st, container, more):
        k = unwas(container)
        if self.top is not None and self.neu(E, st, k) == self.top:
            st = self.settle(st)
            return st.with_rs(st.rs | {("begun",)}) if more else st
        # loops that have not ended
        m = ("within", self.neu(E, st, k))
        st = st.with_rs(st.rs | {m} if more else st.rs - {m})
        return self.around(E, ctx, st, container, more)

    def around(self, E, ctx, st, container, more):
        k = unwas(container)
        if container[0] == "var":
            k = self.home(E, st, container)
        st = self.step(ctx, st, k, E.load(st, container) if container[0] == "var" else k, more)
        if st is not None and not more and ("none", k) in st.rs:
            if self.kind in RELATIONS and not self.kind.startswith("__sum"):
                return None  # treated for sums
            st = st.with_rs(st.rs | {("empty", self.neu(E, st, k))})
        return st

    def advance(self, st):
        return self.settle(st) if False else st

    def settle(self, st):
        rs = st.rs
        if "conflict" not in rs and ("begun",) in rs:
            if any(x[0] == "within" for x in rs):
                self.bad("a loop ends before all elements are considered", "early")
            self.judge(st)
        st = st.with_rs(frozenset(x for x in rs if x == "conflict"))
        return st.forget(lambda t: True)

    def judge(self, st):
        pass

    def bad(self, msg, key):
        self.res.bad(self.main, self.loc, msg, key=self.main + "|" + key)


class Relation(Parse):
    main = "relation"

    def sides(self, st):
        """The sum (elements minus right-hand side): for each part its handles and whether it may be missing."""
        atom = ("elem", self.top)
        empty = {x[1] for x in st.rs if x[0] == "empty"}
        elems, guard = ("call", "elements", (atom,)), ("part", ("call", "guard", (atom,)), "second")
        term = ("call", "front", (("call", "tuple", (("elem", elems),)),))
        if not self.kind.startswith("__diff"):
            yield 1, (("parsed", term),), elems in empty
            yield -1, (("parsed", guard),), False
            return
        args = ("call", "arguments", (term,))
        yield 1, self.value(st, ("call", "front", (args,))), False
        yield -1, self.value(st, ("call", "back", (args,))), False
        yield -1, self.value(st, guard)[:1], False

    def value(self, st, x):
        """The handles for a term that is a number or a variable."""
        x = ("call", "evaluate", (x,))
        number, var = ("one", ("call", "number", (x,)), INVALID), ("one", ONE, ("call", "add_variable", (x,)))
        for t, b in facts(st).items():
            if t[0] == "==" and ("call", "type", (x,)) in t[1:]:
                k = [y for y in t[1:] if y[:2] != ("call", "type")][0]
                if k == ("i", 1) or k[0] == "enum" and last(k[1]) == "Number":
                    return (number,) if b else (var,)
        return number, var

    def sum(self, st, f):
        """Is it the sum of the atom (1), its negation (-1) or something else (0)?"""
        for k in (1, -1):
            got = {(k * s, h) for s, h in f}
            rest = set(got)
            ok = True
            for s, hs, opt in self.sides(st):
                hit = [(s, h) for h in hs if (s, h) in rest]
                if len(hit) > 1 or not hit and not opt or hit and len(hs) > 1:
                    ok = False
                rest -= set(hit)
            if ok and not rest:
                return k
        return 0

    def judge(self, st):
        strict = RELATIONS[self.kind]
        cons = {x for x in st.rs if x[0] == "con"}
        clauses = {x[1] for x in st.rs if x[0] == "clause"}
        what = "%s %s" % (self.kind, self.op)
        lit = ("call", "solver_literal", (("call", "literal", (("elem", self.top),)),))
        self.judged += 1
        self.res.ok(self.main, "%s: %s; %s" % (what, ", ".join(sorted(map(cshow, cons))) or "no constraint", len(clauses)))
        if any(x[0] == "asked" for x in st.rs):
            return self.bad("%s: a request for something else" % what, "odd|" + what)
        dirs = {}
        for c in cons:
            dirs[c] = k = self.sum(st, c[2])
            if k == 0 or any(x is not None for x, _ in c[3]):
                return self.bad("%s: %s is no bound of the sum" % (what, cshow(c)), "sum|" + what)
        fs = facts(st)
        known = {}
        for t, v in fs.items():
            if t[0] == "istrue" and v:
                if known.get(t[1], t[2] > 0) != (t[2] > 0):
                    return None  # true and false
                known[t[1]] = t[2] > 0
        lits = {l for c in clauses for l, _ in c} | {c[1][0] for c in cons}
        odd = [l for l in lits if l != ONE and l != lit and l[0] != "fresh"]
        if odd:
            return self.bad("%s: the literal %s does not belong to the atom" % (what, show(odd[0])), "lit|" + what)
        for d in (-2, -1, 0, 1, 2):
            rel = OPS[self.op](d)
            for b in (True, False):
                if known.get(lit, b) != b:
                    continue
                want = b == rel if strict else not b or rel

                def holds(c):
                    return dirs[c] * d <= dict(c[3]).get(None, 0)
                n, m = self.count(clauses, cons, lit, b, holds, known), self.count(clauses, cons, lit, b, holds, {})
                if (n if not want else not m or n > 1):
                    self.bad("%s: a %s atom whose relation %s %s" % (what, "true" if b else "false", "holds" if rel else "does not hold",
                                                                  "is possible" if not want else "is impossible" if not m else "has several solutions"), "truth|%s|%s|%s" % (what, b, rel))

    @staticmethod
    def count(clauses, cons, lit, b, holds, known):
        lits = {l for c in clauses for l, _ in c} | {c[1][0] for c in cons} | {lit}
        lits = sorted(lits - {ONE}, key=repr)
        k = 0
        for bs in itertools.product((True, False), repeat=len(lits)):
            a = dict(zip(lits, bs))
            a[ONE] = True
            if a[lit] != b or any(a.get(l, v) != v for l, v in known.items()):
                continue
            if all(any(a[l] == (s > 0) for l, s in c) for c in clauses) and all(a[c[1][0]] != (c[1][1] > 0) or holds(c) for c in cons):
                k += 1
        return k


def run(prog, res, tier):
    res.rule("relation", "the constraints and clauses added for a relation over a sum hold exactly if the relation does; in the head they only follow from the atom")
    eff = Effects(prog)
    rec, own = {}, {}
    fns = [i for i in prog.find("Clingcon::parse") if i.body is not None and any("TheoryAtoms" in p for p in i.pt)]
    if not fns:
        raise AnalysisBroken("no function parses theory atoms")
    def one(task, res):
        i, kind, op = task
        r = Relation(res)
        r.rec, r.own, r.types = rec, own, eff._dtype
        r.res_prog = prog
        r.kind, r.op, r.loc = kind, op, i.body.loc
        r.top = [("arg", k, p["name"]) for k, p in enumerate(i.body.params) if "TheoryAtoms" in i.pt[k]][0]
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            sides(r.settle(st).rs, ret, res, r.main, r.loc)
        if not r.judged:
            res.bad("relation", r.loc, "%s atoms are ignored" % kind, key="relation|none|" + kind)
    parallel(res, [(i, kind, op) for kind in sorted(RELATIONS) for op in sorted(OPS) for i in fns], one)
    res.need("relation", 2)
