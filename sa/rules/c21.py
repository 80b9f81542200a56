"""Simplifying a sum keeps its value."""
from ..absint import Engine, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, lin
from .c06 import Base, facts, unwas

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that simplify sums: what happens to each term in an iteration of the loop over the "
    "terms (moved to the constant, merged, kept or dropped) is compared with the conditions of the path; cursors into the sum are tracked.")

INVALID = ("i", 4294967295)


def root(t):
    """The base of an access path."""
    while t[0] in ("fld", "elem", "copyof", "ref", "deref"):
        t = unwas(t[1])
    return t


class Merge(Base):
    """rs: what happened to the current term: sub, merge, move, moved1, moved2, adv; ("in", cursor), erased, unchecked, validated."""
    main = "simplify"

    def init(self):
        self.sum = None
        self.iterations = 0
        self.consts = set()

    def direct(self, fn):
        return fn.info.inroot and not fn.info.lambda_

    def no_inline(self, info):
        return not info.inroot

    def keep(self, t):
        return True

    def keepval(self, k, v):
        return k[0] == "d" and v[0] in ("cur", "removed", "b")

    def bad(self, msg, key):
        self.res.bad(self.main, self.loc, "%s: %s" % (self.what, msg), key="%s|%s|%s" % (self.main, self.what, key))

    # -- cursors
    def cursor(self, E, st, v):
        v = self.resolve(E, st, v)
        while v[0] in ("copyof", "new") and len(v) > 1 and (v[0] == "copyof" or "iterator" in v[1] and len(v[2]) == 1):
            v = unwas(v[1] if v[0] == "copyof" else v[2][0])
        return v

    def resolve(self, E, st, v, depth=0):
        """The term with local variables replaced by their values."""
        v = unwas(v)
        if depth < 30 and v[0] in ("var", "ref", "copyof", "fld", "elem"):
            if v[0] == "var":
                w = self.bound(E, st, v)
                return w if w[0] == "var" else self.resolve(E, st, w, depth + 1)
            if v[0] in ("ref", "copyof"):
                return self.resolve(E, st, v[1], depth + 1) if len(v) == 2 else v
            return (v[0], self.resolve(E, st, v[1], depth + 1)) + v[2:]
        return v

    def current(self, st, x):
        """Is it the term treated in this iteration?"""
        x = unwas(x)
        while x[0] in ("copyof", "ref"):
            x = x[1]
        return x[0] == "elem" and (("in",) + x[1][1:] in st.rs if x[1][0] == "cur" else x[1] == self.sum and ("in",) in st.rs)

    def comp(self, st, v, what):
        """Is it a component of the current term?"""
        v = unwas(v)
        while v[0] in ("copyof", "ref") and len(v) == 2:
            v = unwas(v[1])
        return v[0] == "fld" and v[2] in (("first", "#0") if what == "co" else ("second", "#1")) and self.current(st, v[1])

    def flag(self, st, f):
        return st.with_rs(st.rs | {f})

    def open(self, st, cur):
        st = st.forget(lambda t: contains(t, lambda x: x == ("elem", cur) or x[0] == "elem" and cur == self.sum and x[1] == cur or x[0] == "found"))
        return st.with_rs(frozenset(x for x in st.rs if x in ("erased", "validated", "cleared")) | {("in",) + (cur[1:] if cur[0] == "cur" else ())})

    def close(self, st, cur):
        """The treatment of a term ends."""
        m = ("in",) + (cur[1:] if cur[0] == "cur" else ())
        if m not in st.rs:
            return st
        self.iterations += 1
        fs = facts(st)
        did = {x for x in st.rs if x in ("sub", "merge", "move", "adv", "moved1", "moved2", "odd")}
        if {"moved1", "moved2"} <= did:
            did = (did - {"moved1", "moved2"}) | {"move"}
        zero = valid = new = None
        same = "same" in st.rs
        for t, b in fs.items():
            if t[0] == "==" and ("i", 0) in t[1:] and any(self.comp(st, x, "co") for x in t[1:]):
                zero = b
            if t[0] == "==" and INVALID in t[1:] and any(self.comp(st, x, "var") for x in t[1:]):
                valid = not b
            if t[0] == "<" and t[2] == INVALID and self.comp(st, t[1], "var"):
                valid = b
            if t[0] in ("call", "r") and last(t[1]) == "is_valid_var" and self.comp(st, t[2][0], "var"):
                valid = b
            if t[0] in ("call", "r") and last(t[1]) == "empty" and isinstance(t[2], tuple) and t[2] and self.comp(st, t[2][0], "var"):
                valid = not b
            if t[0] == "==" and ("i", 0) in t[1:] and any(x[0] in ("call", "r") and last(x[1]) == "size" and isinstance(x[2], tuple) and self.comp(st, x[2][0], "var") for x in t[1:]):
                valid = not b
            if t[0] == "<" and t[1] == ("i", 0) and t[2][0] in ("call", "r") and last(t[2][1]) == "size" and isinstance(t[2][2], tuple) and self.comp(st, t[2][2][0], "var"):
                valid = b
            if t[0] == "fld" and t[2] in ("#1", "second") and t[1][0] == "found":
                new = b
        if zero is True and not (did - {"sub"}) and not ("sub" in did and valid):
            pass
        elif did == {"sub"}:
            if valid is not False:
                self.bad("the coefficient of a variable is moved to the constant", "const")
        elif did == {"merge"}:
            if new is not False:
                self.bad("a term is merged without an earlier term", "merge")
        elif did in ({"adv", "move"}, {"adv"}):
            if did == {"adv"} and same is not True:
                self.bad("a term is overwritten", "overwritten")
            if valid is not True:
                self.bad("a constant is kept among the terms", "kept")
            if new is not True and new is not None:
                self.bad("a term is kept although it has been merged", "both")
        elif not did:
            self.bad("a term is dropped", "dropped")
        else:
            self.bad("a term is both %s" % " and ".join(sorted(did)), "several")
        return st.with_rs(frozenset(x for x in st.rs if x in ("erased", "validated", "cleared")))

    def call(self, E, ctx, st, n, t, obj, args):
        if t.name == "check_valid_value":
            v = unwas(self.arg(E, st, args[0]))
            if v[0] == "fld" and v[2] in ("first", "#0") and (root(v) == self.sum or "erased" in st.rs and root(v)[0] == "cur") or self.comp(st, v, "co"):
                st = st.with_rs(st.rs - {"unchecked"})
            elif "erased" in st.rs or True:
                st = self.flag(st, ("valid", v))
            return [(st, v)]
        return Base.call(self, E, ctx, st, n, t, obj, args)

    def event(self, E, ctx, st, n, t, obj, vals, args):
        o = E.storage(st, obj) if obj is not None else None
        at = ctx.fn.at(n)
        if o is not None and o[0] == "var":
            o = E.load(st, o)
        while o is not None and len(o) == 2 and o[0] in ("ref", "copyof"):
            o = o[1]
        if o is not None and unwas(o) == self.sum:
            if t.name in ("begin", "cbegin"):
                return [(st, ("beg",))]
            if t.name in ("end", "cend"):
                return [(st, ("fin",))]
            if t.name == "erase" and len(vals) == 2:
                a, b = self.cursor(E, st, vals[0]), self.cursor(E, st, vals[1])
                if any(x[0] == "in" for x in st.rs):
                    self.bad("terms are erased while they are considered", "early")
                if a[0] not in ("cur", "removed") or b != ("fin",) or a[0] == "cur" and ("writer",) + a[1:] not in st.rs and not self.writes(a):
                    self.bad("the terms erased at %s are not those behind the ones kept" % at, "erase")
                return [(st.with_rs(frozenset(x for x in st.rs if x != "unchecked") | {"erased"}), ("x",))]
            if t.name == "resize" and vals:
                if not contains(vals[0], lambda x: x[0] in ("cur", "removed")):
                    self.bad("the terms erased at %s are not those behind the ones kept" % at, "erase")
                return [(self.flag(st, "erased"), ("x",))]
        if o is not None and t.name in ("begin", "end", "cbegin", "cend", "size", "empty") and not t.inroot:
            b = self.bound(E, st, obj)
            if self.comp(st, b, "var"):
                return [(st, ("call", t.name, (b,)))]
        cs = [self.cursor(E, st, x) for x in ([obj] if obj is not None else []) + vals]
        op = t.name if t.name.startswith("operator") else "operator" + (n.get("oper") or "?")
        if op in ("operator==", "operator!=") and len(cs) == 2 and all(x[0] in ("cur", "fin", "beg", "removed") for x in cs):
            eq = op == "operator=="
            if ("fin",) in cs:
                c = [x for x in cs if x != ("fin",)]
                if len(c) == 1 and c[0][0] == "cur":
                    m = ("more",) + c[0][1:]
                    return [(st.forget(lambda x: x == m), ("!", m) if eq else m)]
            if any(x[0] == "found" for x in cs):
                return None
            m = ("same",) + tuple(sorted(cs, key=repr))
            return [(st, m if eq else ("!", m))]
        if op in ("operator==", "operator!=") and len(cs) == 2 and ("mapend",) in cs:
            f = [x for x in cs if x[0] == "found"]
            if f:
                m = ("fld", f[0], "second")
                return [(st, m if op == "operator==" else ("!", m))]
        if t.name == "operator++" and cs and cs[0][0] == "cur" and "erased" in st.rs:
            return [(st, obj)]
        if t.name == "operator++" and cs and cs[0][0] == "cur":
            c = cs[0]
            st = st.forget(lambda x: x[0] == "same")
            if ("in",) + c[1:] in st.rs:
                return [(self.close(st, c), obj)]
            self.writers.add(c)
            if "adv" in st.rs:
                self.bad("the position for the next term advances twice", "twice")
            return [(self.flag(st, "adv"), obj)]
        if t.name in ("operator*", "operator->") and cs:
            if cs[0][0] == "cur":
                return [(st, ("elem", cs[0]))]
            return [(st, ("elem", cs[0]) if t.name == "operator*" else cs[0] if contains(cs[0], lambda x: x[0] == "found") else ("elem", cs[0]))]
        if "map" in t.cls and t.name in ("end", "cend"):
            return [(st, ("mapend",))]
        if t.name in ("try_emplace", "emplace", "insert", "find") and "map" in t.cls and vals:
            vs = [unwas(v) for v in vals]
            if len(vs) == 1 and vs[0][0] == "new" and len(vs[0][2]) == 2:
                vs = [unwas(v) for v in vs[0][2]]
            slot = self.cursor(E, st, vs[1]) if len(vs) == 2 else ("x",)
            self.res.ok(self.main, "%s: terms with the same variables are looked up" % at)
            if not self.comp(st, vs[0], "var"):
                self.bad("terms are looked up by something else than their variables", "key")
            if t.name != "find":
                self.slots.add(slot)
            if self.what != "sums" and "sorted" not in st.rs:
                self.bad("the variables of a product are not sorted when terms are looked up", "sorted")
            if "cleared" not in st.rs and obj is not None and self.persistent(E, st, obj):
                self.bad("terms seen in an earlier call are not forgotten", "cleared")
            if len(vals) == 1 and t.name != "find":
                return None
            f = ("found", n.i)
            return [(st.forget(lambda x: contains(x, lambda y: y == f)), f)]
        if t.name == "operator=" and obj is not None and vals:
            dst = unwas(E.storage(st, obj))
            if dst[0] == "elem" and dst[1][0] == "cur":
                self.targets.add(dst[1])
                return [(self.flag(st, "move" if self.current(st, self.term(E, st, vals[0])) else "odd"), ("x",))]
        if t.name in ("sort", "stable_sort") and t.q.startswith("std::"):
            a = unwas(vals[0])
            if a[0] in ("call", "r") and last(a[1]) in ("begin", "cbegin") and isinstance(a[2], tuple) and self.comp(st, a[2][0], "var"):
                st = self.flag(st, "sorted")
            return [(st, ("x",))]
        if t.name == "clear" and "map" in t.cls:
            return [(self.flag(st, "cleared"), ("x",))]
        if t.name == "remove_if" and len(vals) == 3:
            self.removal(E, ctx, st, n, vals, at)
            return [(st, ("removed",))]
        return None

    def bound(self, E, st, v):
        """The component a (bound) variable denotes."""
        for _ in range(5):
            v = unwas(v)
            if v[0] in ("copyof", "ref") and len(v) == 2:
                v = v[1]
            elif v[0] == "var":
                w = st.env.get(("bind", v[1], v[2])) or st.env.get(("d", v[1], v[2])) or v
                if w == v:
                    break
                v = w
            else:
                break
        return unwas(v)

    def writes(self, c):
        self.erased.add(c)
        return True

    def persistent(self, E, st, v):
        """Does the map outlive the call?"""
        v = unwas(E.storage(st, v))
        return v[0] != "var" or (v[1], v[2]) in self.statics

    def term(self, E, st, v):
        v = unwas(v)
        while v[0] in ("copyof", "ref") and len(v) == 2:
            v = unwas(v[1])
        return v

    def removal(self, E, ctx, st, n, vals, at):
        """Only terms with coefficient zero may be removed."""
        a, b = self.cursor(E, st, vals[0]), self.cursor(E, st, vals[1])
        if a != ("beg",) or b[0] != "cur" and ("erased" not in st.rs or b != ("fin",)):
            self.bad("terms are removed at %s in another range" % at, "range")
        if "erased" not in st.rs:
            self.erased.add(b)
        lam = unwas(vals[2])
        ids = [x for x in (lam[2] or (lam[1],)) if x in self.prog.fns] if lam[0] == "lam" else []
        if not ids:
            raise AnalysisBroken("%s: unknown predicate" % at)
        x = ("elem", ("removed",))
        for s, ret in E.follow(ctx, st, n, self.prog.fns[ids[0]].info, ("lamobj",), [x]):
            r = unwas(ret)
            fs = facts(s)
            co = [("fld", x, k) for k in ("first", "#0")]
            zero = any(t[0] == "==" and ("i", 0) in t[1:] and any(c in t[1:] for c in co) and b for t, b in fs.items())
            if r == ("b", False) or zero or r[0] == "==" and ("i", 0) in r[1:] and any(c in r[1:] for c in co) or r[0] == "!" and r[1] in co:
                continue
            self.bad("terms are removed although their coefficients are not zero", "nonzero")

    def branch(self, E, ctx, st, term, value):
        t, b = (term[1], not value) if term[0] == "!" else (term, value)
        if t[0] == "more":
            c = ("cur",) + t[1:]
            if b:
                return self.again(st, c)
            return self.end(st, c)
        if t[0] == "same" and b and "adv" not in st.rs:
            return self.flag(st, "same")
        return st

    def again(self, st, c):
        if "erased" in st.rs:
            if "unchecked" in st.rs:
                self.bad("the value of a coefficient is not checked", "unchecked")
            return self.flag(st, "unchecked")
        return self.open(st, c)

    def end(self, st, c):
        if "unchecked" in st.rs:
            self.bad("the value of a coefficient is not checked", "unchecked")
        if "erased" in st.rs:
            return st.with_rs(st.rs - {"unchecked"} | {"validated"})
        return st.with_rs(st.rs | {"seen"})

    def range(self, E, ctx, st, container, more):
        c = unwas(E.storage(st, container) if container[0] == "var" else container)
        if c != self.sum:
            return st
        if "erased" not in st.rs:
            st = self.close(st, self.sum)
        return self.again(st, self.sum) if more else self.end(st, self.sum)

    def declare(self, E, ctx, st, d, value, n):
        v = self.cursor(E, st, value)
        if d.get("static"):
            self.statics.add((ctx.fn.unit, d["d"]))
        if d.get("name", "").startswith(("__begin", "__end")):
            return st, ("x", n.i, d["d"])
        if v[0] in ("beg", "cur") and not d.get("binds") and not d["t"].endswith("&"):
            c = ("cur", ctx.fn.unit, d["d"])
            st = st.forget(lambda t: contains(t, lambda x: x == c))
            return st, c
        return st, value

    def local(self, E, ctx, st, lv, value, n):
        v = unwas(value)
        old = unwas(E.load(st, lv))
        if any(x[0] == "in" for x in st.rs):
            diff = dict(lin(v))
            for x, k in lin(old).items():
                diff[x] = diff.get(x, 0) - k
            diff = {x: k for x, k in diff.items() if k}
            if len(diff) == 1 and None not in diff:
                (x, k), = diff.items()
                if self.comp(st, x, "co"):
                    self.consts.add(lv)
                    if set(lin(old)) == {None}:
                        self.bad("the constant does not start with zero", "start")
                    if k != -1:
                        self.bad("the constant is added instead of subtracted", "sign")
                    return self.flag(st, "sub"), value
        return st, value

    def write(self, E, ctx, st, lv, value, n):
        v = unwas(value)
        lv = self.resolve(E, st, lv)
        if lv[0] == "fld" and lv[2] in ("first", "#0") and contains(lv, lambda x: x[0] == "found"):
            l = lin(v)
            target = [x for x in l if x is not None and x[0] == "fld" and self.resolve(E, st, x) == lv]
            rest = {x: k for x, k in l.items() if x not in target}
            good = len(target) == 1 and l[target[0]] == 1 and len(rest) == 1 and all(x is not None and k == 1 and self.comp(st, x, "co") for x, k in rest.items())
            if not good:
                self.bad("the coefficients of merged terms are not added", "added")
            return [self.flag(st, "merge" if "merge" not in st.rs else "odd")]
        if lv[0] == "fld" and unwas(lv[1])[0] == "elem" and unwas(lv[1])[1][0] == "cur" and not self.current(st, unwas(lv[1])):
            self.targets.add(unwas(lv[1])[1])
            w = "co" if lv[2] in ("first", "#0") else "var"
            return [self.flag(st, ("moved1" if w == "co" else "moved2") if self.comp(st, self.term(E, st, v), w) else "odd")]
        if lv[0] == "fld" and self.current(st, lv[1]):
            self.bad("a term is changed", "changed")
        return [st]

    def ret(self, E, ctx, st, n, v):
        if ctx.fn.id == self.top and v is not None:
            self.returns.append((ctx.fn.at(n), unwas(E.load(st, v)), {unwas(E.load(st, lv)) for lv in self.consts if lv[1] == ctx.fn.unit}))
        return st

    def finish(self, st, ret):
        if "seen" not in st.rs and "erased" not in st.rs:
            self.bad("terms are not considered", "unseen")
        if "erased" not in st.rs:
            self.bad("the terms behind the ones kept are not erased", "noerase")
        elif "validated" not in st.rs:
            self.bad("the values of coefficients are not checked", "novalid")
        zero = unwas(ret) == ("i", 0) or any(t[0] == "==" and b and ("i", 0) in t[1:] and unwas(ret) in t[1:] for t, b in facts(st).items())
        if not zero and not any(x == ("valid", unwas(ret)) for x in st.rs if x[0] == "valid"):
            self.bad("the value of the constant is not checked", "constvalid")


def run(prog, res, tier):
    res.rule("simplify", "each term of a sum is kept, merged with an equal one, moved to the constant, or has coefficient zero")
    eff = Effects(prog)
    fns = [i for i in prog.info.values() if i.body is not None and i.name == "simplify" and i.q.startswith("Clingcon::") and not i.cls]
    if not fns:
        raise AnalysisBroken("no function simplifies sums")
    for i in sorted(fns, key=lambda x: x.id):
        r = Merge(res)
        r.prog, r.loc = prog, i.body.loc
        r.sum = ("arg", 0, i.body.params[0]["name"])
        r.what = "sums of products" if i.pt[0].count("vector") > 1 else "sums"
        r.writers, r.slots, r.targets, r.erased, r.statics = set(), set(), set(), set(), set()
        r.top, r.returns = i.body.id, []
        E = Engine(prog, r, eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        for st, ret in exits:
            res.ok("simplify", "%s: path of the function for %s" % (r.loc, r.what))
            r.finish(st, ret)
        for at, v, cs in r.returns:
            if r.consts and v not in cs:
                r.bad("the constant is not returned at %s" % at, "constant")
        if not r.consts:
            r.bad("no constant is computed", "noconst")
        if not r.iterations:
            res.bad("simplify", r.loc, "the terms are not considered", key="simplify|none|" + r.what)
        if len(r.slots | r.writers | r.targets | r.erased) > 1:
            r.bad("the position of terms kept, the one recorded for merging and the one after the last term differ", "positions")
    res.need("simplify", 2)
