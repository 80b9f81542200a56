"""Rewriting statements keeps their meaning and prepares theory atoms for the parser."""
from ..absint import Engine, arith, compare, contains, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last, lin, parallel
from .c06 import Base, facts, unwas

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that rewrite statements: nodes of the syntax tree are symbolic terms (attributes of "
    "nodes, copies with the attributes set and the elements added, erased or replaced), and the nodes passed on are compared with the "
    "conditions on the kinds of nodes, names and signs along the path.")

TYPES = """id variable symbolic_term unary_operation binary_operation interval function pool boolean_constant symbolic_atom comparison guard
conditional_literal aggregate body_aggregate_element body_aggregate head_aggregate_element head_aggregate disjunction theory_sequence
theory_function theory_unparsed_term_element theory_unparsed_term theory_guard theory_atom_element theory_atom literal""".split()
ATTRS = """argument arguments arity atom atoms atom_type bias body code coefficient comparison condition elements external external_type function
guard guards head is_default left left_guard literal location modifier name node_u node_v operator_name operator_type operators parameters
positive priority right right_guard sequence_type sign symbol term terms value variable weight comment_type""".split()
T = {x: TYPES.index(x) for x in TYPES}
T["rule"] = T["literal"] + 5
A = {x: i for i, x in enumerate(ATTRS)}
HAS = {
    "rule": {"head", "body"}, "literal": {"sign", "atom"}, "boolean_constant": {"value"}, "theory_atom": {"term", "elements", "guard"},
    "function": {"name", "arguments", "external"}, "symbolic_term": {"symbol"}, "variable": {"name"},
    "theory_atom_element": {"terms", "condition"}, "theory_guard": {"operator_name", "term"},
}
NEG = {"=": "!=", "!=": "=", "<": ">=", "<=": ">", ">": "<=", ">=": "<"}
REWRITTEN = {"sum", "nsum", "diff", "distinct", "disjoint", "minimize", "maximize"}
TAGGED = {"sum", "nsum", "diff"}
SHIFTED = {"sum", "diff"}


def base(n):
    while n[0] == "copy":
        n = n[2]
    return n


class Tree(Base):
    """rs: changes of copies: set, push, erase, repl, asg; loops: in, nonempty, empty, looped."""
    main = "rewrite"
    case = None

    def direct(self, fn):
        return fn.info.inroot and not fn.info.lambda_

    def no_inline(self, info):
        return not info.inroot

    def keep(self, t):
        return t[0] != "more"

    def keepval(self, k, v):
        return k[0] == "ret" or k[0] == "d" and (v[0] in ("vset", "cur", "copy", "get", "s", "cat", "tast", "ctr", "<", "==", "!") or v in (("i", 0), ("i", -1)))

    def bad(self, msg, key, at=None):
        self.res.bad(self.main, at or self.loc, msg, key="%s|%s" % (self.main, key))

    # -- values
    def N(self, E, st, v, depth=0):
        """The node, vector, or text a value denotes."""
        for _ in range(40):
            if v is None:
                return ("x",)
            if v[0] == "was":
                v = v[2]
            elif v[0] in ("ref", "copyof", "cast") and len(v) == 2:
                v = v[1]
            elif v[0] == "mut" and isinstance(v[1], tuple):
                v = v[1]
            elif v[0] == "new" and last(v[1]).split("<")[0] in ("Node", "Optional") and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == "new" and last(v[1]) in ("Node", "Optional") and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == "new" and "Variant<" in v[1] and v[2]:
                v = v[2][0]
            elif v[0] == "new" and ("Iterator<" in v[1] or "iterator<" in v[1] or "basic_string" in v[1] or "string_view" in v[1]) and v[2] and not contains(v[2][0], lambda x: x[0] == "alloc"):
                v = v[2][0]
            elif v[0] in ("call", "r") and last(v[1]) in ("move", "forward", "operator Node", "c_str", "data") and isinstance(v[2], tuple) and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == "var":
                w = E.load(st, v)
                if w == v:
                    return v
                v = w
            elif v[0] == "elem" and len(v) > 2:
                c = self.N(E, st, v[1], depth + 1) if depth < 10 else v[1]
                v = ("elem", ("rg", c))
            elif v[0] == "idx" and len(v) > 2:
                v = ("elem", ("at", self.N(E, st, v[1], depth + 1), v[2]))
            else:
                a = [x for x in st.rs if x[0] == "asg" and x[1] == v]
                if not a:
                    return v
                v = a[0][2]
        return v

    def drop(self, st, f):
        return st.with_rs(frozenset(x for x in st.rs if not f(x)))

    def add(self, st, *xs):
        return st.with_rs(st.rs | set(xs))

    def mods(self, st, node):
        """What was changed in a copy."""
        out = []
        for x in st.rs:
            if x[0] == "set" and x[1] == node or x[0] in ("push", "erase", "odd") and x[1][:2] == ("vec", node) or x[0] == "repl" and self.over(x[1])[:2] == ("vec", node):
                out.append(x)
        return out

    def over(self, c):
        """The container a position belongs to."""
        return c[3] if c[0] == "cur" else c[1]

    def get(self, st, node, a):
        for x in st.rs:
            if x[0] == "set" and x[1] == node and x[2] == a:
                return x[3]
        if node[0] == "copy":
            return self.get(st, node[2], a)
        return ("get", node, a)

    def kind(self, fs, node, what):
        """Is the node of the kind (True, False, None)?"""
        node = base(node)
        res = None
        if self.case and self.isterm(node):
            return what == self.case[0]
        for t, b in fs.items():
            if t[0] == "==" and ("type", node) in t[1:]:
                for x in t[1:]:
                    if x[0] == "i":
                        if b:
                            return x[1] == T[what]
                        if x[1] == T[what]:
                            res = False
        return res

    def text(self, E, st, v):
        """The parts of a text."""
        if v[0] == "cat":
            return v[1]
        v = self.N(E, st, v)
        if v[0] == "cat":
            return v[1]
        if v[0] == "new" and "basic_string" in v[1]:
            vs = [x for x in v[2] if "alloc" not in str(x[1] if x[0] == "new" else "")]
            return self.text(E, st, vs[0]) if vs else ()
        if v == ("s", ""):
            return ()
        return (v,)

    def strcmp(self, a, b):
        for x, y in ((a, b), (b, a)):
            if self.case and x[0] == "get" and x[2] == "name" and self.isterm(x[1]) and y[0] == "s":
                return ("i", 0 if y[1] == self.case[1] else 1)
        return ("strcmp", a, b)

    # -- events
    def event(self, E, ctx, st, n, t, obj, vals, args):
        at = ctx.fn.at(n)
        cls = last(t.cls.split("<")[0]) if t.cls else ""
        name = t.name
        op = name[8:] if name.startswith("operator") else None
        if t.inroot:
            return self.inside(E, ctx, st, n, t, obj, vals, args)
        if cls == "Node" and t.cls.startswith("Clingo"):
            if obj is None and name == "Node":
                vs = [self.N(E, st, v) for v in vals]
                if len(vs) == 1:
                    return [(st, vs[0])]
                return [(st, ("mk",) + tuple(vs))]
            o = self.N(E, st, obj)
            if name == "type":
                if self.case and self.isterm(base(o)):
                    return [(st, ("i", T[self.case[0]]))]
                return [(st, ("type", base(o)))]
            if name == "get":
                a = vals[0]
                if a[0] != "i" or a[1] >= len(ATTRS):
                    raise AnalysisBroken("%s: unknown attribute" % at)
                a = ATTRS[a[1]]
                self.allowed(st, o, a, at)
                if "NodeVector" in t.ret:
                    return [(st, ("vec", o, a))]
                return [(st, self.get(st, o, a))]
            if name == "set":
                a = ATTRS[vals[0][1]]
                self.allowed(st, o, a, at)
                if o[0] != "copy":
                    self.bad("an attribute of a node that is not a copy is set at %s" % at, "inplace", at)
                    return [(st, ("x",))]
                v = vals[1]
                v = ("cat", self.text(E, st, v)) if a in ("name",) else self.N(E, st, v)
                st = self.drop(st, lambda x: x[0] == "set" and x[1] == o and x[2] == a)
                return [(self.add(st, ("set", o, a, v)), ("x",))]
            if name in ("copy", "deep_copy"):
                c = ("copy", n.i, o)
                st = st.forget(lambda x: contains(x, lambda y: y == c))
                return [(self.drop(st, lambda x: contains(x, lambda y: y == c)), c)]
            if name == "unpool":
                return [(st, ("unpooled", o) + tuple(vals))]
            if name == "transform_ast":
                return self.transformed(E, ctx, st, n, o, vals[0])
            if name == "visit_ast":
                return self.visit(E, ctx, st, n, o, vals[0])
            if op == "=" and vals:
                s = E.storage(st, obj)
                if s[0] == "var":
                    return None
                s = self.N(E, self.drop(st, lambda x: x[0] == "asg"), s)
                st = self.drop(st, lambda x: x[0] == "asg" and x[1] == s)
                return [(self.add(st, ("asg", s, self.N(E, st, vals[0]))), ("x",))]
        if cls == "NodeRef" or cls == "ValuePointer":
            o = self.N(E, st, obj)
            if op == "=" and vals:
                return self.replace(st, o, self.N(E, st, vals[0]), at)
            return [(st, o)]
        if cls == "Optional":
            if obj is None:
                return [(st, self.N(E, st, vals[0]) if vals else ("null",))]
            return [(st, self.N(E, st, obj))]
        if "Variant" == cls and vals:
            return [(st, self.N(E, st, vals[0]) if not self.N(E, st, vals[0])[0] == "cat" else vals[0])]
        if cls == "NodeVector" and obj is not None:
            v = self.N(E, st, obj)
            changed = any(x[0] in ("push", "erase") and x[1] == v for x in st.rs)
            pure = v
            if v[0] == "vec" and not changed:
                pure = ("vec", base(v[1]), v[2])
            if name in ("begin", "cbegin"):
                return [(st, ("beg", v))]
            if name in ("end", "cend"):
                return [(st, ("fin", v))]
            if name == "size":
                return [(st, ("size", pure) if not changed else ("x", n.i))]
            if name == "empty":
                return [(st, compare("==", ("size", pure), ("i", 0)) if not changed else ("x", n.i))]
            if op == "[]" or name == "at":
                return [(st, ("elem", ("at", v, vals[0])))]
            if name in ("push_back", "erase", "insert", "set", "pop_back", "clear"):
                if v[0] != "vec" or v[1][0] != "copy":
                    self.bad("elements of a node that is not a copy are changed at %s" % at, "inplace", at)
                if name == "push_back":
                    x = ("push", v, self.N(E, st, vals[0]))
                    if x in st.rs:
                        x = ("odd", v, n.i)
                    return [(self.add(st, x), ("x",))]
                if name == "erase":
                    x = ("erase", v, self.N(E, st, vals[0]))
                    if any(y[0] == "erase" and y[1] == v for y in st.rs):
                        x = ("odd", v, n.i)
                    return [(self.add(st, x), ("x",))]
                if name == "set":
                    return self.replace(st, ("elem", self.N(E, st, vals[0])), self.N(E, st, vals[1]), at)
                return [(self.add(st, ("odd", v, n.i)), ("x",))]
        cs = [self.N(E, st, x) for x in ([obj] if obj is not None else []) + vals]
        pos = lambda x: x[0] in ("beg", "fin", "cur")
        if op in ("==", "!=") and len(cs) == 2 and all(pos(x) for x in cs) and any(x[0] == "fin" for x in cs):
            c = [x for x in cs if x[0] != "fin"]
            if c:
                m = ("more", c[0])
                st = st.forget(lambda x: x == m)
                return [(st, ("!", m) if op == "==" else m)]
        if op in ("+", "-") and len(cs) == 2 and any(pos(x) for x in cs):
            return [(st, arith(op, cs[0], cs[1]))]
        if op in ("++", "--") and cs and pos(cs[0]):
            if op == "--" or ("in", cs[0]) not in st.rs:
                self.bad("a position is moved in an unexpected way at %s" % at, "position", at)
            return [(st, obj if E.storage(st, obj)[0] == "var" else cs[0])]
        if op in ("*", "->") and len(cs) == 1 and pos(cs[0]):
            return [(st, ("elem", cs[0]))]
        if op in ("*", "->") and len(cs) == 1 and "Iterator" not in cls and cs[0][0] in ("get", "copy", "elem"):
            return [(st, cs[0])]
        if cls in ("ArrayIterator",) and obj is None and len(cs) == 1:
            return [(st, cs[0])]
        if name in ("next", "advance") and t.q.startswith("std::") and cs and pos(cs[0]) and name == "next":
            return [(st, arith("+", cs[0], cs[1] if len(cs) > 1 else ("i", 1)))]
        if name == "distance" and len(cs) == 2:
            return [(st, arith("-", cs[1], cs[0]))]
        # texts
        if name == "strcmp" and len(vals) == 2:
            return [(st, self.strcmp(self.N(E, st, vals[0]), self.N(E, st, vals[1])))]
        if op in ("==", "!=") and len(cs) == 2 and ("basic_string" in " ".join(t.pt) or "basic_string" in t.cls):
            a, b = (self.text(E, st, x) for x in ([obj] if obj is not None else []) + vals)
            if len(a) == 1 and len(b) == 1:
                return [(st, compare(op, self.strcmp(a[0], b[0]), ("i", 0)))]
        if name == "match" and cls == "Symbol" and len(vals) == 2:
            s = self.N(E, st, vals[0])
            if self.case and cs[0][0] == "get" and cs[0][2] == "symbol" and self.isterm(cs[0][1]) and s[0] == "s" and vals[1] == ("i", 0):
                return [(st, ("b", s[1] == self.case[1]))]
            return [(st, ("smatch", cs[0], s, vals[1]))]
        if cls == "Symbol" and name in ("name", "type"):
            return [(st, ("sym" + name, cs[0]))]
        if name == "add_string" and vals:
            return [(st, ("cat", self.text(E, st, vals[0])))]
        if name == "Function" and vals and t.q.startswith("Clingo::"):
            return [(st, ("fun", self.text(E, st, vals[0])) + tuple(vals[1:]))]
        if name == "Number" and t.q.startswith("Clingo::"):
            return [(st, ("num", unwas(vals[0])))]
        if "basic_string" in t.cls and obj is not None and (op in ("+=", "=") or name in ("append", "assign")):
            new = ("cat", (() if op == "=" or name == "assign" else self.text(E, st, obj)) + self.text(E, st, vals[0]))
            return [(s, obj) for s in E.assign(ctx, st, E.storage(st, obj), new, n)]
        if op == "+" and len(vals) == 2 and "basic_string" in t.ret:
            return [(st, ("cat", self.text(E, st, vals[0]) + self.text(E, st, vals[1])))]
        if "basic_string" in t.cls and name in ("c_str", "data"):
            return [(st, ("cat", self.text(E, st, obj)))]
        # sets of names
        if "set<" in t.cls and obj is not None:
            s = E.storage(st, obj)
            v = self.vset(E.load(st, s) if s[0] in ("var", "fld") else s)
            if v is not None:
                return self.names(E, ctx, st, n, name, s, v, [self.N(E, st, x) for x in vals], at)
        if t.q.startswith("std::function") and op == "()":
            return self.callback(E, ctx, st, n, obj, [self.N(E, st, x) for x in vals], at)
        return None

    def inside(self, E, ctx, st, n, t, obj, vals, args):
        return None

    def callback(self, E, ctx, st, n, obj, vals, at):
        return None

    def transformed(self, E, ctx, st, n, o, visitor):
        return [(st, ("tast", o))]

    def allowed(self, st, o, a, at):
        """Does the node have the attribute?"""
        fs = facts(st)
        for k, names in HAS.items():
            if self.kind(fs, o, k) is True and a not in names and a != "location":
                self.bad("a node of kind %s does not have the attribute %s used at %s" % (k, a, at), "attribute|%s|%s" % (k, a), at)

    def replace(self, st, o, v, at):
        if o[0] != "elem" or self.over(o[1])[0] != "vec" or self.over(o[1])[1][0] != "copy":
            self.bad("elements of a node that is not a copy are changed at %s" % at, "inplace", at)
            return [(st, ("x",))]
        if any(x[0] == "repl" and x[1] == o[1] for x in st.rs):
            self.bad("an element is replaced twice", "twice", at)
        return [(self.add(st, ("repl", o[1], v)), ("x",))]

    # -- sets of variable names
    def vset(self, v):
        v = unwas(v)
        while v[0] in ("mut", "copyof", "ref") and isinstance(v[1], tuple):
            v = v[1]
        if v[0] == "vset":
            return v[1]
        if v[0] == "new" and "set<" in v[1]:
            if not v[2] or "less" in str(v[2]) or "alloc" in str(v[2]):
                return frozenset()
            if len(v[2]) == 1:
                return self.vset(v[2][0])
        return None

    def names(self, E, ctx, st, n, name, s, v, vals, at):
        def store(new):
            return [(x, ("pair",)) for x in E.assign(ctx, st, s, ("vset", frozenset(new)), n)]
        if name in ("emplace", "insert") and len(vals) == 1:
            x = vals[0]
            if x[0] == "get" and x[2] == "name" and ("visiting",) in {y[:1] for y in st.rs}:
                return [(self.add(st, ("got", x[1], s)), ("pair",))]
            if x[0] == "s":
                return store(v | {("name", x[1])})
            return store(v | {("odd",)})
        if name == "erase" and len(vals) == 1:
            x = vals[0]
            if not v:
                return store(v)
            if x == ("s", "_"):
                return store(v | {("minus", "_")})
            if x[0] == "elem":
                c = self.vset(self.over(x[1]))
                if c is not None:
                    return store(v | {("minus", y[1]) for y in c if y[0] == "vars"})
            return store(v | {("odd",)})
        if name in ("begin", "end", "cbegin", "cend"):
            return [(st, ("beg" if "beg" in name else "fin", ("vset", v)))]
        if name in ("find", "count", "contains"):
            return [(st, ("lookup", ("vset", v), vals[0]))]
        return None

    def visit(self, E, ctx, st, n, o, lam):
        lam = unwas(lam)
        ids = [x for x in ((lam[1],) + tuple(lam[2])) if x in self.prog.fns] if lam[0] == "lam" else []
        if not ids:
            return None
        child = ("child", n.i)
        st0 = st.forget(lambda x: contains(x, lambda y: y == child))
        out = {}
        kept = None
        got = False
        for s, r in E.follow(ctx, self.add(st0, ("visiting",)), n, self.prog.fns[ids[0]].info, ("lamobj",), [child]):
            fs = facts(s)
            var = self.kind(fs, child, "variable")
            g = [x for x in s.rs if x[0] == "got" and x[1] == child]
            if g and var is not True:
                self.bad("names that are not those of variables are collected", "collect")
            if not g and var is not False:
                self.bad("the names of variables are not collected", "collect")
            if unwas(r) != ("b", True) and var is not True:
                self.bad("variables nested in terms are not collected", "nested")
            for x in g:
                out[x[2]] = True
        src = self.over(o[1]) if o[0] == "elem" else o
        res = [st0]
        for s in out:
            old = self.vset(E.load(st0, s))
            if old is None:
                return None
            res = [x for y in res for x in E.assign(ctx, y, s, ("vset", old | {("vars", self.plain(src))}), n)]
        return [(s, ("x",)) for s in res]

    def plain(self, v):
        return ("vec", base(v[1]), v[2]) if v[0] == "vec" else v

    # -- loops
    def declare(self, E, ctx, st, d, value, n):
        v = self.N(E, st, value)
        if v[0] == "beg" and not d["t"].endswith("&"):
            c = ("cur", ctx.fn.unit, d["d"], v[1])
            if d.get("name", "").startswith("__begin"):
                c = ("rg", v[1])
                return st, ("x", n.i, d["d"])
            return st, c
        if d.get("name", "").startswith("__end"):
            return st, ("x", n.i, d["d"])
        if v[0] in ("copy", "get", "vec", "elem", "child", "fin", "cat") and not d["t"].endswith("&"):
            return st, v
        if "set<" in d["t"] and self.vset(value) is not None and not d["t"].endswith("&"):
            return st, ("vset", self.vset(value))
        return st, value

    def branch(self, E, ctx, st, term, value):
        t, b = (term[1], not value) if term[0] == "!" else (term, value)
        if t[0] == "more":
            return self.step(E, ctx, st, t[1], b)
        if t[0] == "<" and t[2][0] == "size":
            if t[1] == ("i", 0) or t[1][0] in ("phi", "ctr"):
                return self.step(E, ctx, st, ("at", t[2][1], t[1]), b)
        return st

    def range(self, E, ctx, st, container, more):
        c = self.N(E, st, container)
        v = self.vset(c)
        if v is not None:
            c = ("vset", v)
        return self.step(E, ctx, st, ("rg", c), more)

    def step(self, E, ctx, st, c, more):
        v = self.over(c)
        if v[0] not in ("vec", "vset", "unpooled"):
            return st
        if v[0] == "vset" and not any(x[0] == "vars" for x in v[1]):
            return None if more else st
        for x in st.rs:
            if x[0] == "in" and self.same(self.over(x[1]), v) and x[1][0] == c[0]:
                st = self.close(E, ctx, st, x[1])
        st = st.forget(lambda x: contains(x, lambda y: y == ("elem", c)))
        if more:
            st = self.drop(st, lambda x: contains(x, lambda y: y == ("elem", c)))
            return self.add(st, ("in", c), ("nonempty", v))
        if ("nonempty", v) not in st.rs:
            if v[0] == "vec" and any(t[0] == "==" and b and ("i", 1) in t[1:] and ("size", self.plain(v)) in t[1:] for t, b in facts(st).items()):
                return None
            if v[0] != "vec" or v[2] in ("condition", "elements"):
                st = self.add(st, ("empty", self.plain(v)))
        elif v[0] != "vset" and (v[0] != "vec" or v[2] == "elements"):
            st = self.add(st, ("looped", v))
        return self.drop(st, lambda x: x == ("nonempty", v))

    def same(self, a, b):
        return a == b or self.plain(a) == self.plain(b)

    def close(self, E, ctx, st, c):
        return self.drop(st, lambda x: x == ("in", c))

    # -- names of theory atoms
    def named(self, st, term, names):
        """The possible names among the given ones: those asserted, those excluded, and whether all are excluded."""
        fs = facts(st)
        yes, no, none = set(), set(), False
        if self.case and self.isterm(base(term)):
            yes, no = {self.case[1]}, set(names) - {self.case[1]}
        for t, b in fs.items():
            x = None
            if t[0] == "==" and ("i", 0) in t[1:]:
                x = [y for y in t[1:] if y[0] == "strcmp"]
                if x and ("get", base(term), "name") in x[0][1:]:
                    s = [y[1] for y in x[0][1:] if y[0] == "s"]
                    (yes if b else no).update(s)
            if t[0] == "smatch" and t[1] == ("get", base(term), "symbol") and t[2][0] == "s" and t[3] == ("i", 0):
                (yes if b else no).add(t[2][1])
            if t[0] == "==" and ("i", 0) in t[1:] and ("get", base(term), "external") in t[1:] and not b:
                none = True
            if t[0] == "==" and ("i", 0) in t[1:] and ("size", ("vec", base(term), "arguments")) in t[1:] and not b:
                none = True
        if self.kind(fs, term, "function") is False and self.kind(fs, term, "symbolic_term") is False:
            none = True
        return yes, none or set(names) <= no


class Statement(Tree):
    """The function that rewrites a statement."""

    def init(self):
        self.visitors = []
        self.shifted = self.passed = 0

    def transformed(self, E, ctx, st, n, o, visitor):
        v = unwas(visitor)
        self.visitors.append(v)
        return [(st, ("tast", o))]

    def callback(self, E, ctx, st, n, obj, vals, at):
        self.res.ok(self.main, "%s: statement passed on" % at)
        self.passed += 1
        if vals[0][0] != "tast":
            self.bad("a statement is passed on without being rewritten at %s" % at, "plain", at)
        else:
            self.statement(E, st, vals[0][1], at)
        c = [x[1] for x in st.rs if x[0] == "in" and self.over(x[1])[0] == "unpooled"]
        if not c:
            self.bad("statements are passed on outside the loop over them at %s" % at, "outside", at)
            return [(st, ("x",))]
        if ("called", c[0]) in st.rs:
            self.bad("a statement is passed on twice at %s" % at, "twice", at)
        return [(self.add(st, ("called", c[0])), ("x",))]

    def close(self, E, ctx, st, c):
        if self.over(c)[0] == "unpooled":
            if ("called", c) not in st.rs:
                self.bad("a statement is not passed on", "lost")
            st = self.drop(st, lambda x: x[0] in ("called", "asg", "set", "erase"))
        return self.drop(st, lambda x: x == ("in", c))

    def original(self, x):
        if x[0] != "elem" or self.over(x[1])[0] != "unpooled":
            return False
        u = self.over(x[1])
        return u[1] == ("arg", 0, self.params[0]) and all(y == ("b", True) for y in u[2:])

    def statement(self, E, st, x, at):
        while x[0] == "copy" and not self.mods(st, x):
            x = x[2]
        if x[0] != "copy":
            if not self.original(x):
                self.bad("another statement than the one given is passed on at %s" % at, "other", at)
            return
        self.shifted += 1
        b = x[2]
        if not self.original(b):
            self.bad("another statement than the one given is passed on at %s" % at, "other", at)
            return
        fs = facts(st)
        ms = self.mods(st, x)
        bad = lambda m, k: self.bad("shifting: " + m, "shift|" + k)
        flag = fs.get(("arg", 2, self.params[2])) if len(self.params) > 2 else True
        if flag is not True:
            bad("constraints are shifted although this is disabled", "flag")
        heads = [m for m in ms if m[0] == "set"]
        erased = [m for m in ms if m[0] == "erase"]
        if len(ms) != 2 or len(heads) != 1 or heads[0][2] != "head" or len(erased) != 1 or erased[0][1][2] != "body":
            bad("other parts than the head and one body literal are changed", "parts")
            return
        if self.kind(fs, b, "rule") is not True:
            bad("statements that are not rules are changed", "rule")
        hd = ("get", b, "head")
        atom = ("get", hd, "atom")
        if self.kind(fs, hd, "literal") is not True or self.kind(fs, atom, "boolean_constant") is not True:
            bad("heads that are not Boolean constants are replaced", "head")
        for value in (0, 1):
            for sign in (0, 1, 2):
                if value != (sign == 1) and self.consistent(fs, {("get", atom, "value"): value, ("get", hd, "sign"): sign}):
                    bad("a head that is not false is replaced (constant %d, sign %d)" % (value, sign), "true")
        H = heads[0][3]
        if H[0] == "copy":
            at_ = H[2]
        else:
            at_ = H
        if at_[0] != "get" or at_[2] != "atom" or at_[1][0] != "elem" or self.plain(self.over(at_[1][1])) != ("vec", b, "body"):
            bad("the new head is not the atom of a body literal", "newhead")
            return
        lit = at_[1]
        if self.kind(fs, lit, "literal") is not True or self.kind(fs, at_, "theory_atom") is not True:
            bad("other elements than theory atoms are moved to the head", "atom")
        # the literal erased
        p = dict(lin(erased[0][2]))
        beg = ("beg", ("vec", x, "body"))
        k = p.pop(beg, 0)
        c = lit[1]
        if c[0] == "cur":
            p[c] = p.get(c, 0) - 1
            o = ("beg", c[3])
            p[o] = p.get(o, 0) + 1
            wrong = any(p.values())
        elif c[0] == "at":
            for t, v in lin(c[2]).items():
                p[t] = p.get(t, 0) - v
            wrong = any(p.values())
        else:
            wrong = not p or set(p) == {None}
        if k != 1 or wrong:
            bad("the literal erased is not the one moved to the head", "erased")
        # names
        yes, _ = self.named(st, ("get", at_, "term"), SHIFTED)
        if not yes or not yes <= SHIFTED:
            bad("theory atoms other than sums and differences are moved to the head", "name")
            return
        neg = None
        for t, v in fs.items():
            if t[0] == "==" and ("get", lit, "sign") in t[1:]:
                if ("i", 1) in t[1:]:
                    neg = v
                elif v:
                    neg = False
        gs = self.mods(st, H) if H[0] == "copy" else []
        if neg is True:
            if gs:
                bad("the relation of a negated atom is changed", "negated")
            return
        if neg is None:
            bad("the sign of the literal is not considered", "sign")
        if not yes <= {"sum"}:
            bad("a difference constraint is negated", "diff")
        if len(gs) != 1 or gs[0][0] != "set" or gs[0][2] != "guard":
            bad("the relation of the atom is not negated", "relation")
            return
        G = gs[0][3]
        g = ("get", at_, "guard")
        om = [m for m in self.mods(st, G)] if G[0] == "copy" else []
        if G[0] != "copy" or G[2] != g or len(om) != 1 or om[0][0] != "set" or om[0][2] != "operator_name":
            bad("the guard of the atom is not the former one with its relation negated", "guard")
            return
        new = self.N(E, st, om[0][3])
        if new[0] == "cat" and len(new[1]) == 1:
            new = new[1][0]
        rel = ("get", g, "operator_name")
        old = {s[1] for t, v in fs.items() if v and t[0] == "==" and ("i", 0) in t[1:] for y in t[1:] if y[0] == "strcmp" and rel in y[1:] for s in y[1:] if s[0] == "s"}
        if new[0] != "s":
            if any(s_[0] == "alloc" for s_ in new[1:] if isinstance(s_, tuple)) or new != rel:
                raise AnalysisBroken("%s: unknown relation" % at)
            bad("the relation of the atom is not negated", "relation")
            return
        if len(old) != 1 or NEG.get(list(old)[0]) != new[1]:
            bad("the negation of the relation %s is not %s" % ("/".join(sorted(old)) or "?", new[1]), "table|%s" % new[1])

    def consistent(self, fs, val):
        for t, b in fs.items():
            if t[0] == "==":
                x = [y for y in t[1:] if y in val]
                k = [y for y in t[1:] if y[0] == "i"]
                if x and k and (val[x[0]] == k[0][1]) != b:
                    return False
            if t in val and bool(val[t]) != b:
                return False
        return True


class Visitor(Tree):
    """The function that rewrites nodes."""

    def init(self):
        self.fields = {}
        self.inner = set()
        self.exits = 0
        self.tags = set()
        self.numbers = set()

    def enter(self, E, ctx, st):
        if ctx.parent is None:
            for f, v in self.fields.items():
                st = st.set(("f", ("this", self.cls), f), v)
        return st

    def snapshot(self, st):
        return tuple(sorted(((k[2], v) for k, v in st.env.items() if k[0] == "f" and k[1] == ("this", self.cls)), key=repr))

    def transformed(self, E, ctx, st, n, o, visitor):
        v = unwas(visitor)
        while v[0] in ("ref", "copyof", "deref"):
            v = v[1]
        if v != ("this", self.cls) and not (v[0] == "new" and v[1] == self.cls):
            self.bad("children of a node are rewritten in another way", "visitor", ctx.fn.at(n))
        snap = self.snapshot(st)
        if v[0] == "new":
            names = v[3] if len(v) > 3 else [f["name"] for f in self.prog.records[self.cls]["fields"]]
            snap = tuple(sorted(((f, unwas(x)) for f, x in zip(names, v[2])), key=repr))
            if len(snap) != len(self.fields):
                raise AnalysisBroken("%s: state of the visitor is not known" % ctx.fn.at(n))
        if self.kind(facts(st), o, "literal") is True:
            self.inner.add(snap)
        elif self.kind(facts(st), o, "literal") is None:
            self.bad("the literals are not distinguished when children are rewritten", "literal", ctx.fn.at(n))
        elif snap != self.start(st):
            self.bad("the children of other nodes are considered to be in literals", "outer", ctx.fn.at(n))
        return [(st, ("tast", o))]

    def start(self, st):
        return tuple(sorted(self.fields.items(), key=repr))

    def close(self, E, ctx, st, c):
        v = self.over(c)
        if v[0] == "vec" and v[2] == "elements":
            self.element(E, ctx, st, c)
            e = ("elem", c)
            st = self.drop(st, lambda x: contains(x, lambda y: y == e) or x[0] == "empty" and x[1][0] == "vset" or x[0] == "repl" and x[1] == c)
        if v[0] == "vset":
            st = self.pushed(E, ctx, st, c)
        return self.drop(st, lambda x: x == ("in", c) or x[0] in ("inc", "low") and v[0] == "vec" and v[2] == "elements")

    def pushed(self, E, ctx, st, c):
        """One iteration over the names of variables."""
        e = ("elem", c)
        ps = [x for x in st.rs if x[0] == "push" and len(x[2]) == 4 and x[2][:2] == ("mk", ("i", T["variable"])) and x[2][3] == e]
        fs = facts(st)
        anon = any(t[0] == "==" and b and ("i", 0) in t[1:] and ("strcmp", e, ("s", "_")) in t[1:] for t, b in fs.items())
        known = any(t[0] == "==" and ("i", 0) in t[1:] and ("strcmp", e, ("s", "_")) in t[1:] for t, b in fs.items())
        st = self.drop(st, lambda x: x in ps)
        if not ps:
            if not any(x[0] == "vars" and x[1][2] == "condition" for x in self.over(c)[1]):
                return st
            if not anon and any(x[0] == "pushing" for x in st.rs) or not anon and not any(t[0] == "lookup" or any(y[0] == "lookup" for y in t[1:] if isinstance(y, tuple)) for t in fs):
                return self.add(st, ("skipped", self.over(c)))
            return st
        if len(ps) > 1:
            return self.add(st, ("odd", ps[0][1], "var"))
        x = ("vars", ps[0][1], self.over(c), known and not anon)
        return self.add(st, x)

    def element(self, E, ctx, st, c):
        v = self.over(c)
        bad = lambda m, k: self.bad("elements: " + m, "element|" + k)
        rs = [x for x in st.rs if x[0] == "repl" and x[1] == c]
        self.res.ok(self.main, "%s: elements of theory atoms" % self.loc)
        if len(rs) != 1:
            bad("an element is not rewritten", "missing")
            return
        W = rs[0][2]
        e = ("elem", c)
        if W[0] != "copy" or base(W) != e:
            bad("an element is not replaced by a copy of it", "copy")
            return
        ms = self.mods(st, W)
        vec = ("vec", W, "terms")
        if any(m[0] != "push" or m[1] != vec for m in ms):
            bad("other parts than the tuple of an element are changed", "parts")
        fs = facts(st)
        one = any(t[0] == "==" and b and ("i", 1) in t[1:] and ("size", ("vec", e, "terms")) in t[1:] for t, b in fs.items())
        if not one:
            bad("tuples of other lengths than one are accepted", "length")
        nums = [m[2][3] for m in ms if m[2][:2] == ("mk", ("i", T["symbolic_term"])) and len(m[2]) == 4]
        other = [m for m in ms if not (m[2][:2] == ("mk", ("i", T["symbolic_term"])) and len(m[2]) == 4)]
        if other:
            bad("other terms are added to the tuple", "terms")
        size = ("size", ("vec", base(v[1]), "elements"))
        many = None
        for t, b in fs.items():
            if t == ("<", ("i", 1), size):
                many = b
            if t == ("<", size, ("i", 2)):
                many = not b
            if t[0] == "==" and size in t[1:] and ("i", 1) in t[1:] and b:
                many = False
            if t == ("==", size, ("i", 1)) and not b or t == ("==", ("i", 1), size) and not b:
                many = True if many is None else many
        if len(nums) > 1 or nums and nums[0][0] != "num":
            bad("several numbers are added to the tuple", "numbers")
        elif nums:
            x = nums[0][1]
            self.numbers.add(x)
            if many is not False and ("inc",) not in st.rs and not self.index(c, x):
                bad("elements have the same number", "same")
        else:
            # the number is omitted only if there is one element
            if many is not False and ("low",) not in st.rs and not self.negative(fs):
                bad("elements are not numbered although there are several", "number")
        # variables of the condition
        cond = ("vec", e, "condition")
        tup = ("vec", e, "terms")
        vs = [x for x in st.rs if x[0] == "vars" and x[1] == vec]
        if ("empty", cond) in st.rs and not any(x[2][1] - {("minus", "_"), ("minus", tup)} for x in vs):
            return
        sets = {x[2] for x in vs}
        done = False
        if any(x[0] == "in" and self.plain(self.over(x[1])) in (cond, tup) for x in st.rs):
            bad("the variables of some literals of the condition are not added to the tuple", "open")
        for s in sets:
            items = s[1]
            if ("vars", cond) in items:
                done = True
            if any(i[0] == "odd" or i[0] == "name" or i[0] == "minus" and i[1] not in ("_", tup) for i in items):
                bad("the variables added to the tuple are not those of the condition", "variables")
            if any(i[0] == "vars" and i[1] not in (cond, tup) for i in items):
                bad("the variables added to the tuple are not those of the condition", "variables")
            if ("minus", "_") not in items and not all(x[3] for x in vs if x[2] == s):
                bad("anonymous variables are added to the tuple", "anonymous")
        if any(x[0] == "skipped" for x in st.rs):
            bad("variables of the condition are not added to the tuple", "skipped")
        if not done and not self.drained(st, cond, tup):
            bad("the variables of the condition are not added to the tuple", "novariables")

    def negative(self, fs):
        """A counter is known to be negative."""
        for t, b in fs.items():
            if t[0] == "<" and b and t[2] == ("i", 0) and t[1][0] in ("phi", "ctr") or \
                    t[0] == "<" and not b and t[1] == ("i", -1) and t[2][0] in ("phi", "ctr") or \
                    t[0] == "<=" and not b and t[1] == ("i", 0) and t[2][0] in ("phi", "ctr"):
                return True
        return False

    def index(self, c, x):
        return c[0] == "at" and x == c[2]

    def drained(self, st, cond, tup):
        """The loop over the set of names had no iteration."""
        for x in st.rs:
            if x[0] == "empty" and x[1][0] == "vset":
                items = x[1][1]
                if ("vars", cond) in items and all(i in (("vars", cond), ("minus", "_"), ("minus", tup), ("vars", tup)) for i in items):
                    return True
        return False

    def local(self, E, ctx, st, lv, value, n):
        old, v = unwas(E.load(st, lv)), unwas(value)
        if lin(v) == lin(arith("+", old, ("i", 1))) and any(x[0] == "in" and self.over(x[1])[0] == "vec" and self.over(x[1])[2] == "elements" for x in st.rs) and \
                E.effects._dtype.get((lv[1], lv[2]), "") in ("int", "unsigned int", "long", "unsigned long", "size_t"):
            c = ("ctr", lv[1], lv[2])
            if old == c and self.negative({t: b for t, b in facts(st).items() if c in t[1:]}):
                st = self.add(st, ("low",))
            st = self.add(st.forget(lambda x: contains(x, lambda y: y == c)), ("inc",))
            return st, c
        return st, value

    def finish(self, E, st, ret):
        self.exits += 1
        arg = ("arg", 0, self.params[0])
        V = self.N(E, st, ret)
        fs = facts(st)
        term = ("get", arg, "term")
        self.res.ok(self.main, "%s: path of the function that rewrites nodes (%s)" % (self.loc, self.what))
        if V == ("tast", arg):
            if self.kind(fs, arg, "theory_atom") is False or self.kind(fs, arg, "literal") is True:
                return
            yes, none = self.named(st, term, REWRITTEN)
            if not none:
                self.bad("constraints are not rewritten", "missing")
            return
        if V[0] != "copy" or base(V) != arg:
            self.bad("the node returned is not the one given", "returned")
            return
        yes, none = self.named(st, term, REWRITTEN)
        if self.kind(fs, arg, "theory_atom") is not True or not yes or not yes <= REWRITTEN:
            self.bad("other nodes than constraints are changed", "changed")
            return
        ms = self.mods(st, V)
        sets = [m for m in ms if m[0] == "set"]
        vec = ("vec", V, "elements")
        if ("looped", vec) not in st.rs and ("empty", self.plain(vec)) not in st.rs:
            self.bad("the elements are not rewritten", "elements")
        if any(m[0] in ("push", "erase", "odd") for m in ms) or any(m[2] != "term" for m in sets):
            self.bad("other parts of constraints are changed", "parts")
        if not yes & TAGGED:
            if sets:
                self.bad("the name of a constraint is changed that is not a sum or difference", "name")
            return
        if not yes <= TAGGED:
            return
        if len(sets) != 1:
            self.bad("the name of a sum or difference is not changed", "noname")
            return
        W = sets[0][3]
        if W[0] != "copy" or base(W) != term:
            self.bad("the name of a constraint is not derived from the former one", "term")
            return
        ws = self.mods(st, W)
        if len(ws) != 1 or ws[0][0] != "set" or ws[0][2] not in ("name", "symbol"):
            self.bad("the name of a constraint is not changed", "term")
            return
        x = self.N(E, st, ws[0][3])
        parts = x[1] if x[0] in ("cat", "fun") else ()
        if x[0] == "fun" and (self.kind(fs, term, "symbolic_term") is not True or any("new" != y[0] or y[2] for y in x[2:] if y[0] != "b")):
            pass
        old = ("get", term, "name") if self.kind(fs, term, "function") is True else ("symname", ("get", term, "symbol"))
        flat = []
        for p in parts:
            if p[0] == "s" and flat and flat[-1][0] == "s":
                flat[-1] = ("s", flat[-1][1] + p[1])
            else:
                flat.append(p)
        if len(flat) != 3 or flat[0] != ("s", "__") or flat[1] != old or flat[2][0] != "s":
            self.bad("the name of a sum or difference is not of the form __name_x", "form")
            return
        if flat[2][1] != self.tag:
            self.bad("a constraint in the %s is marked %s instead of %s" % (self.what, flat[2][1], self.tag), "tag|%s" % self.tag)
        self.tags.add(flat[2][1])


CASES = [(k, n) for k in ("function", "symbolic_term") for n in sorted(REWRITTEN) + ["?"]] + [("function", "show"), ("function", "dom"), ("variable", "?")]


def run(prog, res, tier):
    res.rule("rewrite", "statements are passed on with the meaning they have, and constraints are marked and get distinct elements")
    eff = Effects(prog)
    fns = [i for i in prog.info.values() if i.body is not None and i.q == "Clingcon::transform" and not i.cls]
    if len(fns) != 1:
        raise AnalysisBroken("the function that transforms statements was not found")
    top = fns[0]

    def statement(case, res):
        r = Statement(res)
        r.prog, r.loc, r.case = prog, top.body.loc, case
        r.params = [p["name"] for p in top.body.params]
        r.isterm = lambda n: n[0] == "get" and n[2] == "term" and n[1][0] == "get" and n[1][2] == "atom" and n[1][1][0] == "elem" and r.plain(r.over(n[1][1][1]))[0] == "vec"
        E = Engine(prog, r, eff)
        E.MAXKEYS = 400
        exits = E.analyse(top, frozenset())
        res.funcs(E.fns_seen)
        res.ok("rewrite", "%s: function that transforms statements (body atom %s)" % (r.loc, case))
        if not r.passed:
            res.bad("rewrite", r.loc, "statements are not passed on", key="rewrite|none")
        for st, ret in exits:
            if not any(x[0] in ("looped", "empty") and x[1][0] == "unpooled" for x in st.rs):
                res.bad("rewrite", r.loc, "statements are not unpooled", key="rewrite|unpool")
        return r.visitors

    visitors = [v for vs in parallel(res, CASES, statement) for v in vs]
    if not visitors and res.viol:
        return
    cls = {v[1] for v in visitors if v[0] == "new"}
    if len(cls) != 1 or any(v[0] != "new" for v in visitors):
        raise AnalysisBroken("the class that rewrites nodes was not found: %s" % [show(v) for v in visitors])
    cls = cls.pop()
    ops = [i for i in prog.info.values() if i.body is not None and i.cls == cls and i.name == "operator()"]
    if len(ops) != 1:
        raise AnalysisBroken("the function that rewrites nodes was not found")
    op = ops[0]
    names = [f["name"] for f in prog.records[cls]["fields"]]
    starts = {tuple(sorted(zip(v[3] if len(v) > 3 else names, v[2]), key=repr)) for v in visitors}
    if len(starts) != 1:
        raise AnalysisBroken("nodes are rewritten in different ways")
    start = starts.pop()
    if len(start) != len(names):
        raise AnalysisBroken("the initial state of %s is not known" % cls)

    def nodes(case, res):
        todo = [("head", "_h", dict(start))]
        done = []
        while todo:
            what, tag, fields = todo.pop()
            if (what, fields) in done:
                continue
            done.append((what, fields))
            if len(done) > 8:
                raise AnalysisBroken("too many states of %s" % cls)
            v = Visitor(res)
            v.prog, v.loc, v.cls, v.what, v.tag, v.fields, v.case = prog, op.body.loc, cls, what, tag, fields, case
            v.params = [p["name"] for p in op.body.params]
            v.isterm = lambda n: n == ("get", ("arg", 0, v.params[0]), "term")
            E = Engine(prog, v, eff)
            E.MAXKEYS = 400
            for st, ret in E.analyse(op, frozenset()):
                v.finish(E, st, ret)
            res.funcs(E.fns_seen)
            if not v.inner:
                res.bad("rewrite", v.loc, "the children of literals are not rewritten", key="rewrite|literals")
            for s in v.inner:
                todo.append(("body", "_b", dict(s)))
            if case[1] in TAGGED and not v.tags:
                res.bad("rewrite", v.loc, "constraints are not marked (%s)" % what, key="rewrite|mark|%s" % what)
            if v.numbers and all(x[0] == "i" for x in v.numbers):
                res.bad("rewrite", v.loc, "all elements get the same number", key="rewrite|constant")
            for x in v.numbers:
                if x[0] == "i" and x[1] < 0:
                    res.bad("rewrite", v.loc, "elements get negative numbers", key="rewrite|negative")

    parallel(res, CASES, nodes)
    res.need("rewrite", 10)
