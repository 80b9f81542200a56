"""Variables, their names, and the values that are reported for them."""
from ..absint import Engine, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last
from .c06 import Base, unwas
from .c16 import walk
from .c23 import poly

EXPLANATION = (
    "Path-sensitive symbolic analysis of the functions that create variables, look them up, decide which ones are shown, and report them, once for each "
    "state of the tables they consult; entries, results and reported symbols are compared with the tables.")

MAPS = {"sym_map_": ("S", "V"), "var_map_": ("V", "S")}
TYPES = {"Infimum": 0, "Number": 1, "String": 4, "Function": 5, "Supremum": 7}
SETS = ("show_variable_", "show_signature_")
ADD = ("emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint")
DROP = ("erase", "clear", "extract", "swap", "merge", "operator=")
VARS = ("var2vs_", "var_watches_", "ldiff_", "udiff_")


def field(x):
    """The name of the table an object is."""
    x = unwas(x) if x is not None else None
    while x is not None and x[0] in ("ref", "copyof") and len(x) == 2:
        x = x[1]
    return x[2] if x is not None and x[0] == "fld" and (x[2] in MAPS or x[2] in SETS or x[2] in VARS) else None


def nothing(v):
    """An optional without a value."""
    return any(x == ("glob", "std::nullopt") or x[0] == "new" and "nullopt_t" in str(x[1]) for x in walk(v)) or v[0] == "new" and "optional" in str(v[1]) and not v[2]


class Tables(Base):
    """rs: ("put", table, key, value), ("new", arguments), ("out", kind), ("grow", table, arguments), ("set", place, value)."""
    inline_small = 200
    main = "names"
    what = ""
    case = {}
    entry = {}

    def direct(self, fn):
        return fn.info.inroot and not (fn.info.name == "get_minimize_value" or fn.info.name == "update_minimize")

    def no_inline(self, info):
        return not info.inroot or info.name in ("get_minimize_value", "update_minimize")

    def keep(self, t):
        return False

    def bad(self, msg, key):
        self.res.bad(self.main, self.loc, "%s: %s" % (self.what, msg), key="%s|%s|%s" % (self.main, self.what, key))

    # -- terms ---------------------------------------------------------------
    def canon(self, t):
        """Entries are named by the variable or symbol they consist of."""
        if not isinstance(t, tuple) or not t:
            return t
        if not isinstance(t[0], str):
            return tuple(self.canon(x) for x in t)
        t = (t[0],) + tuple(self.canon(x) if isinstance(x, tuple) else x for x in t[1:])
        if t[0] in ("copyof", "cast", "was", "ref"):
            return t[-1] if isinstance(t[-1], tuple) else t
        if t[0] == "fld" and isinstance(t[1], tuple) and t[2] in ("#0", "#1", "first", "second"):
            j = 0 if t[2] in ("#0", "first") else 1
            b = t[1]
            if b[0] == "elem" and field(b[1]) in MAPS:
                return (MAPS[field(b[1])][j],)
            if b[0] == "found" and b[1] in MAPS:
                k = self.key(b)
                return k if j == 0 else (MAPS[b[1]][1],) if k in (("S",), ("V",)) and k[0] == MAPS[b[1]][0] else ("val", b[1], k)
        if t[0] in ("new", "call", "r") and last(str(t[1])) == "Symbol" and isinstance(t[2], tuple) and len(t[2]) == 1:
            return t[2][0]
        if t[0] in ("call", "r") and last(str(t[1])) == "to_c" and isinstance(t[2], tuple) and t[2]:
            return t[2][0]
        if t[0] == "new" and "optional" in str(t[1]) and len(t[2]) == 1:
            return t[2][0]
        if t[0] == "new" and t[1] == "Clingo::Signature" and len(t[2]) == 3 and t[2][2] == ("b", True):
            return t[:2] + (t[2][:2],) + t[3:]
        return t

    def key(self, f):
        return self.canon(f[2])

    def norm(self, E, st, v):
        for _ in range(4):
            if v is not None and v[0] in ("var", "ref"):
                w = E.load(st, v[1] if v[0] == "ref" and len(v) == 2 else v)
                if w == v:
                    break
                v = w
        return self.canon(unwas(v))

    def same(self, a, b):
        return a == b or poly(a) == poly(b)

    def has(self, table, key):
        """Does the table have an entry (in the case considered)?"""
        if self.entry.get("signature") is not None and table == "show_signature_":
            want = self.entry["signature"]
            if key[0] == "new" and len(key) > 2 and key[2] == want:
                return self.case.get(table)
            return None
        want = self.entry.get(table)
        if want is not None and self.same(key, want):
            return self.case.get(table)
        return None

    def truth(self, t):
        if t[0] == "b":
            return t[1]
        if t[0] == "i":
            return bool(t[1])
        if t[0] == "!":
            v = self.truth(t[1])
            return None if v is None else not v
        if t[0] == "has":
            return self.has(t[1], t[2])
        if t[0] == "null":
            return False
        if t[0] == "fld" and t[2] == "minimize_":
            return self.case.get("minimize")
        if t[0] == "fld" and t[2] == "show_":
            return self.case.get("show")
        if t[0] in ("==", "<") and len(t) == 3:
            a, b = self.canon(unwas(t[1])), self.canon(unwas(t[2]))
            if t[0] == "==":
                for x, y in ((a, b), (b, a)):
                    if x[0] == "TYPE":
                        y = (y[1].value if hasattr(y[1], "value") else y[1],) if y[0] in ("i", "enum") else None
                        if y is None:
                            return None
                        k = y[0] if isinstance(y[0], int) else TYPES.get(last(str(y[0])))
                        return None if k is None or "type" not in self.case else self.case["type"] == k
                    if y == ("null",):
                        v = self.truth(x)
                        return None if v is None else not v
                    if y[0] == "b":
                        v = self.truth(x)
                        return None if v is None else v == y[1]
            n = [int(v) if v is not None else None for v in (self.number(a), self.number(b))]
            if None not in n:
                return n[0] == n[1] if t[0] == "==" else n[0] < n[1]
        return None

    def number(self, t):
        return t[1] if t[0] == "i" else self.truth(t) if t[0] in ("has", "b") else None

    def branch(self, E, ctx, st, term, value):
        t = self.canon(unwas(term))
        v = self.truth(t)
        if v is not None:
            return st if v == value else None
        if t[0] == "more":
            return self.range(E, ctx, st, ("fld", ("x",), t[1]), value)
        if any(x[0] in ("has", "TYPE") for x in walk(t)):
            self.strange.add(show(t)[:120])
        return st

    def range(self, E, ctx, st, container, more):
        return st

    # -- events ----------------------------------------------------------------
    def event(self, E, ctx, st, n, t, obj, vals, args):
        o = None
        if obj is not None:
            o = obj
            if o[0] in ("var", "ref"):
                o = E.load(st, o[1] if o[0] == "ref" and len(o) == 2 else o)
        f = field(o)
        vs = [self.norm(E, st, v) for v in vals]
        if f in MAPS or f in SETS:
            return self.table(E, ctx, st, n, t, f, vs)
        cs = ([self.norm(E, st, obj)] if obj is not None else []) + vs
        op = t.name
        if op in ("operator==", "operator!=", "operator"):
            fs = [x for x in cs if x[0] in ("found", "beg")]
            if len(cs) == 2 and len(fs) == 1 and cs[1 - cs.index(fs[0])][0] == "tend":
                x = fs[0]
                m = ("has", x[1], x[2]) if x[0] == "found" else ("more", x[1])
                if x[0] == "beg":
                    st = st.forget(lambda y: y == m)
                return [(st, m if op == "operator!=" else ("!", m))]
            if len(cs) == 2 and nothing(cs[1]):
                return [(st, ("b", nothing(cs[0]) == (op == "operator==")))]
        if cs and cs[0][0] in ("found", "beg") and op in ("operator->", "operator*", "operator++"):
            if cs[0][0] == "beg":
                return [(st, ("elem", ("fld", ("x",), cs[0][1]), "it", 0) if op != "operator++" else obj)]
            return [(st, cs[0])]
        if obj is not None and "optional" in t.cls and op in ("has_value", "operator bool"):
            v = self.norm(E, st, obj)
            if v[0] == "phi" or v[0] == "x":
                return None
            return [(st, ("b", not nothing(v)))]
        if t.name == "to_c" and t.cls == "Clingo::Symbol":
            return [(st, self.norm(E, st, obj))]
        if t.name == "type" and t.cls == "Clingo::Symbol":
            if self.entry.get("symbol") is not None and not self.same(self.norm(E, st, obj), self.entry["symbol"]):
                return None
            return [(st, ("TYPE",))]
        if op in ("name", "arguments") and t.cls == "Clingo::Symbol" and self.case.get("type", 5) != TYPES["Function"]:
            self.bad("the %s of a symbol that is not a function is requested" % op, "request")
        return self.more(E, ctx, st, n, t, obj, f, vs)

    def table(self, E, ctx, st, n, t, f, vs):
        op = t.name
        if op in ("begin", "cbegin"):
            return [(st, ("beg", f))]
        if op in ("end", "cend"):
            return [(st, ("tend", f))]
        if op == "lower_bound" and f == "var_map_":
            k = ("least", vs[0])
            return [(st, ("found", f, k))]
        if op == "upper_bound":
            return [(st, ("found", f, ("above", vs[0])))]
        if op in ("find", "count", "contains", "at") and vs:
            k = ("new", "Clingo::Signature", tuple(vs)) if f == "show_signature_" and len(vs) == 2 else vs[0]
            if op == "at":
                return [(st, ("fld", ("found", f, k), "second"))]
            return [(st, ("found", f, k) if op == "find" else ("has", f, k))]
        if op == "operator[]" and f in MAPS:
            return [(st, ("fld", ("found", f, vs[0]), "second"))]
        if op in ADD:
            if f in SETS:
                v = ("new", "Clingo::Signature", tuple(vs[:2])) if f == "show_signature_" and len(vs) >= 2 else vs[-1] if vs else ("x",)
                return [(st.with_rs(st.rs | {("put", f, v, None)}), ("x",))]
            if len(vs) == 1 and vs[0][0] == "new" and len(vs[0][2]) == 2:
                vs = list(vs[0][2])
            if len(vs) == 3 and op == "emplace_hint":
                vs = vs[1:]
            if len(vs) != 2:
                self.bad("an entry of %s is not added with a key and a value" % f, "entry")
                return [(st, ("x",))]
            h = self.has(f, vs[0])
            x = ("found", f, vs[0])
            if h is None and not self.isnew(vs[0]):
                self.bad("an entry for something else is added to %s" % f, "other")
            if not h or op == "insert_or_assign":
                st = self.put(st, f, vs[0], vs[1])
            return [(st, ("new", "std::pair<>", (x, ("b", not h))))]
        if op in DROP:
            self.bad("entries of %s are removed" % f, "removed")
        return None

    def isnew(self, k):
        return k == ("NEWV",)

    def put(self, st, f, k, v):
        return st.with_rs(frozenset(x for x in st.rs if x[:3] != ("put", f, k)) | {("put", f, k, v)})

    def write(self, E, ctx, st, lv, value, n):
        p = self.canon(unwas(lv))
        if lv[0] == "fld" and lv[2] == "second" and p[0] in ("val", "S", "V"):
            src = self.canon(unwas(lv[1]))
            if src[0] == "found":
                return [self.put(st, src[1], src[2], self.norm(E, st, value))]
        if p[0] in ("arg", "fld"):
            v, old = self.norm(E, st, value), [x[2] for x in st.rs if x[:2] == ("set", p)]
            if old and v[0] in "+-" and p in v[1:]:
                value = (v[0],) + tuple(old[0] if x == p else x for x in v[1:])
            return [st.with_rs(frozenset(x for x in st.rs if x[:2] != ("set", p)) | {("set", p, self.norm(E, st, value))})]
        return [st]

    def more(self, E, ctx, st, n, t, obj, f, vs):
        return None

    def value(self, st, v):
        """A value with the entries written on the path."""
        def sub(x):
            if not isinstance(x, tuple):
                return x
            if x and x[0] == "val":
                for y in st.rs:
                    if y[0] == "put" and y[1] == x[1] and y[2] == x[2]:
                        return y[3]
            return tuple(sub(y) for y in x)
        return sub(v)

    def perform(self, prog, eff, i, case, entry):
        self.case, self.entry, self.loc, self.strange = case, entry, i.body.loc, set()
        E = Engine(prog, self, eff)
        E.MAXKEYS = 300
        exits = E.analyse(i, frozenset())
        self.res.funcs(E.fns_seen)
        if not exits and self.strange:
            raise AnalysisBroken("conditions not understood: %s" % sorted(self.strange)[0])
        out = []
        for st, ret in exits:
            r = ret
            if r is not None:
                r = self.norm(E, st, r)
            out.append((st, self.value(st, r) if r is not None else None))
        return out

    def boolean(self, r):
        return self.truth(self.canon(r)) if r is not None else None


class Create(Tables):
    """The creation of variables."""
    def more(self, E, ctx, st, n, t, obj, f, vs):
        if t.name == "add_variable" and last(t.cls) == "Solver":
            o = self.norm(E, st, obj)
            if not (o[0] == "idx" and o[1][0] == "fld" and o[1][2] == "solvers_" and o[2] == ("i", 0) or o[0] in ("call", "r") and last(o[1]) == "front"):
                self.bad("variables are not created in the solver all others are copied from", "master")
            if any(x[0] == "new" for x in st.rs):
                self.bad("more than one variable is created for a symbol", "twice")
            return [(st.with_rs(st.rs | {("new", tuple(vs))}), ("NEWV",))]
        return None


class Slots(Tables):
    """The places kept for variables in a solver."""
    def event(self, E, ctx, st, n, t, obj, vals, args):
        o = E.load(st, obj) if obj is not None and obj[0] in ("var", "ref") else obj
        f = field(o)
        if f in VARS:
            vs = [self.norm(E, st, v) for v in vals]
            if t.name == "size":
                k = sum(1 for x in st.rs if x[:2] == ("grow", f))
                return [(st, ("SIZE", f) if k == 0 else ("+", ("SIZE", f), ("i", 1)))]
            if t.name in ("emplace_back", "push_back"):
                if any(x[:2] == ("grow", f) for x in st.rs):
                    self.bad("%s grows by more than one place" % f, "more" + f)
                if len(vs) == 1 and vs[0][0] == "new":
                    vs = list(vs[0][2])
                return [(st.with_rs(st.rs | {("grow", f, tuple(vs))}), ("x",))]
            if t.name == "resize" and vs:
                if not any(self.same(vs[0], ("+", ("SIZE", g), ("i", 1))) for g in VARS):
                    self.bad("%s does not grow by one place" % f, "resize" + f)
                return [(st.with_rs(st.rs | {("grow", f, tuple(vs[1:]))}), ("x",))]
            if t.name in ("pop_back", "clear", "erase", "insert"):
                self.bad("%s is changed by %s" % (f, t.name), "changed" + f)
        return None


class Report(Tables):
    """The symbols a model is extended with. rs: "in" (an element is considered), ("csp",), ("cost",), ("done",)."""
    def keepval(self, k, v):
        return v[0] in ("beg",)

    def range(self, E, ctx, st, container, more):
        f = field(container) or field(E.load(st, container) if container[0] in ("var", "ref") else container)
        if f not in MAPS:
            return st
        self.looped.add(f)
        st = self.close(st)
        return st.with_rs(st.rs | ({"in"} if more else {"over"}))

    def close(self, st):
        if "in" not in st.rs:
            return st
        want = self.case["shown"]
        if want and ("csp",) not in st.rs:
            self.bad("a variable that is shown is not reported", "missing")
        return st.with_rs(st.rs - {"in", ("csp",)})

    def more(self, E, ctx, st, n, t, obj, f, vs):
        if t.q == "Clingo::Function" and vs and vs[0][0] == "s" and vs[0][1].startswith("__csp"):
            return [(st, ("sym", vs[0][1], self.args(vs[1:]), len(vs) < 3 or vs[2] == ("b", True)))]
        if t.name == "thread_id" and t.cls == "Clingo::Model":
            return [(st, ("THREAD",))]
        if t.name == "extend" and t.cls == "Clingo::Model":
            syms = [x for v in vs for x in walk(v) if x[0] == "sym"]
            for s in syms:
                st = self.out(st, s)
            self.extends += 1
            return [(st.with_rs((st.rs - {"pending"})), ("x",))]
        if t.name in ("emplace_back", "push_back", "insert", "emplace") and vs and any(x[0] == "sym" for v in vs for x in walk(v)):
            for s in [x for v in vs for x in walk(v) if x[0] == "sym"][:1]:
                st = self.out(st, s)
            return [(st.with_rs(st.rs | {"pending"}), ("x",))]
        if t.name in ("clear", "pop_back", "erase", "resize") and "vector<Clingo::Symbol" in t.cls:
            self.bad("collected symbols are dropped by %s" % t.name, "dropped")
        return None

    def args(self, vs):
        for v in vs[:1]:
            if v[0] == "new" and v[2] and v[2][0][0] == "new":
                return v[2][0][2]
            if v[0] == "new":
                return v[2]
        return ()

    def out(self, st, s):
        name, args, pos = s[1:]
        if not pos:
            self.bad("%s is reported negatively" % name, "sign")
        if name == "__csp_cost":
            if not self.case["minimize"] or ("cost",) in st.rs or "in" in st.rs:
                self.bad("the cost is reported without an objective or more than once", "cost")
            return st.with_rs(st.rs | {("cost",)})
        if "in" not in st.rs:
            self.bad("a value is reported that does not belong to the variable considered", "outside")
        if not self.case["shown"]:
            self.bad("a variable that is not shown is reported (%s)" % self.kind(), "hidden")
        if ("csp",) in st.rs:
            self.bad("a variable is reported more than once", "again")
        if name != "__csp" or len(args) != 2 or args[0] != ("S",):
            self.bad("variables are not reported under their name", "name")
        else:
            v = args[1]
            if v[0] in ("call", "r") and v[1] == "Clingo::Number" and self.current(v[2][0]):
                pass
            else:
                self.bad("the number reported for a variable is not its value in the thread that found the model", "value")
        return st.with_rs(st.rs | {("csp",)})

    def kind(self):
        return ", ".join("%s=%s" % x for x in sorted(self.case.items()))

    def current(self, v):
        if v[0] != "fld" or v[2] not in ("lower_bound_", "upper_bound_"):
            return False
        return v[1][0] == "idx" and v[1][2] == ("V",) and v[1][1][0] == "fld" and v[1][1][2] == "var2vs_" and \
            v[1][1][1][0] == "idx" and v[1][1][1][2] == ("THREAD",) and v[1][1][1][1][0] == "fld" and v[1][1][1][1][2] == "solvers_"


def one(prog, name, cls=""):
    fns = [i for i in prog.info.values() if i.body is not None and i.name == name and last(i.cls or "") == cls]
    if len(fns) != 1:
        raise AnalysisBroken("%s was not found" % (cls + "::" + name if cls else name))
    return fns[0]


SYM, VAR = ("arg", 0, "symbol"), ("arg", 0, "variable")


def arg(i, j):
    return ("arg", j, i.body.params[j]["name"])


def cases_shown():
    for known in (True, False):
        for sh in (True, False):
            for v in (True, False):
                for ty in sorted(TYPES.values()):
                    for sg in (True, False):
                        if not known and (sh or v or ty or sg) or ty != TYPES["Function"] and sg:
                            continue
                        yield {"var_map_": known, "sym_map_": known, "show": sh, "show_variable_": v, "type": ty, "show_signature_": sg,
                               "shown": known and (not sh or v or sg)}


def signature(sym):
    return (("call", "Clingo::Symbol::name", (sym,)), ("call", "Clingo::Span<Clingo::Symbol>::size", (("call", "Clingo::Symbol::arguments", (sym,)),)))


def run(prog, res, tier):
    res.rule("names", "every symbol has one variable, found under its symbol and its index, with a place in every table of the solver")
    res.rule("shown", "a variable is shown iff there is no show statement, or one for it or its signature")
    res.rule("model", "a model is extended by the value of exactly the variables that are shown")
    res.rule("interface", "indices of the C interface are those of the variables plus one, and enumerated in order")
    eff = Effects(prog)

    # creation
    i = one(prog, "add_variable", "Propagator")
    sym = arg(i, 0)
    for known in (True, False):
        r = Create(res)
        r.what = "creating a variable"
        exits = r.perform(prog, eff, i, {"sym_map_": known, "var_map_": known}, {"sym_map_": sym})
        res.ok("names", "%s: variable for a symbol that is %s" % (r.loc, "known" if known else "new"))
        for st, ret in exits:
            puts = {x[1:] for x in st.rs if x[0] == "put"}
            new = [x for x in st.rs if x[0] == "new"]
            if known:
                if puts or new:
                    r.bad("a known symbol gets another variable", "again")
                if ret != ("val", "sym_map_", sym):
                    r.bad("the variable of a known symbol is not the one found under it", "known")
                continue
            if not new:
                r.bad("no variable is created for a new symbol", "none")
                continue
            a = new[0][1]
            if len(a) != 2 or not all(x[0] == "fld" and x[2] == y and x[1][0] == "fld" and x[1][2] == "config_" for x, y in zip(a, ("min_int", "max_int"))):
                r.bad("a new variable does not range from the configured minimum to the maximum", "bounds")
            if puts != {("sym_map_", sym, ("NEWV",)), ("var_map_", ("NEWV",), sym)}:
                r.bad("a new variable is not entered under its symbol and its index", "enter")
            if ret != ("NEWV",):
                r.bad("the variable returned is not the one created", "result")
    i = one(prog, "add_variable", "Solver")
    r = Slots(res)
    r.what = "places of a variable"
    for st, ret in r.perform(prog, eff, i, {}, {}):
        grown = {x[1]: x[2] for x in st.rs if x[0] == "grow"}
        for f in VARS:
            res.ok("names", "%s: %s" % (r.loc, f))
            if f not in grown:
                r.bad("there is no place for a new variable in %s" % f, f)
            elif f == "var2vs_":
                if len(grown[f]) != 3 or not any(poly(grown[f][0]) == {(("SIZE", g),): 1} for g in VARS) or grown[f][1:] != (arg(i, 0), arg(i, 1)):
                    r.bad("a new variable does not start with its index and the bounds given", f)
            elif any(x != ("i", 0) for x in grown[f]):
                r.bad("a new place in %s is not empty" % f, f)
        if ret is None or not any(poly(ret) == {(("SIZE", g),): 1} for g in VARS):
            r.bad("the index returned is not that of the new place", "index")

    # lookup
    for name, table in (("get_index", "sym_map_"), ("get_symbol", "var_map_")):
        i = one(prog, name, "Propagator")
        for known in (True, False):
            r = Tables(res)
            r.what = name
            for st, ret in r.perform(prog, eff, i, {table: known}, {table: arg(i, 0)}):
                res.ok("names", "%s: %s, %s" % (r.loc, name, "known" if known else "unknown"))
                if known and ret != ("val", table, arg(i, 0)):
                    r.bad("the result is not the entry found", "found")
                if not known and not nothing(ret):
                    r.bad("there is a result although there is no entry", "absent")

    # show statements
    i = one(prog, "shown", "Propagator")
    v = arg(i, 0)
    s = ("val", "var_map_", v)
    for case in cases_shown():
        r = Tables(res)
        r.main, r.what = "shown", "shown variables"
        exits = r.perform(prog, eff, i, case, {"var_map_": v, "show_variable_": v, "signature": signature(s), "symbol": s})
        kind = ", ".join([k for k in ("var_map_", "show", "show_variable_", "show_signature_") if case[k]] + [k for k in TYPES if TYPES[k] == case["type"]])
        res.ok("shown", "%s: %s" % (r.loc, kind))
        for st, ret in exits:
            if r.boolean(ret) is not case["shown"]:
                r.bad("wrong result if only these hold: %s" % kind, kind)
    for name, f in (("show_variable", "show_variable_"), ("show_signature", "show_signature_"), ("show", None)):
        i = one(prog, name, "Propagator")
        r = Tables(res)
        r.main, r.what = "shown", name
        res.ok("shown", "%s: %s" % (i.body.loc, name))
        for st, ret in r.perform(prog, eff, i, {}, {}):
            puts = {x[1:3] for x in st.rs if x[0] == "put"}
            sets = {(x[1][2], x[2]) for x in st.rs if x[0] == "set" and x[1][0] == "fld"}
            if f is None and (puts or ("show_", ("b", True)) not in sets):
                r.bad("the show statement is not remembered", "show")
            if f == "show_variable_" and puts != {(f, arg(i, 0))}:
                r.bad("the variable is not remembered", "variable")
            if f == "show_signature_" and not (len(puts) == 1 and all(x[0] == f and x[1][0] == "new" and x[1][2] == (arg(i, 0), arg(i, 1)) for x in puts)):
                r.bad("the signature is not remembered", "signature")

    # tables only grow
    for fn in prog.fns.values():
        for n in fn.allnodes():
            if n.k == "CXXMemberCallExpr" and n.fn is not None and n.fn.name in DROP or n.k == "CXXOperatorCallExpr" and n.fn is not None and n.fn.name == "operator=":
                m = [x for x in n.kids[:1] if x is not None] if n.k == "CXXMemberCallExpr" else [x for x in n.kids[1:2] if x is not None]
                for x in m:
                    for y in [x] + list(x.kids):
                        if y is not None and y.k == "MemberExpr" and y.get("name") in tuple(MAPS) + SETS:
                            res.bad("names", fn.at(n), "entries of %s are removed" % y.get("name"), key="names|removed|%s" % y.get("name"))

    # models
    i = one(prog, "on_model", "Propagator")
    for case in cases_shown():
        if not case["var_map_"]:
            continue
        for mini in (True, False):
            r = Report(res)
            r.main, r.what, r.looped, r.extends = "model", "reporting a model", set(), 0
            exits = r.perform(prog, eff, i, {**case, "minimize": mini},
                              {"sym_map_": ("S",), "var_map_": ("V",), "show_variable_": ("V",), "signature": signature(("S",)), "symbol": ("S",)})
            res.ok("model", "%s: %s" % (r.loc, r.kind()))
            if len(r.looped) != 1:
                r.bad("the variables are not gone through once", "loop")
            if not r.extends:
                r.bad("the model is not extended", "extend")
            for st, ret in exits:
                if "pending" in st.rs:
                    r.bad("the model is not extended by the symbols collected", "extend")
                if "over" not in st.rs:
                    r.bad("not all variables are considered", "all")
                if mini and ("cost",) not in st.rs:
                    r.bad("the cost is not reported", "cost")

    # C interface
    def api(name, case, entry):
        i = one(prog, name)
        r = Tables(res)
        r.main, r.what = "interface", name
        res.ok("interface", "%s: %s %s" % (i.body.loc, name, case))
        ent = {k: (arg(i, v) if isinstance(v, int) else ("-", arg(i, v[0]), ("i", 1)) if v[1] else ("least", arg(i, v[0]))) for k, v in entry.items()}
        exits = r.perform(prog, eff, i, case, ent)
        return i, r, exits, ent

    def stored(st, place):
        return [x[2] for x in st.rs if x[0] == "set" and x[1] == place]

    for known in (True, False):
        i, r, exits, ent = api("clingcon_lookup_symbol", {"sym_map_": known}, {"sym_map_": 1})
        for st, ret in exits:
            if r.boolean(ret) is not known:
                r.bad("the result does not tell whether there is a variable", "result")
            if known and not any(poly(x) == {(): 1, (("val", "sym_map_", arg(i, 1)),): 1} for x in stored(st, arg(i, 2))):
                r.bad("the index is not that of the variable plus one", "index")
        i, r, exits, ent = api("clingcon_assignment_next", {"var_map_": known}, {"var_map_": (2, False)})
        for st, ret in exits:
            if r.boolean(ret) is not known:
                r.bad("the result does not tell whether there is another variable", "result")
            if known and not any(poly(x) == {(): 1, (("least", arg(i, 2)),): 1} for x in stored(st, arg(i, 2))):
                r.bad("the next index is not that of the next variable", "index")
        i, r, exits, ent = api("clingcon_assignment_has_value", {"var_map_": known}, {"var_map_": (2, True)})
        for st, ret in exits:
            if r.boolean(ret) is not known:
                r.bad("the result does not tell whether there is a variable", "result")
    i, r, exits, ent = api("clingcon_get_symbol", {"var_map_": True}, {"var_map_": (1, True)})
    for st, ret in exits:
        if ret is None or ret[0] != "val" or ret[1] != "var_map_" or not r.same(ret[2], ent["var_map_"]):
            r.bad("the result is not the symbol of the variable", "symbol")
    i, r, exits, ent = api("clingcon_assignment_begin", {}, {})
    for st, ret in exits:
        if stored(st, arg(i, 2)) != [("i", 0)]:
            r.bad("the enumeration does not start before the first variable", "begin")
    i, r, exits, ent = api("clingcon_assignment_get_value", {}, {})
    for st, ret in exits:
        vals = [x[2] for x in st.rs if x[0] == "set" and x[1][0] == "fld" and x[1][2] == "int_number"]
        if len(vals) != 1 or not same_value(vals[0], arg(i, 1), arg(i, 2)):
            r.bad("the value is not that of the variable in the thread given", "value")
        if [x[2] for x in st.rs if x[0] == "set" and x[1][0] == "fld" and x[1][2] == "type"] not in ([("i", 0)], [("enum", "clingcon_value_type_int")]):
            r.bad("the value is not marked as a number", "type")


def same_value(v, thread, index):
    return v[0] == "fld" and v[2] in ("lower_bound_", "upper_bound_") and v[1][0] == "idx" and poly(v[1][2]) == {(index,): 1, (): -1} and v[1][1][0] == "fld" and \
        v[1][1][2] == "var2vs_" and v[1][1][1][0] == "idx" and v[1][1][1][2] == thread and v[1][1][1][1][0] == "fld" and v[1][1][1][1][2] == "solvers_"
