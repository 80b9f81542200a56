"""Arithmetic on values is exact or reports an overflow."""
import itertools

from ..absint import Engine, show
from ..core import AnalysisBroken
from ..effects import Effects
from ..lib import last
from .c06 import Base, unwas

EXPLANATION = (
    "The guarded results of the arithmetic functions are extracted by path-sensitive symbolic analysis (one condition and result per path, with the "
    "conversions between integer types) and compared with the exact operation on all pairs of operands of integer types scaled down to a few bits.")

BITS = {"char": 8, "signed char": 8, "short": 16, "int": 32, "long": 64, "long long": 64, "unsigned char": 8, "unsigned short": 16,
        "unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "__int128": 128}
BITS = {**BITS, "bool": 1}
CASTS = ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr")


def inttype(t):
    """(bits, signed) of an integer type."""
    t = t.replace("const ", "").replace("&", "").strip()
    if "uintwide_t<" in t:
        b = int(t.split("uintwide_t<")[1].split(",")[0])
        return b, t.rstrip().endswith("true>")
    if t in BITS:
        return BITS[t], not t.startswith("unsigned") and t != "bool"
    return None


class Exact(Engine):
    """Keeps the conversions between integer types."""

    def val(self, ctx, st, n):
        if n.k in CASTS and n.get("c") and n.cv is None and ("t", ctx.fn.id, n.i) not in st.env:
            a, b = inttype(n.type), inttype(n.get("c")[0].type)
            if a is not None and b is not None and a != b and b[0] > 1:
                v = Engine.val(self, ctx, st, n.get("c")[0])
                return ("cast", a, v)
            if "double" in n.type and b is not None or a is not None and "double" in n.get("c")[0].type:
                return ("cast", "real" if b is not None else a, Engine.val(self, ctx, st, n.get("c")[0]))
        return Engine.val(self, ctx, st, n)


class Paths(Base):
    def direct(self, fn):
        return fn.info.inroot

    def no_inline(self, info):
        return not info.inroot

    def keep(self, t):
        return True

    def keepval(self, k, v):
        return k[0] == "d"

    def event(self, E, ctx, st, n, t, obj, vals, args):
        if t.name.startswith("__builtin_") and t.name.endswith("_overflow") and len(vals) == 3:
            op = next((b for a, b in (("add", "+"), ("sub", "-"), ("mul", "*")) if a in t.name), None)
            p = args[2] if args[2][0] != "ref" else args[2][1]
            p = p[1] if p[0] == "addr" else p
            ty = inttype(n.get("args")[2].type.replace("*", ""))
            if op is None or p[0] not in ("var", "fld") or ty is None:
                raise AnalysisBroken("%s: cannot evaluate %s%s %s" % (ctx.fn.loc, t.name, vals, ty))
            x = ("exact", op, vals[0], vals[1])
            return [(s, ("nofit", ty, x)) for s in E.assign(ctx, st, p, ("cast", ty, x), n)]
        if t.name in ("operator--", "operator++") and obj is not None:
            o = E.storage(st, obj)
            old = E.load(st, o)
            v = ("+", old, ("i", 1 if t.name == "operator++" else -1))
            return [(s, v if len(vals) == 0 else old) for s in E.assign(ctx, st, o, v, n)]
        if t.name in ("operator-", "operator+", "operator~") and obj is not None and not vals:
            return [(st, ("neg", E.load(st, obj)) if t.name == "operator-" else E.load(st, obj))]
        if t.name in ("operator-", "operator+", "operator*", "operator/", "operator%") and (len(vals) == 2 or obj is not None and len(vals) == 1):
            x = ([E.load(st, obj)] if obj is not None else []) + vals
            return [(st, (t.name[8:],) + tuple(x))]
        return None

    def declare(self, E, ctx, st, d, value, n):
        v = unwas(value)
        r = E.p.records.get(v[1]) if v[0] == "new" else None
        if r is not None and v[2] and len(v) == 3 and len(r["fields"]) == len(v[2]):
            v = ("new", v[1], v[2], tuple(f["name"] for f in r["fields"]))
            return st, v
        return st, value


class Undefined(Exception):
    pass


class Unknown(Exception):
    pass


class Machine:
    """Evaluates terms over integer types scaled by a factor."""

    def __init__(self, base, bits):
        self.base, self.bits = base, bits

    def width(self, t):
        return max(2, self.bits * t[0] // self.base[0])

    def bounds(self, t):
        w = self.width(t)
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[1] else (0, (1 << w) - 1)

    def wrap(self, v, t):
        lo, hi = self.bounds(t)
        return (v - lo) % (hi - lo + 1) + lo

    def fits(self, v, t):
        lo, hi = self.bounds(t)
        if lo <= v <= hi:
            return v
        if t[1]:
            raise Undefined()
        return self.wrap(v, t)

    def join(self, a, b):
        """The type of an operation."""
        if a is None or b is None:
            return a or b
        if a == "real" or b == "real":
            return "real"
        if a == b:
            return a
        if a[0] != b[0]:
            return max(a, b)
        return (a[0], False)

    def ev(self, t, env):
        """(value, type) of a term; the type of constants is None."""
        t = unwas(t)
        k = t[0]
        if k == "i":
            return t[1], None
        if k == "b":
            return int(t[1]), None
        if k == "arg":
            return env[t[1]]
        if k == "cast":
            v, s = self.ev(t[2], env)
            if t[1] == "real":
                return v, "real"
            if s == "real":
                v = int(v)
                lo, hi = self.bounds(t[1])
                if not lo <= v <= hi:
                    raise Undefined()
                return v, t[1]
            return self.wrap(v, t[1]), t[1]
        if k == "exact":
            return self.op(t[1], self.ev(t[2], env)[0], self.ev(t[3], env)[0]), None
        if k == "nofit":
            lo, hi = self.bounds(t[1])
            return int(not lo <= self.ev(t[2], env)[0] <= hi), None
        if k == "neg":
            v, s = self.ev(t[1], env)
            return (-v if s in (None, "real") else self.fits(-v, s)), s
        if k == "!":
            return int(not self.ev(t[1], env)[0]), None
        if k in ("&&", "||"):
            a = self.ev(t[1], env)[0]
            if (k == "||") == bool(a):
                return int(bool(a)), None
            return int(bool(self.ev(t[2], env)[0])), None
        if k == "?":
            return self.ev(t[2] if self.ev(t[1], env)[0] else t[3], env)
        if k in ("+", "-", "*", "/", "%", "<", "<=", "==", "!=", "^", "&", "|", ">", ">=", ">>", "<<") and len(t) == 3:
            (a, s), (b, u) = self.ev(t[1], env), self.ev(t[2], env)
            ty = self.join(s, u)
            if ty not in (None, "real") and not ty[1]:
                a, b = self.wrap(a, ty), self.wrap(b, ty)
            if k in ("<", "<=", "==", "!=", ">", ">="):
                return int({"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b, ">": a > b, ">=": a >= b}[k]), None
            if k in ("/", "%") and b == 0:
                raise Undefined()
            if ty == "real" and k not in ("+", "-", "*"):
                raise Unknown(show(t))
            v = self.op(k, a, b)
            return (v if ty in (None, "real") else self.fits(v, ty)), ty
        if k == "call":
            name = last(t[1])
            if name in ("max", "min", "lowest") and not t[2] and "numeric_limits" in t[1]:
                ty = inttype(t[1].split("<", 1)[1].rsplit(">", 1)[0]) if "limits<" in t[1] else None
                if "numeric_limits_uintwide_t_base<" in t[1]:
                    p = t[1].split("base<")[1].split(">")[0]
                    ty = (int(p.split(",")[0]), p.strip().endswith("true"))
                if ty is None:
                    raise Unknown(show(t))
                return self.bounds(ty)[name == "max"], ty
            if name == "abs" and len(t[2]) == 1:
                v, s = self.ev(t[2][0], env)
                return (abs(v) if s in (None, "real") else self.fits(abs(v), s)), s
            if name == "pow" and len(t[2]) == 2:
                a, b = self.ev(t[2][0], env)[0], self.ev(t[2][1], env)[0]
                return (a ** b if b >= 0 or a != 0 else float("inf")), "real"
            if name in ("max", "min") and len(t[2]) == 2:
                (a, s), (b, u) = self.ev(t[2][0], env), self.ev(t[2][1], env)
                return (max if name == "max" else min)(a, b), self.join(s, u)
        if k == "fld" and t[2] in ("quot", "rem", "first", "second"):
            x = unwas(t[1])
            if x[0] == "call" and last(x[1]) == "div" and len(x[2]) == 2:
                return self.ev(("/" if t[2] in ("quot", "first") else "%", x[2][0], x[2][1]), env)
        raise Unknown(show(t))

    @staticmethod
    def op(k, a, b):
        if k in ("/", "%"):
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return q if k == "/" else a - q * b
        return {"+": a + b, "-": a - b, "*": a * b, "^": a ^ b, "&": a & b, "|": a | b, ">>": a >> max(b, 0), "<<": a << max(b, 0)}[k]


def power(a, b):
    if b >= 0:
        return a ** b
    return None if a == 0 else 1 if a == 1 else (-1) ** b if a == -1 else 0


def quotient(a, b, up):
    return None if b == 0 else -((-a) // b) if up else a // b


NONE = object()  # outside of the domain of the function
TABLE = {
    "safe_add": lambda a, b: a + b,
    "safe_sub": lambda a, b: a - b,
    "safe_mul": lambda a, b: a * b,
    "safe_div": lambda a, b: None if b == 0 else Machine.op("/", a, b),
    # the division is not representable
    "safe_mod": lambda a, b: None if b == 0 else Machine.op("%", a, b),
    "safe_inv": lambda a: -a,
    "safe_pow": power,
    "floordiv": lambda a, b: NONE if b == 0 else quotient(a, b, False),
    "ceildiv": lambda a, b: NONE if b == 0 else quotient(a, b, True),
    "midpoint": lambda a, b: NONE if a > b else (a + b) // 2,
}
PARTIAL = ("floordiv", "ceildiv", "midpoint")  # without check for overflows


def decide(res, i, exits, bits):
    name = i.name
    base = inttype(i.ret)
    if base is None:
        raise AnalysisBroken("%s: unknown type %s" % (i.q, i.ret))
    m = Machine(base, bits)
    lo, hi = m.bounds(base)
    f = TABLE[name]
    types = [inttype(t) for t in i.pt]
    loc = i.body.loc
    what = "%s<%s>" % (name, i.ret.split("<")[0])
    bad = {}
    rows = 0
    for xs in itertools.product(range(lo, hi + 1), repeat=len(types)):
        want = f(*xs)
        if want is NONE:
            continue
        if want is not None and not lo <= want <= hi or name == "safe_mod" and want is not None and not lo <= Machine.op("/", *xs) <= hi:
            want = None
        if want is None and name in PARTIAL:
            continue
        rows += 1
        env = {k: (x, t) for k, (x, t) in enumerate(zip(xs, types))}
        got = []
        for st, ret in exits:
            try:
                if all(bool(m.ev(t, env)[0]) == v for t, v in st.facts.items()):
                    got.append(m.ev(ret, env)[0])
            except Undefined:
                # does an earlier condition exclude the operands?
                if feasible(m, st.facts, env):
                    bad.setdefault("overflow", "%s: the result for %s overflows" % (what, scaled(xs, lo, hi)))
        if want is None and got:
            bad.setdefault("missed", "%s: the overflow for %s is not reported" % (what, scaled(xs, lo, hi)))
        elif want is not None and not got:
            bad.setdefault("refused", "%s: %s is refused" % (what, scaled(xs, lo, hi)))
        elif any(x != want for x in got):
            bad.setdefault("wrong", "%s: the result for %s is wrong" % (what, scaled(xs, lo, hi)))
    for _ in range(len(exits)):
        res.ok("arithmetic", "%s: path of %s compared on %d operands" % (loc, what, rows))
    for k, v in bad.items():
        res.bad("arithmetic", loc, v, key="arithmetic|%s|%s" % (what, k))


def feasible(m, fs, env):
    """Do the conditions that can be evaluated hold (conditions are evaluated in the order of the path)?"""
    for t, v in fs.items():
        try:
            if bool(m.ev(t, env)[0]) != v:
                return False
        except Undefined:
            return True
    return True


def scaled(xs, lo, hi):
    """Operands in relation to the limits of their type."""
    def one(x):
        return "the maximum" if x == hi else "the minimum" if x == lo else "%d" % x if abs(x) <= 2 else "%s%d" % ("maximum - " if x > 0 else "minimum + ", hi - x if x > 0 else x - lo) \
            if min(hi - x, x - lo) <= 2 else "%d of %d" % (x, hi if x > 0 else lo)
    return " and ".join(one(x) for x in xs)


def values(prog, res, E, i):
    """check_valid_value"""
    consts = {}
    for st, ret in E:
        for t, v in st.facts.items():
            for x in t[1:]:
                if x[0] == "i":
                    consts[x[1]] = 1
    lo, hi = -(2 ** 30 - 1), 2 ** 30 - 1
    m = Machine((64, True), 64)
    loc = i.body.loc
    for x in sorted({y + d for y in list(consts) + [lo, hi, 0] for d in (-1, 0, 1)}):
        env = {0: (x, (64, True))}
        got = []
        for st, ret in E:
            if all(bool(m.ev(t, env)[0]) == v for t, v in st.facts.items()):
                got.append(m.ev(ret, env)[0])
        ok = lo <= x <= hi
        if ok and got != [x] * max(1, len(got)) or not ok and got:
            res.bad("arithmetic", loc, "check_valid_value: %d is %s" % (x, "refused or changed" if ok else "accepted"), key="arithmetic|valid|%s" % i.ret)
    for _ in E:
        res.ok("arithmetic", "%s: path of check_valid_value" % loc)


def run(prog, res, tier):
    res.rule("arithmetic", "each path of the arithmetic functions returns the exact result; results that are not representable are reported, and nothing else is")
    eff = Effects(prog)
    bits = {1: 5, 2: 4}
    if tier == "thorough":
        bits = {1: 8, 2: 6}
    seen = set()
    for i in sorted(prog.info.values(), key=lambda x: x.id):
        if i.body is None or not i.q.startswith("Clingcon::") or i.name not in TABLE and i.name != "check_valid_value":
            continue
        if (i.q, tuple(i.pt)) in seen:
            continue
        seen.add((i.q, tuple(i.pt)))
        E = Exact(prog, Paths(res), eff)
        exits = E.analyse(i, frozenset())
        res.funcs(E.fns_seen)
        try:
            if i.name == "check_valid_value":
                values(prog, res, exits, i)
            else:
                decide(res, i, exits, bits[len(i.pt)])
        except Unknown as e:
            raise AnalysisBroken("%s: cannot evaluate %s" % (i.body.loc, e))
    have = {q[0].rsplit("::", 1)[-1] for q in seen}
    for name in list(TABLE) + ["check_valid_value"]:
        if name not in have:
            raise AnalysisBroken("anchor not found: function " + name)
    res.need("arithmetic", 40)
