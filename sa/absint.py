"""A path-sensitive dataflow engine over the resolved control flow graphs.

Values are uninterpreted (Herbrand) terms over inputs, fields and call results.
A rule is a finite automaton (or a small term-indexed monitor) that observes
calls, writes, branches and exits. Two paths are merged at a join iff they agree
on the state of the rule, on the boolean variables, and on the branch facts the
rule asked to keep. Calls of functions that may raise events are followed
(virtual calls into every overrider, lambdas into their bodies); in "memo" mode
their effect is summarised per (function, rule state, constant arguments).
Nothing is executed and no path condition is handed to a solver.
"""
import heapq

from .core import CALLS, CTORS, AnalysisBroken, Node

TRUE = ("b", True)
FALSE = ("b", False)
IDENT = {"std::move", "std::forward", "std::addressof", "std::as_const", "std::ref", "std::cref", "std::make_optional"}


def is_const(t):
    return t[0] in ("b", "i", "s", "null")


def contains(t, pred):
    if not t or not isinstance(t, tuple):
        return False
    if pred(t):
        return True
    for x in t:
        if isinstance(x, tuple) and contains(x, pred):
            return True
    return False


def subst(t, pred, new):
    if not isinstance(t, tuple):
        return t
    if t and pred(t):
        return new
    ch = False
    out = []
    for x in t:
        y = subst(x, pred, new) if isinstance(x, tuple) else x
        if y is not x:
            ch = True
        out.append(y)
    return tuple(out) if ch else t


def show(t, depth=5):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth == 0:
        return ".."
    k = t[0]
    s = lambda x: show(x, depth - 1)
    if k in ("b", "i"):
        return str(t[1])
    if k == "s":
        return '"%s"' % t[1]
    if k == "null":
        return "nullptr"
    if k == "this":
        return "this"
    if k == "fld":
        return s(t[1]) + "." + (t[2] if isinstance(t[2], str) else "%s[%s]" % (t[2][0], s(t[2][1])))
    if k == "idx":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k in ("call", "r"):
        if k == "r":
            return t[1].split("::")[-1] + "()"
        return t[1].split("::")[-1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if k == "var":
        return t[3]
    if k == "arg":
        return t[2]
    if k == "!":
        return "!" + s(t[1])
    if k == "elem":
        return "elem(" + s(t[1]) + ")"
    if k == "new":
        return t[1].split("::")[-1] + "{" + ", ".join(s(x) for x in t[2]) + "}"
    if k in ("==", "<", "+", "-", "*", "/", "%", "&", "|"):
        return "(" + (" " + k + " ").join(s(x) for x in t[1:]) + ")"
    if k == "phi":
        return "phi"
    if k == "lam":
        return "lambda"
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:] if isinstance(x, tuple)))


def tsize(t):
    n = 1
    for x in t:
        if isinstance(x, tuple):
            n += tsize(x)
            if n > 400:
                return n
    return n


def neg(t):
    if t[0] == "b":
        return FALSE if t[1] else TRUE
    if t[0] == "!":
        return t[1]
    if t[0] == "i":
        return TRUE if t[1] == 0 else FALSE
    return ("!", t)


def arith(op, a, b):
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        if op == "+":
            return ("i", x + y)
        if op == "-":
            return ("i", x - y)
        if op == "*":
            return ("i", x * y)
    if op == "+" and a == ("i", 0):
        return b
    if op in ("+", "-") and b == ("i", 0):
        return a
    if op == "-" and b[0] == "i":
        return arith("+", a, ("i", -b[1]))
    if op == "+" and b[0] == "i" and a[0] == "+" and a[-1][0] == "i":
        return arith("+", a[1], ("i", a[-1][1] + b[1]))
    if op in ("+", "*", "&", "|", "^") and b[0] != "i":
        a, b = sorted((a, b), key=repr)
    if op == "+" and a[0] == "i":
        a, b = b, a
    return (op, a, b)


def compare(op, a, b):
    if a[0] in ("i", "b") and b[0] in ("i", "b"):
        x, y = int(a[1]), int(b[1])
        return TRUE if {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op] else FALSE
    if op in ("==", "!="):
        # comparison of a boolean with a constant
        if b[0] == "b":
            r = a if b[1] else neg(a)
        elif a[0] == "b":
            r = b if a[1] else neg(b)
        elif a == b:
            r = TRUE
        elif a[0] == "addr" and b[0] == "null" or a[0] == "null" and b[0] == "addr":
            r = FALSE
        else:
            a, b = sorted((a, b), key=repr)
            r = ("==", a, b)
        return r if op == "==" else neg(r)
    if op == "<":
        return FALSE if a == b else ("<", a, b)
    if op == ">":
        return FALSE if a == b else ("<", b, a)
    if op == "<=":
        return TRUE if a == b else neg(("<", b, a))
    return TRUE if a == b else neg(("<", a, b))


def decide(facts, t):
    """Decide a normalised (non-negated) condition from the facts."""
    v = facts.get(t)
    if v is not None:
        return v
    if t[0] == "==":
        a, b = t[1], t[2]
        if facts.get(("<", a, b)) or facts.get(("<", b, a)):
            return False
        for x, c in ((a, b), (b, a)):
            if is_const(c):
                for f, v in facts.items():
                    if v and f[0] == "==":
                        if f[1] == x and is_const(f[2]) and f[2] != c:
                            return False
                        if f[2] == x and is_const(f[1]) and f[1] != c:
                            return False
    elif t[0] == "<":
        a, b = t[1], t[2]
        if facts.get(("<", b, a)):
            return False
        e = tuple(sorted((a, b), key=repr))
        if facts.get(("==",) + e):
            return False
        # x < c and c' < x
        for x, c, left in ((a, b, True), (b, a, False)):
            if c[0] == "i":
                for f, v in facts.items():
                    if f[0] == "<":
                        if f[1] == x and f[2][0] == "i":  # x < k is v
                            k = f[2][1]
                            if left and v and k <= c[1]:
                                return True
                            if left and not v and k >= c[1]:
                                return False
                            if not left and v and k <= c[1] + 1:
                                return False
                            if not left and not v and k > c[1]:
                                return True
                        if f[2] == x and f[1][0] == "i":  # k < x is v
                            k = f[1][1]
                            if left and v and k + 1 >= c[1]:
                                return False
                            if left and not v and k < c[1]:
                                return True
                            if not left and v and k >= c[1]:
                                return True
                            if not left and not v and k <= c[1]:
                                return False
    return None


def not_scalar(v):
    return v[0] in ("ref", "lam", "elem", "idx")


class State:
    __slots__ = ("env", "facts", "rs", "trail")

    def __init__(self, env, facts, rs, trail=()):
        self.env = env
        self.facts = facts
        self.rs = rs
        self.trail = trail

    def set(self, k, v):
        e = dict(self.env)
        e[k] = v
        return State(e, self.facts, self.rs, self.trail)

    def fact(self, t, v):
        f = dict(self.facts)
        f[t] = v
        return State(self.env, f, self.rs, self.trail)

    def with_rs(self, rs, note=None):
        return State(self.env, self.facts, rs, self.trail if note is None else self.trail + (note,))

    def forget(self, pred):
        """Drop the facts on terms matching the predicate."""
        f = {t: v for t, v in self.facts.items() if not contains(t, pred)}
        return self if len(f) == len(self.facts) else State(self.env, f, self.rs, self.trail)


class Ctx:
    """One activation: a function together with its receiver."""

    def __init__(self, fn, this, parent, site=None):
        self.fn = fn
        self.this = this
        self.parent = parent
        self.site = site
        self.depth = parent.depth + 1 if parent else 0
        self.rs0 = None

    def active(self, fid):
        c = self
        while c is not None:
            if c.fn.id == fid:
                return c
            c = c.parent
        return None

    def path(self):
        """The chain of call sites leading here."""
        res = []
        c = self
        while c is not None:
            res.append(c.fn.info.short)
            c = c.parent
        return " <- ".join(res)


class Rule:
    """Base class of the monitors."""
    memo = False
    max_depth = 40
    inline_small = 45

    def direct(self, fn):
        """Does the body of the function contain events?"""
        return False

    def call(self, E, ctx, st, n, target, obj, args):
        """Intercept a resolved call: None or a list of (state, value)."""
        return None

    def write(self, E, ctx, st, lv, value, n):
        """Observe a write to an lvalue (field, element, or dereference)."""
        return [st]

    def declare(self, E, ctx, st, d, value, n):
        """Observe (and replace) the initial value of a local variable."""
        return st, value

    def local(self, E, ctx, st, lv, value, n):
        """Observe an assignment to a local variable: None or (state, value)."""
        return None

    def branch(self, E, ctx, st, term, value):
        return st

    def range(self, E, ctx, st, container, more):
        """A range-based loop continues with a further element or ends."""
        return st

    def keepval(self, k, v):
        """Values of variables that are not merged where paths meet."""
        return False

    def keep(self, term):
        return False

    def enter(self, E, ctx, st):
        return st

    def leave(self, E, ctx, st, ret):
        """Observe the exit of a followed function: list of (state, ret)."""
        return [(st, ret)]

    def throw(self, E, ctx, st, n):
        pass

    def ret(self, E, ctx, st, n, value):
        return st

    def no_inline(self, info):
        return False


def loop_of(n):
    return n


def last_(q):
    return q.rsplit("::", 1)[-1]


class Engine:
    MAXKEYS = 256

    def __init__(self, prog, rule, effects=None):
        self.p = prog
        self.rule = rule
        self.effects = effects
        self.summaries = {}
        self.inprogress = {}
        self.recursive = set()
        self.order = []
        self.exclude = set()
        self._small = {}
        self._cross = {}
        self._elems = {}
        self._assigned = {}
        self.steps = 0
        self.fns_seen = set()
        self.followed = 0
        cg = prog.callgraph()
        rev = {}
        for f, cs in cg.items():
            for c in cs:
                rev.setdefault(c, set()).add(f)
        self.relevant = set()
        todo = [f.id for f in prog.fns.values() if rule.direct(f)]
        while todo:
            x = todo.pop()
            if x in self.relevant:
                continue
            self.relevant.add(x)
            todo.extend(rev.get(x, ()))

    # ---- static helpers ---------------------------------------------
    def small(self, info):
        r = self._small.get(info.id)
        if r is None:
            f = info.body
            r = False
            if f is not None and f.blocks:
                cnt = sum(1 for _ in f.allnodes())
                loops = any(b.tk in ("WhileStmt", "ForStmt", "CXXForRangeStmt", "DoStmt") for b in f.blocks.values())
                r = cnt <= self.rule.inline_small and not loops
            self._small[info.id] = r
        return r

    def cross(self, fn):
        """Nodes whose value is consumed in a later block."""
        r = self._cross.get(fn.id)
        if r is None:
            home = {}
            for b in fn.blocks.values():
                for e in b.elems:
                    n = e[2] if isinstance(e, tuple) else e
                    if n is not None:
                        home.setdefault(n.i, set()).add(b.id)
            for b in fn.blocks.values():
                if b.tc is not None:
                    home.setdefault(b.tc.i, set()).add(b.id)
            r = set()
            for i, bs in home.items():
                n = fn.nodes.get(i)
                if n is None:
                    continue
                p = n.parent
                while p is not None and p.i not in home:
                    p = p.parent
                if p is not None and not home[p.i] <= bs:
                    r.add(i)
                elif p is not None and len(home[p.i] | bs) > 1:
                    r.add(i)
            self._cross[fn.id] = r
        return r

    def elems(self, fn):
        r = self._elems.get(fn.id)
        if r is None:
            r = {e.i for b in fn.blocks.values() for e in b.elems if isinstance(e, Node)}
            self._elems[fn.id] = r
        return r

    def assigned(self, fid):
        """Keys of the variables a lambda (transitively) assigns."""
        r = self._assigned.get(fid)
        if r is None:
            r = set()
            self._assigned[fid] = r
            f = self.p.fns.get(fid)
            if f is not None:
                for n in f.allnodes():
                    t = None
                    if n.k == "BinaryOperator" and n.get("op") == "=" or n.k == "CompoundAssignOperator":
                        t = n.get("c")[0]
                    elif n.k == "UnaryOperator" and n.get("op") in ("++", "--"):
                        t = n.get("c")[0]
                    elif n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.fn is not None and not n.fn.const:
                        t = n.get("obj")
                    if t is not None and t.k == "DeclRefExpr" and t.get("dk") in ("local", "param", "bind"):
                        r.add(("d", f.unit, t.get("d")))
                    if n.k == "LambdaExpr":
                        if n.fn:
                            r |= self.assigned(n.fn.id)
                        for x in n.get("insts", ()):
                            r |= self.assigned(x.id)
        return r

    # ---- lvalues and values -------------------------------------------
    def lval(self, ctx, st, n):
        k = n.k
        key = ("t", ctx.fn.id, n.i)
        if key in st.env:
            return st.env[key]
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("local", "param", "bind"):
                v = st.env.get(("d", ctx.fn.unit, n.get("d")))
                if v is not None and v[0] == "ref":
                    return v[1]
                if v is not None and v[0] in ("this", "arg") and self.isref((0, ctx.fn.unit, n.get("d"))):
                    return v
                return ("var", ctx.fn.unit, n.get("d"), n.get("name"))
            return self.val(ctx, st, n)
        if k == "MemberExpr":
            if n.fn is not None and not n.get("field"):
                return ("fnref", n.fn.id)
            c = n.get("c")
            if not c:
                return ("glob", n.get("q") or n.get("name"))
            b = c[0]
            obj = self.val(ctx, st, b) if n.get("arrow") else self.lval(ctx, st, b)
            return ("fld", obj, n.get("name"))
        if k == "UnaryOperator" and n.get("op") in ("*",):
            return self.val(ctx, st, n.get("c")[0])
        if k == "ArraySubscriptExpr":
            c = n.get("c")
            return ("idx", self.lval(ctx, st, c[0]), self.val(ctx, st, c[1]))
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXStaticCastExpr",
                 "CXXConstCastExpr", "CXXReinterpretCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
                 "CXXBindTemporaryExpr") and n.get("c"):
            return self.lval(ctx, st, n.get("c")[0])
        if k == "BinaryOperator" and n.get("op") == ",":
            return self.lval(ctx, st, n.get("c")[1])
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and n.get("op") == "="):
            return self.lval(ctx, st, n.get("c")[0])
        if k == "UnaryOperator" and n.get("op") in ("++", "--") and not n.get("post"):
            return self.lval(ctx, st, n.get("c")[0])
        return self.val(ctx, st, n)

    def load(self, st, lv):
        if lv[0] == "var":
            v = st.env.get(("d", lv[1], lv[2]))
            if v is None:
                return lv
            if v[0] == "ref":
                return self.load(st, v[1])
            return v
        if lv[0] == "fld":
            v = st.env.get(("f", lv[1], lv[2]))
            if v is not None:
                return v
            if lv[1][0] == "var":
                b = self.load(st, lv[1])
                if b[0] == "new" and len(b) > 3:
                    for f, v in zip(b[3], b[2]):
                        if f == lv[2]:
                            return v
                if b[0] == "new" and lv[2] in ("first", "second") and len(b[2]) == 2:
                    return b[2][0 if lv[2] == "first" else 1]
                if b != lv[1] and b[0] not in ("new", "phi"):
                    return ("fld", b, lv[2])
            b = self.load(st, lv[1]) if lv[1][0] == "var" else lv[1]
            if b[0] == "new" and isinstance(lv[2], str) and lv[2].startswith("#") and len(b[2]) > 1 and lv[2][1:].isdigit() and int(lv[2][1:]) < len(b[2]) and \
                    ("tuple<" in b[1] or "pair<" in b[1]):
                return b[2][int(lv[2][1:])]
            b = lv[1]
            if b[0] == "new" and lv[2] in ("first", "second") and len(b[2]) == 2:
                return b[2][0 if lv[2] == "first" else 1]
            if b[0] == "new" and len(b) > 3:
                for f, v in zip(b[3], b[2]):
                    if f == lv[2]:
                        return v
        return lv

    def val(self, ctx, st, n):
        key = ("t", ctx.fn.id, n.i)
        v = st.env.get(key)
        if v is not None:
            return self.load(st, v) if n.lv and v[0] in ("var", "fld") else v
        k = n.k
        if n.cv is not None and k not in CALLS and k not in CTORS:
            if n.type in ("bool", "const bool"):
                return TRUE if int(n.cv) else FALSE
            try:
                return ("i", int(n.cv))
            except ValueError:
                pass
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("local", "param", "bind"):
                return self.load(st, ("var", ctx.fn.unit, n.get("d"), n.get("name")))
            if dk == "fn" or n.fn is not None:
                return ("fnref", n.fn.id if n.fn else n.get("name"))
            if dk == "enum":
                return ("enum", n.get("q") or n.get("name"))
            if dk in ("slocal", "tls"):
                return ("glob", "%s:%s" % (ctx.fn.unit, n.get("d")))
            return ("glob", n.get("q") or n.get("name"))
        if k == "MemberExpr":
            return self.load(st, self.lval(ctx, st, n))
        if k == "CXXThisExpr":
            return self.this_of(ctx)
        if k == "UnaryOperator":
            op = n.get("op")
            c = n.get("c")[0]
            if op == "!":
                return neg(self.val(ctx, st, c))
            if op == "-":
                x = self.val(ctx, st, c)
                if x[0] == "i":
                    return ("i", -x[1])
                if x[0] == "neg":
                    return x[1]
                return ("neg", x)
            if op == "+":
                return self.val(ctx, st, c)
            if op == "*":
                return self.load(st, self.val(ctx, st, c)) if n.lv else self.val(ctx, st, c)
            if op == "&":
                return self.lval(ctx, st, c)
            if op in ("++", "--"):
                return ("mut", ctx.fn.id, n.i)
            return (op, self.val(ctx, st, c))
        if k == "BinaryOperator":
            op = n.get("op")
            a, b = n.get("c")
            if op == "=":
                return self.val(ctx, st, b)
            if op == ",":
                return self.val(ctx, st, b)
            if op in ("&&", "||") and ("pre", ctx.fn.id, n.i) in st.env:
                return st.env[("pre", ctx.fn.id, n.i)]
            x = self.val(ctx, st, a)
            if op in ("&&", "||"):
                x = self.decided(st, x)
                if x[0] == "b":
                    if x[1] == (op == "||"):
                        return x
                    return self.val(ctx, st, b)
                y = self.decided(st, self.val(ctx, st, b))
                if y[0] == "b":
                    if y[1] == (op == "||"):
                        return y
                    return x
                return (op, x, y)
            y = self.val(ctx, st, b)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return compare(op, x, y)
            r = arith(op, x, y)
            return r if tsize(r) < 200 else ("big", ctx.fn.id, n.i)
        if k == "ConditionalOperator":
            c = n.get("c") or [n.get("cond"), n.get("then"), n.get("else")]
            cond, a, b = c[0], c[1], c[2]
            arm = st.env.get(("arm", ctx.fn.id, n.i))
            if arm is not None:
                return self.val(ctx, st, a if arm else b)
            c = self.decided(st, self.val(ctx, st, cond))
            if c[0] == "b":
                return self.val(ctx, st, a if c[1] else b)
            return ("?", c, self.val(ctx, st, a), self.val(ctx, st, b))
        if k == "InitListExpr":
            c = n.get("c") or []
            if len(c) == 1 and ("[" not in n.type and not n.type.startswith("std::") and "Clingcon" not in n.type or n.type.rstrip().endswith("*")):
                return self.val(ctx, st, c[0])
            return ("new", n.type, tuple(self.val(ctx, st, x) for x in c))
        if k in CTORS:
            return self.construct(ctx, st, n)
        if k == "LambdaExpr":
            return ("lam", n.fn.id if n.fn else None, tuple(x.id for x in n.get("insts", ())))
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return ("null",)
        if k == "StringLiteral":
            return ("s", n.get("v"))
        if k in CALLS:
            return self.pure_call(ctx, st, n)
        if k == "ArraySubscriptExpr":
            return self.load(st, self.lval(ctx, st, n))
        if k == "CXXNewExpr":
            return ("newobj", ctx.fn.id, n.i)
        if k == "CXXDefaultArgExpr" and not n.get("c"):
            return ("default", n.i)
        c = n.get("c")
        if c and len(c) == 1:
            return self.val(ctx, st, c[0])
        if n.get("init") is not None and not c:
            return self.val(ctx, st, n.get("init"))
        return ("x", ctx.fn.id, n.i)

    def this_of(self, ctx):
        c = ctx
        # lambdas see the receiver of the function they were written in
        while c is not None and c.fn.info.lambda_:
            p = c.fn.parent
            d = c.parent
            while d is not None and p is not None and d.fn.id != p.id:
                d = d.parent
            if d is None:
                return ("this", "?")
            c = d
        return c.this if c is not None else ("this", "?")

    def construct(self, ctx, st, n):
        args = n.get("args") or []
        i = n.fn
        rec = n.get("rec") or n.type
        if i is not None and len(args) == 1 and i.kind in ("ctor", "constructor") or len(args) == 1:
            b = i.body if i is not None else None
            t = args[0].type.replace("const ", "").strip()
            if t == rec or t == n.type or (b is not None and (b.copyctor or b.movector)):
                return self.val(ctx, st, args[0])
        vals = tuple(self.val(ctx, st, a) for a in args)
        names = ()
        if i is not None and i.body is not None and len(i.body.params) == len(vals):
            # constructors that merely store their parameters
            names = []
            pm = {p["d"]: j for j, p in enumerate(i.body.params)}
            got = {}
            for x in i.body.inits:
                m = x.get("member")
                e = x["e"]
                r = e
                while r.k not in ("DeclRefExpr",) and len(r.kids) == 1:
                    r = r.kids[0]
                if m and r.k == "DeclRefExpr" and r.get("d") in pm:
                    got[pm[r.get("d")]] = m
            names = tuple(got.get(j, "") for j in range(len(vals)))
        if names and any(names):
            return ("new", rec, vals, names)
        return ("new", rec, vals)

    def args_of(self, ctx, st, n):
        """Argument terms; references to local variables are kept as such."""
        res = []
        i = n.fn
        args = n.get("args") or []
        for j, a in enumerate(args):
            pt = i.pt[j] if i is not None and j < len(i.pt) else ""
            if pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&") or (
                    pt.endswith("*") and a.k == "UnaryOperator" and a.get("op") == "&"):
                lv = self.lval(ctx, st, a)
                if lv[0] in ("var", "fld"):
                    res.append(("ref", lv))
                    continue
                res.append(lv)
                continue
            res.append(self.val(ctx, st, a))
        return res

    def obj_of(self, ctx, st, n):
        o = n.get("obj")
        if o is None:
            return None
        if n.k == "CXXMemberCallExpr" or n.k == "CXXOperatorCallExpr":
            return self.lval(ctx, st, o) if o.lv or "*" not in o.type else self.val(ctx, st, o)
        return self.val(ctx, st, o)

    def pure_call(self, ctx, st, n):
        o = n.get("obj")
        ts = []
        if o is not None:
            ts.append(self.val(ctx, st, o))
        for a in n.get("args") or []:
            ts.append(self.val(ctx, st, a))
        q = n.fn.q if n.fn is not None else "?"
        return ("call", q, tuple(ts))

    # ---- writes -------------------------------------------------------
    def assign(self, ctx, st, lv, value, n):
        if tsize(value) > 200:
            value = ("big", ctx.fn.id, n.i)
        if lv[0] == "ref":
            lv = lv[1]
        if lv[0] == "var":
            k = ("d", lv[1], lv[2])
            v = st.env.get(k)
            if v is not None and v[0] == "ref":
                return self.assign(ctx, st, v[1], value, n)
            if v is not None and v[0] in ("elem", "idx") and self.isref(lv):
                return self.rule.write(self, ctx, st, v, value, n)
            r = self.rule.local(self, ctx, st, lv, value, n)
            if r is not None:
                st, value = r
            st = st.set(k, value)
            v = st.env.get(("bind", lv[1], lv[2]))
            if v is not None:
                # a component of an object bound by reference
                return self.rule.write(self, ctx, st, v, value, n)
            # forget the fields of an overwritten object
            dead = [x for x in st.env if x[0] == "f" and contains(x[1], lambda t: t[:3] == lv[:3])]
            if dead:
                st = State({a: b for a, b in st.env.items() if a not in dead}, st.facts, st.rs, st.trail)
            return [st]
        if lv[0] == "fld":
            name = lv[2]
            st = self.clobber(st, {name}, (ctx.fn.id, n.i))
            if not self.rule.memo or lv[1][0] == "var":
                if not contains(value, lambda t: t == lv):
                    st = st.set(("f", lv[1], name), value)
                else:
                    st = st.set(("f", lv[1], name), ("upd", ctx.fn.id, n.i, value if tsize(value) < 60 else 0))
            return self.rule.write(self, ctx, st, lv, value, n)
        return self.rule.write(self, ctx, st, lv, value, n)

    @staticmethod
    def clobber(st, names, site):
        """Fields are overwritten: terms over them denote their former values."""
        env = {k: v for k, v in st.env.items() if not (k[0] == "f" and k[2] in names)}
        was = lambda t: t[0] == "was" and t[1] == site
        fld = lambda t: t[0] == "fld" and t[2] in names
        facts = st.facts
        hit = [k for k, v in env.items() if contains(v, was)]
        for k in hit:
            env[k] = subst(env[k], was, ("old",) + site)
        if any(contains(t, was) for t in facts):
            facts = {t: v for t, v in facts.items() if not contains(t, was)}
        if any(contains(v, fld) for v in env.values()) or any(contains(t, fld) for t in facts):
            def ren(t):
                if not isinstance(t, tuple) or not t:
                    return t
                if t[0] in ("was", "ref"):
                    return t
                u = tuple(ren(x) if isinstance(x, tuple) else x for x in t)
                if t[0] == "fld" and t[2] in names:
                    return ("was", site, u)
                return u
            # handles keep denoting the storage, values become snapshots
            env = {k: (v if k[0] == "bind" or v[0] in ("fld", "idx", "ref", "elem", "lam") and k[0] == "d" and not_scalar(v) else ren(v)) if isinstance(v, tuple) else v for k, v in env.items()}
            facts = {ren(t): v for t, v in facts.items()}
        return State(env, facts, st.rs, st.trail)

    def refresh(self, ctx, st, n):
        """The node is about to be evaluated anew: retire its previous value."""
        fid, i = ctx.fn.id, n.i
        pred = lambda t: t[0] in ("r", "mut", "elem", "out") and len(t) > 2 and t[-2:] == (fid, i)
        env = st.env
        ch = None
        if ("t", fid, i) in env:
            env = ch = dict(env)
            del ch[("t", fid, i)]
        for k, v in list(env.items()):
            if contains(v, pred):
                if ch is None:
                    ch = dict(env)
                ch[k] = subst(v, pred, ("old", fid, i))
        if ch is not None:
            st = State(ch, st.facts, st.rs, st.trail)
        return st.forget(pred)

    # ---- calls --------------------------------------------------------
    def dispatch(self, ctx, st, n, obj):
        ts = self.p.targets(n)
        if len(ts) > 1 and obj is not None:
            o = self.load(st, obj)
            if o[0] == "ref":
                o = self.load(st, o[1])
            if o[0] == "new":
                ex = [t for t in ts if t.cls and (o[1] == t.cls or o[1].endswith("::" + t.cls) or t.cls.endswith("::" + o[1]))]
                if ex:
                    return ex
        if len(ts) > 1:
            # drop pure virtual declarations
            bs = [t for t in ts if t.body is not None and t.cls.split("::")[-1] not in self.exclude]
            if bs:
                ts = bs
        return ts

    def do_call(self, ctx, st, n):
        st = self.refresh(ctx, st, n)
        i = n.fn
        obj = self.obj_of(ctx, st, n)
        args = self.args_of(ctx, st, n)
        # calls of lambdas and function references held in variables
        ts = self.dispatch(ctx, st, n, obj)
        if n.k == "CXXOperatorCallExpr" and n.get("oper") == "()" and obj is not None:
            o = self.load(st, obj)
            if o[0] == "lam" and (not ts or ts[0].body is None):
                ts = [self.p.info[o[1]]] if o[1] in self.p.info else ts
        if not ts and n.get("calleeexpr") is not None:
            ce = self.val(ctx, st, n.get("calleeexpr"))
            if ce[0] == "fnref" and ce[1] in self.p.info:
                ts = [self.p.info[ce[1]]]
            elif ce[0] == "lam" and ce[1] in self.p.info:
                ts = [self.p.info[ce[1]]]
        if not ts:
            return [self.bind(ctx, s, n, v) for s, v in self.opaque(ctx, st, n, None, obj, args)]
        out = []
        for t in ts:
            r = self.rule.call(self, ctx, st, n, t, obj, args)
            if r is None:
                r = self.default_call(ctx, st, n, t, obj, args)
            for s, v in r:
                out.append(self.bind(ctx, s, n, v))
        return out

    def bind(self, ctx, st, n, v):
        if v is None:
            return st
        return st.set(("t", ctx.fn.id, n.i), v)

    @staticmethod
    def decided(st, t):
        if t[0] == "b":
            return t
        ng = t[0] == "!"
        known = decide(st.facts, t[1] if ng else t)
        return t if known is None else (TRUE if known != ng else FALSE)

    def inlinable(self, ctx, t):
        if t.body is None or not t.body.blocks or self.rule.no_inline(t):
            return False
        if not (t.id in self.relevant or self.small(t)):
            return False
        if ctx.depth >= self.rule.max_depth:
            return False
        return self.rule.memo and not t.lambda_ and t.id in self.relevant or not ctx.active(t.id)

    def default_call(self, ctx, st, n, t, obj, args):
        if t.q in IDENT or (t.name in ("move", "forward", "addressof", "as_const") and t.q.startswith("std::")):
            a = args[0]
            return [(st, self.load(st, a[1]) if a[0] == "ref" and not n.lv else (a[1] if a[0] == "ref" else a))]
        if t.kind == "operator" or n.k == "CXXOperatorCallExpr":
            r = self.operator(ctx, st, n, t, obj, args)
            if r is not None:
                return r
        if t.name in ("get", "value", "operator*", "operator->", "base") and t.q.startswith("std::") and obj is not None and not args:
            o = self.load(st, obj)
            return [(st, o)]
        if t.name == "make_pair" and t.q.startswith("std::"):
            return [(st, ("new", "std::pair", tuple(self.load(st, a[1]) if a[0] == "ref" else a for a in args)))]
        if t.name == "make_tuple" and t.q.startswith("std::"):
            return [(st, ("new", "std::tuple", tuple(self.load(st, a[1]) if a[0] == "ref" else a for a in args)))]
        if t.name == "get" and t.q.startswith("std::get") and args:
            a = self.load(st, args[0][1]) if args[0][0] == "ref" else args[0]
            idx = self.tuple_index(t, n)
            if a[0] == "new" and idx is not None and idx < len(a[2]):
                return [(st, a[2][idx])]
            return [(st, ("fld", a, "#%s" % idx))]
        if t.name == "tie" and t.q.startswith("std::"):
            return [(st, ("tie", tuple(args)))]
        if self.inlinable(ctx, t):
            return self.follow(ctx, st, n, t, obj, args)
        return self.opaque(ctx, st, n, t, obj, args)

    @staticmethod
    def tuple_index(t, n):
        import re
        m = re.search(r"^_ZN?St(?:3__1|7__cxx11)?3getILm(\d+)E", t.id) or re.search(r"get<(\d+)", t.q)
        return int(m.group(1)) if m else None

    def operator(self, ctx, st, n, t, obj, args):
        op = n.get("oper")
        ops = ([obj] if obj is not None else []) + list(args)
        vals = [self.load(st, a[1]) if a[0] == "ref" else self.load(st, a) for a in ops]
        ext = t.body is None
        if op == "=" and len(ops) == 2:
            if ops[0][0] == "tie":
                v = vals[1]
                sts = [st]
                for j, r in enumerate(ops[0][1]):
                    x = v[2][j] if v[0] == "new" and j < len(v[2]) else ("r", "tie%d" % j, ctx.fn.id, n.i)
                    sts = [s2 for s in sts for s2 in self.assign(ctx, s, r[1] if r[0] == "ref" else r, x, n)]
                return [(s, None) for s in sts]
            b = t.body
            if b is None or "&&" in (t.pt[0] if t.pt else "") or True:
                if b is None or not (t.id in self.relevant):
                    lv = ops[0][1] if ops[0][0] == "ref" else ops[0]
                    return [(s, lv) for s in self.assign(ctx, st, lv, vals[1], n)]
            return None
        if not ext:
            return None
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(vals) == 2:
            return [(st, compare(op, vals[0], vals[1]))]
        if op in ("*", "->") and len(vals) == 1:
            return [(st, vals[0] if vals[0][0] != "iter" else vals[0])]
        if op == "[]" and len(vals) == 2:
            return [(st, ("idx", ops[0][1] if ops[0][0] == "ref" else ops[0], vals[1]))]
        if op in ("++", "--") and obj is not None:
            lv = ops[0][1] if ops[0][0] == "ref" else ops[0]
            return [(s, None) for s in self.assign(ctx, st, lv, ("mut", ctx.fn.id, n.i), n)]
        if op in ("+", "-", "*", "/", "%") and len(vals) == 2:
            return [(st, arith(op, vals[0], vals[1]))]
        if op == "!" and len(vals) == 1:
            return [(st, neg(vals[0]))]
        return None

    def opaque(self, ctx, st, n, t, obj, args):
        """A call that is not followed: havoc what it may modify."""
        rel = []
        for a in args + ([obj] if obj is not None else []):
            v = self.load(st, a[1]) if a[0] == "ref" else a
            if v[0] == "lam":
                ids = [x for x in ((v[1],) + v[2]) if x in self.p.fns]
                rel.extend((x, x in self.relevant) for x in ids)
        sts = [st]
        # the elements of the container whose beginning is passed to an algorithm
        rng = None
        if t is not None and t.q.startswith("std::") and args:
            b = self.load(st, args[0][1]) if args[0][0] == "ref" else args[0]
            if b[0] in ("call", "r") and last_(b[1]) in ("begin", "cbegin") and len(b) > 2 and isinstance(b[2], tuple) and b[2]:
                b = b[2][0]
                while b[0] == "was":
                    b = b[2]
                rng = ("elem", b)
        for x, ev in rel:
            if ev and not ctx.active(x):
                # called any number of times
                f = self.p.fns[x]
                seen = {}
                todo = list(sts)
                while todo:
                    s = todo.pop()
                    k = (s.rs,)
                    if k in seen:
                        continue
                    seen[k] = s
                    la = [("r", "lamarg%d" % j, ctx.fn.id, n.i) for j in range(len(f.params))]
                    if la and rng is not None:
                        la[-1 if t.name in ("accumulate",) else 0] = rng
                    for s2, _ in self.follow(ctx, s, n, f.info, ("lamobj",), la):
                        todo.append(s2)
                sts = list(seen.values())
        out = []
        for s in sts:
            for x, _ in rel:
                for k in self.assigned(x):
                    if k in s.env:
                        s = s.set(k, ("out", k, ctx.fn.id, n.i))
            for j, a in enumerate(args):
                if a[0] == "ref" and t is not None and j < len(t.pt) and not t.pt[j].startswith("const "):
                    lv = a[1]
                    if lv[0] == "var":
                        if self.load(s, lv)[0] != "lam":
                            for s2 in self.assign(ctx, s, lv, ("out", ("i", j), ctx.fn.id, n.i), n)[:1]:
                                s = s2
            if obj is not None and obj[0] == "var" and t is not None and not t.const and not t.static and not self.isref(obj):
                v = self.load(s, obj)
                if v[0] != "lam" and not (v[0] == "new" and v[1] in self.p.records and False):
                    if t.body is None or not self.effects or self.effects.writes_this(t):
                        s = s.set(("d", obj[1], obj[2]), v if v[0] == "new" and t.inroot else ("mut", v[1] if v[0] == "mut" else v if tsize(v) < 20 else 0, ctx.fn.id, n.i))
            if t is not None and self.effects is not None and t.inroot and not t.const:
                names = self.effects.mod_names(t.id)
                if names:
                    s = self.clobber(s, names, (ctx.fn.id, n.i))
            if obj is not None and obj[0] == "fld" and t is not None and not t.const and not t.inroot:
                s = self.clobber(s, {obj[2]}, (ctx.fn.id, n.i))
            pure = t is not None and (t.const or t.static or (t.body is None and obj is None and all(a[0] != "ref" for a in args)) or
                                      (not t.inroot and t.name in ("find", "begin", "end", "front", "back", "at", "lower_bound", "upper_bound", "size", "empty", "data", "rbegin", "rend")))
            if pure and not rel:
                o = [self.load(s, obj)] if obj is not None else []
                if t is not None and not t.const and obj is not None and n.lv:
                    o = [obj]
                v = ("call", t.q, tuple(o + [self.load(s, a[1]) if a[0] == "ref" else a for a in args]))
                if tsize(v) > 120:
                    v = ("r", t.q, ctx.fn.id, n.i)
            else:
                v = ("r", t.q if t is not None else "?", ctx.fn.id, n.i)
            out.append((s, v))
        return out

    def storage(self, st, lv, depth=0):
        """The storage an lvalue denotes, with references resolved."""
        if depth > 20 or not lv:
            return lv
        if lv[0] == "ref":
            return self.storage(st, lv[1], depth + 1)
        if lv[0] == "var":
            v = st.env.get(("d", lv[1], lv[2]))
            if v is not None and (v[0] == "ref" or self.isref(lv)):
                return self.storage(st, v[1] if v[0] == "ref" else v, depth + 1) if v != lv else lv
            return lv
        if lv[0] in ("fld", "idx", "elem"):
            return (lv[0], self.storage(st, lv[1], depth + 1)) + lv[2:]
        return lv

    def isref(self, v):
        """A variable of reference type (its value denotes the storage)?"""
        return self.effects is not None and self.effects._dtype.get((v[1], v[2]), "").endswith("&")

    def follow(self, ctx, st, n, t, obj, args):
        self.fns_seen.add(t.id)
        fn = t.body
        this = obj
        if this is not None and this[0] == "var":
            v = self.load(st, this)
            if v[0] != "new" and v[0] != "var" and v[0] != "lam":
                this = v
        lam = t.lambda_ or any(self.load(st, a[1] if a[0] == "ref" else a)[0] == "lam" for a in args)
        if self.rule.memo and not lam:
            return self.summary(ctx, st, n, t, this, args)
        self.followed += 1
        env = dict(st.env)
        before = set(env)
        for p, a in zip(fn.params, args):
            env[("d", fn.unit, p["d"])] = a
        c2 = Ctx(fn, this if this is not None else ("this", t.cls), ctx, n)
        s0 = State(env, st.facts, st.rs, st.trail)
        res = []
        for s, ret in self.run(c2, s0):
            e = {}
            for k, v in s.env.items():
                if k in before or (k[0] == "f" and self.outer(k[1], before)):
                    e[k] = v
            res.append((State(e, s.facts, s.rs, s.trail), ret))
        return self.group(res)

    @staticmethod
    def outer(base, before):
        b = base
        while b and b[0] in ("fld", "idx"):
            b = b[1]
        return b[0] != "var" or ("d", b[1], b[2]) in before

    def group(self, res):
        """Merge exits that agree on rule state, result and partition."""
        out = {}
        for s, r in res:
            k = (s.rs, r, self.key(s))
            if k in out:
                a = out[k][0]
                env = {x: v for x, v in a.env.items() if s.env.get(x) == v}
                facts = {x: v for x, v in a.facts.items() if s.facts.get(x) == v}
                out[k] = (State(env, facts, a.rs, a.trail), r)
            else:
                out[k] = (s, r)
        return list(out.values())

    def abstract(self, st, a, j, name):
        if a[0] == "ref":
            v = self.load(st, a[1])
            if v[0] == "new" and v[1] in self.p.records:
                return ("new", v[1], ())
            if a[1][0] == "var":
                return a
            return ("arg", j, name)
        if is_const(a):
            return a
        if a[0] == "new" and a[1] in self.p.records:
            return ("new", a[1], ())
        if a[0] == "new" and a[1].startswith("std::pair"):
            return ("new", a[1], tuple(self.abstract(st, x, (j, y), name) for y, x in enumerate(a[2])))
        if a[0] in ("fnref",):
            return a
        return ("arg", j, name)

    def summary(self, ctx, st, n, t, this, args):
        fn = t.body
        aargs = tuple(self.abstract(st, a, j, fn.params[j]["name"] if j < len(fn.params) else "") for j, a in enumerate(args))
        if this is not None:
            tv = self.load(st, this)
            athis = ("new", tv[1], ()) if tv[0] == "new" and tv[1] in self.p.records else ("this", t.cls)
        else:
            athis = ("this", t.cls)
        refs = []
        for a in aargs:
            if a[0] == "ref" and a[1][0] == "var":
                k = ("d", a[1][1], a[1][2])
                v = st.env.get(k)
                refs.append((k, v if v is not None and is_const(v) else None))
        key = (t.id, athis, aargs, st.rs, tuple(refs), self.rule.memo_key(ctx) if hasattr(self.rule, "memo_key") else None)
        res = self.summaries.get(key)
        if res is None:
            if key in self.inprogress:
                # recursion: the exits known so far (iterated to a fixpoint below)
                self.recursive.add(key)
                res = self.inprogress[key]
        if res is None:
            env = {}
            for p, a in zip(fn.params, aargs):
                env[("d", fn.unit, p["d"])] = a
            for k, v in refs:
                env[k] = v if v is not None else ("in", k)
            c2 = Ctx(fn, athis, ctx, n)
            self.followed += 1
            res = []
            while True:
                self.inprogress[key] = res
                self.recursive.discard(key)
                made = len(self.order)
                out = {}
                for s, ret in self.run(c2, State(env, {}, st.rs, ())):
                    diff = tuple((k, s.env.get(k, ("lost", k))) for k, _ in refs)
                    r = self.absret(ret, fn)
                    kk = (s.rs, r, diff)
                    if kk not in out:
                        out[kk] = s.trail
                new = [(k[0], k[1], k[2], tr) for k, tr in out.items()]
                if key not in self.recursive or {x[:3] for x in new} == {x[:3] for x in res}:
                    res = new
                    break
                res = new
                for k in self.order[made:]:
                    self.summaries.pop(k, None)
                del self.order[made:]
            del self.inprogress[key]
            self.recursive.discard(key)
            self.summaries[key] = res
            self.order.append(key)
        outs = []
        for rs, ret, diff, trail in res:
            s = st.with_rs(rs)
            if trail:
                s = State(s.env, s.facts, s.rs, s.trail + trail)
            for k, v in diff:
                if v == ("in", k):
                    continue
                s = s.set(k, v if is_const(v) else ("out", k, ctx.fn.id, n.i))
            if ret is not None:
                ret = self.concret(ret, args, ctx, n, st)
            outs.append((s, ret))
        return outs

    def absret(self, r, fn):
        if r is None:
            return None
        if is_const(r) or r[0] in ("arg", "fnref"):
            return r
        if r[0] == "!" and r[1][0] == "arg":
            return r
        if r[0] == "new":
            return ("new", r[1], tuple(self.absret(x, fn) for x in r[2]))
        return ("opq",)

    def concret(self, r, args, ctx, n, st):
        if r[0] == "arg":
            j = r[1]
            if isinstance(j, int) and j < len(args):
                a = args[j]
                return self.load(st, a[1]) if a[0] == "ref" else a
            return ("r", n.fn.q if n.fn else "?", ctx.fn.id, n.i)
        if r[0] == "!":
            return neg(self.concret(r[1], args, ctx, n, st))
        if r[0] == "new":
            return ("new", r[1], tuple(self.concret(x, args, ctx, n, st) for x in r[2]))
        if r[0] == "opq":
            return ("r", n.fn.q if n.fn else "?", ctx.fn.id, n.i)
        return r

    # ---- statements -----------------------------------------------------
    def step(self, ctx, st, e):
        self.steps += 1
        if isinstance(e, tuple):
            _, member, n = e
            if n is None:
                return [st]
            v = self.val(ctx, st, n)
            return self.assign(ctx, st, ("fld", ctx.this, member), v, n)
        n = e
        k = n.k
        if k in CALLS:
            return self.do_call(ctx, st, n)
        if k in CTORS:
            return self.do_ctor(ctx, st, n)
        if k == "BinaryOperator":
            if n.get("op") == "=":
                a, b = n.get("c")
                v = self.val(ctx, st, b)
                return self.assign(ctx, st, self.lval(ctx, st, a), v, n)
            if n.get("op") in ("&&", "||"):
                pre = ("pre", ctx.fn.id, n.i)
                if pre in st.env:
                    env = dict(st.env)
                    env[("t", ctx.fn.id, n.i)] = env.pop(pre)
                    return [State(env, st.facts, st.rs, st.trail)]
                return [st.set(("t", ctx.fn.id, n.i), self.val(ctx, st, n.get("c")[1]))]
        if k == "CompoundAssignOperator":
            a, b = n.get("c")
            lv = self.lval(ctx, st, a)
            op = n.get("op").rstrip("=")
            x, y = self.load(st, lv), self.val(ctx, st, b)
            v = arith(op, x, y)
            return self.assign(ctx, st, lv, v, n)
        if k == "UnaryOperator" and n.get("op") in ("++", "--"):
            st = self.refresh(ctx, st, n)
            lv = self.lval(ctx, st, n.get("c")[0])
            old = self.load(st, lv)
            v = arith("+" if n.get("op") == "++" else "-", old, ("i", 1))
            if tsize(v) > 60:
                v = ("mut", ctx.fn.id, n.i)
            sts = self.assign(ctx, st, lv, v, n)
            if n.get("post"):
                sts = [s.set(("t", ctx.fn.id, n.i), old) for s in sts]
            return sts
        if k == "DeclStmt":
            sts = [st]
            for d in n.get("decls") or []:
                sts = [s2 for s in sts for s2 in self.declare(ctx, s, n, d)]
            return sts
        if k == "ReturnStmt":
            c = n.get("c")
            v = None
            if c:
                v = self.lval(ctx, st, c[0]) if ctx.fn.ret.endswith("&") else self.val(ctx, st, c[0])
                if v[0] == "var" and not ctx.fn.ret.endswith("&"):
                    v = self.load(st, v)
            st = self.rule.ret(self, ctx, st, n, v)
            if st is None:
                return []
            return [st.set(("ret", ctx.fn.id), v if v is not None else ("void",))]
        if k == "ConditionalOperator":
            if ("t", ctx.fn.id, n.i) in st.env:
                env = dict(st.env)
                del env[("t", ctx.fn.id, n.i)]
                st = State(env, st.facts, st.rs, st.trail)
            v = self.val(ctx, st, n)
            if n.lv:
                c = n.get("c") or [n.get("cond"), n.get("then"), n.get("else")]
                arm = st.env.get(("arm", ctx.fn.id, n.i))
                if arm is not None:
                    v = self.lval(ctx, st, c[1] if arm else c[2])
            return [st.set(("t", ctx.fn.id, n.i), v)]
        if k == "CXXThrowExpr":
            self.rule.throw(self, ctx, st, n)
            return []
        if n.i in self.cross(ctx.fn) and n.type and k not in ("LambdaExpr", "DeclRefExpr", "MemberExpr"):
            # consumed in a later block: fix its value now
            if ("t", ctx.fn.id, n.i) in st.env:
                env = dict(st.env)
                del env[("t", ctx.fn.id, n.i)]
                st = State(env, st.facts, st.rs, st.trail)
            return [st.set(("t", ctx.fn.id, n.i), self.lval(ctx, st, n) if n.lv else self.val(ctx, st, n))]
        return [st]

    def do_ctor(self, ctx, st, n):
        t = n.fn
        if t is not None:
            args = self.args_of(ctx, st, n)
            r = self.rule.call(self, ctx, st, n, t, None, args)
            if r is not None:
                return [self.bind(ctx, s, n, v) for s, v in r]
            if t.body is not None and t.id in self.relevant and self.inlinable(ctx, t) and not (t.body.copyctor or t.body.movector):
                v0 = self.construct(ctx, st, n)
                rs = self.follow(ctx, st, n, t, ("newobj", ctx.fn.id, n.i), args)
                return [self.bind(ctx, s, n, v0) for s, _ in rs]
            # lambdas stored in wrappers such as std::function
            if len(args) == 1 and args[0][0] == "lam":
                return [self.bind(ctx, st, n, args[0])]
            for j, a in enumerate(args):
                if a[0] == "ref" and a[1][0] == "var" and t.body is None and j < len(t.pt) and not t.pt[j].endswith("&&"):
                    pass
        return [st]

    def declare(self, ctx, st, n, d):
        key = ("d", ctx.fn.unit, d["d"])
        init = d.get("init")
        # a new lifetime begins
        dead = [x for x in st.env if x[0] == "f" and contains(x[1], lambda t: t[0] == "var" and t[1] == key[1] and t[2] == key[2])]
        if dead:
            st = State({a: b for a, b in st.env.items() if a not in dead}, st.facts, st.rs, st.trail)
        isref = d["t"].endswith("&")
        if init is None:
            return [st.set(key, ("undef", key[1], key[2]))]
        p = n.parent
        if p is not None and p.k == "CXXForRangeStmt" and p.get("loopvar") and (p.get("c") or [None] * 6)[5] is n:
            # the element of a range
            rd = p.get("c")[0].get("decls")[0]
            rv = st.env.get(("d", ctx.fn.unit, rd["d"]), ("x", ctx.fn.id, n.i))
            if rv[0] == "ref":
                rv = rv[1]
            st = self.refresh(ctx, st, n)
            v = ("elem", rv if tsize(rv) < 60 else ("big", ctx.fn.id, rd["d"]), ctx.fn.id, n.i)
            if not isref and not d["t"].endswith("*") and d["t"].replace("const ", "").strip() in self.p.records:
                v = ("copyof", v)
            st = st.forget(lambda t: t[0] == "elem" and t[-2:] == (ctx.fn.id, n.i))
        elif isref:
            lv = self.lval(ctx, st, init)
            v = ("ref", lv) if lv[0] in ("var", "fld") else lv
        else:
            v = self.val(ctx, st, init)
            if init.k == "CXXConstructExpr" and not init.get("args") and v[0] == "new":
                v = ("new", v[1], ())
        if tsize(v) > 200:
            v = ("big", ctx.fn.id, n.i)
        st, v = self.rule.declare(self, ctx, st, d, v, n)
        st = st.set(key, v)
        bs = d.get("binds") or ()
        for j, b in enumerate(bs):
            bv = v[1] if v[0] == "ref" else v
            bv2 = self.load(st, bv)
            if bv2[0] == "new" and len(bv2[2]) == len(bs):
                x = bv2[2][j]
            elif v[0] == "ref" or isref:
                # a reference to a temporary binds its components
                tmp = d["t"].startswith("const ") and bv2[0] not in ("var", "fld", "idx", "elem", "arg", "ref")
                x = ("fld", bv2 if tmp else bv, "#%d" % j)
            else:
                x = ("fld", bv2, "#%d" % j)
            st = st.set(("d", ctx.fn.unit, b["d"]), x)
            if x[0] == "fld" and self.effects is not None and (ctx.fn.unit, b["d"]) in self.effects._bindrefs:
                st = st.set(("bind", ctx.fn.unit, b["d"]), x)
        return [st]

    # ---- control flow ---------------------------------------------------
    def key(self, st):
        ks = []
        for k, v in st.env.items():
            if k[0] == "arm":
                ks.append((k, v))
            elif v[0] == "b" and k[0] in ("d", "t", "ret", "pre"):
                ks.append((k, v[1]))
            elif k[0] == "ret" and v[0] == "new" and any(x[0] == "b" for x in v[2]):
                ks.append((k, tuple(x if x[0] == "b" else None for x in v[2])))
            elif self.rule.keepval(k, v):
                ks.append((k, v))
        for t, v in st.facts.items():
            if self.rule.keep(t):
                ks.append((t, v))
        return frozenset(ks)

    @classmethod
    def unify(cls, v, w, phi):
        """The common form of two values: elements at different positions of the same container stay elements."""
        if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and v[0] == w[0]:
            if v[0] == "idx" and v[1] == w[1] and v[3:] == w[3:]:
                return ("idx", v[1], phi[:3] + (phi[3] + ("at",),)) + v[3:]
            if v[0] == "ref":
                x = cls.unify(v[1], w[1], phi)
                return phi if x == phi else ("ref", x)
        return phi

    def join(self, a, b, fid, bid):
        env = {}
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            env[k] = v if v == w else self.unify(v, w, ("phi", fid, bid, k))
        facts = {t: v for t, v in a.facts.items() if b.facts.get(t) == v}
        tr = a.trail
        return State(env, facts, a.rs, tr)

    def edges(self, ctx, st, b):
        """Successors of a block together with the refined states."""
        fn = ctx.fn
        succ = b.succ
        if not succ:
            return
        tk = b.tk
        if tk in ("SwitchStmt",):
            v = self.val(ctx, st, b.tc) if b.tc is not None else ("x", fn.id, b.id)
            cases = []
            for s in succ:
                if s is None:
                    continue
                sb = fn.blocks[s]
                c = None
                if sb.ls is not None and sb.lk == "CaseStmt":
                    cn = sb.ls.get("cond") or (sb.ls.get("c") or [None])[0]
                    c = self.val(ctx, st, cn) if cn is not None else None
                if c is not None:
                    t = compare("==", v, c)
                    if t == FALSE:
                        continue
                    neg_, t2 = (True, t[1]) if t[0] == "!" else (False, t)
                    if t2[0] != "b":
                        if decide(st.facts, t2) is False:
                            continue
                        s1 = self.rule.branch(self, ctx, st.fact(t2, True), t2, True)
                    else:
                        s1 = st
                    cases.append(c)
                    if s1 is not None:
                        yield s, s1
                        if t == TRUE:
                            return
                else:
                    s1 = st
                    for c in cases:
                        t = compare("==", v, c)
                        if t[0] == "==":
                            s1 = s1.fact(t, False)
                    yield s, s1
            return
        if len(succ) == 2 and tk not in (None, "CXXTryStmt", "BreakStmt", "ContinueStmt", "GotoStmt"):
            if tk == "CXXForRangeStmt" or b.tc is None:
                if b.tc is None and tk in ("ForStmt", "WhileStmt"):
                    if succ[0] is not None:
                        yield succ[0], st
                    return
                rv = None
                if b.ts is not None and b.ts.k == "CXXForRangeStmt":
                    r0 = (b.ts.get("c") or [None])[0]
                    if r0 is not None and r0.get("decls"):
                        rv = st.env.get(("d", fn.unit, r0.get("decls")[0]["d"]))
                self.range_stmt = b.ts
                for idx, s in enumerate(succ):
                    if s is not None:
                        s1 = st if rv is None else self.rule.range(self, ctx, st, rv[1] if rv[0] == "ref" else rv, idx == 0)
                        if s1 is not None:
                            yield s, s1
                return
            tc = b.tc
            while tc.k == "BinaryOperator" and tc.get("op") in ("&&", "||") and tc.i not in self.elems(fn):
                tc = tc.get("c")[1]  # only reached if the left operand is neutral
            t = self.val(ctx, st, tc)
            ng = False
            if t[0] == "!":
                ng, t = True, t[1]
            if t[0] == "i":
                t = TRUE if t[1] else FALSE
            if t[0] == "null":
                t = FALSE
            if t[0] == "b":
                known = t[1]
            else:
                known = decide(st.facts, t)
            for idx, s in enumerate(succ):
                if s is None:
                    continue
                want = (idx == 0) != ng
                if known is not None and known != want:
                    continue
                s1 = st
                if t[0] != "b":
                    s1 = st.fact(t, want)
                    s1 = self.rule.branch(self, ctx, s1, t, want)
                    if s1 is None:
                        continue
                if tk == "BinaryOperator" and b.ts is not None and b.ts.k == "BinaryOperator" and b.ts.get("op") in ("&&", "||"):
                    op = b.ts.get("op")
                    if (idx == 0) == (op == "||"):
                        # enclosing operators of the same kind short-circuit as well
                        p, ch = b.ts, None
                        while p is not None and p.k == "BinaryOperator" and p.get("op") == op and (ch is None or p.get("c")[0] is ch):
                            if p.i in self.elems(fn):
                                s1 = s1.set(("pre", fn.id, p.i), TRUE if op == "||" else FALSE)
                            p, ch = p.parent, p
                elif tk == "ConditionalOperator" and b.ts is not None:
                    s1 = s1.set(("arm", fn.id, b.ts.i), idx == 0)
                yield s, s1
            return
        for s in succ:
            if s is not None:
                yield s, st

    def run(self, ctx, st):
        """All exits of the function for the given entry state."""
        fn = ctx.fn
        self.fns_seen.add(fn.id)
        if not fn.blocks:
            return [(st, None)]
        ctx.rs0 = st.rs
        st = self.rule.enter(self, ctx, st)
        cross = self.cross(fn)
        ins = {fn.entry: {self.key(st): st}}
        keysets = {fn.entry: [(st.rs, self.key(st))]}
        ins = {fn.entry: {(st.rs, self.key(st)): st}}
        heap = [(-fn.entry, 0)]
        queued = {fn.entry: {(st.rs, self.key(st))}}
        exits = []
        guard = 0
        while heap:
            bid = -heapq.heappop(heap)[0]
            ks = queued.pop(bid, None)
            if not ks:
                continue
            guard += 1
            if guard > 20000:
                raise AnalysisBroken("no fixpoint in " + fn.info.q)
            b = fn.blocks[bid]
            for k in sorted(ks, key=repr) if len(ks) > 1 else ks:
                s0 = ins[bid][k]
                if bid == fn.exit:
                    continue
                sts = [s0]
                for e in b.elems:
                    nxt = []
                    for s in sts:
                        nxt.extend(self.step(ctx, s, e))
                    sts = nxt
                    if len(sts) > 1:
                        sts = self.dedup(sts)
                    if not sts:
                        break
                if b.noret:
                    continue
                for s in sts:
                    for t, s1 in self.edges(ctx, s, b):
                        self.arrive(ctx, fn, cross, ins, queued, heap, bid, t, s1)
        res = []
        for s in ins.get(fn.exit, {}).values():
            ret = s.env.get(("ret", fn.id))
            if ret == ("void",):
                ret = None
            e = dict(s.env)
            e.pop(("ret", fn.id), None)
            s = State(e, s.facts, s.rs, s.trail)
            res.extend(self.rule.leave(self, ctx, s, ret))
        return res

    def dedup(self, sts):
        out = {}
        for s in sts:
            k = (s.rs, self.key(s))
            if k in out:
                o = out[k]
                if o.env == s.env and o.facts == s.facts:
                    continue
                out[(k, len(out))] = s
            else:
                out[k] = s
        return list(out.values())

    def arrive(self, ctx, fn, cross, ins, queued, heap, src, dst, s):
        fid = fn.id
        env = {}
        for k, v in s.env.items():
            if k[0] in ("t",) and k[1] == fid and k[2] not in cross:
                continue
            if k[0] == "arm" and k[1] == fid and dst != fn.exit:
                # needed until the join of the operator has been evaluated
                n = fn.nodes.get(k[2])
                if n is not None and ("t", fid, k[2]) in s.env:
                    continue
            env[k] = v
        facts = s.facts
        pred = lambda t: t[0] == "phi" and t[1] == fid and t[2] == dst
        if dst >= src:
            # back edge: facts on the merged values speak about the past
            facts = {t: v for t, v in facts.items() if not contains(t, pred)}
        s = State(env, facts, s.rs, s.trail)
        d = ins.setdefault(dst, {})
        k = (s.rs, self.key(s))
        if k not in d and len(d) >= self.MAXKEYS and dst != fn.exit:
            # too many partitions: merge with one of the same rule state
            for k2 in d:
                if k2[0] == s.rs:
                    k = k2
                    break
        if k in d:
            o = d[k]
            j = self.join(o, s, fid, dst)
            if j.env == o.env and j.facts == o.facts:
                return
            d[k] = j
        else:
            d[k] = s
        if dst == fn.exit:
            return
        if dst not in queued:
            queued[dst] = set()
            heapq.heappush(heap, (-dst, 0))
        queued[dst].add(k)

    # ---- entry ----------------------------------------------------------
    def analyse(self, info, rs, args=None, this=None, facts=None):
        """Run the rule from an entry point; returns its exits."""
        fn = info.body
        if fn is None or not fn.blocks:
            raise AnalysisBroken("no body for entry point " + info.q)
        env = {}
        for j, p in enumerate(fn.params):
            a = args[j] if args and j < len(args) and args[j] is not None else ("arg", j, p["name"])
            env[("d", fn.unit, p["d"])] = a
        ctx = Ctx(fn, this or ("this", info.cls), None)
        return self.run(ctx, State(env, dict(facts or {}), rs))
