"""Copies of search state are complete and do not share mutable parts."""
from ..absint import Engine, Rule, contains, show
from ..core import AnalysisBroken, CALLS, CTORS
from ..effects import Effects
from ..lib import in_region

EXPLANATION = (
    "Field-completeness and aliasing analysis of the functions that copy solver state to other threads: symbolic execution "
    "of the copy over uninterpreted values yields, per field and path, the source it is copied from; fields that must be "
    "copied are derived from the write/read effects of the search callbacks.")

SEARCH = ("propagate", "check", "undo", "decide")
STATE = "AbstractConstraintState"
MUTATE = {"emplace", "emplace_back", "push_back", "insert", "try_emplace", "emplace_hint", "push_front", "insert_or_assign"}


def root_field(lv, own):
    """The field of the copied object an lvalue is part of."""
    f = None
    while isinstance(lv, tuple) and lv:
        if lv[0] == "fld":
            if own(lv[1]):
                return lv[2]
            f = lv[2]
            lv = lv[1]
        elif lv[0] in ("idx", "elem", "ref"):
            lv = lv[1]
        elif lv[0] == "call" and lv[2]:
            lv = lv[2][0]
        else:
            return None
    return None


def loops_around(n):
    """Innermost loop statement around a node within its function."""
    return in_region(n, lambda p, ch: p.k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"))


def conditional(n, stop):
    """Is the node executed under a condition inside the statement?"""
    p, ch = n.parent, n
    while p is not None and p is not stop:
        if p.k in ("IfStmt", "ConditionalOperator", "SwitchStmt") and ch is not p.get("cond") and ch is not (p.kids[0] if p.kids else None):
            return p
        if p.k == "BinaryOperator" and p.get("op") in ("&&", "||") and p.kids[-1] is ch:
            return p
        ch, p = p, p.parent
    return None


def skips(loop, n):
    """Does the body of a loop skip some of its iterations before reaching the node?"""
    def walk(x):
        if x is n:
            raise StopIteration
        if x.k in ("ContinueStmt", "BreakStmt", "ReturnStmt"):
            own = in_region(x, lambda p, ch: p.k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"))
            if own is loop or x.k == "ReturnStmt":
                return x
        if x.k == "LambdaExpr":
            return None
        for c in x.kids:
            if c is not None:
                r = walk(c)
                if r is not None:
                    return r
        return None
    try:
        return walk(loop)
    except StopIteration:
        return None


class Copy(Rule):
    """Writes to the fields of the object being copied into."""
    inline_small = 4000

    def __init__(self, res, prog, own, src, fields, ptrs, recs, what):
        self.res, self.prog = res, prog
        self.own, self.src = own, src
        self.fields, self.ptrs, self.recs, self.what = fields, ptrs, recs, what
        self.seen = {}

    def direct(self, fn):
        return True

    def no_inline(self, info):
        return info.name == "copy" and STATE in "".join(self.prog_bases(info.cls))

    def prog_bases(self, cls):
        return [STATE] if "State" in cls else []

    def fresh(self, t):
        """Does a value denote state of the copying object?"""
        return contains(t, lambda x: x[0] in ("fresh", "ownc") or x[0] == "fld" and self.own(x[1]))

    def mentions(self, t, f):
        return contains(t, lambda x: x[0] == "fld" and x[2] == f and self.src(x[1]))

    def alien(self, t):
        return contains(t, lambda x: x[0] == "fld" and self.src(x[1]))

    def where(self, ctx, n):
        """The chain of nodes from the entry function to the node."""
        res = []
        while ctx is not None:
            res.append((ctx.fn, n))
            n = ctx.site
            ctx = ctx.parent
            if n is None:
                break
        return res

    def mark(self, st, kind, f, ctx, n):
        chain = self.where(ctx, n)
        self.seen.setdefault((kind, f), []).append(chain)
        rs = set(st.rs)
        if kind == "aliased":
            rs = {x for x in rs if x[1] != f}
        rs.add((kind, f))
        return st.with_rs(frozenset(rs))

    def write(self, E, ctx, st, lv, value, n):
        lv = E.storage(st, lv)
        f = root_field(lv, self.own)
        if f is None or f not in self.fields:
            return [st]
        lv0 = lv
        direct = lv0[0] == "fld" and self.own(lv0[1])
        if direct:
            if self.mentions(value, f) or value[0] == "big" or self.fresh(value) and self.mentions(value, f):
                self.res.ok("copied", "%s.%s (%s)" % (self.what, f, ctx.fn.at(n)))
                return [self.mark(st, "aliased" if f in self.ptrs else "copied", f, ctx, n)]
            if value[0] == "new" and not value[2]:
                return [self.mark(st, "cleared", f, ctx, n)]
            if value[0] in ("phi", "mut", "out", "r", "var") and not self.alien(value):
                # built elsewhere
                return [self.mark(self.mark(st, "copied", f, ctx, n), "remapped", f, ctx, n)]
            self.res.bad("copied", ctx.fn.at(n), "%s.%s is set to '%s' instead of a copy of the same field" % (self.what, f, show(value)),
                         key="copied|%s|%s" % (self.what, f))
            return [self.mark(st, "copied", f, ctx, n)]
        # an element
        if f in self.ptrs:
            tgt = n.type
            if self.is_state_ptr(n):
                if self.fresh(value):
                    self.res.ok("own-parts", "%s.%s element (%s)" % (self.what, f, ctx.fn.at(n)))
                    return [self.mark(st, "remapped", f, ctx, n)]
                self.res.bad("own-parts", ctx.fn.at(n), "%s.%s refers to a constraint state of another solver" % (self.what, f),
                             key="own-parts|%s|%s" % (self.what, f))
        elif self.mentions(value, f):
            return [self.mark(st, "filled", f, ctx, n)]
        return [st]

    @staticmethod
    def is_state_ptr(n):
        t = n.type
        if STATE in t:
            return True
        return any(STATE in k.type for k in n.kids[:1] if k is not None)

    def call(self, E, ctx, st, n, t, obj, args):
        if t.name == "copy" and t.inroot and n.k in CALLS and STATE in t.ret:
            return [(st, ("fresh", E.load(st, obj) if obj is not None else ()))]
        if not t.inroot and t.name in ("back_inserter", "inserter") and args:
            f = root_field(E.storage(st, args[0]), self.own)
            if f in self.fields:
                return [(st, ("inserter", f))]
        if not t.inroot and obj is None:
            fs = []
            for a in args:
                contains(E.load(st, a), lambda x: fs.append(x[1]) if x[0] == "inserter" else False)
            for f in fs:
                st = self.mark(st, "filled", f, ctx, n)
                if t.name.startswith("copy") and f in self.ptrs:
                    self.res.bad("own-parts", ctx.fn.at(n), "%s.%s receives the constraint states of another solver" % (self.what, f),
                                 key="own-parts|%s|%s" % (self.what, f))
            if fs:
                return [(st, ("void",))]
        if t.inroot or obj is None:
            return None
        o = E.storage(st, obj)
        f = root_field(o, self.own)
        if f is None or f not in self.fields:
            return None
        if t.name == "clear":
            return [(self.mark(st, "cleared", f, ctx, n), ("void",))]
        if t.name in ("reserve", "shrink_to_fit", "rehash"):
            return [(st, ("void",))]
        if t.name == "resize" and o[0] == "fld" and self.own(o[1]):
            return [(self.mark(st, "cleared", f, ctx, n) if f not in self.ptrs else st, ("void",))]
        if t.name == "assign" and o[0] == "fld" and self.own(o[1]):
            return [(self.mark(st, "copied", f, ctx, n), ("void",))]
        if t.name in MUTATE and o[0] == "fld" and self.own(o[1]):
            vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
            nodes = n.get("args") or []
            self.res.ok("copied", "%s.%s element (%s)" % (self.what, f, ctx.fn.at(n)))
            for j, (v, a) in enumerate(zip(vals, nodes)):
                if STATE in a.type and f in self.ptrs and ("*" in a.type or "unique_ptr" in a.type or STATE in a.type):
                    self.res.ok("own-parts", "%s.%s element (%s)" % (self.what, f, ctx.fn.at(n)))
                    if not self.fresh(v):
                        self.res.bad("own-parts", ctx.fn.at(n), "%s.%s receives a constraint state of another solver" % (self.what, f),
                                     key="own-parts|%s|%s" % (self.what, f))
            if not any(x in st.rs for x in (("cleared", f), ("filled", f))):
                self.res.bad("stale", ctx.fn.at(n), "%s.%s is filled without dropping its previous elements" % (self.what, f),
                             key="stale|%s|%s" % (self.what, f))
            return [(self.mark(st, "filled", f, ctx, n), ("ownc", f))]
        return None


def every_iteration(res, rule, what, f, chains):
    """The element writes happen in every iteration of a loop that is itself always executed."""
    for chain in chains:
        for fn, n in chain:
            loop = loops_around(n)
            x = n
            while True:
                c = conditional(x, loop)
                if c is not None and not const_cond(c):
                    res.bad(rule, fn.at(n), "some elements of %s.%s are skipped when copying" % (what, f), key="%s|skip|%s|%s" % (rule, what, f))
                    return
                if loop is None:
                    break
                s = skips(loop, x)
                if s is not None:
                    res.bad(rule, fn.at(s), "some elements of %s.%s are skipped when copying" % (what, f), key="%s|skip|%s|%s" % (rule, what, f))
                    return
                x = loop
                loop = loops_around(x)


def const_cond(c):
    k = c.get("cond")
    return k is not None and k.cv is not None


class Special(Rule):
    """Field writes of a copy/move operation."""
    inline_small = 200

    def __init__(self, fields, alts, same):
        self.fields, self.alts, self.same = fields, alts, same
        self.wrong = []

    def direct(self, fn):
        return False

    def upd(self, st, f, v, ctx, n):
        if contains(v, lambda x: x[0] == "fld" and x[2] == f and self.same(x[1])) or v[0] == "big":
            return st.with_rs(st.rs | {f})
        if any(y and t[0] == "==" and v in t[1:] and contains(t, lambda x: x[0] == "fld" and x[2] == f and self.same(x[1]))
               for t, y in st.facts.items()):
            return st.with_rs(st.rs | {f})
        self.wrong.append((f, ctx.fn.at(n) if n is not None else "", show(v)))
        return st

    def keep(self, term):
        return True

    @staticmethod
    def name_of(lv):
        """(object, field), skipping anonymous members."""
        if lv[0] != "fld":
            return None, None
        b = lv[1]
        while b[0] == "fld" and b[2] == "":
            b = b[1]
        return b, lv[2]

    def write(self, E, ctx, st, lv, value, n):
        b, f = self.name_of(lv)
        if f in self.fields and b is not None and b[0] in ("this", "newobj"):
            return [self.upd(st, f, self.flat(value), ctx, n)]
        return [st]

    def flat(self, v):
        """Drop anonymous members from terms."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "fld" and v[2] == "":
            return self.flat(v[1])
        return tuple(self.flat(x) if isinstance(x, tuple) else x for x in v)

    def call(self, E, ctx, st, n, t, obj, args):
        if n.k in CTORS and n.parent is not None and n.parent.k == "CXXNewExpr" and n.parent.get("placement"):
            tgt = [m for m in n.parent.walk() if m.k == "MemberExpr" and not any(m is x for x in n.walk())]
            names = [m.get("name") for m in tgt if m.get("name") in self.fields]
            if names and args:
                v = E.load(st, args[0][1]) if args[0][0] == "ref" else E.load(st, args[0])
                return [(self.upd(st, names[0], self.flat(v), ctx, n), ("new", t.cls, ()))]
        return None


def union_fields(prog, rec):
    """(plain fields, [alternatives of each anonymous union])"""
    plain, alts = [], []
    for f in rec["fields"]:
        if f.get("anon"):
            u = next((r for r in prog.records.values() if r["name"] == f["t"].replace("const ", "")), None)
            if u is None:
                u = next((r for r in prog.records.values() if r.get("union") and r["name"].startswith(rec["name"] + "::") and r.get("anon")), None)
            if u is not None:
                alts.append([g["name"] for g in u["fields"]])
            continue
        plain.append(f["name"])
    return plain, alts


def special_members(prog, res, eff):
    n = 0
    for rec in prog.records.values():
        if not rec["file"].startswith("libclingcon") or rec.get("union"):
            continue
        plain, alts = union_fields(prog, rec)
        for m in rec["methods"]:
            kind = next((k for k in ("copyctor", "movector", "copyassign", "moveassign") if m.get(k)), None)
            if kind is None or not m["user"] or m["deleted"]:
                continue
            info = prog.info[m["fn"]]
            if info.body is None or not info.body.blocks:
                continue
            n += 1
            check_special(prog, res, eff, rec, info, kind, plain, alts)
    return n


def check_special(prog, res, eff, rec, info, kind, plain, alts):
    what = "%s of %s" % ({"copyctor": "copy constructor", "movector": "move constructor", "copyassign": "copy assignment", "moveassign": "move assignment"}[kind], rec["short"])
    allf = set(plain) | {x for a in alts for x in a}
    src = ("src",)
    r = Special(allf, alts, lambda t: t == src)
    E = Engine(prog, r, eff)
    outs = E.analyse(info, frozenset(), args=[("ref", src)], this=("this", rec["short"]))
    res.funcs(E.fns_seen | {info.id})
    if not outs:
        raise AnalysisBroken("no path through the %s" % what)
    for f, at, v in r.wrong:
        if f in plain and all(f in st.rs for st, _ in outs):
            continue
        if f in plain:
            res.bad("members", at, "the %s initializes %s from '%s'" % (what, f, v), key="members|%s|%s" % (what, f))
    for f in plain:
        res.ok("members", "%s: %s" % (what, f))
        if not all(f in st.rs for st, _ in outs):
            res.bad("members", info.body.at(info.body.body), "the %s does not copy %s on every path" % (what, f), key="members|%s|%s" % (what, f))
    for a in alts:
        res.ok("members", "%s: one of %s" % (what, ", ".join(a)))
        if not all(any(x in st.rs for x in a) for st, _ in outs):
            res.bad("members", info.body.at(info.body.body), "the %s does not copy %s on every path" % (what, "/".join(a)),
                    key="members|%s|%s" % (what, "/".join(a)))


class Clone(Rule):
    """What does copy() create?"""
    inline_small = 400

    def __init__(self, prog):
        self.prog = prog
        self.new = []       # (record, ctor info, args)
        self.w = {}

    def direct(self, fn):
        return fn.info.kind == "ctor"

    def call(self, E, ctx, st, n, t, obj, args):
        if n.k in CTORS and n.parent is not None and n.parent.k == "CXXNewExpr" and not n.parent.get("placement"):
            vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
            self.new.append((n.get("rec") or n.type, t, vals, ctx.fn.at(n)))
            return None
        if t.name == "make_unique":
            vals = [E.load(st, a[1]) if a[0] == "ref" else E.load(st, a) for a in args]
            import re
            m = re.search(r"unique_ptr<([^,>]*(?:<[^>]*>)?)", n.type)
            if m:
                self.new.append((m.group(1), None, vals, ctx.fn.at(n)))
        return None

    def write(self, E, ctx, st, lv, value, n):
        if lv[0] == "fld" and lv[1][0] == "newobj":
            self.w.setdefault(lv[2], []).append((value, ctx.fn.at(n)))
        return [st]


def class_fields(prog, name, acc=None):
    """Fields of a record and its bases: [(record, field)]"""
    acc = [] if acc is None else acc
    rec = prog.records.get(name)
    if rec is None:
        return acc
    for b in rec.get("bases") or ():
        class_fields(prog, b, acc)
    acc.extend((rec, f) for f in rec["fields"])
    return acc


def is_state(prog, name, depth=0):
    if name.split("::")[-1] == STATE:
        return True
    rec = prog.records.get(name)
    return rec is not None and depth < 6 and any(is_state(prog, b, depth + 1) for b in rec.get("bases") or ())


def clones(prog, res, eff):
    k = 0
    for rec in prog.records.values():
        if not is_state(prog, rec["name"]) or rec["short"].split("::")[-1] == STATE:
            continue
        for m in rec["methods"]:
            info = prog.info[m["fn"]]
            if info.name != "copy" or info.body is None:
                continue
            k += 1
            r = Clone(prog)
            E = Engine(prog, r, eff)
            this = ("this", rec["short"])
            outs = E.analyse(info, 0, args=[], this=this)
            res.funcs(E.fns_seen | {info.id})
            short = rec["short"]
            at = info.body.at(info.body.body)
            if not r.new:
                res.bad("clone", at, "copying a %s does not create a new object" % short, key="clone|new|" + short)
                continue
            for cls, ctor, vals, where in r.new:
                res.ok("clone", "%s::copy creates %s" % (short, cls.split("::")[-1]))
                if cls.split("::")[-1].replace(" ", "") != rec["name"].split("::")[-1].replace(" ", ""):
                    res.bad("clone", where, "copying a %s creates a %s" % (short, cls), key="clone|class|" + short)
                    continue
                if len(vals) == 1 and vals[0] == this:
                    # a copy constructor: implicit ones copy everything, others are checked member by member
                    continue
                for owner, f in class_fields(prog, rec["name"]):
                    ws = r.w.get(f["name"], [])
                    res.ok("clone", "%s::copy: %s" % (short, f["name"]))
                    if not any(contains(v, lambda x: x[0] == "fld" and x[2] == f["name"] and x[1] == this) for v, _ in ws):
                        res.bad("clone", where, "copying a %s does not copy %s" % (short, f["name"]), key="clone|%s|%s" % (short, f["name"]))
    return k


class Init(Rule):
    """All solvers are copies of the master when initialization succeeds."""
    inline_small = 60

    def __init__(self, res, prog, eff, copiers, fields):
        self.res, self.prog, self.eff = res, prog, eff
        self.copiers = copiers
        self.fields = fields
        self.sites = []

    def direct(self, fn):
        return any(n.k in CALLS and n.fn is not None and n.fn.id in self.copiers for n in fn.allnodes())

    def call(self, E, ctx, st, n, t, obj, args):
        if t.id in self.copiers:
            o = E.load(st, obj[1]) if obj[0] == "ref" else E.load(st, obj)
            a = E.load(st, args[0][1]) if args[0][0] == "ref" else E.load(st, args[0])
            self.sites.append((ctx, n, o, a))
            return [(st.with_rs("copied"), ("void",))]
        if st.rs == "copied" and t.inroot and not t.const and t.cls.split("::")[-1] == "Solver" and obj is not None:
            m = {x for x in self.eff.mod.get(t.id, ()) if x in self.fields}
            self.res.ok("late", "%s after the copy" % t.short)
            if m and loops_around(n) is None and not contains(E.load(st, obj), lambda x: x[0] == "elem"):
                self.res.bad("late", ctx.fn.at(n), "%s changes the state of one solver after it was copied to the others" % t.short,
                             key="late|" + t.short)
        return None


def run(prog, res, tier):
    res.rule("copied", "every field of the solver state used during search is copied from the same field on every path")
    res.rule("own-parts", "the copy refers to its own constraint states, never to those of the source")
    res.rule("stale", "containers rebuilt by the copy are emptied first and all elements are carried over")
    res.rule("members", "user-provided copy and move operations carry over every member")
    res.rule("clone", "copying a constraint state creates an object of the same class with the same values")
    res.rule("all-solvers", "every solver other than the master becomes a copy of the master")
    res.rule("late", "no single solver's state changes after it was copied")
    eff = Effects(prog)
    solver = prog.record("Solver")
    level = prog.record("Solver::Level")
    # functions running during search
    roots = [i.id for i in prog.info.values() if i.body is not None and i.cls.split("::")[-1] == "Propagator" and
             i.name in SEARCH + ("on_model", "get_value", "has_value", "get_minimize_value")]
    if len(roots) < 4:
        raise AnalysisBroken("callbacks of the propagator not found")
    search = prog.reachable(roots)
    copiers = [i.id for i in prog.info.values() if i.body is not None and i.cls.split("::")[-1] == "Solver" and i.kind not in ("ctor",) and
               i.name != "operator=" and len(i.pt) == 1 and i.pt[0] == "const Clingcon::Solver &" and not i.const]
    if not copiers:
        raise AnalysisBroken("no function copying the state of a solver")
    copy_reach = prog.reachable(copiers)
    need = {}
    for rec in (solver, level):
        for f in rec["fields"]:
            key = (rec["name"], f["name"])
            if f["t"].endswith("&") or "Solver::Level" in f["t"]:
                continue
            written = [x for x in prog.fns if key in eff.dmod.get(x, {}) and x not in copy_reach and prog.info[x].kind != "ctor"]
            if not written:
                continue
            reads = [x for x in search if key in eff.dref.get(x, {})]
            if not reads:
                continue
            if all(scratch(prog.fns[x], key, eff) for x in reads):
                continue
            need[key] = f
    fields = {k[1] for k in need}
    ptrs = {k[1] for k, f in need.items() if STATE in f["t"] or "unique_ptr" in f["t"]}
    if len(need) < 15:
        raise AnalysisBroken("only %d fields of the solver state" % len(need))
    res.extra["fields_required"] = sorted("%s::%s" % k for k in need)
    for cid in copiers:
        this = ("this", "Solver")
        src = ("arg", 0, "source")
        names = {"levels_"}

        def base(t, b):
            while isinstance(t, tuple) and t and t[0] in ("ref", "idx", "elem", "call", "fld"):
                if t == b:
                    return True
                if t[0] == "fld":
                    if t[2] not in names:
                        return False
                    t = t[1]
                elif t[0] == "call":
                    if not t[2]:
                        return False
                    t = t[2][0]
                else:
                    t = t[1]
            return t == b
        r = Copy(res, prog, lambda t: base(t, this), lambda t: base(t, src), fields, ptrs, None, "Solver")
        E = Engine(prog, r, eff)
        outs = E.analyse(prog.info[cid], frozenset(), args=[("ref", src)], this=this)
        res.funcs(E.fns_seen | {cid})
        fn = prog.fns[cid]
        if not outs:
            raise AnalysisBroken("no path through the copy function")
        for (rec, f) in sorted(need):
            res.ok("copied", "%s.%s" % (rec.split("::")[-1], f))
            kinds = {k for k, g in r.seen if g == f}
            if not kinds:
                res.bad("copied", fn.at(fn.body), "%s.%s is not copied to the other solvers" % (rec.split("::")[-1], f), key="copied|Solver|" + f)
                continue
            if f in ptrs:
                good = all(("cleared", f) in st.rs for st, _ in outs) and ("filled" in kinds or "remapped" in kinds) or \
                    all(any((k, f) in st.rs for k in ("aliased", "remapped")) for st, _ in outs) and "remapped" in kinds
                if "aliased" in kinds and "remapped" not in kinds and "filled" not in kinds:
                    res.bad("own-parts", fn.at(fn.body), "%s refers to the constraint states of the copied solver" % f, key="own-parts|Solver|" + f)
                    continue
            else:
                good = all(("copied", f) in st.rs for st, _ in outs) or all(("cleared", f) in st.rs for st, _ in outs) and "filled" in kinds
            if not good:
                res.bad("copied", fn.at(fn.body), "%s is not copied to the other solvers on every path" % f, key="copied|Solver|" + f)
            for k in ("filled", "remapped"):
                if (k, f) in r.seen:
                    res.ok("stale", "elements of %s" % f)
                    every_iteration(res, "stale", "Solver", f, r.seen[(k, f)])
            if f in ptrs and "aliased" in kinds and any(("remapped", f) in st.rs for st, _ in outs) is False:
                res.bad("own-parts", fn.at(fn.body), "%s refers to the constraint states of the copied solver" % f, key="own-parts|Solver|" + f)
    if special_members(prog, res, eff) < 4:
        raise AnalysisBroken("copy operations not found")
    if clones(prog, res, eff) < 4:
        raise AnalysisBroken("copies of constraint states not found")
    # the loop over the solvers
    inits = [i for i in prog.info.values() if i.body is not None and i.cls.split("::")[-1] == "Propagator" and i.name == "init"]
    for i in inits:
        r = Init(res, prog, eff, set(copiers), set(need))
        E = Engine(prog, r, eff)
        outs = E.analyse(i, "start")
        res.funcs(E.fns_seen | {i.id})
        if not r.sites:
            res.bad("all-solvers", i.body.at(i.body.body), "the state of the master is not copied to the other solvers", key="all-solvers|none")
        seen = set()
        for ctx, n, o, a in r.sites:
            if n.i in seen:
                continue
            seen.add(n.i)
            res.ok("all-solvers", "%s: %s from %s" % (ctx.fn.at(n), show(o), show(a)))
            if not contains(a, lambda x: x[0] == "fld" and x[2] == "solvers_") or contains(a, lambda x: x[0] == "elem"):
                res.bad("all-solvers", ctx.fn.at(n), "the state is copied from '%s' instead of the master" % show(a), key="all-solvers|source")
            loop = loops_around(n)
            if loop is None and ctx.fn.info.lambda_:
                continue
            if loop is None:
                res.bad("all-solvers", ctx.fn.at(n), "the state is copied to a single solver", key="all-solvers|loop")
                continue
            c = conditional(n, loop)
            if c is not None and not is_self_test(c):
                res.bad("all-solvers", ctx.fn.at(n), "the state is copied to some of the solvers only", key="all-solvers|some")
            s = skips(loop, n)
            if s is not None and not is_self_test(s.parent):
                res.bad("all-solvers", ctx.fn.at(s), "the state is copied to some of the solvers only", key="all-solvers|some")
            first = first_index(loop)
            if first is not None and first > 1:
                res.bad("all-solvers", ctx.fn.at(loop), "the state is not copied to the first %d solvers" % (first - 1), key="all-solvers|first")
            if first == "other":
                res.bad("all-solvers", ctx.fn.at(loop), "the state is copied to some of the solvers only", key="all-solvers|first")


def is_self_test(c):
    """A comparison of addresses (skipping the master itself)?"""
    while c is not None and c.k != "IfStmt":
        c = c.parent
    if c is None:
        return False
    k = c.get("cond")
    return any(x.k == "UnaryOperator" and x.get("op") == "&" for x in k.walk()) or any(
        x.k in ("CXXOperatorCallExpr",) and x.get("oper") in ("==", "!=") and "iterator" in x.get("args")[0].type for x in k.walk() if x.get("args"))


def first_index(loop):
    """The index of the first solver visited by a counting loop."""
    if loop.k == "CXXForRangeStmt":
        return 0
    init = loop.get("init")
    if init is None:
        return None
    for d in init.get("decls") or ():
        e = d.get("init")
        if e is None:
            continue
        if e.cv is not None:
            return int(e.cv)
        while e.k in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr") or (
                e.k in CTORS and len(e.kids) == 1):
            e = e.kids[0]
        if e.cv is not None:
            return int(e.cv)
        if e.k in CALLS and e.fn is not None:
            if e.fn.name in ("begin", "cbegin"):
                return 0
            if e.fn.name in ("operator+", "next") or e.get("oper") == "+":
                ks = [x for x in e.walk() if x.k in CALLS and x.fn is not None and x.fn.name in ("begin", "cbegin")]
                cs = [x for x in (([e.get("obj")] if e.get("obj") else []) + (e.get("args") or [])) if x.cv is not None]
                if ks and cs:
                    return int(cs[-1].cv)
                if ks and e.fn.name == "next":
                    return 1
                return "other"
        return None if e.k in ("DeclRefExpr",) else "other" if e.k in CALLS else None
    return None


def scratch(fn, key, eff):
    """Does the function empty the container before using it?"""
    ns = eff.dref[fn.id].get(key, [])
    for n in sorted(ns, key=lambda x: (x.line, x.i)):
        p = n.parent
        return p is not None and any(c.k in CALLS and c.fn is not None and c.fn.name == "clear" and c.get("obj") is not None and
                                     any(x is n for x in c.get("obj").walk()) for c in up(n, 3))
    return False


def up(n, k):
    p = n
    for _ in range(k):
        p = p.parent
        if p is None:
            return
        yield p
