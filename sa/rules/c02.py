"""Exceptions stay behind the C interface and failures are never dropped."""
from ..core import CALLS, CTORS, AnalysisBroken
from ..lib import Escapes, const_bool, discarded, guarding_try, reach_blocks, returns_from, strip

EXPLANATION = (
    "Exception-escape and error-propagation analysis over the resolved call graph: every extern \"C\" function and every "
    "function handed to clingo as a callback is checked for constructs through which an exception may leave it; every "
    "catch-all handler for the outcome it reports; every call of a C function or C callback for a dropped result.")


def callbacks(prog):
    """Functions whose address is handed to C code: {fnid: where}."""
    res = {}
    for f in prog.fns.values():
        for n in f.allnodes():
            if n.k != "DeclRefExpr" or n.fn is None or n.fn.body is None:
                continue
            p, ch = n.parent, n
            while p is not None and p.k in ("ImplicitCastExpr", "UnaryOperator", "ParenExpr"):
                ch, p = p, p.parent
            if p is None:
                continue
            if p.k == "InitListExpr" and p.type.replace("struct ", "").startswith("clingo_"):
                res.setdefault(n.fn.id, f.at(n))
            elif p.k in CALLS and p.fn is not None and p.fn.extc and ch in (p.get("args") or []):
                res.setdefault(n.fn.id, f.at(n))
            elif p.k == "BinaryOperator" and p.get("op") == "=" and strip(p.get("c")[0]).k == "MemberExpr" and "clingo_" in (strip(p.get("c")[0]).get("field") or ""):
                res.setdefault(n.fn.id, f.at(n))
    return res


SLOTS = ("init", "propagate", "undo", "check", "decide")


def run(prog, res, tier):
    res.rule("escape", "no exception leaves an extern \"C\" function or a callback registered with clingo")
    res.rule("handler", "a catch-all handler at the boundary records the error and reports failure")
    res.rule("success", "a guarded function reports success when its work completed")
    res.rule("dropped", "the result of a C function or C callback that can fail is not dropped")
    res.rule("delegate", "each solver callback and model/statistics hook reaches the propagator function it stands for")
    exported = [i for i in prog.info.values() if i.body is not None and i.extc]
    if len(exported) < 12:
        raise AnalysisBroken("only %d extern \"C\" functions" % len(exported))
    cbs = callbacks(prog)
    if len(cbs) < 5:
        raise AnalysisBroken("callbacks registered with clingo not found")
    esc = Escapes(prog)
    boundary = {i.id: i for i in exported}
    for c in cbs:
        boundary.setdefault(c, prog.info[c])
    for fid, i in sorted(boundary.items(), key=lambda x: x[1].q):
        res.funcs(prog.reachable([fid]))
        f = i.body
        what = "%s (%s)" % (i.short, f.loc)
        e = esc.of(fid) if i.ret == "bool" else Escapes(prog, True).of(fid)
        res.ok("escape", what)
        for w, m in e[:1]:
            res.bad("escape", w, "an exception may leave %s: %s" % (i.short, m), key="escape|" + i.short)
    # handlers of functions at (or below) the boundary
    for fid in sorted(prog.reachable(boundary)):
        f = prog.fns.get(fid)
        if f is None or f.ret != "bool":
            continue
        for n in f.allnodes():
            if n.k != "CXXTryStmt" or not any(c.get("all") for c in n.kids[1:]):
                continue
            for c in n.kids[1:]:
                res.ok("handler", "%s %s" % (f.at(c), f.info.short))
                calls = [t for x in c.walk() if x.k in CALLS for t in prog.targets(x)]
                rethrow = any(x.k == "CXXThrowExpr" for x in c.walk())
                reach = prog.reachable([t.id for t in calls])
                names = {prog.info[x].name for x in reach if x in prog.info} | {t.name for t in calls}
                if not rethrow and not names & {"handle_cxx_error", "clingo_set_error"}:
                    res.bad("handler", f.at(c), "the handler in %s does not record the error" % f.info.short, key="handler|record|" + f.info.short)
                blocks = [b.id for b in f.blocks.values() if b.ls is c]
                rets = [r for b in blocks for r in returns_from(f, b)]
                if not blocks:
                    rets = c.find("ReturnStmt")
                if not rethrow:
                    vals = [const_bool(r.get("c")[0]) if r.get("c") else None for r in rets]
                    if not rets or any(v is not False for v in vals):
                        res.bad("handler", f.at(c), "the handler in %s does not report failure" % f.info.short, key="handler|result|" + f.info.short)
            entry_rets = returns_from(f, f.entry)
            hs = {r.i for c in n.kids[1:] for r in c.find("ReturnStmt")}
            vals = [const_bool(r.get("c")[0]) if r.get("c") else None for r in entry_rets if r.i not in hs]
            res.ok("success", "%s %s" % (f.at(n), f.info.short))
            if vals and all(v is False for v in vals):
                res.bad("success", f.at(n), "%s never reports success" % f.info.short, key="success|" + f.info.short)
    # dropped results
    for f in prog.fns.values():
        if f.info.kind == "destructor" or f.info.name.startswith("~"):
            continue
        for n in f.allnodes():
            if n.k not in CALLS:
                continue
            c = None
            if n.fn is not None and n.fn.extc and n.fn.ret == "bool" and n.fn.name.startswith("cling"):
                c = n.fn.name
            elif n.fn is None and n.get("calleeexpr") is not None and n.type == "bool":
                c = "a callback"
            if c is None:
                continue
            res.ok("dropped", "%s: %s in %s" % (f.at(n), c, f.info.short))
            if discarded(n):
                res.bad("dropped", f.at(n), "the result of %s is dropped in %s" % (c, f.info.short), key="dropped|%s|%s" % (c, f.info.short))
    # delegation
    for f in prog.fns.values():
        for n in f.allnodes():
            if n.k == "InitListExpr" and n.type.replace("struct ", "").replace("const ", "").strip() in ("clingo_propagator", "clingo_propagator_t"):
                for slot, c in zip(SLOTS, n.get("c") or []):
                    refs = [x for x in c.walk() if x.k == "DeclRefExpr" and x.fn is not None]
                    if not refs:
                        continue
                    g = refs[0].fn
                    res.ok("delegate", "%s -> Propagator::%s" % (g.short, slot))
                    if not any(prog.info[x].name == slot and prog.info[x].cls.endswith("Propagator") for x in prog.reachable([g.id]) if x in prog.info):
                        res.bad("delegate", f.at(n), "the %s callback %s does not reach Propagator::%s" % (slot, g.short, slot), key="delegate|" + slot)
    for name in ("on_model", "on_statistics", "get_index", "get_symbol", "get_value"):
        fn = {"on_model": "clingcon_on_model", "on_statistics": "clingcon_on_statistics", "get_index": "clingcon_lookup_symbol",
              "get_symbol": "clingcon_get_symbol", "get_value": "clingcon_assignment_get_value"}[name]
        for i in prog.find(fn):
            res.ok("delegate", "%s -> Propagator::%s" % (fn, name))
            if not any(prog.info[x].name == name and prog.info[x].cls.endswith("Propagator") for x in prog.reachable([i.id]) if x in prog.info):
                res.bad("delegate", i.body.loc, "%s does not reach Propagator::%s" % (fn, name), key="delegate|" + fn)
    res.need("escape", 17, "boundary functions")
    res.need("handler", 6, "handlers")
    res.need("dropped", 12, "call sites")
    res.assumptions.append("C functions of clingo do not throw; standard container lookups and clingo value types do not throw")
