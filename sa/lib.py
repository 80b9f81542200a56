"""Queries shared by the rules."""
from .core import CALLS, CTORS

NOTHROW_STD = {
    "find", "lower_bound", "upper_bound", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "front",
    "back", "data", "get", "has_value", "move", "forward", "min", "max", "abs", "swap", "clear", "pop_back", "handle_cxx_error", "count",
    "addressof", "distance", "get<0>", "get<1>", "make_reverse_iterator", "load", "store", "base", "c_str", "strlen", "strcmp", "strncmp", "strchr",
    "lowest", "release", "reset", "memcpy", "equal_range", "compare_exchange_weak", "compare_exchange_strong"}
NOTHROW_OPS = {"operator*", "operator->", "operator++", "operator--", "operator==", "operator!=", "operator<", "operator>",
               "operator[]", "operator-", "operator+", "operator bool", "operator!", "operator&", "operator|", "operator&&"}
NOTHROW_CLINGO = {"handle_cxx_error", "Symbol", "to_c", "match", "type", "number", "c_rep"}


def in_region(n, pred):
    p = n.parent
    ch = n
    while p is not None:
        if pred(p, ch):
            return p
        ch, p = p, p.parent
    return None


def guarding_try(n):
    """The innermost try statement with a catch-all whose body contains the node."""
    def pred(p, ch):
        return p.k == "CXXTryStmt" and ch is p.kids[0] and any(c.k == "CXXCatchStmt" and c.get("all") for c in p.kids[1:])
    return in_region(n, pred)


def in_lambda(n):
    return in_region(n, lambda p, ch: p.k == "LambdaExpr")


class Escapes:
    """Constructs through which an exception may leave a function."""

    def __init__(self, prog, explicit=False):
        self.p = prog
        self.explicit = explicit  # only explicit throw expressions, not allocation failures
        self.memo = {}

    def of(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        self.memo[fid] = []
        f = self.p.fns.get(fid)
        res = []
        if f is not None:
            for n in f.allnodes():
                if in_lambda(n) is not None:
                    continue
                w = self.node(f, n)
                if w is not None and guarding_try(n) is None:
                    res.append(w)
                    if len(res) >= 3:
                        break
        self.memo[fid] = res
        return res

    def node(self, f, n):
        if n.k == "CXXThrowExpr":
            return (f.at(n), "throw in " + f.info.short)
        if n.k == "CXXNewExpr" and not self.explicit:
            if n.get("placement"):
                return None
            return (f.at(n), "allocation in " + f.info.short)
        if n.k in CALLS or n.k in CTORS:
            for t in self.p.targets(n):
                if t.body is not None:
                    if not t.throws and not self.explicit:
                        continue
                    r = self.of(t.id)
                    if r:
                        return (f.at(n), "%s: %s (%s)" % (t.short, r[0][1], r[0][0]))
                    continue
                if not t.throws or t.extc:
                    continue
                if t.inroot and t.body is None:
                    continue
                if self.explicit:
                    if t.name in ("handle_error", "at", "stoi") or t.q.startswith("std::__throw"):
                        return (f.at(n), t.q)
                    continue
                if t.q.startswith("std::") or t.q.startswith("__gnu_cxx") or not t.q.startswith("Clingo"):
                    if t.name in NOTHROW_STD or t.name in NOTHROW_OPS:
                        if t.name == "operator[]" and ("map" in t.cls):
                            return (f.at(n), t.q)
                        continue
                    if n.k in CTORS and (not n.get("args") or "iterator" in t.cls or "pair" in t.cls or "optional" in t.cls or "function" in t.cls and len(t.pt) == 0):
                        continue
                    return (f.at(n), t.q)
                if t.name in NOTHROW_CLINGO:
                    continue
                if n.k in CTORS and t.name in ("Propagate" "Init", "PropagateInit", "PropagateControl", "Assignment", "Model", "Span", "Symbol"):
                    continue
                return (f.at(n), t.q)
        return None


def const_bool(n):
    """The constant value of a returned expression, if any."""
    while n is not None and n.cv is None and len(n.kids) == 1:
        n = n.kids[0]
    if n is not None and n.cv is not None and n.type in ("bool", "const bool", "int"):
        return bool(int(n.cv))
    return None


def reach_blocks(fn, start):
    seen = set()
    todo = [start]
    while todo:
        b = todo.pop()
        if b in seen or b is None:
            continue
        seen.add(b)
        todo.extend(fn.blocks[b].succ)
    return seen


def returns_from(fn, start):
    """Return statements reachable in the control flow graph from a block."""
    res = []
    for b in reach_blocks(fn, start):
        for e in fn.blocks[b].elems:
            n = e[2] if isinstance(e, tuple) else e
            if n is not None and n.k == "ReturnStmt":
                res.append(n)
    return res


def strip(n):
    """Skip parentheses, casts and temporaries."""
    while n is not None and n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ImplicitCastExpr",
                                    "CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
                                    "CXXBindTemporaryExpr", "ConstantExpr") and len(n.kids) == 1:
        n = n.kids[0]
    return n


def discarded(n):
    """Is the value of the expression thrown away?"""
    p, ch = n.parent, n
    while p is not None and p.k in ("ExprWithCleanups", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr"):
        ch, p = p, p.parent
    if p is None:
        return True
    if p.k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and p.type == "void":
        return True
    if p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "CXXTryStmt"):
        return True
    if p.k in ("IfStmt",):
        return ch is not p.get("cond") and ch is not p.get("init") and not (ch is p.get("condvar"))
    if p.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
        return ch is not p.get("cond")
    if p.k == "BinaryOperator" and p.get("op") == ",":
        return p.get("c")[0] is ch or discarded(p)
    return False


def last(q):
    return (q or "").split("::")[-1]


def lin(t, k=1, acc=None):
    """A term as a linear form: dictionary from terms to coefficients (None: constant)."""
    acc = {} if acc is None else acc
    if t[0] == "i":
        acc[None] = acc.get(None, 0) + k * t[1]
    elif t[0] in ("+", "-") and len(t) == 3:
        lin(t[1], k, acc)
        lin(t[2], k if t[0] == "+" else -k, acc)
    elif t[0] == "neg":
        lin(t[1], -k, acc)
    elif t[0] == "call" and last(t[1]) in ("safe_add", "safe_sub") and len(t[2]) == 2:
        lin(t[2][0], k, acc)
        lin(t[2][1], k if last(t[1]) == "safe_add" else -k, acc)
    elif t[0] == "call" and last(t[1]) == "safe_inv" and len(t[2]) == 1:
        lin(t[2][0], -k, acc)
    elif t[0] == "call" and last(t[1]) == "safe_mul" and len(t[2]) == 2 and any(x[0] == "i" for x in t[2]):
        lin(("*",) + tuple(t[2]), k, acc)
    elif t[0] == "*" and t[2][0] == "i" or t[0] == "*" and t[1][0] == "i":
        a, b = (t[1], t[2]) if t[2][0] == "i" else (t[2], t[1])
        lin(a, k * b[1], acc)
    else:
        acc[t] = acc.get(t, 0) + k
    for x in [x for x, c in acc.items() if c == 0]:
        del acc[x]
    return acc


def refers(t, name):
    """Does the term mention the field (or accessor) of the given name?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "fld" and t[2] == name:
        return True
    return any(refers(x, name) for x in t if isinstance(x, tuple))


def calls(t, name):
    """Does the term contain a call of a function of the given name?"""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("call", "r") and isinstance(t[1], str) and last(t[1]) == name:
        return True
    return any(calls(x, name) for x in t if isinstance(x, tuple))


# ---- several independent analyses -------------------------------------------
_job = None


def _work(k):
    from .core import AnalysisBroken
    from .report import Result
    fn, tasks, pid, tier = _job
    res = Result(pid, tier)
    try:
        out = fn(tasks[k], res)
    except AnalysisBroken as e:
        return k, None, str(e), None
    return k, (res.viol, res.counts, res.samples, res.functions), None, out


def parallel(res, tasks, fn):
    """Run fn(task, result) for each task in a process of its own; the results are merged in the order of the tasks."""
    import multiprocessing
    import os
    from .core import AnalysisBroken
    global _job
    tasks = list(tasks)
    _job = (fn, tasks, res.pid, res.tier)
    n = min(8, len(tasks), os.cpu_count() or 1)
    if n > 1:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            outs = sorted(pool.imap_unordered(_work, range(len(tasks))), key=lambda x: x[0])
    else:
        outs = [_work(k) for k in range(len(tasks))]
    rets = []
    for _, r, err, out in outs:
        if err is not None:
            raise AnalysisBroken(err)
        viol, counts, samples, functions = r
        for v in viol:
            res.bad(v["rule"], v["where"], v["msg"], v["key"])
        for k, c in counts.items():
            res.counts[k] = res.counts.get(k, 0) + c
        for k, s in samples.items():
            t = res.samples.setdefault(k, [])
            t.extend(x for x in s if x not in t and len(t) < 6)
        res.funcs(functions)
        rets.append(out)
    return rets
