"""Transitive mod/ref analysis by (record, field), flow-insensitive, with
origins of references, pointers, and iterators held in local variables."""
from .core import CALLS, CTORS

# non-const methods of library containers that only hand out access
ACCESS = {"operator[]", "at", "front", "back", "begin", "end", "rbegin", "rend", "find", "data", "get", "operator*",
          "operator->", "lower_bound", "upper_bound", "equal_range", "value", "base", "operator++", "operator--",
          "operator+", "operator-", "operator+=", "operator-=", "first", "second"}
PASS = {"move", "forward", "next", "prev", "get", "as_const", "min", "max", "find", "find_if", "lower_bound", "upper_bound",
        "addressof", "ref", "make_pair", "begin", "end", "remove_if", "unique"}

# functions taking forwarding references to what they store
STORE = {"emplace", "emplace_back", "emplace_front", "emplace_hint", "push_back", "push_front", "insert", "try_emplace", "make_unique", "make_pair", "make_tuple"}


def is_handle(t):
    """Can a value of the type give access to other storage?"""
    return t.endswith("&") or t.endswith("*") or "iterator" in t or "reference_wrapper" in t or "*const" in t.replace(" ", "")


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.alias = {}     # (unit, decl) -> set of origins
        self.retorg = {}    # fn id -> set of origins of a returned reference
        self.mod = {}       # fn id -> set of (record, field) / ('param', j) / ('glob', name)
        self.dmod = {}      # direct writes: fn id -> {key: [node]}
        self.dref = {}
        self._params = {}
        for f in prog.fns.values():
            for j, p in enumerate(f.params):
                self._params[(f.unit, p["d"])] = j
        self._repo = set(prog.records)
        self._dtype = {}
        self._bindrefs = set()
        for f in prog.fns.values():
            for q in f.params:
                self._dtype[(f.unit, q["d"])] = q["t"]
            for n in f.allnodes():
                for d in n.get("decls") or ():
                    if isinstance(d, dict) and "d" in d:
                        self._dtype[(f.unit, d["d"])] = d["t"]
                        if d["t"].endswith("&"):
                            self._bindrefs.update((f.unit, b["d"]) for b in d.get("binds") or ())
        for _ in range(6):
            if not self._aliases():
                break
        self._direct()
        self._close()
        self._refs = None

    # ---- origins -----------------------------------------------------
    def inrepo(self, rec):
        return rec in self._repo or rec.startswith("Clingcon::") or "(anonymous" in rec

    def origin(self, f, n, depth=0):
        if depth > 30 or n is None:
            return frozenset()
        k = n.k
        o = lambda x: self.origin(f, x, depth + 1)
        if k == "MemberExpr":
            rec = n.get("field")
            if rec and self.inrepo(rec):
                return frozenset([(rec, n.get("name"))])
            c = n.get("c")
            return o(c[0]) if c else frozenset()
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("global", "slocal", "tls"):
                return frozenset([("glob", n.get("q") or n.get("name"))])
            if dk in ("local", "param", "bind"):
                key = (f.unit, n.get("d"))
                r = set(self.alias.get(key, ()))
                if key in self._params and f.info.id is not None:
                    r.add(("param", self._params[key]))
                return frozenset(r)
            return frozenset()
        if k in CALLS:
            r = set()
            t = n.fn
            if t is None:
                return frozenset()
            if not t.inroot:
                if n.get("obj") is not None and (t.name in ACCESS or is_handle(t.ret)):
                    r |= o(n.get("obj"))
                    return frozenset(r)
                if n.k == "CXXOperatorCallExpr" and n.get("args") and is_handle(n.type + ("&" if n.lv else "")):
                    return o(n.get("args")[0])
                if t.name in PASS or is_handle(t.ret):
                    for a in n.get("args") or []:
                        r |= o(a)
                return frozenset(r)
            for t in self.p.targets(n):
                for x in self.retorg.get(t.id, ()):
                    if x[0] == "param":
                        a = n.get("args") or []
                        if x[1] < len(a):
                            r |= o(a[x[1]])
                    elif x[0] == "thisobj":
                        if n.get("obj") is not None:
                            r |= o(n.get("obj"))
                    else:
                        r.add(x)
            return frozenset(r)
        if k in ("UnaryOperator",) and n.get("op") in ("*", "&", "++", "--"):
            return o(n.get("c")[0])
        if k == "ArraySubscriptExpr":
            return o(n.get("c")[0])
        if k == "BinaryOperator" and n.get("op") in ("=", "+", "-"):
            return o(n.get("c")[0]) if is_handle(n.type) or n.get("op") == "=" else frozenset()
        if k == "ConditionalOperator":
            c = n.get("c") or [n.get("cond"), n.get("then"), n.get("else")]
            return o(c[1]) | o(c[2])
        if k in CTORS:
            a = n.get("args") or []
            if is_handle(n.type) or n.type.startswith("std::pair") or "iterator" in (n.get("rec") or ""):
                r = set()
                for x in a:
                    r |= o(x)
                return frozenset(r)
            return frozenset()
        if k == "InitListExpr":
            r = set()
            for x in n.get("c") or []:
                r |= o(x)
            return frozenset(r)
        if k in ("CXXThisExpr",):
            return frozenset([("thisobj", 0)])
        c = n.get("c")
        if c and len(c) == 1:
            return o(c[0])
        return frozenset()

    def _aliases(self):
        changed = False
        for f in self.p.fns.values():
            for n in f.allnodes():
                if n.k == "DeclStmt":
                    for d in n.get("decls") or []:
                        if d.get("init") is None:
                            continue
                        t = d["t"]
                        if is_handle(t) or d.get("binds") and is_handle(t):
                            org = self.origin(f, d["init"])
                            keys = [(f.unit, d["d"])] + [(f.unit, b["d"]) for b in d.get("binds") or ()]
                            for key in keys:
                                cur = self.alias.setdefault(key, set())
                                if not org <= cur:
                                    cur |= org
                                    changed = True
                elif n.k == "BinaryOperator" and n.get("op") == "=" and is_handle(n.type) or n.k == "CXXOperatorCallExpr" and n.get("oper") == "=" and "iterator" in n.type:
                    ops = n.get("c") or (([n.get("obj")] if n.get("obj") else []) + n.get("args"))
                    if len(ops) == 2 and ops[0].k == "DeclRefExpr":
                        org = self.origin(f, ops[1])
                        cur = self.alias.setdefault((f.unit, ops[0].get("d")), set())
                        if not org <= cur:
                            cur |= org
                            changed = True
                elif n.k == "ReturnStmt" and n.get("c") and is_handle(f.ret):
                    org = self.origin(f, n.get("c")[0])
                    cur = self.retorg.setdefault(f.id, set())
                    if not org <= cur:
                        cur |= org
                        changed = True
                elif n.k == "LambdaExpr":
                    pass
        return changed

    # ---- effects -----------------------------------------------------
    def own_var(self, f, n):
        """A local variable holding a value (or pointer) of its own."""
        while n.k in ("ParenExpr", "ImplicitCastExpr") and len(n.kids) == 1:
            n = n.kids[0]
        if n.k != "DeclRefExpr" or n.get("dk") not in ("local", "param"):
            return False
        t = self._dtype.get((f.unit, n.get("d")))
        return t is not None and not t.endswith("&")

    def writes_of(self, f, n):
        """Origins written directly by this node (not through repository callees)."""
        k = n.k
        if k == "BinaryOperator" and n.get("op") == "=" or k == "CompoundAssignOperator":
            return frozenset() if self.own_var(f, n.get("c")[0]) else self.origin(f, n.get("c")[0])
        if k == "UnaryOperator" and n.get("op") in ("++", "--"):
            return frozenset() if self.own_var(f, n.get("c")[0]) else self.origin(f, n.get("c")[0])
        if k == "CXXDeleteExpr":
            return frozenset()
        r = set()
        if k in CALLS or k in CTORS:
            t = n.fn
            if t is None:
                return frozenset()
            obj = n.get("obj")
            args = list(n.get("args") or [])
            if obj is not None and not t.const and not t.static:
                if not t.inroot:
                    if t.name not in ACCESS or t.name in ("operator++", "operator--", "operator+=", "operator-=") and obj.k == "MemberExpr":
                        r |= self.origin(f, obj)
                elif t.name == "operator=" or t.body is None and not t.virt:
                    r |= self.origin(f, obj)
            if not t.inroot:
                off = 0
                if k == "CXXOperatorCallExpr" and obj is None and n.get("oper") in ("=", "+=", "-=", "<<", ">>", "++", "--", "*=") and args:
                    r |= self.origin(f, args[0])
                for j, a in enumerate(args):
                    pt = t.pt[j + off] if j + off < len(t.pt) else ""
                    if pt.endswith("&") and not pt.endswith("&&") and not pt.startswith("const ") and t.name not in PASS and t.name not in STORE and t.name not in ("get", "begin", "end", "tie", "forward_as_tuple"):
                        r |= self.origin(f, a)
                    elif t.name in ("sort", "stable_sort", "remove_if", "remove", "unique", "reverse", "iota", "fill", "swap", "iter_swap", "rotate", "copy", "transform") and j < 3:
                        r |= self.origin(f, a)
                    elif pt.endswith("&&") and k not in CTORS and t.name not in ("move", "forward") and a.k == "CallExpr" and a.fn is not None and a.fn.name == "move":
                        r |= self.origin(f, a)
        return frozenset(x for x in r if x[0] != "thisobj")

    def _direct(self):
        for f in self.p.fns.values():
            w = {}
            rf = {}
            for n in f.allnodes():
                for x in self.writes_of(f, n):
                    if x[0] != "thisobj":
                        w.setdefault(x, []).append(n)
                if n.k == "MemberExpr" and n.get("field") and self.inrepo(n.get("field")) and n.fn is None:
                    rf.setdefault((n.get("field"), n.get("name")), []).append(n)
                elif n.k == "DeclRefExpr" and n.get("dk") in ("global", "slocal", "tls"):
                    rf.setdefault(("glob", n.get("q") or n.get("name")), []).append(n)
            self.dmod[f.id] = w
            self.dref[f.id] = rf

    def _close(self):
        p = self.p
        calls = {}
        for f in p.fns.values():
            cs = []
            for n in f.allnodes():
                if n.k in CALLS or n.k in CTORS:
                    for t in p.targets(n):
                        if t.id in p.fns:
                            cs.append((t.id, n))
                elif n.k == "LambdaExpr":
                    if n.fn and n.fn.id in p.fns:
                        cs.append((n.fn.id, None))
                    for x in n.get("insts", ()):
                        if x.id in p.fns:
                            cs.append((x.id, None))
            calls[f.id] = cs
            self.mod[f.id] = set(self.dmod[f.id])
        self.calls = calls
        changed = True
        org = {}
        while changed:
            changed = False
            for f in p.fns.values():
                m = self.mod[f.id]
                n0 = len(m)
                for cid, node in calls[f.id]:
                    for x in self.mod[cid]:
                        if x[0] == "param":
                            if node is None:
                                continue
                            a = node.get("args") or []
                            if x[1] < len(a):
                                kk = (f.id, a[x[1]].i)
                                if kk not in org:
                                    org[kk] = self.origin(f, a[x[1]])
                                m |= {y for y in org[kk] if y[0] != "thisobj"}
                        else:
                            m.add(x)
                if len(m) != n0:
                    changed = True

    def mod_names(self, fid):
        return {x[1] for x in self.mod.get(fid, ()) if x[0] not in ("param", "glob")}

    def writes_this(self, info):
        if info.body is None:
            return True
        rec = info.cls
        return any(x[0] == rec or x[0].endswith("::" + rec) for x in self.mod.get(info.id, ()) if x[0] not in ("param", "glob"))

    def reach_mods(self, root):
        """{key: [(fn, node)]} of direct writes in everything reachable."""
        res = {}
        for i in self.p.reachable([root]):
            for k, ns in self.dmod.get(i, {}).items():
                if k[0] != "param":
                    res.setdefault(k, []).extend((self.p.fns[i], n) for n in ns)
        return res

    def closure(self, root, skip=None):
        """Functions reachable from the root (skipping some), with their writes {key: (fn, node)}."""
        seen = {root}
        todo = [root]
        par = {}
        while todo:
            x = todo.pop()
            for cid, node in self.calls.get(x, ()):
                if cid not in seen and not (skip and skip(self.p.info[cid])):
                    seen.add(cid)
                    par[cid] = (x, node)
                    todo.append(cid)
        pmod = {f: {k: (f, ns[0]) for k, ns in self.dmod.get(f, {}).items() if k[0] == "param"} for f in seen}
        res = {}
        for f in seen:
            for k, ns in self.dmod.get(f, {}).items():
                if k[0] != "param":
                    res.setdefault(k, (f, ns[0]))
        changed = True
        while changed:
            changed = False
            for f in seen:
                for cid, node in self.calls.get(f, ()):
                    if cid not in seen or node is None:
                        continue
                    for k, w in list(pmod[cid].items()):
                        a = node.get("args") or []
                        if k[1] >= len(a):
                            continue
                        for y in self.origin(self.p.fns[f], a[k[1]]):
                            if y[0] == "thisobj":
                                continue
                            if y[0] == "param":
                                if y not in pmod[f]:
                                    pmod[f][y] = w
                                    changed = True
                            elif y not in res:
                                res[y] = w
                                changed = True
        return seen, res, par
