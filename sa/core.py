"""Loads the facts extracted from /repo's current sources and offers the
resolved program (functions, control flow, records, call graph) to the rules."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLINGCON_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CLINGO_INC = "/opt/vp/pydeps/lib/python3.12/site-packages/clingo"


class AnalysisBroken(Exception):
    """The analysis could not decide (vanished anchor, unparsable source, ...)."""


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_tool():
    """Build the extractor unless an up-to-date binary exists."""
    src = os.path.join(VERIF, "tool", "extract.cc")
    key = sha([src])
    out = os.path.join(VERIF, "build", "extract-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    lib = None
    for c in (LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libclang-cpp.so",
              "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1"):
        if os.path.exists(c):
            lib = c
            break
    if lib is None:
        raise AnalysisBroken("libclang-cpp not found")
    cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", src, "-o", tmp,
           "-L" + LLVM + "/lib", lib, "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("building the extractor failed:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def units():
    us = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, "libclingcon/src/*.cc")))
    if os.path.exists(os.path.join(REPO, "app/main.cc")):
        us.append("app/main.cc")
    return us


def flags(unit):
    fl = ["-std=gnu++17", "-DNDEBUG", "-DCLINGCON_NO_VISIBILITY", "-O2",
          "-resource-dir", LLVM + "/lib/clang/18",
          "-I" + REPO + "/libclingcon", "-I" + REPO + "/third_party/wide-integer", "-I" + CLINGO_INC]
    return fl


def extract():
    """Run the extractor over all units; returns the list of parsed JSON facts."""
    tool = build_tool()
    srcs = units()
    if len(srcs) < 2:
        raise AnalysisBroken("no translation units found in " + REPO)
    inputs = [os.path.join(REPO, u) for u in srcs]
    inputs += sorted(glob.glob(os.path.join(REPO, "libclingcon/**/*.h*"), recursive=True))
    inputs += sorted(glob.glob(os.path.join(REPO, "libclingcon/src/**/*"), recursive=True))
    inputs = [p for p in dict.fromkeys(inputs) if os.path.isfile(p)]
    cdir = os.path.join(VERIF, "build", "facts-" + sha(inputs + [os.path.join(VERIF, "tool", "extract.cc")]))

    def run(unit):
        out = os.path.join(cdir, unit.replace("/", "_") + ".json")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            r = subprocess.run([tool, REPO, unit, tmp, "--"] + flags(unit), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0:
                raise AnalysisBroken("cannot parse %s:\n%s" % (unit, r.stdout[-3000:]))
            os.replace(tmp, out)
        with open(out) as f:
            return json.load(f)

    os.makedirs(cdir, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, srcs))
    return res


class Node:
    """A resolved syntax tree node."""
    __slots__ = ("i", "k", "line", "type", "a", "kids", "parent", "fn", "lv", "cv")

    def __repr__(self):
        return "<%s@%s %s>" % (self.k, self.line, self.a.get("name", ""))

    def get(self, x, d=None):
        return self.a.get(x, d)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids))

    def find(self, k):
        return [n for n in self.walk() if n.k == k]


class Info:
    """A function declaration (with or without a body in the repository)."""

    def __init__(self, d, types):
        self.id = d["id"]
        self.name = d["name"]
        self.q = d["q"]
        self.cls = d.get("cls", "")
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.virt = d.get("virt", False)
        self.kind = d.get("kind", "function")
        self.lambda_ = bool(d.get("lambda"))
        self.throws = d["throws"]
        self.extc = d["extc"]
        self.noret = d.get("noret", 0)
        self.inroot = d["inroot"]
        self.ret = types[d["ret"]] if d["ret"] >= 0 else ""
        self.rets = types[d["rets"]] if d["rets"] >= 0 else ""
        self.pt = [types[t] if t >= 0 else "" for t in d["pt"]]
        self.file = d["file"]
        self.line = d["line"]
        self.body = None  # Fn

    def __repr__(self):
        return "<fn %s>" % (self.q or self.id)

    @property
    def short(self):
        """Name without namespaces of the repository."""
        return self.q.replace("Clingcon::", "").replace("(anonymous namespace)::", "").replace("(anonymous class)::", "lambda::")


class Block:
    __slots__ = ("id", "elems", "tk", "ts", "tc", "top", "tl", "lk", "ls", "succ", "noret")


class Fn:
    """A function definition."""

    def __init__(self):
        self.nodes = {}
        self.blocks = {}
        self.params = []
        self.inits = []

    def __repr__(self):
        return "<def %s %s:%s>" % (self.info.q, self.file, self.line)

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)

    def allnodes(self):
        for n in self.body.walk():
            yield n
        for i in self.inits:
            for n in i["e"].walk():
                yield n

    def at(self, n):
        return "%s:%d" % (self.file, n.line if isinstance(n, Node) else n)


CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")
CTORS = ("CXXConstructExpr", "CXXTemporaryObjectExpr")


class Program:
    def __init__(self, facts):
        self.info = {}
        self.fns = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.overriders = {}
        self.units = []
        for f in facts:
            self._load(f)
        # transitive overriders
        over = {}
        for r in self.records.values():
            for m in r["methods"]:
                for o in m["over"]:
                    over.setdefault(o, set()).add(m["fn"])
        for o in over:
            todo = [o]
            seen = set()
            while todo:
                x = todo.pop()
                for y in over.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            self.overriders[o] = seen
        self._callgraph = None

    def _load(self, F):
        types = F["types"]
        self.units.append(F["main"])
        tab = []
        for d in F["fns"]:
            i = self.info.get(d["id"])
            if i is None:
                i = Info(d, types)
                self.info[i.id] = i
            elif i.throws and not d["throws"]:
                i.throws = False
            tab.append(i)
        unit = F["main"]
        for d in F["functions"]:
            i = tab[d["fn"]]
            if i.id in self.fns:
                continue
            fn = Fn()
            fn.info = i
            fn.id = i.id
            fn.unit = unit
            fn.file = d["file"]
            fn.line = d["line"]
            fn.end = d["end"]
            fn.ret = types[d["ret"]]
            fn.rets = types[d["rets"]]
            fn.targs = d.get("targs", [])
            fn.copyctor = d.get("copyctor", False)
            fn.movector = d.get("movector", False)
            fn.parent = tab[d["parent"]] if "parent" in d else None
            fn.params = [{"d": p["d"], "name": p["name"], "t": types[p["t"]], "s": types[p["s"]]} for p in d["params"]]
            mk = lambda x, par: self._node(x, par, fn, tab, types)
            fn.body = mk(d["body"], None)
            fn.inits = []
            for x in d.get("inits", []):
                y = dict(x)
                y["e"] = mk(x["e"], None)
                fn.inits.append(y)
            fn.extra = [mk(x, None) for x in d.get("extra", [])]
            cfg = d.get("cfg")
            if cfg:
                fn.entry = cfg["entry"]
                fn.exit = cfg["exit"]
                for b in cfg["blocks"]:
                    B = Block()
                    B.id = b["b"]
                    B.elems = []
                    for e in b["e"]:
                        if isinstance(e, dict):
                            n = fn.nodes.get(e["e"])
                            if "member" in e:
                                B.elems.append(("init", e["member"], n))
                        else:
                            n = fn.nodes.get(e)
                            if n is not None:
                                B.elems.append(n)
                    B.tk = b.get("tk")
                    B.ts = fn.nodes.get(b.get("ts"))
                    B.tc = fn.nodes.get(b.get("tc"))
                    B.top = b.get("top")
                    B.tl = b.get("tl", 0)
                    B.lk = b.get("lk")
                    B.ls = fn.nodes.get(b.get("ls"))
                    B.succ = b["s"]
                    B.noret = b.get("noret", 0)
                    fn.blocks[B.id] = B
            i.body = fn
            self.fns[i.id] = fn
        for r in F["records"]:
            if r["name"] in self.records:
                continue
            r = dict(r)
            for f in r["fields"]:
                f["t"] = types[f["t"]]
                f["s"] = types[f["s"]]
            for m in r["methods"]:
                m["fn"] = tab[m["fn"]].id
                m["over"] = [tab[o].id for o in m["over"]]
            self.records[r["name"]] = r
        for e in F["enums"]:
            self.enums[e["qn"]] = e["vals"]
        for g in F["globals"]:
            g = dict(g)
            g["t"] = types[g["t"]]
            fake = Fn()
            fake.file = g["file"]
            if "init" in g:
                g["init"] = self._node(g["init"], None, fake, tab, types)
            self.globals.setdefault(g["qn"], g)

    def _node(self, d, parent, fn, tab, types):
        n = Node()
        n.i = d["i"]
        n.k = d["k"]
        n.line = d["l"]
        n.parent = parent
        t = d.get("t", -1)
        n.type = types[t] if t is not None and t >= 0 else ""
        n.lv = d.get("lv", 0)
        n.cv = d.get("cv")
        n.fn = tab[d["fn"]] if "fn" in d else None
        a = {}
        kids = []
        for key, v in d.items():
            if key in ("i", "k", "l", "t", "lv", "cv", "fn"):
                continue
            if key in ("c", "args"):
                lst = [self._node(x, n, fn, tab, types) for x in v if x]
                a[key] = lst
                continue
            if key in ("obj", "calleeexpr", "init", "cond", "then", "else", "inc", "condvar") or (key == "body" and isinstance(v, dict)):
                if isinstance(v, dict):
                    a[key] = self._node(v, n, fn, tab, types)
                continue
            if key == "decls":
                a[key] = [self._var(x, n, fn, tab, types) for x in v]
                continue
            if key == "loopvar":
                a[key] = self._var(v, n, fn, tab, types)
                continue
            if key == "caps":
                cs = []
                for c in v:
                    c = dict(c)
                    c["init"] = self._node(c["init"], n, fn, tab, types) if c.get("init") else None
                    cs.append(c)
                a[key] = cs
                continue
            if key in ("wt", "nt", "ct"):
                a[key] = types[v] if v >= 0 else ""
                continue
            if key == "insts":
                a[key] = [tab[x] for x in v]
                continue
            a[key] = v
        n.a = a
        for key in ("init", "condvar", "calleeexpr", "obj", "cond", "then", "else", "inc", "body"):
            x = a.get(key)
            if isinstance(x, Node):
                kids.append(x)
        for key in ("args", "c"):
            kids.extend(a.get(key, ()))
        for v in a.get("decls", ()):
            if v.get("init") is not None:
                kids.append(v["init"])
        for c in a.get("caps", ()):
            if c["init"] is not None:
                kids.append(c["init"])
        n.kids = kids
        fn.nodes.setdefault(n.i, n)
        return n

    def _var(self, v, n, fn, tab, types):
        v = dict(v)
        v["t"] = types[v["t"]] if v["t"] >= 0 else ""
        v["s"] = types[v["s"]] if v["s"] >= 0 else ""
        if "init" in v:
            v["init"] = self._node(v["init"], n, fn, tab, types)
        for b in v.get("binds", ()):
            b["t"] = types[b["t"]] if b["t"] >= 0 else ""
        return v

    # ---- queries -----------------------------------------------------
    def find(self, q, need=True, body=True):
        """All functions with the given qualified name (suffix match on '::')."""
        res = []
        for i in self.info.values():
            if (i.q == q or i.q.endswith("::" + q)) and (not body or i.body is not None):
                res.append(i)
        if need and not res:
            raise AnalysisBroken("anchor not found: function " + q)
        return res

    def record(self, qn, need=True):
        for r in self.records.values():
            if r["qn"] == qn or r["qn"].endswith("::" + qn):
                return r
        if need:
            raise AnalysisBroken("anchor not found: record " + qn)
        return None

    def targets(self, node):
        """Possible callees of a call-like node."""
        i = node.fn
        if i is None:
            return []
        if node.k == "CXXMemberCallExpr" and node.get("virt"):
            res = [self.info[x] for x in self.overriders.get(i.id, ()) if x in self.info]
            if i.body is not None or not res:
                res.append(i)
            return res
        return [i]

    def callees(self, fn):
        """Direct callees (including lambdas created in the function)."""
        res = set()
        for n in fn.allnodes():
            if n.k in CALLS or n.k in CTORS:
                for t in self.targets(n):
                    res.add(t.id)
            elif n.k == "LambdaExpr":
                if n.fn:
                    res.add(n.fn.id)
                for x in n.get("insts", ()):
                    res.add(x.id)
            elif n.fn is not None and n.k in ("DeclRefExpr", "MemberExpr"):
                res.add(n.fn.id)
        return res

    def callgraph(self):
        if self._callgraph is None:
            self._callgraph = {i: self.callees(f) for i, f in self.fns.items()}
        return self._callgraph

    def reachable(self, roots):
        cg = self.callgraph()
        seen = set()
        todo = [r if isinstance(r, str) else r.id for r in roots]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(cg.get(x, ()))
        return seen


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program(extract())
    return _prog
