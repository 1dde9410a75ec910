"""Builds normalised IR views of /repo's current sources and loads them."""
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang++-18"
CFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug",
          "-femit-all-decls", "-ffp-contract=off", "-w", "-DENABLE_MLPACK=false", "-emit-llvm", "-c"]


class AnalysisBroken(Exception):
    pass


class BuildBroken(AnalysisBroken):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _hash_files(paths, extra=()):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


def source_files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "source")):
        for f in fs:
            if f.endswith((".hpp", ".cpp", ".h")):
                out.append(os.path.join(d, f))
    return out


def tool():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    key = _hash_files([src, os.path.join(VERIF, "tool", "build.sh")])
    d = os.path.join(BUILD, "tool-" + key)
    exe = os.path.join(d, "irx")
    if not os.path.exists(exe):
        r = sh(["bash", os.path.join(VERIF, "tool", "build.sh"), d])
        if r.returncode or not os.path.exists(exe):
            raise BuildBroken("extractor build failed:\n" + r.stdout[-2000:])
    return exe


SIMP = "function(sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint;max-iterations=4>,sroa,gvn,simplifycfg)"
DEEP = ("function(sroa,early-cse,simplifycfg),always-inline|" + (SIMP + ",always-inline|") * 4 +
        "function(sroa,early-cse<memssa>,simplifycfg,instsimplify,sroa,loop-mssa(licm),gvn,simplifycfg,loop-simplify,lcssa,loop(indvars),"
        "early-cse<memssa>,adce,simplifycfg,loop-simplify)")

VIEWS = {
    # name: (translation units, extra include dirs, policy)
    "parser": (["tu/parser_all.cpp"], [], "policy/opaque_std.txt"),
    # the same sources with calls between the JSON classes kept as calls
    "kernels": (["tu/kernels.cpp"], ["stubs"], "policy/kernels.txt policy/opaque_std.txt", DEEP),
    "json": (["tu/parser_all.cpp"], [], "policy/json_cuts.txt policy/opaque_std.txt"),
    # the network: every source of the dnn library, everything of it inlined
    "dnn": (["@source/dnn/*.cpp"], ["stubs"], "policy/dnn.txt policy/kernels.txt policy/opaque_std.txt", DEEP),
    # models and what they do to their graph
    "model": (["@source/dnn/model.cpp", "tu/models.cpp"], ["stubs"], "policy/model.txt policy/dnn.txt policy/kernels.txt policy/opaque_std.txt", DEEP),
    # the compound graph of a model over its single graphs
    "graph": (["@source/dnn/dlgraph.cpp", "@source/dnn/dense.cpp"], ["stubs"], "policy/graph.txt policy/dnn.txt policy/kernels.txt policy/opaque_std.txt", DEEP),
    # datasets
    "dataset": (["tu/datasets.cpp"], ["stubs"], "policy/dataset.txt policy/kernels.txt policy/opaque_std.txt", DEEP),
    "graphs": (["tu/graphs.cpp"], ["stubs"], "policy/dnn.txt policy/kernels.txt policy/opaque_std.txt", DEEP),
}


def view(name):
    """returns the loaded JSON of a view, built from the current sources"""
    tus, incs, pol = VIEWS[name][:3]
    passes = VIEWS[name][3:]
    exe = tool()
    tus = [x for t in tus for x in ([os.path.join(VERIF, t)] if not t.startswith("@") else sorted(glob.glob(os.path.join(REPO, t[1:]))))]
    stubs = []
    for d in incs:
        for dd, _, fs in os.walk(os.path.join(VERIF, d)):
            stubs += [os.path.join(dd, f) for f in fs]
    pols = [os.path.join(VERIF, x) for x in pol.split()]
    key = _hash_files(source_files() + [t for t in tus if os.path.exists(t)] + stubs + pols + [exe], [CFLAGS, REPO, list(passes)])
    cd = os.path.join(BUILD, "view-%s-%s" % (name, key))
    out = os.path.join(cd, "ir.json")
    if not os.path.exists(out):
        os.makedirs(cd, exist_ok=True)
        procs = []
        bcs = []
        for t in tus:
            bc = os.path.join(cd, os.path.basename(t) + ".%d.bc" % os.getpid())
            bcs.append(bc)
            cmd = [CLANG] + CFLAGS + ["-I" + os.path.join(REPO, "source")]
            for d in incs:
                cmd += ["-I" + os.path.join(VERIF, d)]
            cmd += ["-I" + os.path.join(REPO, "source/dnn"), t, "-o", bc]
            procs.append((t, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for t, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise BuildBroken("cannot parse %s:\n%s" % (t, o[-3000:]))
        tmp = out + ".%d" % os.getpid()
        polf = os.path.join(cd, "policy.%d" % os.getpid())
        with open(polf, "w") as f:
            for x in pols:
                with open(x) as g:
                    f.write(g.read() + "\n")
        r = sh([exe] + bcs + ["-policy", polf, "-repo", REPO + "/", "-o", tmp] + ["-elpasses=" + x for x in passes])
        if r.returncode:
            raise BuildBroken("extractor failed: " + r.stdout[-2000:])
        os.rename(tmp, out)
        for b in bcs:
            os.unlink(b)
        _prune(cd)
    with open(out) as f:
        return Module(name, json.load(f))


def _prune(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("view-")]
        ds.sort(key=os.path.getmtime)
        import shutil
        for d in ds[:-24]:
            if d != keep and time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


# --------------------------------------------------------------------------
_strip_cache = {}


def strip_templates(s):
    """'std::vector<int, A>::operator[](unsigned long) const' -> ('std::vector::operator[]', ['unsigned long'])"""
    if s in _strip_cache:
        return _strip_cache[s]
    # protect operators
    t = s
    for i, o in enumerate(("operator<<=", "operator>>=", "operator<=>", "operator->*", "operator<<", "operator>>",
                           "operator<=", "operator>=", "operator->", "operator<", "operator>", "operator()")):
        t = t.replace(o, "\x01%d\x02" % i)
    ops = ("operator<<=", "operator>>=", "operator<=>", "operator->*", "operator<<", "operator>>",
           "operator<=", "operator>=", "operator->", "operator<", "operator>", "operator()")
    t = t.replace("(anonymous namespace)", "{anon}")
    depth = 0
    out = []
    par = 0
    args = None
    cur = []
    plist = []
    i = 0
    while i < len(t):
        c = t[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            if c == "(":
                par += 1
                if par == 1:
                    args = []
                    cur = []
                    i += 1
                    continue
            elif c == ")":
                par -= 1
                if par == 0:
                    if cur:
                        args.append("".join(cur).strip())
                    plist = args
                    # local entities: keep going (e.g. f(int)::{lambda}::operator())
                    rest = t[i + 1:]
                    if rest.startswith("::") or (rest.startswith(" const::")):
                        args = None
                    i += 1
                    continue
            if par == 0:
                out.append(c)
        if par >= 1:
            if c == "," and par == 1 and depth == 0:
                args.append("".join(cur).strip())
                cur = []
            else:
                cur.append(c)
        i += 1
    name = "".join(out)
    for i, o in enumerate(ops):
        name = name.replace("\x01%d\x02" % i, o)
    name = name.strip()
    for suf in (" const", " &", " &&"):
        while name.endswith(suf):
            name = name[: -len(suf)]
    # drop the return type of function templates / conversion operators kept
    if " " in name and "operator " not in name:
        name = name.split(" ")[-1]
    name = name.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "").replace("std::filesystem::__cxx11::", "std::filesystem::")
    r = (name, plist)
    _strip_cache[s] = r
    return r


class Instr(object):
    __slots__ = ("fn", "blk", "j", "d", "i", "op")

    def __init__(self, fn, blk, j, d):
        self.fn, self.blk, self.j, self.d = fn, blk, j, d
        self.i = d["i"]
        self.op = d["op"]

    def loc(self):
        dl = self.d.get("d")
        if not dl:
            return "%s:%s" % (self.fn.relfile(), self.fn.line)
        # innermost frame inside the repository
        for line, f, q in dl:
            if f.startswith(REPO):
                return "%s:%d" % (os.path.relpath(f, REPO), line)
        return "%s:%d" % (os.path.basename(dl[0][1]), dl[0][0])

    def frames(self):
        return [q for _, f, q in self.d.get("d", [])]

    def callee(self):
        return self.d.get("callee")


class Fn(object):
    def __init__(self, mod, key, d):
        self.mod, self.key, self.d = mod, key, d
        self.name = d["name"]
        self.q = d.get("qname", "")
        self.line = d.get("line", 0)
        self.file = d.get("file", "")
        self.scope = d.get("scope", "")
        self.short = d.get("short", "")
        self.blocks = []
        self.ins = {}
        for b in d["blocks"]:
            L = []
            for j, i in enumerate(b["is"]):
                I = Instr(self, b["b"], j, i)
                L.append(I)
                self.ins[I.i] = I
            self.blocks.append(L)
        self.succ = [list(dict.fromkeys(L[-1].d.get("succ", []))) if L else [] for L in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(b)
        self.scev = {int(k): v for k, v in d.get("scev", {}).items()}
        self.loops = d.get("loops", [])
        self.vars = {v[0]: (v[1], v[2]) for v in d.get("vars", [])}
        self._dom = None

    def relfile(self):
        return os.path.relpath(self.file, REPO) if self.file.startswith("/") else self.file

    def where(self):
        return "%s:%d (%s)" % (self.relfile(), self.line, self.q)

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dom(self):
        if self._dom is None:
            order = self.rpo()
            allb = set(order)
            dom = {b: allb for b in order}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [dom[p] for p in self.pred[b] if p in allb]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def loop_of(self, b):
        """innermost loop dict containing block b"""
        best = None
        for L in self.loops:
            if b in L["blocks"] and (best is None or len(L["blocks"]) < len(best["blocks"])):
                best = L
        return best

    def reach(self, start, avoid=()):
        """blocks reachable from start (list) not passing through avoid"""
        seen = set()
        st = [s for s in start if s not in avoid]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in self.succ[b]:
                if s not in avoid and s not in seen:
                    st.append(s)
        return seen

    def this_index(self):
        """IR argument index of `this`, or None"""
        a = self.d["args"]
        dt = self.d.get("ditypes", [])
        if len(dt) < 2:
            return None
        k = 1 if a and a[0].get("sret") else 0
        t = dt[1]
        if self.scope and t.replace("const ", "").rstrip("*") == self.scope and t.endswith("*"):
            return k
        return None

    def arg_ditypes(self):
        a = self.d["args"]
        dt = self.d.get("ditypes", [])
        k = 1 if a and a[0].get("sret") else 0
        if len(a) - k == len(dt) - 1:
            return ([dt[0] + "&"] if k else []) + dt[1:]
        return ([dt[0] + "&"] if k and dt else [None] * k) + (dt[1:2] if len(dt) > 1 else []) + [None] * (len(a) - k - 1)


class Module(object):
    def __init__(self, name, d):
        self.vname = name
        self.d = d
        self.types = d["types"]
        self.globals = d["globals"]
        self.names = d["names"]
        self.fns = {k: Fn(self, k, f) for k, f in d["functions"].items()}
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)

    def dem(self, n):
        x = self.names.get(n)
        return x["d"] if x else n

    def short(self, n):
        return strip_templates(self.dem(n))[0]

    def q(self, qname, pred=None):
        """functions with this qualified name (templates: prefix match up to '<')"""
        r = []
        for k, fs in self.byq.items():
            if k == qname or strip_name(k) == qname:
                r += fs
        if pred:
            r = [f for f in r if pred(f)]
        return r

    def method(self, cls, name, nparams=None):
        r = []
        for f in self.fns.values():
            if strip_name(f.scope) == cls and strip_name(f.short) == name:
                if nparams is None or len(f.d.get("ditypes", [])) - 2 == nparams:
                    r.append(f)
        return r

    def one(self, cls, name, nparams=None, pred=None):
        r = self.method(cls, name, nparams)
        if pred:
            r = [f for f in r if pred(f)]
        # constructors/destructors come in complete-object and base variants
        if len(r) > 1:
            c1 = [f for f in r if "C1E" in f.key or "C1I" in f.key]
            if len(c1) == 1:
                return c1[0]
            c2 = [f for f in r if "C2E" in f.key or "C2I" in f.key]
            if len(c2) == 1:
                return c2[0]
        if len(r) == 1:
            return r[0]
        return None

    def vtable(self, cls):
        for k, g in self.globals.items():
            if k.startswith("_ZTV") and g.get("name") == "vtable for " + (cls or "?"):
                i = g.get("init")
                if isinstance(i, list) and i and isinstance(i[0], list):
                    return i[0]
        return None

    def string(self, gname):
        g = self.globals.get(gname)
        if not g:
            return None
        i = g.get("init")
        if isinstance(i, dict) and "bytes" in i:
            b = bytes(i["bytes"])
            return b
        if isinstance(i, dict) and i.get("zero") and str(g.get("ditype", "")).replace("const ", "").startswith("char["):
            return b"\0"
        return None

    # ---- debug-type helpers
    def type(self, n):
        if n is None:
            return None
        n = n.replace("const ", "").replace("volatile ", "").strip()
        return self.types.get(n)

    def field_at(self, tname, off):
        """(path tuple, member start, member type, size) of the innermost
        repository member containing byte offset off"""
        tname = (tname or "").replace("const ", "").strip()
        path = []
        start = 0
        while True:
            t = self.types.get(tname)
            if not t:
                return tuple(path), start, tname, None
            best = None
            for n, o, ty, sz in t["members"]:
                if o <= off - start < o + max(sz, 1):
                    best = (n, o, ty, sz)
            if best is None:
                bb = None
                for bt, bo in t["bases"]:
                    bs = self.types.get(bt, {}).get("size", 0)
                    if bo <= off - start < bo + max(bs, 1):
                        bb = (bt, bo)
                if bb is None:
                    return tuple(path), start, tname, t["size"]
                start += bb[1]
                tname = bb[0]
                continue
            path.append(best[0])
            start += best[1]
            if best[2].replace("const ", "").strip() in self.types and not best[2].endswith(("*", "&")) \
                    and self.types[best[2].replace("const ", "").strip()]["members"]:
                tname = best[2].replace("const ", "").strip()
                continue
            return tuple(path), start, best[2], best[3]

    def member_off(self, tname, member):
        """byte offset of a (possibly inherited) member"""
        t = self.types.get(tname)
        if not t:
            return None
        for n, o, ty, sz in t["members"]:
            if n == member:
                return o
        for bt, bo in t["bases"]:
            r = self.member_off(bt, member)
            if r is not None:
                return bo + r
        return None

    def derived(self, base):
        out = []
        for n, t in self.types.items():
            seen = set()
            st = [n]
            while st:
                x = st.pop()
                for b, _ in self.types.get(x, {}).get("bases", []):
                    if b not in seen:
                        seen.add(b)
                        st.append(b)
            if base in seen:
                out.append(n)
        return sorted(out)


def strip_name(s):
    out, d = [], 0
    prot = s.replace("operator<<", "\x01").replace("operator>>", "\x02").replace("operator->", "\x03") \
            .replace("operator<=", "\x06").replace("operator>=", "\x07").replace("operator<", "\x04").replace("operator>", "\x05")
    for c in prot:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    r = "".join(out)
    for a, b in (("\x01", "operator<<"), ("\x02", "operator>>"), ("\x03", "operator->"), ("\x06", "operator<="), ("\x07", "operator>="),
                 ("\x04", "operator<"), ("\x05", "operator>")):
        r = r.replace(a, b)
    return r
