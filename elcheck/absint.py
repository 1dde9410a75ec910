"""Flow-sensitive, path-insensitive abstract interpretation of one normalised
function over canonical terms.

State at a program point:
  mem    (base, const offset, size) -> term          memory cells
  obj    (base, const offset)       -> term          value of library objects
  ver    (base, member start)       -> clobber id    versions of unknown memory
  facts  frozenset of boolean terms known to hold on every path here
Loops are solved by a fixpoint with joins; nothing is executed and no path is
enumerated.
"""
from .terms import *
from .ir import Fn, Instr, strip_templates, AnalysisBroken

BOTTOM = None


class State(object):
    __slots__ = ("mem", "obj", "ver", "facts")

    def __init__(self, mem=None, obj=None, ver=None, facts=frozenset()):
        self.mem = mem if mem is not None else {}
        self.obj = obj if obj is not None else {}
        self.ver = ver if ver is not None else {}
        self.facts = facts

    def copy(self):
        return State(dict(self.mem), dict(self.obj), dict(self.ver), self.facts)

    def same(self, o):
        return self.mem == o.mem and self.obj == o.obj and self.ver == o.ver and self.facts == o.facts


class Event(object):
    __slots__ = ("ins", "kind", "args", "res", "facts", "state", "callee", "full")

    def __init__(self, ins, kind, args, res, st, callee="", full=""):
        self.ins, self.kind, self.args, self.res, self.state = ins, kind, args, res, st
        self.facts = st.facts
        self.callee = callee
        self.full = full

    @property
    def b(self):
        return self.ins.blk

    @property
    def pos(self):
        return (self.ins.blk, self.ins.j)

    def loc(self):
        return self.ins.loc()

    def __repr__(self):
        return "<%s@b%d %s(%s)>" % (self.kind, self.b, self.callee, ", ".join(show(a) for a in self.args))


ISIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4}

PURE_RET_PTR = ("std::vector::operator[]", "std::vector::at", "std::vector::data", "std::vector::begin", "std::vector::end",
                "std::vector::front", "std::vector::back", "std::vector::cbegin", "std::vector::cend",
                "std::basic_string::data", "std::basic_string::c_str", "std::basic_string::operator[]", "std::basic_string::begin",
                "std::basic_string::end", "std::basic_string::at", "std::array::operator[]", "std::array::data", "std::array::begin")

ELEM = {"double": 8, "float": 4, "unsigned char": 1, "signed char": 1, "char": 1, "unsigned long": 8, "long": 8, "int": 4,
        "unsigned int": 4, "long long": 8, "unsigned long long": 8, "bool": 1, "short": 2, "unsigned short": 2}


def first_targ(full):
    """first template argument of the (outermost) vector in a demangled name"""
    i = full.find("std::vector<")
    if i < 0:
        return None
    i += len("std::vector<")
    d, j = 1, i
    while j < len(full):
        c = full[j]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
            if d == 0:
                break
        elif c == "," and d == 1:
            break
        j += 1
    return full[i:j].strip()


def owner_targ(full):
    """first template argument of the class owning the method `...<T, ...>::m(`"""
    name = full
    # cut parameters
    d = 0
    for k, c in enumerate(name):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "(" and d == 0 and not name[:k].endswith("operator"):
            name = name[:k]
            break
    # last template-id before the final ::
    d = 0
    end = None
    cut = None
    for k in range(len(name) - 1, -1, -1):
        c = name[k]
        if c == ">":
            d += 1
        elif c == "<":
            d -= 1
        elif d == 0 and name[k - 1:k + 1] == "::":
            cut = k - 1
            break
    if cut is None:
        return None
    cls = name[:cut]
    if not cls.endswith(">"):
        return None
    d = 0
    for k in range(len(cls) - 1, -1, -1):
        if cls[k] == ">":
            d += 1
        elif cls[k] == "<":
            d -= 1
            if d == 0:
                break
    inner = cls[k + 1:-1]
    d = 0
    for k, c in enumerate(inner):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "," and d == 0:
            return inner[:k].strip()
    return inner.strip()


MATH = {p + n + q: n for n in ("exp", "log", "tanh", "sqrt", "pow", "fabs", "fmax", "fmin", "expm1", "log1p", "floor", "ceil") for p in ("", "std::") for q in ("", "f")}


class Absint(object):
    MAXIT = 60

    def __init__(self, fn, consts=None, models=None, init=None, facts=(), objs=None, vstack=(), cls=None):
        """consts: {arg index: Poly} specialisation of arguments
        init: {(base, offset, size): term} cells known at entry
        facts: boolean terms assumed at entry
        cls: the class of the object, if it is not the one that has the function"""
        self.vstack = vstack
        self.cls = cls
        self.init = init or {}
        self.init_obj = objs or {}
        self.init_facts = frozenset(facts)
        self.fn = fn
        self.mod = fn.mod
        self.consts = consts or {}
        self.models = models or {}
        self.env = {}
        self.phiinc = {}      # phi/join atom -> list of (pred, term)
        self.in_state = {}
        self.out_state = {}
        self.events = []
        self.exits = []       # ('ret', Event) / ('throw', Event)
        self.isind, self.noind = set(), set()
        self.canon, self.canonof = {}, {}
        self.headers = {L["header"]: set(L["blocks"]) for L in fn.loops}
        self.blkof = {I.i: b for b, B in enumerate(fn.blocks) for I in B}
        self._stale = {}
        self.elem = {}        # element sizes of vector regions
        self.this = fn.this_index()
        self.arg_types = fn.arg_ditypes()
        self.edge_dead = set()
        self.recording = False
        self.solve()

    # ---------------------------------------------------------------- values
    def arg(self, n):
        if n in self.consts:
            return self.consts[n]
        t = self.fn.d["args"][n]["t"]
        if t == "ptr":
            return ("p", ("this",) if n == self.this else ("arg", n), ZERO)
        if t == "i1":
            return ("argb", n)
        if t in ("double", "float"):
            return ("farg", n)
        return P(("arg", n))

    def val(self, r):
        if isinstance(r, int):
            return self.env.get(r, BOTTOM)
        k = r[0]
        if k == "a":
            return self.arg(r[1])
        if k == "c":
            if r[2] == 1:
                return TRUE if r[1] else FALSE
            return P(r[1])
        if k == "C":
            return P(int(r[1]))
        if k == "f":
            return ("fc", r[1])
        if k == "n":
            return NULL
        if k == "g":
            return ("p", ("glob", r[1]), ZERO)
        if k == "fn":
            return ("p", ("fn", r[1]), ZERO)
        if k == "ge":
            b = self.val(r[1])
            return ("p", b[1], b[2] + r[2])
        if k == "u":
            return ("undef",)
        if k == "z":
            return ("zero",)
        if k == "agg":
            return ("agg",) + tuple(self.val(x) for x in r[1])
        return ("unk", str(r)[:60])

    def as_poly(self, t):
        if isinstance(t, Poly):
            return t
        if t is BOTTOM:
            return BOTTOM
        if t == TRUE:
            return ONE
        if t == FALSE:
            return ZERO
        return P(t)

    def as_ptr(self, t):
        if isinstance(t, tuple) and t and t[0] == "p":
            return t
        return ("p", ("v", t), ZERO)

    def is_header(self, key):
        b = key[0] if isinstance(key[0], int) else key[1]
        return b in self.headers

    def induction(self, key, atom, pa, inc):
        """a cell that every iteration changes by a constant is start + step * iteration"""
        b = key[0] if isinstance(key[0], int) else key[1]
        L = self.headers.get(b)
        if L is None or atom in self.noind:
            return None
        ent = {v for p, v in inc if p not in L and v is not BOTTOM}
        back = {v for p, v in inc if p in L and v is not BOTTOM}
        if len(ent) != 1 or len(back) != 1:
            return None
        v0, v1 = ent.pop(), back.pop()
        if isinstance(v0, tuple) and isinstance(v1, tuple) and v0[:1] == ("p",) and v1[:1] == ("p",):
            # pointers and iterators: the same over offsets
            if v1[1] == atom:
                d = v1[2].const()
                if d is not None and d != 0:
                    self.isind.add(atom)
                    return ("p", v0[1], v0[2] + P(("iv", b)) * d)
            elif v1[1] == v0[1]:
                iv = P(("iv", b))
                for d in [k for m, k in v1[2].monos() if m == [("iv", b)]]:
                    if v1[2] == v0[2] + iv * d + d:
                        return ("p", v0[1], v0[2] + iv * d)
            if atom in self.isind:
                self.noind.add(atom)
            return None
        if not isinstance(v0, Poly) or not isinstance(v1, Poly):
            return None
        iv = P(("iv", b))
        d = (v1 - pa).const()
        if d is not None and d != 0:
            self.isind.add(atom)
            return v0 + iv * d
        for d in [k for m, k in v1.monos() if m == (("iv", b),) or m == [("iv", b)]] or [None]:
            if d is not None and v1 == v0 + iv * d + d:
                return v0 + iv * d
        if atom in self.isind:
            self.noind.add(atom)
        return None

    def mkphi(self, key, inc):
        vals = [v for _, v in inc if v is not BOTTOM and v != ("undef",)]
        if not vals:
            return BOTTOM
        atom = ("phi",) + key
        pa = P(atom)
        pp = ("p", atom, ZERO)
        distinct = []
        for v in vals:
            if v == atom or v == pa or v == pp:
                continue
            if v not in distinct:
                distinct.append(v)
        if len(distinct) == 1 and not self.is_header(key):
            return distinct[0]
        if not distinct:
            return vals[0]
        r = self.induction(key, atom, pa, inc)
        if r is not None:
            return r
        if len(distinct) == 1:
            return distinct[0]
        if not self.is_header(key):
            # the same join reached through memory and through a register is one value
            ck = (key[0] if isinstance(key[0], int) else key[1], tuple(sorted(((p, v) for p, v in inc), key=lambda x: x[0])))
            if not any(v is BOTTOM for _, v in inc):
                c = self.canon.get(ck)
                if c is not None and c != atom and self.canonof.get(c) == ck and (c[1] == "m") == (atom[1] == "m" or isinstance(atom[1], int)):
                    atom = c
                    pa, pp = P(atom), ("p", atom, ZERO)
                else:
                    self.canon[ck] = atom
                    self.canonof[atom] = ck
        self.phiinc[atom] = inc
        if all(isinstance(v, Poly) for v in distinct):
            return pa
        if all(isinstance(v, tuple) and v[0] == "p" for v in distinct):
            return pp
        if any(isinstance(v, Poly) for v in distinct):
            return pa
        return atom

    # ---------------------------------------------------------------- memory
    def vkey(self, base, off):
        """version key: the repository member containing (base, off)"""
        ty = self.region_type(base)
        if ty and isinstance(off, int):
            path, start, mty, sz = self.mod.field_at(ty, off)
            if path:
                return (base, start)
        return (base, None)

    def region_type(self, base):
        if base[0] == "this":
            return self.fn.scope
        if base[0] == "arg":
            t = self.arg_types[base[1]] if base[1] < len(self.arg_types) else None
            if t:
                t = t.replace("const ", "").strip()
                if t.endswith(("*", "&")):
                    return t.rstrip("*&").strip()
            return None
        if base[0] == "alloca":
            v = self.fn.vars.get(base[1])
            return v[1] if v else None
        return None

    def load(self, st, ptr, size, ty, ins):
        base, off = ptr[1], ptr[2]
        c = off.const()
        if base[0] == "vec" and (c is None or (base, c, size) not in st.mem) and not any(k[0] == base for k in st.mem):
            v = self.oget(st, base[1])
            if isinstance(v, tuple) and v[0] == "vecn" and isinstance(v[2], tuple) and v[2][0] == "filled" and size == 1:
                return P(("fbyte", v[2][1], v[2][2] + off))
            if isinstance(v, tuple) and v[0] == "obj" and v[1] != base[1] and len(v) == 2:
                return self.load(st, ("p", ("vec", v[1]), off), size, ty, ins)
        if c is not None:
            k = (base, c, size)
            if k in st.mem:
                return st.mem[k]
            # compose from bytes
            if size > 1 and all((base, c + i, 1) in st.mem for i in range(size)):
                r = ZERO
                for i in range(size):
                    b = st.mem[(base, c + i, 1)]
                    b = self.as_poly(b)
                    r = r + P(256 ** i) * b
                return r
            # part of a wider cell
            for (bb, o, s), v in st.mem.items():
                if bb == base and o <= c and c + size <= o + s and isinstance(v, Poly) and s > size:
                    cv = v.const()
                    if cv is not None and cv >= 0:
                        return P((cv >> (8 * (c - o))) & ((1 << (8 * size)) - 1))
                    # little-endian byte of a byte-composed word
                    if size == 1:
                        m = dict(v.c)
                        w = 256 ** (c - o)
                        hit = [mm for mm, kk in m.items() if kk == w and len(mm) == 1]
                        if len(hit) == 1 and all(kk in [256 ** i for i in range(s)] for kk in m.values()):
                            from .terms import _atoms
                            return P(_atoms[hit[0][0]])
                    return P(("bytes", v, c - o, size))
            ver = st.ver.get(self.vkey(base, c), st.ver.get((base, None), 0))
        else:
            ver = st.ver.get((base, None), 0)
        if base[0] == "glob" and c is not None:
            v = self.glob_const(base[1], c, size)
            if v is not None:
                return v
        a = ("ld", base, off, size) if ver == 0 else ("ld", base, off, size, ver)
        return self.typed(a, ty)

    def glob_const(self, g, off, size):
        gl = self.mod.globals.get(g)
        if not gl or not gl.get("const"):
            return None
        b = self.mod.string(g)
        if b is not None and 0 <= off and off + size <= len(b):
            return P(int.from_bytes(b[off:off + size], "little", signed=False))
        i = gl.get("init")
        if isinstance(i, int) and off == 0:
            return P(i)
        if isinstance(i, list) and size and off % size == 0 and off // size < len(i):
            x = i[off // size]
            if isinstance(x, int):
                return P(x)
        return None

    def typed(self, a, ty):
        if ty == "ptr":
            return ("p", a, ZERO)
        if ty in ("double", "float"):
            return a
        if ty == "i1":
            return ("i2b", P(a))
        if ty.startswith(("{", "[", "<", "%")):
            return a
        return P(a)

    def kill(self, st, base, lo, hi):
        for k in [k for k in st.mem if k[0] == base and k[1] < hi and lo < k[1] + k[2]]:
            del st.mem[k]
        for k in [k for k in st.obj if k[0] == base and lo <= k[1] < hi]:
            del st.obj[k]

    def store(self, st, ptr, size, v, ins):
        base, off = ptr[1], ptr[2]
        c = off.const()
        if base[0] == "vec":
            self.oset(st, base[1], ("vecn", vec_size(self, st, base[1]), ("st", ins.i)))
        if c is None:
            for k in [k for k in st.mem if k[0] == base]:
                del st.mem[k]
            st.ver[(base, None)] = ("st", ins.i)
            for k in [k for k in st.ver if k[0] == base and k[1] is not None]:
                del st.ver[k]
            return
        for k in [k for k in st.mem if k[0] == base and k[1] < c + size and c < k[1] + k[2]]:
            del st.mem[k]
        st.mem[(base, c, size)] = v
        if not self.distinct(base):
            # may alias any other non-local region with unknown relation: keep
            # it simple, repository code does not alias distinct parameters
            pass

    def distinct(self, base):
        return base[0] in ("alloca", "this", "arg")

    def clobber(self, st, ptr, cid, whole=False):
        base, off = ptr[1], ptr[2]
        c = off.const()
        ty = self.region_type(base)
        if not whole and c is not None and ty:
            path, start, mty, sz = self.mod.field_at(ty, c)
            if path and sz:
                self.kill(st, base, start, start + sz)
                st.ver[(base, start)] = cid
                return
        if c is not None and c != 0 and not whole and base[0] not in ("alloca",):
            # unknown extent: from c on
            self.kill(st, base, c, 1 << 40)
        else:
            self.kill(st, base, -(1 << 40), 1 << 40)
        st.ver[(base, None)] = cid
        for k in [k for k in st.ver if k[0] == base and k[1] is not None]:
            del st.ver[k]

    # ---------------------------------------------------------------- stream object normalisation
    def obj_ptr(self, t):
        """strip virtual-base adjustments"""
        t = self.as_ptr(t)
        while True:
            base, off = t[1], t[2]
            at = [a for a in off.atoms() if a[0] == "vboff"]
            if at:
                o = off - P(at[0])
                t = ("p", base, o)
                continue
            return t

    # ---------------------------------------------------------------- solve
    def wto(self):
        """blocks in an order in which every loop is a nested component"""
        rpo = self.fn.rpo()

        def build(S, head):
            out, done = [], set()
            for b in rpo:
                if b not in S or b in done:
                    continue
                if b in self.headers and b != head:
                    L = self.headers[b] & S
                    done |= L
                    out.append((b, build(L, b)))
                else:
                    done.add(b)
                    out.append(b)
            return out
        return build(set(rpo), None)

    def solve(self):
        fn = self.fn
        self.order = fn.rpo()
        self.in_state[0] = State(dict(self.init), dict(self.init_obj), facts=self.init_facts)
        self.nchg = self.serial = 0      # version of the whole analysis state
        self.done = {}
        comp = self.wto()
        it = 0
        n = -1
        while n != self.nchg:
            n = self.nchg
            it += 1
            if it > self.MAXIT:
                raise AnalysisBroken("no fixpoint in %s" % fn.q)
            self.stabilise(comp)
        self.recording = True
        self.events = []
        for b in self.order:
            if b in self.in_state:
                self.run_block(b, self.in_state[b])
        self.recording = False

    def visit(self, b):
        st = self.join(b)
        if st is None:
            return
        old = self.in_state.get(b)
        self.in_state[b] = st
        if self.run_block(b, st) or old is None or not old.same(st):
            self.serial += 1
            self.nchg = self.serial

    def stabilise(self, comp):
        for c in comp:
            if isinstance(c, int):
                self.visit(c)
            else:
                self.loop(*c)

    def loop(self, h, body):
        """iterate over one loop until it is stable, starting from its entry state"""
        L = self.headers[h]
        entry = [self.out_state.get((p, h)) for p in self.fn.pred[h] if p not in L]
        d = self.done.get(h)
        if d is not None and d[1] == self.nchg and len(d[0]) == len(entry) and \
                all((x is None and y is None) or (x is not None and y is not None and x.same(y)) for x, y in zip(d[0], entry)):
            return
        keep = {b: self.in_state.get(b) for b in L}
        env = {I.i: self.env.get(I.i) for b in L for I in self.fn.blocks[b]}
        base = self.nchg
        for b in L:
            self.in_state.pop(b, None)
            for s in self.fn.succ[b]:
                self.out_state.pop((b, s), None)
            for I in self.fn.blocks[b]:
                self.env.pop(I.i, None)
        for x in (self.isind, self.noind):
            for a in [a for a in x if (a[1] if isinstance(a[1], int) else a[2]) in L]:
                x.discard(a)
        it = 0
        n = -1
        while n != self.nchg:
            n = self.nchg
            it += 1
            if it > self.MAXIT:
                raise AnalysisBroken("no fixpoint in %s" % self.fn.q)
            self.stabilise(body)
        # the same result as before is no change
        if all((x is None) == (self.in_state.get(b) is None) and (x is None or x.same(self.in_state[b])) for b, x in keep.items()) and \
                all(self.env.get(i) == v for i, v in env.items()):
            self.nchg = base
        self.done[h] = (entry, self.nchg)

    def join(self, b):
        fn = self.fn
        if b == 0:
            return State(dict(self.init), dict(self.init_obj), facts=self.init_facts)
        ins = []
        for p in fn.pred[b]:
            o = self.out_state.get((p, b))
            if o is not None:
                ins.append((p, o))
        if not ins:
            return None
        if len(ins) == 1:
            return ins[0][1].copy()
        r = State()
        facts = None
        for p, s in ins:
            facts = s.facts if facts is None else (facts & s.facts)
        r.facts = facts
        first = ins[0][1]
        # memory
        keys = set(first.mem)
        for _, s in ins[1:]:
            keys &= set(s.mem)
        allk = set()
        for _, s in ins:
            allk |= set(s.mem)
        # a place named by something of the last iteration is another one in the next
        old = {k for k in allk if self.stale(k[0], b)} if b in self.headers else set()
        keys -= old
        for k in keys:
            vals = [(p, s.mem[k]) for p, s in ins]
            v = self.mkphi(("m", b) + k, vals)
            if v is not BOTTOM:
                r.mem[k] = v
        # cells written on some paths only: elsewhere they keep what they held
        for k in sorted(allk - keys - old, key=repr):
            if k[0][0] == "vec":
                continue
            vals = []
            for p, s in ins:
                if k in s.mem:
                    vals.append((p, s.mem[k]))
                    continue
                w = next(s2.mem[k] for _, s2 in ins if k in s2.mem)
                ty = "i%d" % (8 * k[2]) if isinstance(w, Poly) else "ptr" if isinstance(w, tuple) and w[0] == "p" else \
                    ("double" if k[2] == 8 else "float") if isinstance(w, tuple) and w and w[0] not in ("true", "false") else None
                if ty is None or any(kk[0] == k[0] and kk[1] < k[1] + k[2] and k[1] < kk[1] + kk[2] for kk in s.mem):
                    vals = None
                    break
                vals.append((p, self.load(s, ("p", k[0], P(k[1])), k[2], ty, None)))
            if vals:
                v = self.mkphi(("m", b) + k, vals)
                if v is not BOTTOM:
                    r.mem[k] = v
        # version of cells known only on some paths
        vk = set()
        for _, s in ins:
            vk |= set(s.ver)
        for k in vk:
            vs = {s.ver.get(k, s.ver.get((k[0], None), 0)) for _, s in ins}
            r.ver[k] = vs.pop() if len(vs) == 1 else ("j", b)
        for k in allk - set(r.mem):
            kk = self.vkey(k[0], k[1])
            r.ver[kk] = ("j", b)
        okeys = set()
        for _, s in ins:
            okeys |= set(s.obj)
        if b in self.headers:
            okeys = {k for k in okeys if not self.stale(k[0], b)}
        for k in okeys:
            pk = ("p", k[0], P(k[1]))
            vals = [(p, s.obj[k] if k in s.obj else self.oget(s, pk)) for p, s in ins]
            v = self.join_obj(b, k, vals)
            if v is not BOTTOM:
                r.obj[k] = v
        return r

    def stale(self, base, b):
        """does the name of a place mention a value of the loop at b?"""
        if base[0] in ("this", "arg", "alloca", "glob"):
            return False
        L = self.headers[b]
        c = self._stale.get((base, b))
        if c is None:
            def bad(x):
                if x[0] == "iv":
                    return x[1] == b
                if x[0] == "phi":
                    return (x[1] if isinstance(x[1], int) else x[2]) == b
                return x[0] in ("call", "by") and isinstance(x[-1], int) and self.blkof.get(x[-1]) in L
            c = self._stale[(base, b)] = any(bad(x) for x in walk(base) if x)
        return c

    def join_obj(self, b, k, vals):
        if all(v == vals[0][1] for _, v in vals):
            return vals[0][1]
        if any(isinstance(v, tuple) and v and v[0] == "strm" for _, v in vals):
            # streams: join the components
            vs = []
            for p, v in vals:
                if not (isinstance(v, tuple) and v and v[0] == "strm"):
                    v = ("strm", v, P(("pos", v)), (), ("start",))
                vs.append((p, v))
            org = {v[1] for _, v in vs}
            if len(org) == 1:
                nls = [(p, nlparts(v[2])) for p, v in vs]
                full = [x for _, x in nls if x[1] is not None]
                if full and len({(x[0], x[1]) for x in full}) == 1:
                    base, d = full[0][0], full[0][1]
                    if all(x[1] is not None or x[0] == base for _, x in nls):
                        kk = self.mkphi(("k", b) + k, [(p, x[2]) for p, x in nls])
                        pos = nlpos(vs[0][1][1], base, d, kk)
                    else:
                        pos = self.mkphi(("s", b) + k, [(p, v[2]) for p, v in vs])
                else:
                    pos = self.mkphi(("s", b) + k, [(p, v[2]) for p, v in vs])
                reads = tuple(sorted({x for _, v in vs for x in v[3]}, key=repr))
                ops = {v[4] for _, v in vs}
                return ("strm", org.pop(), pos, reads, ops.pop() if len(ops) == 1 else ("join", b))
        if all(isinstance(v, tuple) and v and v[0] == "vecn" for _, v in vals):
            n = self.mkphi(("n", b) + k, [(p, v[1]) for p, v in vals])
            return ("vecn", n, ("j", b))
        return self.mkphi(("o", b) + k, vals)

    def edge_facts(self, t, truth):
        """facts implied by boolean term t being `truth`"""
        out = set()
        st = [(t if truth else neg(t))]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == TRUE:
                continue
            if x == FALSE:
                return None
            out.add(x)
            if x[0] == "and":
                st += [x[1], x[2]]
            elif x[0] == "not":
                y = x[1]
                if y[0] == "or":
                    st += [neg(y[1]), neg(y[2])]
                elif y[0] in ("phi",):
                    f = self.phi_facts(y, False)
                    if f:
                        st += list(f)
            elif x[0] == "phi":
                f = self.phi_facts(x, True)
                if f:
                    st += list(f)
            elif x[0] == "xor":
                pass
            elif x[0] in ("eq", "ne") and isinstance(x[1], Poly):
                # comparison of a widened boolean with 0/1
                at = x[1].atoms()
                if len(at) == 1 and at[0][0] == "b2i" and len(x[1].c) <= 2:
                    v = subst(x[1], {at[0]: ZERO}).const()
                    w = subst(x[1], {at[0]: ONE}).const()
                    tv = (w == 0) if x[0] == "eq" else (w != 0)
                    fv = (v == 0) if x[0] == "eq" else (v != 0)
                    if tv and not fv:
                        st.append(at[0][1])
                    elif fv and not tv:
                        st.append(neg(at[0][1]))
        return out

    def phi_facts(self, atom, truth):
        inc = self.phiinc.get(atom)
        if not inc:
            return None
        res = None
        for p, v in inc:
            if v is BOTTOM:
                continue
            if v == (FALSE if truth else TRUE):
                continue
            o = None
            b = atom[1] if isinstance(atom[1], int) else None
            for (pp, bb), s in self.out_state.items():
                if pp == p and (b is None or bb == b):
                    o = s
            f = set(o.facts) if o else set()
            if b in self.headers and p in self.headers[b]:
                # what the last round knew is about that round; only what also holds on entry stays
                h = self.in_state.get(b)
                f &= set(h.facts) if h else set()
                res = f if res is None else (res & f)
                continue
            if v not in (TRUE, FALSE):
                f.add(v if truth else neg(v))
            res = f if res is None else (res & f)
        return res

    def run_block(self, b, st_in):
        st = st_in.copy()
        chg = False
        self.cur = b
        for I in self.fn.blocks[b]:
            v = self.step(I, st, b)
            if v is not BOTTOM:
                if self.env.get(I.i, BOTTOM) != v:
                    self.env[I.i] = v
                    chg = True
        T = self.fn.blocks[b][-1]
        if T.op in ("br", "switch", "invoke") or T.d.get("succ"):
            self.branch(T, st, b)
        return chg

    def set_out(self, b, s, st, facts=None):
        o = st.copy()
        if facts:
            o.facts = o.facts | frozenset(facts)
        if self.contradict(o.facts):
            self.out_state.pop((b, s), None)
            return
        self.out_state[(b, s)] = o

    def contradict(self, facts):
        for f in facts:
            if neg(f) in facts:
                return True
        # two different equalities on one atom
        vals = {}
        for f in facts:
            if f[0] == "eq" and isinstance(f[1], Poly) and len(f[1].c) <= 2:
                at = f[1].atoms()
                if len(at) == 1:
                    m = [k for mm, k in f[1].c if mm != ()]
                    c = [k for mm, k in f[1].c if mm == ()]
                    if len(m) == 1 and m[0] == 1:
                        v = -(c[0] if c else 0)
                        if vals.setdefault(at[0], v) != v:
                            return True
        return False

    def branch(self, T, st, b):
        d = T.d
        if T.op == "br" and "cond" in d:
            c = self.val(d["cond"])
            t, f = d["succ"]
            if c is BOTTOM:
                return
            if c == ("undef",):
                c = ("unk", "undef")
            if c == TRUE:
                self.out_state.pop((b, f), None) if f != t else None
                self.set_out(b, t, st)
                return
            if c == FALSE:
                self.out_state.pop((b, t), None) if f != t else None
                self.set_out(b, f, st)
                return
            if t == f:
                self.set_out(b, t, st)
                return
            for s, truth in ((t, True), (f, False)):
                fs = self.edge_facts(c, truth)
                if fs is None or self.refuted(st.facts, c if truth else neg(c)):
                    self.out_state.pop((b, s), None)
                else:
                    self.set_out(b, s, st, fs)
            return
        if T.op == "switch":
            c = self.val(d["cond"])
            if c is BOTTOM:
                return
            c = self.as_poly(c)
            bys = {}
            for v, s in d["cases"]:
                bys.setdefault(s, []).append(v)
            cv = c.const()
            allv = [v for v, _ in d["cases"]]
            for s in self.fn.succ[b]:
                if cv is not None:
                    hit = cv in allv
                    ok = (cv in bys.get(s, [])) or (not hit and s == d["default"])
                    if ok:
                        self.set_out(b, s, st)
                    else:
                        self.out_state.pop((b, s), None)
                    continue
                if s == d["default"]:
                    if s in bys:
                        self.set_out(b, s, st)
                    else:
                        self.set_out(b, s, st, [neg(eq(c, P(v))) for v in allv])
                else:
                    vs = bys[s]
                    self.set_out(b, s, st, [eq(c, P(vs[0]))] if len(vs) == 1 else [("in", c, tuple(sorted(vs)))])
            return
        for s in self.fn.succ[b]:
            self.set_out(b, s, st)

    def refuted(self, facts, t):
        return neg(t) in facts

    # ---------------------------------------------------------------- scev
    def scev_term(self, s, depth=0):
        k = s[0]
        if k == "c":
            return P(s[1])
        if k in ("zext", "sext", "trunc"):
            t = self.scev_term(s[1], depth + 1)
            if isinstance(t, tuple) and t and t[0] not in ("p", "sel") and t is not BOTTOM:
                # a truth value used as a number
                return b2i(t) if k == "zext" else -b2i(t) if k == "sext" else None
            return t
        if k == "ptrtoint":
            return P(("ptrtoint", repr(s[1])))
        if k == "add":
            # pointer + integer
            ts = [self.scev_term(x, depth + 1) for x in s[1:]]
            if any(t is None for t in ts):
                return None
            ptr = [t for t in ts if isinstance(t, tuple)]
            r = ZERO
            for t in ts:
                if isinstance(t, Poly):
                    r = r + t
            if ptr:
                p = self.as_ptr(ptr[0])
                return ("p", p[1], p[2] + r)
            return r
        if k == "mul":
            r = ONE
            for x in s[1:]:
                t = self.scev_term(x, depth + 1)
                if not isinstance(t, Poly):
                    return None
                r = r * t
            return r
        if k == "udiv":
            a, b = self.scev_term(s[1]), self.scev_term(s[2])
            if not isinstance(a, Poly) or not isinstance(b, Poly):
                return None
            return udiv(a, b)
        if k == "rec":
            if len(s) != 4:
                return None
            start = self.scev_term(s[2], depth + 1)
            step = self.scev_term(s[3], depth + 1)
            if start is None or not isinstance(step, Poly):
                return None
            iv = P(("iv", s[1]))
            if isinstance(start, tuple):
                p = self.as_ptr(start)
                return ("p", p[1], p[2] + step * iv)
            return start + step * iv
        if k == "v":
            r = self.val(s[1])
            return r
        if k in ("umax", "smax", "umin", "smin"):
            ts = []
            for x in s[1:]:
                t = self.scev_term(x, depth + 1)
                if not isinstance(t, Poly):
                    return None
                ts.append(t)
            ts = sorted(set(ts), key=repr)
            if len(ts) == 1:
                return ts[0]
            return P((k,) + tuple(ts))
        return None

    def trip(self, header):
        """trip count (number of back edges taken) of the loop as a term"""
        for L in self.fn.loops:
            if L["header"] == header:
                if L["btc"][0] == "cnc":
                    return None
                return self.scev_term(L["btc"])
        return None

    def bounds(self, header):
        """upper bounds of the iteration counter, one per counted exit"""
        for L in self.fn.loops:
            if L["header"] == header:
                out = []
                for s in [L["btc"]] + [x[1] for x in L["exiting"]]:
                    if s[0] != "cnc":
                        t = self.scev_term(s)
                        if t is not None:
                            out.append(t)
                return out
        return []

    # ---------------------------------------------------------------- step
    def step(self, I, st, b):
        d, op = I.d, I.op
        t = d["t"]
        if op == "phi":
            loop = [L for L in self.fn.loops if L["header"] == b]
            if loop and I.i in self.fn.scev:
                s = self.fn.scev[I.i]
                r = self.scev_term(s)
                if r is not None and s[0] == "rec":
                    return r
            inc = []
            for r, p in d["in"]:
                if (p, b) not in self.out_state:
                    continue
                inc.append((p, self.val(r)))
            return self.mkphi((b, I.i), inc)
        if op == "gep":
            base = self.val(d["base"])
            if base is BOTTOM:
                return BOTTOM
            if d["off"] is None:
                return ("p", ("v", ("gep", I.i)), ZERO)
            base = self.as_ptr(base)
            off = base[2] + d["off"]
            for r, s in d["var"]:
                v = self.val(r)
                if v is BOTTOM:
                    return BOTTOM
                off = off + self.as_poly(v) * s
            return ("p", base[1], off)
        if op == "alloca":
            return ("p", ("alloca", I.i), ZERO)
        if op == "load":
            p = self.val(d["o"][0])
            if p is BOTTOM:
                return BOTTOM
            p = self.as_ptr(p)
            size = ISIZE.get(t, 0)
            # vtable-derived offsets of virtual bases
            r = self.load(st, p, size, t, I)
            a = r.atom() if isinstance(r, Poly) else None
            if a and a[0] == "ld" and isinstance(a[1], tuple) and a[1] and a[1][0] == "ld" and a[2].const() == -24 and t == "i64":
                r = P(("vboff",))
            if self.recording:
                self.events.append(Event(I, "load", [p, P(size)], r, self.snap(st)))
            if t == "i1" and isinstance(r, Poly):
                return TRUE if r.const() == 1 else FALSE if r.const() == 0 else ("i2b", r)
            return r
        if op == "store":
            v, p = self.val(d["o"][0]), self.val(d["o"][1])
            if v is BOTTOM or p is BOTTOM:
                return BOTTOM
            p = self.as_ptr(p)
            size = ISIZE.get(d["vt"], 8)
            if self.recording:
                self.events.append(Event(I, "store", [p, v, P(size)], None, self.snap(st)))
            self.store(st, p, size, v, I)
            return BOTTOM
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "lshr", "ashr"):
            x, y = self.val(d["o"][0]), self.val(d["o"][1])
            if x is BOTTOM or y is BOTTOM:
                return BOTTOM
            if t == "i1":
                if op == "and":
                    return land(x, y)
                if op == "or":
                    return lor(x, y)
                if op == "xor":
                    if y == TRUE:
                        return neg(x)
                    if x == TRUE:
                        return neg(y)
                    return ("xor", x, y)
            x, y = self.as_poly(x), self.as_poly(y)
            r = self.arith(op, x, y, t, I)
            if self.recording and op in ("udiv", "sdiv", "urem", "srem"):
                self.events.append(Event(I, "div", [x, y], r, self.snap(st)))
            return r
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            x, y = self.val(d["o"][0]), self.val(d["o"][1])
            if x is BOTTOM or y is BOTTOM:
                return BOTTOM
            return (op, x, y)
        if op == "fneg":
            x = self.val(d["o"][0])
            return BOTTOM if x is BOTTOM else ("fneg", x)
        if op == "icmp":
            x, y = self.val(d["o"][0]), self.val(d["o"][1])
            if x is BOTTOM or y is BOTTOM:
                return BOTTOM
            return cmp(d["pred"], x, y)
        if op == "fcmp":
            x, y = self.val(d["o"][0]), self.val(d["o"][1])
            if x is BOTTOM or y is BOTTOM:
                return BOTTOM
            return ("fcmp", d["pred"], x, y)
        if op == "select":
            c, x, y = (self.val(r) for r in d["o"])
            if c is BOTTOM or x is BOTTOM and y is BOTTOM:
                return BOTTOM
            # an operand without a value never decides
            if x is BOTTOM or x == ("undef",):
                return y
            if y is BOTTOM or y == ("undef",):
                return x
            r = sel(c, x, y)
            if isinstance(x, Poly) and isinstance(y, Poly) and not isinstance(r, Poly):
                r = P(r)
            elif isinstance(x, tuple) and x[0] == "p" and isinstance(r, tuple) and r[0] == "sel":
                r = ("p", r, ZERO)
            return r
        if op in ("zext", "sext"):
            x = self.val(d["o"][0])
            if x is BOTTOM:
                return BOTTOM
            if d["from"] == "i1":
                return b2i(x) if op == "zext" else -b2i(x)
            x = self.as_poly(x)
            if op == "sext" and d["from"] == "i8" and x.const() is None:
                return P(("sx8", x))
            return x
        if op == "trunc":
            x = self.val(d["o"][0])
            if x is BOTTOM:
                return BOTTOM
            x = self.as_poly(x)
            bits = int(t[1:])
            c = x.const()
            if bits == 1:
                if c is not None:
                    return TRUE if c & 1 else FALSE
                a = x.atom()
                if a and a[0] == "b2i":
                    return a[1]
                return ("i2b", x)
            if c is not None:
                c &= (1 << bits) - 1
                if c >= 1 << (bits - 1):
                    c -= 1 << bits
                return P(c)
            a = x.atom()
            if a and a[0] in ("ld", "b2i") and (a[0] == "b2i" or isinstance(a[3], int) and a[3] * 8 <= bits):
                return x
            r = self.range(x)
            if r is not None and 0 <= r[0] and r[1] < 1 << (bits - 1 if bits > 8 else 8):
                return x
            return P(("trunc", bits, x))
        if op in ("bitcast", "freeze", "addrspacecast"):
            return self.val(d["o"][0])
        if op in ("ptrtoint",):
            x = self.val(d["o"][0])
            if x is BOTTOM:
                return BOTTOM
            x = self.as_ptr(x)
            return P(("addr", x[1])) + x[2]
        if op == "inttoptr":
            x = self.val(d["o"][0])
            return BOTTOM if x is BOTTOM else ("p", ("v", x), ZERO)
        if op in ("uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
            x = self.val(d["o"][0])
            if x is BOTTOM:
                return BOTTOM
            r = (op, x, t)
            if self.recording and op in ("fptoui", "fptosi"):
                self.events.append(Event(I, "fp2int", [x], r, self.snap(st), t))
            return P(r) if op in ("fptoui", "fptosi") else r
        if op in ("call", "invoke"):
            return self.call(I, st, b)
        if op == "ret":
            v = self.val(d["o"][0]) if d.get("o") else None
            if self.recording:
                e = Event(I, "ret", [v] if v is not None else [], None, self.snap(st))
                self.exits.append(("ret", e))
                self.events.append(e)
            return BOTTOM
        if op == "extractvalue":
            x = self.val(d["o"][0])
            if x is BOTTOM:
                return BOTTOM
            r = ("ev", x, tuple(d["idx"]))
            if isinstance(x, tuple) and x[0] == "iv_" and tuple(d["idx"]) == x[3]:
                return x[2]
            if isinstance(x, tuple) and x[0] == "iv_":
                y = x
                while isinstance(y, tuple) and y[0] == "iv_":
                    if y[3] == tuple(d["idx"]):
                        return y[2]
                    y = y[1]
                r = ("ev", y, tuple(d["idx"]))
            return self.typed(r, t)
        if op == "insertvalue":
            x, y = self.val(d["o"][0]), self.val(d["o"][1])
            if x is BOTTOM or y is BOTTOM:
                return BOTTOM
            return ("iv_", x, y, tuple(d["idx"]))
        if op == "landingpad":
            return ("lp", I.i)
        if op in ("br", "switch", "unreachable", "resume"):
            return BOTTOM
        return self.typed(("op", op, I.i), t)

    def snap(self, st):
        return st.copy()

    def arith(self, op, x, y, t, I):
        cx, cy = x.const(), y.const()
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        if op == "shl" and cy is not None:
            return x * (1 << cy)
        if op in ("udiv", "sdiv"):
            return udiv(x, y)
        if op in ("urem", "srem"):
            return urem(x, y)
        if op == "lshr" and cy is not None:
            if cx is not None and cx >= 0:
                return P(cx >> cy)
            # byte-composed words
            if cy % 8 == 0:
                r = {}
                ok = all(k > 0 and k in [256 ** i for i in range(8)] for m, k in x.c)
                if ok:
                    for m, k in x.c:
                        if k >= 2 ** cy:
                            r[m] = k // 2 ** cy
                    return Poly(r)
            return udiv(x, P(1 << cy))
        if op == "and":
            if cx is not None and cy is not None:
                return P(cx & cy)
            if cx is not None:
                x, y, cx, cy = y, x, cy, cx
            if cy is not None and cy > 0 and (cy & (cy + 1)) == 0:
                # low-bit mask
                a = x.atom()
                if a and a[0] == "ld" and (1 << (8 * a[3])) - 1 <= cy:
                    return x
                return urem(x, P(cy + 1))
            if cy is not None and cy == 0:
                return ZERO
            if cy is not None and cy < 0 and (-cy) & (-cy - 1) == 0:
                return x - urem(x, P(-cy))
        if op == "or":
            if cx is not None and cy is not None:
                return P(cx | cy)
            if cx == 0:
                return y
            if cy == 0:
                return x
            # disjoint byte lanes
            kx = {k for _, k in x.c}
            ky = {k for _, k in y.c}
            lanes = {256 ** i for i in range(8)}
            if kx <= lanes and ky <= lanes and not (kx & ky):
                return x + y
        if op == "xor" and cx is not None and cy is not None:
            return P(cx ^ cy)
        a, b = (x, y)
        if op in ("and", "or", "xor"):
            a, b = sorted((x, y), key=repr)
        return P((op, a, b))

    def range(self, x):
        """(lo, hi) bound of an integer term from what the term itself says"""
        lo = hi = 0
        for mono, k in x.monos():
            l, h = 1, 1
            for a in mono:
                r = self.arange(a)
                if r is None:
                    return None
                l, h = l * r[0], h * r[1]
            lo += min(k * l, k * h)
            hi += max(k * l, k * h)
        return lo, hi

    def arange(self, a):
        k = a[0]
        if k == "iv":
            hi = None
            for t in self.bounds(a[1]):
                r = self.range(t) if not contains(t, lambda z: z == a) else None
                if r and (hi is None or r[1] < hi):
                    hi = r[1]
            return (0, hi) if hi is not None else None
        if k == "fbyte":
            return 0, 255
        if k == "ld" and a[3] == 1:
            return 0, 255
        if k == "b2i":
            return 0, 1
        if k == "urem" and a[2].const():
            return 0, a[2].const() - 1
        if k == "udiv" and a[2].const():
            r = self.range(a[1])
            return (r[0] // a[2].const(), r[1] // a[2].const()) if r and r[0] >= 0 else None
        if k == "sel":
            r, s = self.range(P(a[2])), self.range(P(a[3]))
            return (min(r[0], s[0]), max(r[1], s[1])) if r and s else None
        return None

    # ---------------------------------------------------------------- calls
    def call(self, I, st, b):
        d = I.d
        t = d["t"]
        key = d.get("callee")
        raw = [None if r == ["m"] else self.val(r) for r in d.get("args", [])]
        if any(v is BOTTOM for v, r in zip(raw, d.get("args", [])) if r != ["m"]):
            return BOTTOM
        args = list(raw)
        if key is None:
            # indirect / virtual
            fp = self.val(d["fptr"])
            if fp is BOTTOM:
                return BOTTOM
            name, full = "<indirect>", "<indirect>"
            tgt = self.vtarget(fp, raw)
            if tgt is not None:
                name, full = strip_repo(tgt.q), tgt.name
                r = self.vsummary(tgt, raw, st)
                if r is not None:
                    if self.recording:
                        self.events.append(Event(I, "call", args, r, self.snap(st), name, full))
                    return r
            else:
                args = [fp] + args
        else:
            full = self.mod.dem(key)
            name, params = strip_templates(full)
            inf = self.mod.fns.get(key)
            if inf is not None:
                name = strip_repo(inf.q)
                full = inf.name
        args = [self.obj_ptr(a) if isinstance(a, tuple) and a and a[0] == "p" else a for a in args]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.memcpy(I, st, args)
        if name.startswith("llvm.memset"):
            p, v, n = args[0], args[1], args[2]
            c = p[2].const()
            nc = self.as_poly(n).const()
            self.clobber_range(st, p, nc, ("set", I.i))
            if c is not None and nc is not None and nc <= 4096 and self.as_poly(v).const() == 0:
                for o in range(c, c + nc):
                    st.mem[(p[1], o, 1)] = ZERO
            if self.recording:
                self.events.append(Event(I, "memset", args, None, self.snap(st), name, full))
            return BOTTOM
        if name.startswith("llvm.bswap"):
            x = self.as_poly(args[0])
            n = int(t[1:]) // 8
            r = {}
            ok = True
            for m, k in x.c:
                if k in [256 ** i for i in range(n)]:
                    i = [256 ** i for i in range(n)].index(k)
                    r[m] = 256 ** (n - 1 - i)
                else:
                    ok = False
            return Poly(r) if ok else P(("bswap", x))
        if name.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            ts = sorted({self.as_poly(a) for a in args}, key=repr)
            return ts[0] if len(ts) == 1 else P((name[5:9],) + tuple(ts))
        if name.startswith(("llvm.expect", "llvm.ssa.copy", "llvm.launder", "llvm.strip")):
            return args[0]
        if name.startswith("llvm.") and not name.startswith(("llvm.trap",)):
            base = name.split(".")[1]
            return self.typed(("fn", base) + tuple(args), t) if t != "void" else BOTTOM
        if name in MATH and t in ("double", "float"):
            # a function of its arguments only (errno aside)
            return ("fn", MATH[name]) + tuple(args)
        pre = self.snap(st) if self.recording else st
        res = self.model(I, st, name, full, args, t)
        if self.recording:
            e = Event(I, "throw" if name == "__cxa_throw" else "call", args, res, pre, name, full)
            self.events.append(e)
            if name == "__cxa_throw":
                self.exits.append(("throw", e))
        return res

    def vtarget(self, fp, args):
        """the member function a virtual call on `this` reaches in an object of
        the class under analysis"""
        if not (isinstance(fp, tuple) and fp[0] == "p" and fp[1][0] == "ld"):
            return None
        slot, vt = fp[1][2].const(), fp[1][1]
        if slot is None or not (isinstance(vt, tuple) and vt[:1] == ("ld",) and vt[1] == ("this",) and vt[2].const() == 0):
            return None
        g = self.mod.vtable(self.cls or self.fn.scope)
        if not g or 2 + slot // 8 >= len(g):
            return None
        x = g[2 + slot // 8]
        return self.mod.fns.get(x.get("ref")) if isinstance(x, dict) else None

    def vsummary(self, tgt, args, st):
        """result of a side-effect free member function called on this object"""
        if tgt.loops or len(self.vstack) > 3 or tgt.key in self.vstack or len(args) != 1 or self.as_ptr(args[0]) != ("p", ("this",), ZERO):
            return None
        init = {k: v for k, v in st.mem.items() if k[0] == ("this",)}
        a = Absint(tgt, init=init, vstack=self.vstack + (tgt.key,), cls=self.cls)
        if any(e.kind in ("store", "memcpy", "memset", "call") for e in a.events):
            return None
        vs = {e.args[0] for e in a.rets() if e.args}
        return vs.pop() if len(vs) == 1 else None

    def clobber_range(self, st, p, n, cid):
        c = p[2].const()
        if c is not None and n is not None:
            self.kill(st, p[1], c, c + n)
            k = self.vkey(p[1], c)
            st.ver[k] = cid
        else:
            self.clobber(st, p, cid)

    def memcpy(self, I, st, args):
        dst, src, n = args[0], args[1], self.as_poly(args[2]).const()
        cd, cs = dst[2].const(), src[2].const()
        cells = []
        objs = []
        if n is not None and cd is not None and cs is not None:
            for (bb, o, s), v in st.mem.items():
                if bb == src[1] and cs <= o and o + s <= cs + n:
                    cells.append((o - cs, s, v))
            for (bb, o), v in st.obj.items():
                if bb == src[1] and cs <= o < cs + n:
                    objs.append((o - cs, v))
        if self.recording:
            self.events.append(Event(I, "memcpy", args, None, self.snap(st), "memcpy"))
        self.clobber_range(st, dst, n, ("cpy", I.i))
        for o, s, v in cells:
            st.mem[(dst[1], cd + o, s)] = v
        for o, v in objs:
            st.obj[(dst[1], cd + o)] = v
        return BOTTOM

    # object value helpers
    def okey(self, p):
        c = p[2].const()
        return (p[1], c) if c is not None else (p[1], p[2])

    def oget(self, st, p):
        k = self.okey(p)
        v = st.obj.get(k)
        if v is not None:
            return v
        ver = st.ver.get(self.vkey(p[1], k[1]) if isinstance(k[1], int) else (p[1], None), st.ver.get((p[1], None), 0))
        return ("obj", p) if ver == 0 else ("obj", p, ver)

    def oset(self, st, p, v):
        st.obj[self.okey(p)] = v

    def model(self, I, st, name, full, args, t):
        m = self.models.get(name) or MODELS.get(name)
        if m:
            r = m(self, I, st, name, full, args, t)
            if r is not NotImplemented:
                return r
        mem = I.d.get("mem")
        uid = ("call", name, I.i)
        cmember = name.startswith("std::") and full.rstrip().endswith(") const") and t != "void" and not I.d.get("sret")
        if mem == "none" and not name.startswith("__cxa") or mem == "read" or cmember:
            if t == "ptr":
                a = ("pure", name) + tuple(args)
            else:
                # a function of the current values of the objects it sees
                a = ("pure", name) + tuple(self.oget(st, x) if isinstance(x, tuple) and x and x[0] == "p" and x[1][0] not in ("glob", "null", "fn")
                                           else x for x in args)
            return self.typed(a, t) if t != "void" else BOTTOM
        repo = name.startswith("EdgeLearning") or full.startswith("EdgeLearning")
        # opaque: clobber what it may write
        params = strip_templates(full)[1]
        isconst = full.rstrip().endswith(") const")
        k0 = 1 if I.d.get("sret") else 0
        inf = self.mod.fns.get(I.d.get("callee"))
        for k, a in enumerate(args):
            if not (isinstance(a, tuple) and a and a[0] == "p"):
                continue
            if a[1][0] in ("glob", "fn", "null"):
                continue
            ptext = None
            npar = len(params) if params and params != ["void"] else 0
            idx = k - (len(args) - npar)
            if 0 <= idx < npar:
                ptext = params[idx]
            if ptext is not None and ptext.startswith("const ") or (ptext and " const&" in ptext) or (ptext and ptext.endswith(" const*")):
                continue
            if ptext is None and k == len(args) - npar - 1 and isconst:
                continue
            self.clobber(st, a, ("by", I.i), whole=(repo and a[2].const() == 0))
        if t == "void":
            return BOTTOM
        return self.typed(uid, t)

    # ---------------------------------------------------------------- queries
    def env_values(self):
        """the values of all instructions that have one"""
        return [v for v in (self.val(i) for i in self.fn.ins) if v is not BOTTOM]

    def dom(self):
        """dominators over the edges that are live in this analysis"""
        if getattr(self, "_dom", None) is None:
            order = [b for b in self.order if b in self.in_state]
            live = set(order)
            allb = set(order)
            dom = {b: allb for b in order}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [dom[p] for p in self.fn.pred[b] if p in live and (p, b) in self.out_state]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def calls(self, *names):
        return [e for e in self.events if e.kind in ("call", "throw") and e.callee in names]

    def field(self, p):
        """readable name of a pointer's target"""
        ty = self.region_type(p[1])
        c = p[2].const()
        if ty and c is not None:
            path, start, mty, sz = self.mod.field_at(ty, c)
            if path:
                return p[1][0] + "." + ".".join(path)
        return show(p)

    def rets(self):
        return [e for k, e in self.exits if k == "ret"]

    def throws(self):
        return [e for k, e in self.exits if k == "throw"]


def strip_repo(q):
    from .ir import strip_name
    return strip_name(q)


# ------------------------------------------------------------------ models
def _vecptr(ai, full, p, name):
    cls = owner_targ(full) or "?"
    return cls


def m_vec_index(ai, I, st, name, full, args, t):
    T = _vecptr(ai, full, args[0], name)
    es = ELEM.get(T)
    if es is None:
        ty = ai.mod.types.get(T)
        es = ty["size"] if ty else (8 if T.endswith("*") else 40 if T.startswith("std::vector<bool") else 24 if T.startswith("std::vector") else
                                    32 if "basic_string" in T else None)
    p = args[0]
    base = ("vec", p)
    if T == "bool":
        return NotImplemented
    if name.endswith(("::data", "::begin", "::cbegin", "::front", "::c_str")):
        return ("p", base, ZERO)
    if es is None:
        es_t = P(("sizeof", T))
    else:
        es_t = P(es)
    if name.endswith(("::end", "::cend")):
        return ("p", base, vec_size(ai, st, p) * es_t)
    if name.endswith("::back"):
        return ("p", base, (vec_size(ai, st, p) - 1) * es_t)
    return ("p", base, ai.as_poly(args[1]) * es_t)


def vec_size(ai, st, p):
    v = ai.oget(st, p)
    if isinstance(v, tuple) and v[0] == "vecn":
        return v[1]
    return P(("size", v))


def m_size(ai, I, st, name, full, args, t):
    return vec_size(ai, st, args[0])


def m_empty(ai, I, st, name, full, args, t):
    return eq(vec_size(ai, st, args[0]), ZERO)


def m_resize(ai, I, st, name, full, args, t):
    ai.oset(st, args[0], ("vecn", ai.as_poly(args[1]), ("by", I.i)))
    kill_elems(ai, st, args[0])
    return BOTTOM


def kill_elems(ai, st, p):
    b = ("vec", p)
    for k in [k for k in st.mem if k[0] == b]:
        del st.mem[k]


def m_vec_ctor(ai, I, st, name, full, args, t):
    n = len(args)
    params = strip_templates(full)[1]
    if n == 1:
        ai.oset(st, args[0], ("vecn", ZERO, ("by", I.i)))
        return BOTTOM
    if params and params[0] in ("unsigned long",):
        ai.oset(st, args[0], ("vecn", ai.as_poly(args[1]), ("by", I.i)))
        return BOTTOM
    if params and params[0].startswith("std::vector") and params[0].endswith("const&"):
        ai.oset(st, args[0], ai.oget(st, args[1]))
        return BOTTOM
    if params and params[0].startswith("std::vector") and params[0].endswith("&&"):
        ai.oset(st, args[0], ai.oget(st, args[1]))
        return BOTTOM
    if params and params[0].startswith("std::initializer_list") and n >= 3:
        ai.oset(st, args[0], ("vecn", ai.as_poly(args[2]), ("by", I.i)))
        return BOTTOM
    ai.oset(st, args[0], ("made", "vector", I.i) + tuple(args[1:]))
    return BOTTOM


def m_assign(ai, I, st, name, full, args, t):
    if name.startswith("std::basic_string"):
        v = str_value(ai, st, strip_templates(full)[1], args[1:])
        if v is None:
            return NotImplemented
        ai.oset(st, args[0], v)
        return args[0]
    if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "p":
        ai.oset(st, args[0], ai.oget(st, args[1]))
        return args[0]
    return NotImplemented


def str_chars(p):
    """the string a character pointer comes from, when it points to its start"""
    if isinstance(p, tuple) and p[:1] == ("p",) and p[1][0] == "pure" and p[1][1] in (
            "std::basic_string::c_str", "std::basic_string::data") and p[2].const() == 0:
        return p[1][2]
    return None


def str_value(ai, st, params, args):
    """content of a string built or assigned from the given arguments"""
    if not args:
        return ("str", "")
    a = args[0]
    if not (isinstance(a, tuple) and a and a[0] == "p"):
        return None
    if a[1][0] == "sel" and a[2] == ZERO:
        # one of two texts
        vs = [str_value(ai, st, params, [x if isinstance(x, tuple) and x[:1] == ("p",) else ("p", x, ZERO)] + list(args[1:])) for x in a[1][2:4]]
        if None not in vs:
            return vs[0] if vs[0] == vs[1] else ("sel", a[1][1], vs[0], vs[1])
        return None
    par = params[0] if params else ""
    n = len([x for x in params if "allocator<char> const&" not in x and not x.startswith("std::allocator const&")])
    if "basic_string" in par and par.endswith("&&") or "basic_string" in par and par.endswith("const&"):
        v = ai.oget(st, a)
        if n == 1:
            return v
        if n == 3 and len(args) >= 3:
            return str_sub(v, ai.as_poly(args[1]), ai.as_poly(args[2]))
        return None
    if par.startswith("char const*"):
        lit_ = None
        if a[1][0] == "glob" and a[2].const() is not None:
            b = ai.mod.string(a[1][1])
            if b is not None:
                lit_ = b[a[2].const():]
        src = str_chars(a)
        if n == 1:
            if lit_ is not None:
                return ("str", lit_.split(b"\0")[0].decode("latin1"))
            if src is not None:
                v = ai.oget(st, src)
                return v if v[:1] == ("str",) else ("cstr", v)
            return None
        if n == 2 and params[1] == "unsigned long":
            k = ai.as_poly(args[1])
            if lit_ is not None and k.const() is not None and k.const() <= len(lit_):
                return ("str", lit_[:k.const()].decode("latin1"))
            if src is not None:
                v = ai.oget(st, src)
                return str_sub(v, ZERO, k)
    return None


def str_sub(v, pos, n):
    if pos.const() == 0 and (n.const() in (-1, (1 << 64) - 1) or n == P(("pure", "std::basic_string::size", v)) or
                             n == P(("pure", "std::basic_string::length", v))):
        return v
    if v[:1] == ("str",) and pos.const() is not None and n.const() is not None:
        return ("str", v[1][pos.const():][:n.const() & ((1 << 63) - 1)])
    return ("sub", v, pos, n)


def m_substr(ai, I, st, name, full, args, t):
    if not I.d.get("sret") or len(args) < 4:
        return NotImplemented
    ai.oset(st, args[0], str_sub(ai.oget(st, args[1]), ai.as_poly(args[2]), ai.as_poly(args[3])))
    return BOTTOM


def m_str_ctor(ai, I, st, name, full, args, t):
    params = strip_templates(full)[1]
    if len(args) == 1 or (len(params) == 1 and "allocator" in params[0] and "basic_string" not in params[0]):
        ai.oset(st, args[0], ("str", ""))
        return BOTTOM
    v = str_value(ai, st, params, args[1:])
    ai.oset(st, args[0], v if v is not None else ("made", "string", I.i) + tuple(args[1:]))
    return BOTTOM


def nlparts(pos):
    """(base, delimiter, count) of a position reached by skipping delimited pieces"""
    a = pos.atom()
    if a and a[0] == "nl":
        return a[2], a[3], a[4]
    return pos, None, ZERO


def nlpos(origin, base, d, k):
    if k.const() == 0:
        return base
    return P(("nl", origin, base, d, k))


def nladv(origin, pos, d):
    base, dd, k = nlparts(pos)
    if dd is not None and dd == d:
        return nlpos(origin, base, d, k + 1)
    return nlpos(origin, pos, d, ONE)


def m_ss_ctor(ai, I, st, name, full, args, t):
    # the vtt argument only appears for base-object constructors
    src = args[1] if len(args) > 1 else None
    if src is not None and isinstance(src, tuple) and src[0] == "p" and src[1][0] != "glob":
        v = ai.oget(st, src)
    else:
        v = ("str", "")
    set_strm(ai, st, args[0], ("text", v), ZERO, (), ("ctor", I.i))
    return BOTTOM


def is_ss(v):
    return False


def strm(ai, st, p):
    """abstract file stream: ('strm', origin, position, reads since clear, last op)"""
    v = ai.oget(st, p)
    if isinstance(v, tuple) and v and v[0] == "strm":
        return v
    return ("strm", v, P(("pos", v)), (), ("start",))


def set_strm(ai, st, p, origin, pos, reads, op):
    ai.oset(st, p, ("strm", origin, pos, reads, op))


def m_strm_ctor(ai, I, st, name, full, args, t):
    if len(args) < 2 or not (isinstance(args[1], tuple) and args[1][0] == "p"):
        set_strm(ai, st, args[0], ("closed", I.i), ZERO, (), ("ctor", I.i))
        return BOTTOM
    a = args[1]
    src = a
    if a[1][0] == "vec":
        src = a[1][1]
    if a[1][0] == "glob":
        origin = ("file", ("str", (ai.mod.string(a[1][1]) or b"?").rstrip(b"\0").decode("latin1")))
    else:
        origin = ("file", ai.oget(st, src))
    set_strm(ai, st, args[0], origin, ZERO, (), ("ctor", I.i))
    return BOTTOM


def m_fpos(ai, I, st, name, full, args, t):
    if len(args) == 2 and isinstance(args[1], Poly):
        c = args[0][2].const()
        ai.clobber_range(st, args[0], 16, ("by", I.i))
        if c is not None:
            st.mem[(args[0][1], c, 8)] = args[1]
            st.mem[(args[0][1], c + 8, 8)] = ZERO
        return BOTTOM
    return NotImplemented


def m_seekg(ai, I, st, name, full, args, t):
    v = strm(ai, st, args[0])
    if is_ss(ai.oget(st, args[0])):
        return NotImplemented
    params = strip_templates(full)[1]
    off = ai.as_poly(args[1])
    if len(params) == 2:
        d = ai.as_poly(args[2]).const() if len(args) > 2 else None
        pos = off if d == 0 else v[2] + off if d == 1 else P(("endpos", v[1])) + off if d == 2 else P(("unkpos", I.i))
    else:
        pos = off
    set_strm(ai, st, args[0], v[1], pos, v[3], ("seek", I.i))
    return args[0]


def m_read(ai, I, st, name, full, args, t):
    if is_ss(ai.oget(st, args[0])):
        return NotImplemented
    v = strm(ai, st, args[0])
    n = ai.as_poly(args[2])
    nc = n.const()
    buf = ai.as_ptr(args[1])
    c = buf[2].const()
    ai.clobber_range(st, buf, nc, ("by", I.i))
    if buf[1][0] == "vec":
        kill_elems(ai, st, buf[1][1])
        st.ver[(buf[1], None)] = ("by", I.i)
        vn = vec_size(ai, st, buf[1][1])
        ai.oset(st, buf[1][1], ("vecn", vn, ("filled", v[1], v[2]) if vn == n and c == 0 else ("by", I.i)))
    if nc is not None and c is not None and nc <= 16:
        for k in range(nc):
            st.mem[(buf[1], c + k, 1)] = P(("fbyte", v[1], v[2] + k))
    set_strm(ai, st, args[0], v[1], v[2] + n, tuple(sorted(set(v[3]) | {I.i})), ("read", I.i))
    return args[0]


def m_clear(ai, I, st, name, full, args, t):
    v = strm(ai, st, args[0])
    if is_ss(ai.oget(st, args[0])):
        return NotImplemented
    if len(args) > 1 and ai.as_poly(args[1]).const() != 0:
        set_strm(ai, st, args[0], v[1], v[2], v[3], ("state", I.i))
    else:
        set_strm(ai, st, args[0], v[1], v[2], (), ("clear", I.i))
    return BOTTOM


def m_close(ai, I, st, name, full, args, t):
    v = strm(ai, st, args[0])
    set_strm(ai, st, args[0], v[1], v[2], v[3], ("close", I.i))
    return BOTTOM


def m_strmpred(ai, I, st, name, full, args, t):
    p = args[0]
    if is_ss(ai.oget(st, p)):
        return NotImplemented
    v = strm(ai, st, p)
    k = name.split("::")[-1]
    neg_ = False
    if k == "operator bool":
        k, neg_ = "fail", True
    elif k == "operator!":
        k = "fail"
    b = ("i2b", P(("sp", k, p, v)))
    return neg(b) if neg_ else b


def m_ignore(ai, I, st, name, full, args, t):
    if is_ss(ai.oget(st, args[0])):
        return NotImplemented
    v = strm(ai, st, args[0])
    n = ai.as_poly(args[1]) if len(args) > 1 else ONE
    d = ai.as_poly(args[2]) if len(args) > 2 else P(-1)
    if n.const() == (1 << 63) - 1 and d.const() is not None:
        pos = nladv(v[1], v[2], d)
    elif n.const() is not None and d.const() == -1:
        pos = v[2] + n
    else:
        # a bounded skip does not reach the end of an arbitrarily long piece
        pos = P(("skip", v[1], v[2], n, d)) if n.const() is not None and d.const() is not None else P(("ign", v[1], v[2], n, d))
    set_strm(ai, st, args[0], v[1], pos, tuple(sorted(set(v[3]) | {I.i})), ("ignore", I.i))
    return args[0]


def m_getline(ai, I, st, name, full, args, t):
    ss, s = args[0], args[1]
    delim = ai.as_poly(args[2]) if len(args) > 2 else P(10)
    v = strm(ai, st, ss)
    ai.oset(st, s, ("fline", v[1], v[2], delim))
    set_strm(ai, st, ss, v[1], nladv(v[1], v[2], delim), tuple(sorted(set(v[3]) | {I.i})), ("getline", I.i))
    return ss


def m_extract(ai, I, st, name, full, args, t):
    """formatted extraction: stream >> reference"""
    r = m_textop(ai, I, st, name, full, args, t)
    if r is not NotImplemented:
        return r
    if len(args) < 2 or not isinstance(args[1], tuple) or args[1][0] != "p" or args[1][1][0] in ("fn",):
        return NotImplemented
    v = strm(ai, st, args[0])
    ps = strip_templates(full)[1]
    ty = (ps[-1] if ps else "?").replace("&", "").strip()
    n = ELEM.get(ty)
    if n is None:
        if "basic_string" in ty:
            ai.oset(st, args[1], ("parsed", ty, v[1], v[2]))
        else:
            return NotImplemented
    else:
        ai.clobber_range(st, args[1], n, ("by", I.i))
        c = args[1][2].const()
        if c is not None:
            x = ("parsed", ty, v[1], v[2])
            st.mem[(args[1][1], c, n)] = x if ty in ("double", "float") else P(x)
    set_strm(ai, st, args[0], v[1], P(("after", ty, v[1], v[2])), tuple(sorted(set(v[3]) | {I.i})), ("extract", I.i))
    return args[0]


def m_textop(ai, I, st, name, full, args, t):
    """character-wise operations on a text stream: the operation is added to the
    history of the stream, the value is a function of that history"""
    v = strm(ai, st, args[0])
    if not (isinstance(v[1], tuple) and v[1][:1] == ("text",)):
        return NotImplemented
    k = name.split("::")[-1]
    if k == "ws" or k == "operator>>" and len(args) > 1 and isinstance(args[1], tuple) and args[1][:1] == ("p",) and \
            args[1][1][0] == "fn" and "2ws" in str(args[1][1][1]):
        set_strm(ai, st, args[0], v[1], P(("wspos", v[1], v[2])), v[3], ("ws", I.i, v[4]))
        return args[0]
    if k == "peek":
        set_strm(ai, st, args[0], v[1], v[2], v[3], ("peek", I.i, v[4]))
        return P(("chr", v))
    if k == "get" and len(args) == 1:
        set_strm(ai, st, args[0], v[1], v[2] + 1, tuple(sorted(set(v[3]) | {I.i})), ("get", I.i, v[4]))
        return P(("chr", v))
    if k == "get" and len(args) == 2 and strip_templates(full)[1] == ["char&"] or \
            k == "operator>>" and len(args) == 2 and (strip_templates(full)[1] or [""])[-1] == "char&":
        p = args[1]
        if not (isinstance(p, tuple) and p[:1] == ("p",)):
            return NotImplemented
        ai.clobber_range(st, p, 1, ("by", I.i))
        set_strm(ai, st, args[0], v[1], P(("after", k, v[1], v[2])), tuple(sorted(set(v[3]) | {I.i})),
                 ("get" if k == "get" else "chr", I.i, v[4]))
        return args[0]
    return NotImplemented


def m_eof(ai, I, st, name, full, args, t):
    return P(-1) if "char_traits<char>" in full else NotImplemented


def m_noop(ai, I, st, name, full, args, t):
    return BOTTOM if t == "void" else NotImplemented


MODELS = {}
for n in PURE_RET_PTR:
    if n.startswith("std::vector"):
        MODELS[n] = m_vec_index
MODELS["std::vector::size"] = m_size
MODELS["std::vector::empty"] = m_empty
MODELS["std::vector::resize"] = m_resize
MODELS["std::vector::vector"] = m_vec_ctor
MODELS["std::vector::operator="] = m_assign
MODELS["std::basic_string::operator="] = m_assign
MODELS["std::basic_string::basic_string"] = m_str_ctor
MODELS["std::basic_string::assign"] = m_assign
MODELS["std::basic_string::substr"] = m_substr
MODELS["std::char_traits::eof"] = m_eof
for n in ("std::istream::get", "std::istream::peek", "std::ws"):
    MODELS[n] = m_textop
MODELS["std::basic_stringstream::basic_stringstream"] = m_ss_ctor
MODELS["std::basic_istringstream::basic_istringstream"] = m_ss_ctor
MODELS["std::getline"] = m_getline
MODELS["std::istream::operator>>"] = m_extract
MODELS["std::operator>>"] = m_extract
MODELS["std::basic_ifstream::basic_ifstream"] = m_strm_ctor
MODELS["std::basic_ifstream::close"] = m_close
MODELS["std::istream::read"] = m_read
MODELS["std::istream::seekg"] = m_seekg
MODELS["std::fpos::fpos"] = m_fpos
MODELS["std::istream::ignore"] = m_ignore
MODELS["std::basic_ios::clear"] = m_clear
for n in ("good", "fail", "eof", "bad", "operator bool", "operator!"):
    MODELS["std::basic_ios::" + n] = m_strmpred
MODELS["std::basic_ifstream::is_open"] = m_strmpred
for n in ("std::allocator::allocator", "std::__new_allocator::~__new_allocator", "std::allocator::~allocator"):
    MODELS[n] = m_noop
