"""Closed forms of numeric kernels.

From the fixpoint of the abstract interpreter a function becomes a system of equations: store statements (iteration domain, guard,
index polynomial, value term) ordered by their position in the loop tree, and a recurrence (start, step) for every value carried
round a loop.  The terms are those of the analysis: nothing of the function is executed, data stay symbols.

To compare the system with a specified formula, both are instantiated for sizes on a small grid.  The indices are polynomials of degree
one in every counter and every size, the domains boxes whose bounds are such polynomials; two of them that differ somewhere differ
on the grid.  Values are compared as polynomials over data symbols (real arithmetic; rounding is not modelled)."""
import math
import random
from fractions import Fraction
from .absint import Absint
from .ir import AnalysisBroken
from .terms import *
from .terms import _atoms
from .rules.util import loops_of, loop_count, loop_exits, lorder, normal_blocks, ev_key
from .ir import strip_templates
from .absint import first_targ


class Unres(Exception):
    """the closed form is not known"""


def F(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, tuple):
        return P(x)
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return Poly({(): x})


def fc(s):
    if s.startswith("0x"):
        import struct
        return Fraction(struct.unpack(">d", bytes.fromhex(s[2:].zfill(16)))[0])
    v = float(s)
    if v != v or v in (float("inf"), float("-inf")):
        raise Unres("constant " + s)
    return Fraction(v)


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            raise Unres("division by zero")
        return F(Fraction(1) / Fraction(c))
    if len(p.c) == 1:
        # 1/(k*m) = 1/k * 1/m
        m, k = p.c[0]
        r = F(Fraction(1) / Fraction(k))
        for a in m:
            x = _atoms[a]
            r = r * (x[1] if x[0] == "inv" else P(("inv", P(x))))
        return r
    # a common factor of all coefficients in front
    k = p.c[0][1]
    q = Poly({m: Fraction(c) / Fraction(k) if Fraction(c) % Fraction(k) else c // k for m, c in p.c})
    return F(Fraction(1) / Fraction(k)) * P(("inv", q))


def fn(name, *args):
    if name == "fabs" and args[0].const() is not None:
        return F(abs(args[0].const()))
    if name in ("exp", "tanh", "expm1", "log1p") and args[0].const() == 0:
        return F(1 if name == "exp" else 0)
    if name == "log" and args[0].const() == 1:
        return ZERO
    if name == "expm1":
        return fn("exp", args[0]) - 1
    if name == "log1p":
        return fn("log", args[0] + 1)
    if name in ("sqrt",) and args[0].const() is not None:
        c = args[0].const()
        if c >= 0 and math.isqrt(int(c)) ** 2 == c:
            return F(math.isqrt(int(c)))
    if name == "pow" and args[1].const() is not None and int(args[1].const()) == args[1].const() and 0 <= args[1].const() <= 4:
        r = F(1)
        for _ in range(int(args[1].const())):
            r = r * args[0]
        return r
    return P(("fn", name) + tuple(args))


def fmax(xs):
    s = set()
    for x in xs:
        a = x.atom()
        if a and a[0] == "max":
            s |= set(a[1:])
        else:
            s.add(x)
    cs = [x for x in s if x.const() is not None]
    if len(cs) > 1:
        m = max(cs, key=lambda x: x.const())
        s -= set(cs)
        s.add(m)
    s = sorted(s, key=repr)
    return s[0] if len(s) == 1 else P(("max",) + tuple(s))


def fsel(c, a, b):
    """value a under condition c, else b; conditions: True/False, ("lt"|"le"|"eq", poly) against zero, ("no", c)"""
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c[0] == "no":
        return fsel(c[1], b, a)
    if c[0] == "both":
        return fsel(c[1], fsel(c[2], a, b), b)
    if c[0] in ("lt", "le") and isinstance(a, Poly) and isinstance(b, Poly):
        d = c[1]
        # d < 0: a smaller side exists
        if a - b == d:
            return -fmax([-a, -b])      # a < b: min
        if b - a == d:
            return fmax([a, b])
        if c[0] == "le":
            # d <= 0 is not (-d < 0)
            return fsel(("lt", -d), b, a)
    if c[0] == "eq" and sgn(c[1]) != c[1]:
        c = ("eq", sgn(c[1]))
    return P(("sel", c, a, b))


def replace(p, a, v):
    """p with v for every atom a of its monomials"""
    r = ZERO
    for mono, k in p.monos():
        x = F(k)
        for y in mono:
            x = x * (v if y == a else P(y))
        r = r + x
    return r


def sgn(p):
    for m, k in p.c:
        if m != ():
            return -p if k < 0 else p
    return p


def cneg(c):
    if c is True or c is False:
        return not c
    if c[0] == "no":
        return c[1]
    if c[0] == "lt":
        return ("le", -c[1])
    if c[0] == "le":
        return ("lt", -c[1])
    return ("no", c)


def cand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return a if a == b else ("both", a, b)


class Stmt(object):
    __slots__ = ("ev", "key", "loops", "base", "off", "size", "val", "kind")

    def __repr__(self):
        return "%s[%s] := %s over %s" % (show(self.base), self.off, show(self.val), self.loops)


FLAT = ("double", "unsigned long", "long", "int", "unsigned int")
VECOPS = ("vector", "operator=", "assign", "resize", "push_back", "clear", "reserve", "shrink_to_fit")
SKIP = ("~", "std::vector::vector", "std::vector::resize", "std::allocator", "operator delete", "operator new", "__cxa", "std::basic_string", "std::runtime_error")


SHARED = tuple("std::" + c + "::" + m for c in ("__shared_ptr_access", "__shared_ptr", "shared_ptr") for m in ("operator->", "operator*", "get"))


def sizes_in(t):
    """the contents whose size a term mentions"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Poly):
            todo += [a for mono, k in x.monos() for a in mono]
        elif isinstance(x, tuple):
            if x[:1] == ("size",) and len(x) == 2:
                out.add(x[1])
            todo += [y for y in x if isinstance(y, (tuple, Poly))]
    return out


def nested(base):
    """memory of an object inside of a container: its changes with the container are not part of the terms"""
    return base[0] == "vec" and base[1][0] == "p" and base[1][1][0] == "vec"


class Kern(object):
    """the equations of one function; `param(atom, idx...)` gives the numbers, `regions` says which memory is data"""

    def __init__(self, ai, extra_calls=None, effects=None, dynamic=False):
        self.ai = ai
        self.dynamic = dynamic     # the sizes of containers change while the function runs: rounds are taken one by one
        self.effects = effects or {}
        self.fn = ai.fn
        self.good = normal_blocks(ai)
        self.idx = lorder(ai)
        self.dom = ai.dom()
        self.calls = extra_calls or {}
        self.counts = {}
        self.byres, self.allres, self.sizers = {}, {}, {}
        self.uids = None
        for e in ai.events:
            if e.kind in ("load", "call") and e.res is not None:
                r = e.res
                if isinstance(r, Poly):
                    r = r.atom()
                elif isinstance(r, tuple) and r[:1] == ("p",):
                    r = r[1]
                elif isinstance(r, tuple) and r[:1] == ("i2b",):
                    r = r[1].atom() if isinstance(r[1], Poly) else r[1]
                if r is not None:
                    self.byres.setdefault(r, e)
                    self.allres.setdefault(r, []).append(e)
            if e.kind == "call" and e.callee.startswith("std::vector::") and e.res is not None:
                for x in sizes_in(e.res):
                    self.sizers.setdefault(x, []).append(e)
        self.stmts = []
        self.pcs = {}
        for e in ai.events:
            if e.b not in self.good or e.b not in self.idx:
                continue
            if e.kind == "store":
                p, v, n = e.args
                n = n.const() if isinstance(n, Poly) else n
                p = ai.as_ptr(p)
                self.add(e, p, n, v)
            elif e.kind in ("memset", "memcpy"):
                p = ai.as_ptr(e.args[0])
                s = Stmt()
                s.ev, s.kind, s.base, s.off, s.size, s.val = e, e.kind, p[1], p[2], e.args[2] if len(e.args) > 2 else None, e.args[1]
                self.place(s, e)
            elif e.kind == "call" and e.callee in self.effects:
                s = Stmt()
                s.ev, s.kind, s.base, s.off, s.size, s.val = e, "effect", None, None, None, e.args
                self.place(s, e)
            elif e.kind == "call" and e.callee.startswith("std::vector::") and e.callee.split("::")[-1] in VECOPS:
                s = Stmt()
                s.ev, s.kind, s.base, s.off, s.size, s.val = e, "vec", None, None, None, e.args
                self.place(s, e)
        self.written = {s.base for s in self.stmts}
        # the loop tree: what happens in program order on each level
        self.tree = {None: []}
        for s in self.stmts:
            par = None
            for h in s.loops:
                if h not in self.tree:
                    self.tree[h] = []
                    self.tree[par].append(((self.idx[h], -1), "loop", h))
                par = h
            self.tree[par].append(((self.idx[s.ev.b], s.ev.ins.j), "stmt", s))
        for x in self.tree.values():
            x.sort(key=lambda y: y[0])

    def add(self, e, p, n, v):
        s = Stmt()
        s.ev, s.kind, s.base, s.off, s.size, s.val = e, "store", p[1], p[2], n, v
        self.place(s, e)

    def place(self, s, e):
        s.key = ev_key(self.ai, e)
        s.loops = [L["header"] for L in loops_of(self.fn, e.b)]
        self.stmts.append(s)

    def byuid(self, n):
        if self.uids is None:
            self.uids = {e.ins.i: e for e in self.ai.events if e.kind == "call"}
        return self.uids.get(n)

    # ------------------------------------------------------------ control
    def loop(self, h):
        return next(L for L in self.fn.loops if L["header"] == h)

    def count(self, h):
        """(exit block, number of back edges as a term)"""
        if h not in self.counts:
            lc = loop_count(self.ai, self.loop(h))
            if lc is None:
                ex = loop_exits(self.ai, self.loop(h))
                # more than one way out: decided round by round
                lc = (ex[0], None) if len(ex) == 1 else (None, ex) if ex else None
            self.counts[h] = lc
        if self.counts[h] is None:
            raise Unres("the number of iterations of the loop at block %d" % h)
        return self.counts[h]

    def early(self, h, b):
        """does block b of the loop run before the exit test (once more than the back edge)?"""
        x = self.count(h)[0]
        if b == x or x is None:
            return True
        L = set(self.loop(h)["blocks"])
        seen, st = {b}, [b]
        while st:
            y = st.pop()
            for s in self.fn.succ[y]:
                if s == h:
                    continue
                if s == x and (y, s) in self.ai.out_state:
                    return True
                if s in L and s != h and s not in seen and (y, s) in self.ai.out_state:
                    seen.add(s)
                    st.append(s)
        return False

    def inner(self, b):
        ls = loops_of(self.fn, b)
        return ls[-1]["header"] if ls else None

    def edge(self, p, s):
        """condition of the edge p -> s as a term; TRUE for the edges that keep a loop going"""
        T = self.fn.blocks[p][-1]
        d = T.d
        good = [x for x in dict.fromkeys(self.fn.succ[p]) if x in self.good and (p, x) in self.ai.out_state]
        if len(good) < 2:
            return TRUE
        h = self.inner(p)
        for L in loops_of(self.fn, p):
            if self.count(L["header"])[0] == p:
                return TRUE
        if T.op == "br" and "cond" in d:
            c = self.ai.val(d["cond"])
            return c if d["succ"][0] == s else neg(c)
        if T.op == "switch":
            c = self.ai.as_poly(self.ai.val(d["cond"]))
            vs = [v for v, x in d["cases"] if x == s]
            r = FALSE
            if d["default"] == s:
                r = TRUE
                for v, x in d["cases"]:
                    if x != s:
                        r = land(r, neg(eq(c, P(v))))
                return r
            for v in vs:
                r = lor(r, eq(c, P(v)))
            return r
        raise Unres("branch " + T.op)

    def preds(self, b, h):
        """forward edges into b inside loop h (None: the whole function), inner loops seen from their header"""
        L = set(self.loop(h)["blocks"]) if h is not None else None
        out = []
        for p in dict.fromkeys(self.fn.pred[b]):
            if (p, b) not in self.ai.out_state or p not in self.good or (L is not None and p not in L):
                continue
            if h is not None and b == h:
                continue
            if b in self.ai.headers and p in self.ai.headers[b]:
                continue
            out.append(p)
        return out

    # ------------------------------------------------------------ instantiation
    def at(self, params, data=None, inputs=None):
        return Inst(self, params, data, inputs)


class Inst(object):
    """the equations for one choice of sizes"""
    LIMIT = 20000

    def __init__(self, k, params, data=None, inputs=None):
        self.k, self.ai, self.params, self.data, self.inputs = k, k.ai, params, data, inputs or {}
        self.cells = {}        # (base, element) -> [(key, value)]
        self.memo = {}
        self.steps = 0
        self.reads = set()
        self.alias = {}        # shared pointer objects that were given a value: what they point to now
        self.trace = []
        self.vsz = {}          # (base, offset) of a vector object -> [(key, size)]
        self.fail = None
        try:
            self.body(None, {}, False)
        except Unres as x:
            self.fail = x

    def body(self, h, env, last):
        """one round of the loop; in the last one only what runs before the exit test"""
        for _, kind, x in self.k.tree[h]:
            b = x.ev.b if kind == "stmt" else x
            if last and h is not None and not self.k.early(h, b):
                continue
            if kind == "stmt":
                self.stmt(x, env)
            else:
                if self.reach(x, h, env) is False:
                    continue
                if self.k.dynamic:
                    self.rounds(x, env)
                    continue
                n = self.niter(x, env)
                for t in range(n + 1):
                    e = dict(env)
                    e[x] = t
                    self.steps += 1
                    if self.steps > self.LIMIT:
                        raise Unres("too many instances")
                    self.body(x, e, t == n)

    def rounds(self, h, env):
        """the rounds of a loop whose length depends on containers that change in it"""
        L = set(self.k.loop(h)["blocks"])
        ex = sorted((self.k.idx[x], x) for x in L if x in self.k.good and x in self.k.idx and
                    any(y not in L and y in self.k.good and (x, y) in self.ai.out_state for y in self.k.fn.succ[x]))
        if any(self.k.inner(x) != h for _, x in ex):
            raise Unres("an exit from an inner loop")
        items = self.k.tree[h]
        for t in range(256):
            e = dict(env)
            e[h] = t
            todo = list(ex)
            for pos, kind, x in items:
                while todo and todo[0][0] < pos[0]:
                    if self.leaves(todo.pop(0)[1], h, L, e):
                        return self.ended(h, env, t)
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Unres("too many instances")
                if kind == "stmt":
                    self.stmt(x, e)
                elif self.reach(x, h, e) is not False:
                    self.rounds(x, e)
            for _, x in todo:
                if self.leaves(x, h, L, e):
                    return self.ended(h, env, t)
        raise Unres("the number of iterations of the loop at block %d" % h)

    def ended(self, h, env, t):
        self.memo[("niter", h, self.envkey({k: v for k, v in env.items() if k != h}, h))] = t

    def leaves(self, x, h, L, env):
        """is the loop left from block x in this round?"""
        r = self.reach(x, h, env)
        if r is False:
            return False
        for s in dict.fromkeys(self.k.fn.succ[x]):
            if s in L or s not in self.k.good or (x, s) not in self.ai.out_state:
                continue
            T = self.k.fn.blocks[x][-1]
            c = True
            if T.op == "br" and "cond" in T.d:
                c = self.ai.val(T.d["cond"])
                c = self.cond(c if T.d["succ"][0] == s else neg(c), env)
            elif T.op == "switch":
                raise Unres("a switch out of a loop")
            c = cand(r, c)
            if c is True:
                return True
            if c is not False:
                raise Unres("a loop whose length depends on data")
        return False

    def niter(self, h, env):
        """back edges taken by the loop"""
        key = ("niter", h, self.envkey({k: v for k, v in env.items() if k != h}, h))
        if key in self.memo:
            return self.memo[key]
        n = None
        x, c = self.k.count(h)
        if x is None:
            n = self.leave(h, env)
            self.memo[key] = n
            return n
        if c is not None:
            try:
                n = self.int(self.ev(c, env))
            except Unres:
                n = None
        if n is None:
            out = [y for y in self.k.fn.succ[x] if y not in set(self.k.loop(h)["blocks"])]
            T = self.k.fn.blocks[x][-1]
            if T.op != "br" or len(out) != 1 or not self.every(x, h):
                raise Unres("the number of iterations of the loop at block %d" % h)
            cc = self.ai.val(T.d["cond"])
            for t in range(64):
                e = dict(env)
                e[h] = t
                v = self.cond(cc, e)
                if v not in (True, False):
                    raise Unres("a loop whose length depends on data")
                if (T.d["succ"][0] if v else T.d["succ"][1]) == out[0]:
                    n = t
                    break
        if n is None or n < 0 or n > 4096:
            raise Unres("%s iterations" % n)
        self.memo[key] = n
        return n

    def leave(self, h, env):
        """the round in which a loop with several exits is left"""
        L = set(self.k.loop(h)["blocks"])
        ex = [x for x in self.k.count(h)[1] if x in self.k.good]
        if any(self.k.inner(x) != h for x in ex):
            raise Unres("an exit from an inner loop")
        for t in range(256):
            e = dict(env)
            e[h] = t
            for x in ex:
                r = self.reach(x, h, e)
                for s in dict.fromkeys(self.k.fn.succ[x]):
                    if s in L or s not in self.k.good or (x, s) not in self.ai.out_state or r is False:
                        continue
                    c = cand(r, self.cond(self.k.edge(x, s), e))
                    if c is True:
                        return t
                    if c is not False:
                        raise Unres("a loop whose length depends on data")
        raise Unres("the number of iterations of the loop at block %d" % h)

    def every(self, x, h):
        L = set(self.k.loop(h)["blocks"])
        return all(x in self.k.dom[p] for p in self.k.fn.pred[h] if p in L and (p, h) in self.ai.out_state)

    def stmt(self, s, env):
        c = self.active(s.ev.b, env)
        if c is False:
            return
        key = self.stamp(s.key, env)
        self.now = key
        if s.kind == "store":
            at = self.ptr(("p", s.base, s.off), env)
            base, ways = at[1], self.ways(at[2])
            if isinstance(s.val, tuple) and (s.val[:1] in (("p",), ("null",)) or s.val[:1] == ("fn",) and len(s.val) == 2):
                if s.val[0] != "p":
                    v = s.val
                else:
                    q = self.ptr(s.val, env)
                    v = ("P", q[1], q[2])
            else:
                try:
                    v = self.ev(s.val, env)
                except Unres as x:
                    v = ("unres", str(x))
            if s.size not in (8, 4, 2, 1):
                raise Unres("store of %s bytes" % s.size)
            offs = [(w, self.int(o)) for w, o in ways]
            if any(o % s.size for w, o in offs):
                raise Unres("unaligned store")
            for i in dict.fromkeys(o // s.size for w, o in offs):
                x = v
                if len(offs) > 1:
                    # a place that depends on the data
                    old = x = self.read(base, i, key)
                    for w, o in reversed(offs):
                        x = fsel(w, v if o // s.size == i else old, x)
                self.write(base, i, key, c, x)
        elif s.kind == "memset":
            base, off = self.place(("p", s.base, s.off), env)
            n = self.int(self.ev(s.size, env))
            for i in range(off // 8, (off + n) // 8):
                self.write(base, i, key, c, ZERO)
        elif s.kind == "memcpy":
            base, off = self.place(("p", s.base, s.off), env)
            sp = self.ai.as_ptr(s.val)
            sb, so = self.place(sp, env)
            n = self.int(self.ev(s.size, env))
            vals = [self.read(sb, so // 8 + i, key) for i in range(n // 8)]
            for i, v in enumerate(vals):
                self.write(base, off // 8 + i, key, c, v)
        else:
            if c is not True:
                raise Unres("conditional " + s.ev.callee)
            if s.kind == "effect":
                self.k.effects[s.ev.callee](self, s.ev, env, key)
            else:
                self.vecop(s.ev, env, key)

    def domain(self, loops, b, env):
        if not loops:
            yield env
            return
        h = loops[0]
        bb = b if len(loops) == 1 else loops[1]
        n = self.niter(h, env) + (1 if self.k.early(h, bb) else 0)
        for v in range(n):
            e = dict(env)
            e[h] = v
            self.steps += 1
            if self.steps > self.LIMIT:
                raise Unres("too many instances")
            yield from self.domain(loops[1:], b, e)

    def throws(self):
        """is the function left by a throw? True, False or a condition over the data"""
        r = False
        if not self.k.good and any(k == "throw" for k, e in self.ai.exits):
            return True
        for p in self.k.idx:
            if p not in self.k.good:
                continue
            T = self.k.fn.blocks[p][-1]
            if T.op not in ("br", "switch") or "cond" not in T.d:
                continue
            out = [s for s in self.k.fn.succ[p] if s not in self.k.good and (p, s) in self.ai.out_state]
            if not out:
                continue
            for env in self.domain([L["header"] for L in loops_of(self.k.fn, p)], p, {}):
                c = self.active(p, env)
                if c is False:
                    continue
                t = self.ai.val(T.d["cond"])
                if T.op == "br":
                    t = t if T.d["succ"][0] == out[0] else neg(t)
                else:
                    x, t = self.ai.as_poly(t), FALSE
                    for v, s in T.d["cases"]:
                        if s in out:
                            t = lor(t, eq(x, P(v)))
                    if T.d["default"] in out:
                        d = TRUE
                        for v, s in T.d["cases"]:
                            if s not in out:
                                d = land(d, neg(eq(x, P(v))))
                        t = lor(t, d)
                c = cand(c, self.cond(t, env))
                if c is True:
                    return True
                r = self.cor(r, c)
        if self.fail:
            raise self.fail
        return r

    # ------------------------------------------------------------ vectors
    def vplace(self, p, env):
        return self.place(self.ai.as_ptr(p), env)

    @staticmethod
    def vdata(v):
        return ("vec", ("p", v[0], P(v[1])))

    def vsize(self, v, key):
        for k, n in reversed(self.vsz.get(v, ())):
            if key is None or k < key:
                return n
        f = self.params.get(("size", v))
        if f is None:
            f = self.params.get(("sizeof",))
            f = f(v) if f else None
        if f is None:
            raise Unres("the size of %s" % show(v[0])[:80])
        return f

    @staticmethod
    def sizeof(T):
        if T.startswith(("std::shared_ptr<", "std::weak_ptr<")):
            return 16
        if T.startswith("std::vector<"):
            return 24
        raise Unres("the size of " + T[:60])

    def vset(self, v, key, vals):
        self.vsz.setdefault(v, []).append((key, len(vals)))
        r = self.vdata(v)
        for i, x in enumerate(vals):
            self.write(r, i, key, True, x)

    def vget(self, v, key):
        r = self.vdata(v)
        return [self.read(r, i, key) for i in range(self.vsize(v, key))]

    def vecop(self, e, env, key):
        name = e.callee.split("::")[-1]
        owner, params = strip_templates(e.full)
        v = self.vplace(e.args[0], env)
        T = first_targ(e.full)
        p0 = params[0] if params else ""
        if name in ("vector", "operator=", "assign"):
            if not params:
                return self.vset(v, key, [])
            if p0.startswith("std::vector"):
                w = self.vplace(e.args[1], env)
                if w == v:
                    return
                self.vcopy(v, w, key, T)
                return
            if p0.startswith("std::initializer_list"):
                b, o = self.vplace(e.args[1], env)
                n = self.int(self.ev(e.args[2], env))
                if T not in FLAT:
                    raise Unres("initializer list of " + T)
                return self.vset(v, key, [self.read(b, o // 8 + i, key) for i in range(n)])
            if p0 == "unsigned long":
                n = self.int(self.ev(e.args[1], env))
                x = ZERO
                if len(params) > 1 and "allocator" not in params[1]:
                    x = self.arg_value(e.args[2], env, key)
                if T not in FLAT:
                    raise Unres("vector of " + T)
                return self.vset(v, key, [x] * n)
            if len(e.args) >= 3 and T in FLAT and (p0.endswith("*") or "iterator" in p0) and len(params) > 1 and params[1] == p0:
                (b, o), (b2, o2) = self.vplace(e.args[1], env), self.vplace(e.args[2], env)
                if b != b2 or o % 8 or o2 % 8 or o2 < o:
                    raise Unres("a range between two places")
                return self.vset(v, key, [self.read(b, i, key) for i in range(o // 8, o2 // 8)])
        elif name == "resize":
            n = self.int(self.ev(e.args[1], env))
            if T not in FLAT:
                raise Unres("vector of " + T)
            x = self.arg_value(e.args[2], env, key) if len(params) > 1 else ZERO
            old = self.vget(v, key)
            return self.vset(v, key, (old + [x] * n)[:n])
        elif name == "push_back":
            if T not in FLAT:
                n = self.vsz.get(v)
                return
            return self.vset(v, key, self.vget(v, key) + [self.arg_value(e.args[1], env, key)])
        elif name == "clear":
            return self.vset(v, key, [])
        elif name in ("reserve", "shrink_to_fit"):
            return
        raise Unres("%s" % e.full[:100])

    def arg_value(self, p, env, key):
        b, o = self.vplace(p, env)
        return self.read(b, o // 8, key)

    def vcopy(self, v, w, key, T):
        n = self.vsize(w, key)
        if T in FLAT:
            return self.vset(v, key, self.vget(w, key))
        if T.endswith(("Shape3d", "Shape2d", "Shape")):
            # objects that hold one vector each
            self.vsz.setdefault(v, []).append((key, n))
            for i in range(n):
                self.vcopy((self.vdata(v), 24 * i), (self.vdata(w), 24 * i), key, "unsigned long")
            return
        raise Unres("copy of a vector of " + T)

    def write(self, base, i, key, c, v):
        if c is not True:
            v = fsel(c, v, self.read(base, i, key))
        self.cells.setdefault((base, i), []).append((key, v))

    def read(self, base, i, key):
        if base[0] == "best":
            if i:
                raise Unres("beside the best element")
            return fmax([self.read(base[2], base[3] + j, key) for j in range(base[4])])
        h = self.cells.get((base, i), ())
        for k, v in reversed(h):
            if k < key:
                return v
        v = self.params.get((base, i))
        if v is not None:
            return v if isinstance(v, tuple) else F(v)
        f = self.inputs.get(base)
        if f is not None:
            v = f(i)
            if v is not None:
                return v
        self.reads.add((base, i))
        return P(("in", base, i))

    def overwritten(self, dst, src):
        """an element of region src that is read after region dst was written there (the two being the same array), if any"""
        for e in self.ai.events:
            if e.kind != "load" or e.b not in self.k.good or e.b not in self.k.idx:
                continue
            p = self.ai.as_ptr(e.args[0])
            if p[1] != src:
                continue
            hs = [L["header"] for L in loops_of(self.k.fn, e.b)]
            for env in self.domain(hs, e.b, {}):
                if self.active(e.b, env) is False:
                    continue
                b, o = self.place(p, env)
                key = self.stamp(ev_key(self.ai, e), env)
                if b == src and any(k < key for k, v in self.cells.get((dst, o // 8), ())):
                    return o // 8
        return None

    def stamp(self, key, env):
        return tuple((env[x[1]], 0) if x[0] == "iv" else x for x in key)

    def active(self, b, env):
        """is block b reached in this iteration?"""
        hs = [None] + [L["header"] for L in loops_of(self.k.fn, b)]
        c = True
        for j, h in enumerate(hs):
            t = hs[j + 1] if j + 1 < len(hs) else b
            if h == t:
                continue
            c = cand(c, self.reach(t, h, env))
            if c is False:
                return False
        return c

    def envkey(self, env, h):
        hs = [L["header"] for L in loops_of(self.k.fn, h)] if h is not None else []
        return tuple((x, env[x]) for x in hs if x in env)

    def reach(self, b, h, env):
        """condition for b to be reached from the head of loop h (None: the entry) in the iteration env"""
        start = h if h is not None else 0
        if b == start:
            return True
        key = ("reach", b, h, self.envkey(env, h))
        if key in self.memo:
            return self.memo[key]
        r = False
        for p in self.k.preds(b, h):
            c = self.preach(p, h, env)
            if c is False:
                continue
            c = cand(c, self.via(p, b, env, h))
            if c is False:
                continue
            r = self.cor(r, c)
        self.memo[key] = r
        return r

    def via(self, p, b, env, h):
        e = self.k.edge(p, b)
        hp = self.k.inner(p)
        if hp is not None and hp != h and self.k.count(hp)[0] is None and b not in set(self.k.loop(hp)["blocks"]):
            # out of a loop with several exits: taken in its last round, from here
            if self.outer(hp) != h:
                raise Unres("an exit from an inner loop")
            env = dict(env)
            env[hp] = self.niter(hp, env)
            r = self.reach(p, hp, env)
            return False if r is False else cand(r, self.cond(e, env))
        if e == TRUE:
            return True
        # the test may sit inside an inner loop that is left there
        return self.cond(e, env)

    def preach(self, p, h, env):
        """reach of p, stepping over inner loops"""
        ls = loops_of(self.k.fn, p)
        hs = [L["header"] for L in ls]
        if h is None:
            out = hs[0] if hs else None
        else:
            i = hs.index(h)
            out = hs[i + 1] if i + 1 < len(hs) else None
        return self.reach(out if out is not None else p, h, env)

    def cor(self, a, b):
        if a is False:
            return b
        if b is False:
            return a
        if a is True or b is True or a == cneg(b):
            return True
        if a == b:
            return a
        # (x and y) or (x and not y)
        def parts(c):
            return parts(c[1]) + parts(c[2]) if c[0] == "both" else [c]
        pa, pb = parts(a), parts(b)
        common = [x for x in pa if x in pb]
        ra, rb = [x for x in pa if x not in common], [x for x in pb if x not in common]
        if not ra or not rb or (len(ra) == 1 and len(rb) == 1 and ra[0] == cneg(rb[0])):
            r = True
            for x in common:
                r = cand(r, x)
            return r
        return ("no", cand(cneg(a), cneg(b)))

    # ------------------------------------------------------------ values
    def int(self, v):
        if isinstance(v, Poly):
            c = v.const()
            if c is not None and int(c) == c:
                return int(c)
        raise Unres("not a number: %s" % (show(v) if isinstance(v, Poly) else str(v))[:80])

    def place(self, p, env):
        """(region, byte offset) of a pointer"""
        p = self.ptr(p, env)
        return p[1], self.int(p[2])

    def ptr(self, t, env):
        if not (isinstance(t, tuple) and t[:1] == ("p",)):
            raise Unres("pointer %s" % show(t)[:60])
        base, off = t[1], self.ev(t[2], env)
        if base[0] == "phi":
            q = self.phi(base, env)
            q = self.ptr(q, env) if not (isinstance(q, tuple) and q[:1] == ("P",)) else ("p", q[1], q[2])
            return ("p", q[1], q[2] + off)
        if base[0] == "sel":
            c = self.cond(base[1], env)
            if c is True or c is False:
                q = self.ptr(base[2] if c else base[3], env)
                return ("p", q[1], q[2] + off)
            raise Unres("pointer chosen by data")
        f = self.params.get(base)
        if callable(f):
            q = f(self, env)
            return ("p", q[1], q[2] + off)
        if isinstance(f, tuple):
            return ("p", f[1], f[2] + off)
        if base[0] == "ld":
            # a pointer read from memory: named by its place
            try:
                b, o = self.place(("p", base[1], base[2]), env)
                if (b, o // 8) in self.cells:
                    v = self.ld(base, env)
                    if isinstance(v, tuple) and v[:1] == ("P",):
                        return ("p", v[1], v[2] + off)
                    raise Unres("pointer value of " + show(base)[:60])
                nb = ("ld", b, P(o)) + base[3:4]
                f = self.params.get(nb)
                if isinstance(f, tuple):
                    return ("p", f[1], f[2] + off)
                return ("p", nb, off)
            except Unres:
                pass
        if base[0] == "vec":
            q = self.ptr(base[1], env)
            nb = ("vec", ("p", q[1], q[2]))
            f = self.params.get(nb)
            if isinstance(f, tuple):
                return ("p", f[1], f[2] + off)
            return ("p", nb, off)
        if base[0] == "pure" and base[1] in SHARED and len(base) > 2 and base[2][:1] == ("p",):
            b, o = self.place(base[2], env)
            return self.shared(b, o, off)
        if base[0] == "call" or base[0] == "pure":
            e = self.k.byres.get(base)
            if e is not None:
                q = self.special(e, env)
                if q is not None:
                    return ("p", q[1], q[2] + off)
        return ("p", base, off)

    def shared(self, b, o, off):
        """what a shared pointer object at (b, o) points to"""
        f = self.alias.get((b, o)) or self.params.get(("shared", b, o))
        return ("p", f[1], f[2] + off) if f else ("p", ("shared", b, o), off)

    def special(self, e, env):
        """pointers made by library calls"""
        if e.callee == "std::max_element":
            b, o = self.place(self.ai.as_ptr(e.args[0]), env)
            b2, o2 = self.place(self.ai.as_ptr(e.args[1]), env)
            if b == b2 and not o % 8 and o2 > o:
                return ("P", ("best", "max", b, o // 8, (o2 - o) // 8), ZERO)
        f = self.k.calls.get(e.callee)
        v = f(self, e, env) if f else self.virtual(e, env)
        return v if isinstance(v, tuple) and v[:1] == ("P",) else None

    def ev(self, t, env):
        if isinstance(t, Poly):
            r = ZERO
            for mono, k in t.monos():
                x = F(k) if not isinstance(k, int) else P(k)
                for a in mono:
                    x = x * self.atom(a, env)
                r = r + x
            return r
        if isinstance(t, tuple):
            if t[:1] == ("p",):
                q = self.ptr(t, env)
                return ("P", q[1], q[2])
            if t in (TRUE, FALSE) or t[0] in BOOLS:
                c = self.cond(t, env)
                return ONE if c is True else ZERO if c is False else P(("sel", c, ONE, ZERO))
            return self.atom(t, env)
        raise Unres("value %r" % (t,))

    def atom(self, a, env):
        k = a[0]
        if a in self.params:
            v = self.params[a]
            return v if isinstance(v, Poly) else F(v)
        if k == "iv":
            if a[1] in env:
                return P(env[a[1]])
            # after the loop: its last value
            return P(self.niter(a[1], env))
        if k == "fc":
            return F(fc(a[1]))
        if k == "zero":
            return ZERO
        if k == "farg" or k == "arg":
            return P(a)
        if k == "phi":
            return self.phi(a, env)
        if k == "ld":
            return self.ld(a, env)
        if k in ("fadd", "fsub", "fmul", "fdiv"):
            x, y = self.ev(a[1], env), self.ev(a[2], env)
            return x + y if k == "fadd" else x - y if k == "fsub" else x * y if k == "fmul" else x * inv(y)
        if k == "fneg":
            return -self.ev(a[1], env)
        if k == "sel":
            return fsel(self.cond(a[1], env), self.evl(a[2], env, a[1], True), self.evl(a[3], env, a[1], False))
        if k == "sizeof":
            return F(self.sizeof(a[1]))
        if k in ("uitofp", "sitofp", "fpext", "fptrunc", "sext", "zext"):
            return self.ev(a[1], env)
        if k in ("fptoui", "fptosi"):
            x = self.ev(a[1], env).const()
            if x is None or x != x or abs(x) >= 1 << 52 or k == "fptoui" and x <= -1:
                raise Unres("truncation")
            return P(int(x))
        if k in ("umin", "umax", "smin", "smax"):
            vs = [self.int(self.ev(x, env)) for x in a[1:]]
            return P(min(vs) if k.endswith("min") else max(vs))
        if k in ("udiv", "urem"):
            x, y = self.int(self.ev(a[1], env)), self.int(self.ev(a[2], env))
            if y == 0 or x < 0:
                raise Unres("division of %d by %d" % (x, y))
            return P(x // y if k == "udiv" else x % y)
        if k == "ashr" and isinstance(a[2], Poly) and a[2].const() == 3 or k == "ashr" and a[2] == 3:
            return self.elements(a[1], env)
        if k == "ashr" and self.k.dynamic and isinstance(a[1], Poly) and any(x[0] == "addr" for mono, _ in a[1].monos() for x in mono):
            return P(self.int(self.elements(a[1], env)) * 8 >> self.int(self.ev(P(a[2]) if isinstance(a[2], int) else a[2], env)))
        if k == "sdiv" and self.k.dynamic and isinstance(a[1], Poly) and any(x[0] == "addr" for mono, _ in a[1].monos() for x in mono):
            d = self.int(self.ev(P(a[2]) if isinstance(a[2], int) else a[2], env))
            x = self.int(self.elements(a[1], env)) * 8
            if d <= 0 or x % d:
                raise Unres("difference of pointers")
            return P(x // d)
        if k in ("shl", "lshr", "ashr", "bitand", "bitor", "bitxor", "and", "or", "xor") and len(a) == 3:
            x, y = self.int(self.ev(a[1], env)), self.int(self.ev(a[2], env))
            if k in ("shl", "lshr", "ashr"):
                if not 0 <= y < 64 or k == "lshr" and x < 0:
                    raise Unres("shift of %d by %d" % (x, y))
                return P(x << y if k == "shl" else x >> y)
            return P(x & y if k.endswith("and") else x ^ y if k.endswith("xor") else x | y)
        if k == "v" and len(a) == 2:
            return self.ev(a[1], env)
        if k == "b2i":
            c = self.cond(a[1], env)
            return ONE if c is True else ZERO if c is False else P(("sel", c, ONE, ZERO))
        if k == "fn":
            if a[1] in ("maxnum", "fmax", "maximum"):
                return fmax([self.ev(x, env) for x in a[2:]])
            if a[1] in ("minnum", "fmin", "minimum"):
                return -fmax([-self.ev(x, env) for x in a[2:]])
            if a[1] == "fmuladd" or a[1] == "fma":
                x, y, z = [self.ev(q, env) for q in a[2:5]]
                return x * y + z
            return fn(a[1], *[self.ev(x, env) for x in a[2:]])
        if k in ("call", "pure"):
            e = self.k.byres.get(a)
            if e is not None:
                v = self.callval(e, env)
                if v is not None:
                    return v
        if k == "size":
            return P(self.content_size(a[1], env))
        raise Unres("value of %s" % show(a)[:80])

    def measured(self, x, env):
        """the sizes of a content, as the calls that asked for it met them"""
        ks = []
        for n, e in enumerate(self.k.sizers.get(x, ())):
            try:
                ks.append((self.stamp(ev_key(self.ai, e), env), n, e))
            except KeyError:
                pass
        for key, _, e in sorted(ks, key=lambda k: k[:2]):
            # the first of them: what happens before it has been seen
            if self.active(e.b, env) is True:
                return {self.vsize(self.vplace(e.args[0], env), key)}
        raise Unres("time of %s" % show(x)[:60])

    def content_size(self, c, env):
        # contents that go round loops keep their size
        seen, todo, ns = set(), [c], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "obj":
                p = x[1]
                v = self.place(p if p[0] == "p" else ("p", p, ZERO), env)
                if self.k.dynamic and v in self.vsz:
                    m = set()
                    ns |= self.measured(x, env)
                elif v[0][0] == "vec" and v in self.vsz:
                    # an object inside of a container may have changed with it: the size at the time of the question
                    for e in self.k.sizers.get(x, ()):
                        try:
                            ns.add(self.vsize(v, self.stamp(ev_key(self.ai, e), env)))
                        except KeyError:
                            raise Unres("time of %s" % show(x)[:60])
                else:
                    ns.add(self.vsize(v, ()))
            elif x[0] == "vecn":
                q = x[1].atom() if isinstance(x[1], Poly) else None
                if q and q[0] == "size":
                    todo.append(q[1])
                else:
                    ns.add(self.int(self.ev(x[1], env)))
            elif self.k.dynamic and x[0] == "phi" and x[1] == "o":
                ns |= self.measured(x, env)
            elif x[0] == "phi" and x in self.ai.phiinc:
                todo += [v for p, v in self.ai.phiinc[x]]
            else:
                raise Unres("the size of %s" % show(x)[:80])
        if len(ns) != 1:
            raise Unres("the size of %s" % show(c)[:80])
        return ns.pop()

    def elements(self, t, env):
        """difference of two element pointers"""
        r = ZERO
        bases = {}
        for mono, k in t.monos():
            if len(mono) == 1 and mono[0][0] == "addr":
                x = mono[0][1]
                x = x if x[0] == "p" else ("p", x, ZERO)
                q = self.ptr(x, env)
                b, o = q[1], q[2]
                if b[0] == "best":
                    vals = tuple(self.read(b[2], b[3] + j, getattr(self, "now", ())) for j in range(b[4]))
                    r = r + P(("amax",) + vals) * k
                    b, o = b[2], o + 8 * b[3]
                bases[b] = bases.get(b, 0) + k
                r = r + F(Fraction(self.int(o) * k, 8))
            else:
                x = F(k)
                for y in mono:
                    x = x * self.atom(y, env)
                r = r + F(Fraction(self.int(x), 8))
        if any(bases.values()):
            raise Unres("difference of pointers")
        return r

    def evl(self, t, env, c, truth):
        try:
            return self.ev(t, env)
        except Unres:
            # not needed when the condition excludes it
            cc = self.cond(c, env)
            if cc is (not truth):
                return ZERO
            raise

    def callval(self, e, env):
        f = self.k.calls.get(e.callee)
        if f:
            return f(self, e, env)
        v = self.virtual(e, env)
        return v if v is None or isinstance(v, Poly) or isinstance(v, tuple) and v[:1] == ("P",) else F(v)

    def target(self, e, env):
        """(object, method, region, arguments) of a method call on an object that the case describes: ("object", region) -> (class, {method: function})"""
        args = list(e.args)
        if e.callee == "<indirect>":
            t = args.pop(0)
            if not (isinstance(t, Poly) and t.atom() or isinstance(t, tuple)):
                return None
            t = t.atom() if isinstance(t, Poly) else t
            t = t[1] if t[:1] == ("p",) and t[2] == ZERO else t
            if t[:1] == ("ld",) and t[1][0] == "ld":
                name = int(self.k.ai.as_poly(t[2]).const() or 0)
            else:
                return None
        elif e.callee.startswith("EdgeLearning::"):
            name = e.callee.split("::")[-1]
        else:
            return None
        if not args:
            return None
        try:
            p = self.ptr(self.ai.as_ptr(args[0]), env)
        except Unres:
            return None
        o = self.params.get(("object", p[1]))
        if o is None or p[2] != ZERO:
            return None
        if isinstance(name, int):
            name = o[0].get(name)
        return o, name, p[1], args[1:]

    def virtual(self, e, env):
        """the result of a method call on an object that the case describes"""
        r = self.target(e, env)
        f = r[0][1].get(r[1]) if r else None
        if f is None:
            return None
        return f(self, *[self.ev(x, env) for x in r[3]])

    def ld(self, a, env):
        e = self.k.byres.get(a)
        q = self.ptr(("p", a[1], a[2]), env)
        ways = self.ways(q[2])
        if len(ways) > 1:
            # a place that depends on the data: one of finitely many
            r = None
            for c, o in reversed(ways):
                v = self.ldat(a, e, q[1], self.int(o), env)
                r = v if r is None else fsel(c, v, r)
            return r
        return self.ldat(a, e, q[1], self.int(q[2]), env)

    def ways(self, p, known=()):
        """[(condition, value)...] of a number chosen by the data: the first that holds; the last one holds otherwise"""
        for mono, k in p.monos():
            for a in mono:
                if a[0] == "sel" and isinstance(a[2], Poly) and isinstance(a[3], Poly):
                    if len(known) > 10:
                        raise Unres("a place chosen by data")
                    x, y = replace(p, a, a[2]), replace(p, a, a[3])
                    t = dict(known).get(a[1])
                    if t is not None:
                        return self.ways(x if t else y, known)
                    return [(cand(a[1], c), v) for c, v in self.ways(x, known + ((a[1], True),))] + \
                        [(c, v) for c, v in self.ways(y, known + ((a[1], False),))]
        return [(True, p)]

    def ldat(self, a, e, base, off, env):
        n = a[3]
        if n not in (8, 4, 1) or off % n:
            raise Unres("load of %s bytes at %s" % (n, off))
        v = self.params.get((base, off // n))
        if v is not None and (e is None or (base, off // n) not in self.cells):
            return F(v)
        if e is None:
            # what a call leaves in the place
            c = self.k.byuid(a[4][1]) if len(a) > 4 and isinstance(a[4], tuple) and a[4][:1] == ("by",) else None
            try:
                if c is not None and (base, off // n) in self.cells:
                    return self.read(base, off // n, self.stamp(ev_key(self.ai, c), env) + ((0, 0),))
            except KeyError:
                pass
            if (base, off // n) in self.cells or any(s.base == a[1] for s in self.k.stmts):
                raise Unres("load of %s" % show(a)[:60])
            return self.read(base, off // n, ())
        try:
            key = self.stamp(ev_key(self.ai, e), env)
        except KeyError:
            key = None
        if key is None and (base, off // n) not in self.cells:
            key = ()
        if key is None or nested(base) and len(self.k.allres.get(a, ())) > 1:
            # the same value is read in several places: at a time that is not known, what is there now has to be what the others read
            vs, other = [], 0
            for x in self.k.allres.get(a, ()) or (e,):
                try:
                    t = self.stamp(ev_key(self.ai, x), env)
                except KeyError:
                    other += 1
                    continue
                v = self.read(base, off // n, t)
                if v not in vs:
                    vs.append(v)
            if other and (base, off // n) in self.cells:
                v = self.read(base, off // n, ((1 << 60, 0),))
                if v not in vs:
                    raise Unres("time of %s" % show(a)[:60])
            if not vs:
                vs = [self.read(base, off // n, ())]
            if len(vs) > 1:
                raise Unres("time of %s" % show(a)[:60])
            return vs[0]
        return self.read(base, off // n, key)

    def phi(self, a, env):
        b = a[1] if isinstance(a[1], int) else a[2]
        inc = self.ai.phiinc.get(a)
        if inc is None:
            raise Unres("phi " + show(a)[:60])
        hs = self.ai.headers.get(b)
        if hs is not None:
            if b in env:
                t, out = env[b], dict(env)
            else:
                out = dict(env)
                t = self.niter(b, env)
                # the value at the exit test of the last round
            return self.rec(a, b, inc, hs, t, out)
        # a join: the value of the edge taken
        h = self.k.inner(b)
        if h is not None and h not in env:
            # observed after the loop: the join in the last round it ran
            n = self.niter(h, env) - (0 if self.k.early(h, b) else 1)
            if n < 0:
                raise Unres("value of a block that did not run")
            env = dict(env)
            env[h] = n
        r = None
        todo = []
        for p, v in inc:
            if (p, b) not in self.ai.out_state or p not in self.k.good:
                continue
            c = self.preach(p, h, env)
            if c is False:
                continue
            c = cand(c, self.via(p, b, env, h))
            if c is True:
                return self.ev(v, env)
            if c is not False:
                todo.append((c, v))
        if not todo:
            raise Unres("unreachable join")
        r = self.ev(todo[-1][1], env)
        for c, v in reversed(todo[:-1]):
            r = fsel(c, self.ev(v, env), r)
        return r

    def rec(self, a, h, inc, L, t, env):
        outer = self.envkey({k: v for k, v in env.items() if k != h}, h)
        key = ("rec", a, outer)
        vals = self.memo.setdefault(key, [])
        # where the loops inside of this one stand does not matter: at the end of a round they have run
        inside = set(L)
        env = {x: t for x, t in env.items() if x not in inside or x == h}
        while len(vals) <= t:
            i = len(vals)
            e = dict(env)
            if i == 0:
                e.pop(h, None)
                ins = [(p, v) for p, v in inc if p not in L and (p, h) in self.ai.out_state]
            else:
                e[h] = i - 1
                ins = [(p, v) for p, v in inc if p in L and (p, h) in self.ai.out_state]
            if len(ins) == 1:
                v = self.ev(ins[0][1], e)
            else:
                v = None
                for p, w in ins:
                    c = cand(self.preach(p, h if i else self.outer(h), e), self.via(p, h, e, h))
                    if c is True:
                        v = self.ev(w, e)
                    elif c is not False:
                        raise Unres("edges into a loop chosen by data")
                if v is None:
                    raise Unres("no edge into the loop")
            if len(vals) == i:
                vals.append(v)
            self.steps += 1
            if self.steps > self.LIMIT:
                raise Unres("too many steps")
        return vals[t]

    def outer(self, h):
        hs = [L["header"] for L in loops_of(self.k.fn, h)]
        return hs[-2] if len(hs) > 1 else None

    # ------------------------------------------------------------ conditions
    def cond(self, t, env):
        if t == TRUE:
            return True
        if t == FALSE:
            return False
        k = t[0]
        if k == "not":
            return cneg(self.cond(t[1], env))
        if k == "and":
            a = self.cond(t[1], env)
            return False if a is False else cand(a, self.cond(t[2], env))
        if k == "or":
            return cneg(cand(cneg(self.cond(t[1], env)), cneg(self.cond(t[2], env))))
        if k in ("eq", "ne"):
            d = self.ev(t[1], env)
            c = d.const()
            if c is None:
                r = ("eq", sgn(d))
            else:
                r = c == 0
            return r if k == "eq" else cneg(r)
        if k in ("ult", "ule", "slt", "sle"):
            a, b = self.ev(t[1], env), self.ev(t[2], env)
            if a.const() is None or b.const() is None:
                raise Unres("comparison %s" % show(t)[:80])
            if k[0] == "u":
                a, b = P(a.const() % 2 ** 64), P(b.const() % 2 ** 64)
            return a.const() < b.const() if k.endswith("lt") else a.const() <= b.const()
        if k == "fcmp":
            p = t[1]
            a, b = self.ev(t[2], env), self.ev(t[3], env)
            q = p[1:]
            if q == "eq":
                d = a - b
                return d.const() == 0 if d.const() is not None else ("eq", sgn(d))
            if q == "ne":
                d = a - b
                return d.const() != 0 if d.const() is not None else ("no", ("eq", sgn(d)))
            if q in ("rd", "no"):
                return p == "ord"
            if q in ("gt", "ge"):
                a, b = b, a
            d = a - b
            strict = q in ("lt", "gt")
            c = d.const()
            if c is not None:
                return c < 0 if strict else c <= 0
            return ("lt" if strict else "le", d)
        if k == "sel":
            c = self.cond(t[1], env)
            if c is True:
                return self.cond(t[2], env)
            if c is False:
                return self.cond(t[3], env)
        if k == "phi":
            v = self.phi(t, env)
            if isinstance(v, Poly) and v.const() in (0, 1):
                return v.const() == 1
            if isinstance(v, Poly) and v.atom() and v.atom()[0] == "sel" and v.atom()[2:] == (ONE, ZERO):
                return v.atom()[1]
            if isinstance(v, Poly) and v.atom() and v.atom()[0] == "sel" and v.atom()[2:] == (ZERO, ONE):
                return cneg(v.atom()[1])
        if k == "i2b":
            a = t[1].atom() if isinstance(t[1], Poly) else t[1]
            if a and a[:2] == ("pure", "std::basic_string::empty"):
                # what depends on texts only
                return ("text", a)
            v = self.ev(t[1], env)
            if v.const() is not None:
                return v.const() != 0
        if k == "peq" or k == "null":
            try:
                a = self.ptr(t[1], env)
                b = self.ptr(t[2], env) if k == "peq" else None
            except Unres:
                a = b = None
            if a and b:
                if a[1] == b[1]:
                    return (a[2] - b[2]).const() == 0
                return False
            if a and a[1][0] in ("arg", "this", "vec", "alloca", "member"):
                return False
        raise Unres("condition %s" % show(t)[:80])

    # ------------------------------------------------------------ results
    def final(self):
        """{region: {element: value}} of everything written"""
        if self.fail:
            raise self.fail
        out = {}
        for (b, i), h in self.cells.items():
            out.setdefault(b, {})[i] = h[-1][1]
        return out

    def result(self, e):
        if self.fail:
            raise self.fail
        return self.ev(e.args[0], {})


BOOLS = ("true", "false", "not", "and", "or", "eq", "ne", "ult", "ule", "slt", "sle", "fcmp", "i2b", "peq", "null", "icmp")


# ---------------------------------------------------------------- comparing values
class Num(object):
    """a point: numbers for the data symbols"""

    def __init__(self, seed, special=True, positive=()):
        self.r = random.Random(seed)
        self.positive = positive
        self.v = {}
        self.special = special

    def leaf(self, a):
        if a not in self.v:
            if self.positive and self.positive(a):
                self.v[a] = self.r.uniform(0.05, 2)
            elif self.special and self.r.random() < 0.3:
                self.v[a] = self.r.choice([0.0, 1.0, -1.0, 0.5, 2.0])
            else:
                self.v[a] = self.r.uniform(-2, 2)
        return self.v[a]

    def poly(self, p):
        s = 0.0
        for mono, k in p.monos():
            x = float(k)
            for a in mono:
                x *= self.atom(a)
            s += x
        return s

    def atom(self, a):
        k = a[0]
        if k == "inv":
            return 1.0 / self.poly(a[1])
        if k == "fn":
            xs = [self.poly(x) for x in a[2:]]
            return {"exp": math.exp, "log": math.log, "tanh": math.tanh, "sqrt": math.sqrt, "fabs": abs, "pow": pow,
                    "floor": math.floor, "ceil": math.ceil}[a[1]](*xs)
        if k == "max":
            return max(self.poly(x) for x in a[1:])
        if k == "sel":
            return self.poly(a[2]) if self.cond(a[1]) else self.poly(a[3])
        if k == "amax":
            xs = [self.poly(x) for x in a[1:]]
            return float(xs.index(max(xs)))
        if k in ("in", "farg", "arg", "sym"):
            return self.leaf(a)
        raise Unres("number for " + show(a)[:60])

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == "no":
            return not self.cond(c[1])
        if c[0] == "both":
            return self.cond(c[1]) and self.cond(c[2])
        v = self.poly(c[1])
        return v < 0 if c[0] == "lt" else v <= 0 if c[0] == "le" else v == 0


def differ(g, w, tries=60, positive=(), special=True):
    """None when the two values are the same function of the data, else a point where they differ"""
    if g == w:
        return None
    if not isinstance(g, Poly) or not isinstance(w, Poly):
        raise Unres("value %s" % show(g)[:80])
    bad = 0
    for s in range(tries):
        n = Num(s, special, positive)
        try:
            x, y = n.poly(g), n.poly(w)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        except KeyError as e:
            raise Unres("function %s" % e)
        bad += 1
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return "%s instead of %s" % (show(g)[:160], show(w)[:160])
    if not bad:
        raise Unres("no point to compare at")
    return None
