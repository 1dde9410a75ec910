"""C15: the label encodings of a dataset parser.

The loops over the rows, the columns, the label columns and the values seen are recognised by what bounds them (an amount returned by
the dataset, a walk of a container from begin to end); every value is then written with the elements these loops stand at, and the
counters and offsets carried round them with their recurrences.  What is stored where is compared with the definition of the encoding."""
from .. import ir
from ..absint import Absint
from ..ir import AnalysisBroken
from ..terms import *
from .util import loops_of, loop_exits, normal_blocks, cases, phi_block, Zone

CLS = "EdgeLearning::DatasetParser"


class No(Exception):
    """not recognised"""


def X(*a):
    return P(tuple(a))


E, FS, NL, ALL = X("E"), X("FS"), X("NL"), X("ALL")
SET, MAP, VEC = "std::set::", "std::map::", "std::vector::"


class Model(object):
    def __init__(self, ck, m, name, nargs=None, kind="eq"):
        fs = [f for f in m.fns.values() if f.name.startswith(CLS + "::" + name + "(")]
        if len(fs) != 1:
            raise AnalysisBroken("no definition of %s::%s" % (CLS, name))
        self.f = ck.fn(fs[0])
        self.ai = ai = ck.absint(Absint(self.f))
        self.good = normal_blocks(ai)
        self.dom = ai.dom()
        slots = {}
        for cls in ("EdgeLearning::CSV", "EdgeLearning::Mnist", "EdgeLearning::Cifar"):
            for i, x in enumerate((m.vtable(cls) or [])[2:]):
                g = m.fns.get(x.get("ref")) if isinstance(x, dict) else None
                if g is not None:
                    slots.setdefault(8 * i, g.q.split("::")[-1])
        self.evs = [e for e in ai.events if e.b in self.good]
        self.v = {}
        self.byres = {}
        for e in self.evs:
            if e.kind == "call" and e.callee == "<indirect>":
                fp = e.args[0]
                if isinstance(fp, Poly):
                    fp = fp.atom()
                elif isinstance(fp, tuple) and fp[:1] == ("p",):
                    fp = fp[1] if fp[2] == ZERO else None
                if not fp or fp[0] != "ld" or not any(ai.as_ptr(a) == ("p", ("this",), ZERO) for a in e.args[1:3]):
                    continue
                s = fp[2].const()
                if s in slots:
                    self.v[id(e)] = slots[s]
            if e.kind in ("call", "load") and e.res is not None:
                r = e.res
                if isinstance(r, Poly):
                    r = r.atom()
                elif isinstance(r, tuple) and r[:1] == ("p",):
                    r = r[1]
                elif isinstance(r, tuple) and r[:1] == ("i2b",):
                    r = r[1].atom() if isinstance(r[1], Poly) else r[1]
                if r is not None:
                    self.byres.setdefault(r, e)
        self.bounds = {}
        self.conts = {}

    # ------------------------------------------------------------ containers
    def uses(self, p, skip=()):
        """the events that may change the object at p, in place"""
        out = []
        for e in self.evs:
            if e.kind == "call" and any(isinstance(a, tuple) and a == p for a in e.args):
                m = e.callee.split("::")[-1]
                if m in ("size", "begin", "end", "find", "count", "at", "cbegin", "cend", "data", "empty", "contains", "reserve") or m.startswith("~") or \
                        e.callee.startswith("std::allocator") or e.callee.startswith("std::__new_alloc"):
                    continue
                if m == "operator[]" and e.callee.startswith(VEC):
                    continue
                if m in ("push_back", "insert", "emplace", "emplace_back", "try_emplace", "insert_or_assign") and e.args[0] != p:
                    continue
                out.append(e)
        return out

    def container(self, p):
        """what the container at p holds"""
        if p not in self.conts:
            self.conts[p] = None
            self.conts[p] = self.container1(p)
        if self.conts[p] is None:
            raise No("container " + show(p))
        return self.conts[p]

    def container1(self, p):
        ai = self.ai
        if not (isinstance(p, tuple) and p[0] == "p"):
            raise No("container")
        if p[1][0] == "vec":
            # an element of a vector of containers
            c = self.container(p[1][1])
            if c[0] != "maps":
                raise No("element of " + c[0])
            if p[2] == ZERO:
                return ("map", X("lab", ZERO))
            at = [(m, k) for m, k in p[2].monos()]
            if len(at) != 1 or at[0][1] != 1:
                raise No("element")
            m = list(at[0][0])
            sz = [a for a in m if a[0] == "sizeof"]
            if len(sz) != 1:
                raise No("element")
            m.remove(sz[0])
            i = P(1)
            for a in m:
                i = i * P(a)
            return ("map", X("lab", i))
        us = self.uses(p)
        if not us:
            raise No("nothing fills " + show(p))
        d, rest = us[0], us[1:]
        if id(d) in self.v:
            if rest or d.args[1] != p:
                raise No("changed later")
            n = self.v[id(d)]
            if n == "labels_idx":
                return ("labels",)
            if n == "entry":
                return ("entry", self.num(d.args[3], d), d)
            raise No(n)
        m = d.callee.split("::")[-1]
        if d.callee.startswith(VEC) and m == "vector":
            args = [a for a in d.args[1:] if not (isinstance(a, tuple) and a[:1] == ("p",) and a[1][0] == "alloca")]
            if len(args) == 0:
                return self.filled(p, d, rest)
            if len(args) == 2 and not rest:
                c = self.whole(d, args)
                if c == ("labels",):
                    return ("labvec",)
            raise No("vector")
        if d.callee.startswith(SET) and m == "set":
            if len(d.args) == 1:
                return self.filled(p, d, rest)
            if len(d.args) >= 3 and not rest:
                c = self.whole(d, d.args[1:3])
                if c[0] in ("rows?", "items"):
                    return c
                if c[0] in ("col", "column"):
                    return ("uniq", c[1])
                if c == ("labvec",) or c == ("labels",):
                    return ("labels",)
            raise No("set")
        if d.callee.startswith(MAP) and m == "map" and len(d.args) == 1:
            return self.filled(p, d, rest)
        raise No(d.callee)

    def whole(self, d, args):
        """the container whose begin() and end() are given"""
        a, b = args
        ea = [e for e in self.evs if e.kind == "call" and e.callee.split("::")[-1] in ("begin", "cbegin") and e.res == a and e.b in self.dom[d.b]]
        eb = [e for e in self.evs if e.kind == "call" and e.callee.split("::")[-1] in ("end", "cend") and e.res == b and e.b in self.dom[d.b]]
        for x in ea:
            for y in eb:
                if x.args[0] == y.args[0]:
                    return self.container(x.args[0])
        raise No("range")

    def filled(self, p, d, rest):
        """a container that starts empty and gets one element per turn of one loop"""
        if len(rest) != 1:
            raise No("filled in %d places" % len(rest))
        e = rest[0]
        ls = [L for L in loops_of(self.f, e.b) if L["header"] not in [x["header"] for x in loops_of(self.f, d.b)]]
        if len(ls) != 1:
            raise No("filled in %d loops" % len(ls))
        h = ls[0]["header"]
        self.every(h, e)
        m = e.callee.split("::")[-1]
        if m in ("push_back", "insert", "emplace", "emplace_back") and len(e.args) == 2:
            q = self.ai.as_ptr(e.args[1])
            if q is None:
                raise No("element")
            if q[1][0] == "alloca" and e.callee.startswith(VEC):
                try:
                    c = self.container(q)
                except No:
                    c = None
                if c is not None:
                    if c[0] == "map" and c[1] == X("lab", X("iv", h)) and self.bound(h) == NL:
                        return ("maps",)
                    if c[0] == "map":
                        return ("maps?", c, self.bound(h), h)
                    raise No("vector of " + c[0])
            v = self.num(self.ai.load(e.state, q, 8, "double", None), e)
            a = v.atom()
            if a and a[0] == "cell":
                back = a[1] == E - 1 - X("iv", h)
                if a[1] != X("iv", h) and not back or self.bound(h) != E:
                    return ("rows?", a, self.bound(h), h)
                return ("uniq" if not e.callee.startswith(VEC) else "column" if back else "col", a[2])
            if e.callee.startswith(VEC) and a and a[0] == "lab" and a[1] == X("iv", h) and self.bound(h) == NL:
                return ("labvec",)
            return ("items", v, self.bound(h), h)
        if m in ("emplace", "try_emplace", "insert_or_assign") and e.callee.startswith(MAP) and len(e.args) == 3:
            k, v = [self.num(self.ai.load(e.state, self.ai.as_ptr(x), 8, t, None), e) for x, t in zip(e.args[1:], ("double", "i64"))]
            k = k.atom()
            if k and k[0] == "val" and k[2] == X("iv", h) and self.bound(h) == X("CLS", k[1]):
                return ("map", k[1]) if v == X("iv", h) else ("map?", k, v, h)
        if m == "operator[]" and e.callee.startswith(MAP):
            w = [s for s in self.evs if s.kind == "store" and s.args[0] == e.res]
            if len(w) != 1:
                raise No("map entry")
            self.every(h, w[0])
            k = self.num(self.ai.load(e.state, self.ai.as_ptr(e.args[1]), 8, "double", None), e).atom()
            v = self.num(w[0].args[1], w[0])
            if k and k[0] == "val" and k[2] == X("iv", h) and self.bound(h) == X("CLS", k[1]):
                if v == X("iv", h):
                    return ("map", k[1])
                return ("map?", k, v, h)
        raise No(e.callee)

    # ----------------------------------------------------------------- loops
    def every(self, h, e):
        """e happens once in every turn of loop h"""
        L = next(L for L in self.f.loops if L["header"] == h)
        lat = [p for p in self.f.pred[h] if p in L["blocks"] and (p, h) in self.ai.out_state]
        if not all(e.b in self.dom[p] for p in lat):
            raise No("conditional")
        x = self.exit(h)
        if x not in self.dom[e.b] or loops_of(self.f, e.b)[-1]["header"] != h:
            raise No("in another place of the loop")

    def exit(self, h):
        L = next(L for L in self.f.loops if L["header"] == h)
        ex = loop_exits(self.ai, L, self.good)
        if len(ex) != 1:
            raise No("loop with %d exits" % len(ex))
        return ex[0]

    def cond(self, h):
        x = self.exit(h)
        L = next(L for L in self.f.loops if L["header"] == h)
        T = self.f.blocks[x][-1]
        if T.op != "br" or "cond" not in T.d:
            raise No("exit")
        c = self.ai.val(T.d["cond"])
        return c if T.d["succ"][0] in L["blocks"] else neg(c)

    def bound(self, h):
        """how many turns the loop makes"""
        if h not in self.bounds:
            self.bounds[h] = None
            self.bounds[h] = self.bound1(h)
        if self.bounds[h] is None:
            raise No("loop bound")
        return self.bounds[h][0]

    def over(self, h):
        """the container whose elements the loop visits"""
        self.bound(h)
        return self.bounds[h][1]

    def bound1(self, h):
        ai = self.ai
        c = self.cond(h)
        it = self.iters(c)
        if it is not None:
            x, y, want = it
            L = next(L for L in self.f.loops if L["header"] == h)
            inside = [e for e in self.evs if e.kind == "call" and x in e.args and e.b in L["blocks"] and not e.callee.split("::")[-1] in
                      ("operator*", "operator->", "operator!=", "operator==")]
            if len(inside) != 1 or inside[0].callee.split("::")[-1] != "operator++":
                raise No("iterator")
            L2 = [p for p in self.f.pred[h] if p in L["blocks"] and (p, h) in ai.out_state]
            if not all(inside[0].b in self.dom[p] for p in L2) or loops_of(self.f, inside[0].b)[-1]["header"] != h:
                raise No("iterator")
            if not want:
                raise No("iterator")
            st = [e for e in self.evs if e.kind == "store" and e.args[0] == x]
            sy = [e for e in self.evs if e.kind == "store" and e.args[0] == y]
            if len(st) != 1 or len(sy) != 1 or st[0].b in L["blocks"] or st[0].b not in self.dom[h] or sy[0].b not in self.dom[h] | {h}:
                # end() evaluated in every turn is the same
                if len(st) != 1 or len(sy) != 1 or st[0].b in L["blocks"]:
                    raise No("iterator")
            c = self.whole(st[0], [st[0].args[1], st[0].args[1]]) if False else self.pair(st[0].args[1], sy[0].args[1])
            return self.csize(c), c, x
        if isinstance(c, tuple) and c[0] in ("ult", "slt"):
            e = self.f.blocks[self.exit(h)][-1]
            a, b = self.num(c[1], h), self.num(c[2], h)
            iv = X("iv", h)
            s = a - iv
            if not any(x == ("iv", h) for x in walk(s)) and not any(x == ("iv", h) for x in walk(b)):
                return b - s, None, None
        if isinstance(c, tuple) and c[0] in ("ne", "not"):
            q = c[1] if c[0] == "ne" else c[1][1] if c[1][0] == "eq" else None
            if isinstance(q, Poly):
                iv = X("iv", h)
                q = self.num(q, h)
                for n in (q + iv, iv - q):
                    if not any(x == ("iv", h) for x in walk(n)):
                        # the counter starts below the bound, which no addition skips
                        return n, None, None
        raise No("loop bound " + show(c))

    def iters(self, c):
        """(iterator, end) compared by condition c of a loop that goes on"""
        pol = True
        if isinstance(c, tuple) and c[0] == "not":
            c, pol = c[1], False
        if isinstance(c, tuple) and c[0] == "i2b":
            a = c[1].atom() if isinstance(c[1], Poly) else c[1]
            e = self.byres.get(a)
            if e is not None and e.callee in ("std::operator!=", "std::operator=="):
                return e.args[0], e.args[1], pol == (e.callee == "std::operator!=")
        return None

    def pair(self, a, b):
        ea = [e for e in self.evs if e.kind == "call" and e.callee.split("::")[-1] in ("begin", "cbegin") and e.res == a]
        eb = [e for e in self.evs if e.kind == "call" and e.callee.split("::")[-1] in ("end", "cend") and e.res == b]
        for x in ea:
            for y in eb:
                if x.args[0] == y.args[0]:
                    return self.container(x.args[0])
        raise No("iterator")

    def csize(self, c):
        if c[0] in ("labels", "labvec", "maps"):
            return NL
        if c[0] in ("uniq", "map"):
            return X("CLS", c[1])
        if c[0] == "col":
            return E
        if c[0] == "entry":
            return FS
        raise No("size of " + c[0])

    # ---------------------------------------------------------------- values
    def num(self, t, e):
        """the number t in the words of the encoding; e: the event (or loop header) it is used at"""
        if isinstance(t, tuple) and t and t[0] not in ("p",):
            return self.atom(t, e)
        if not isinstance(t, Poly):
            raise No("value")
        r = ZERO
        for m, k in t.monos():
            x = P(k)
            for a in m:
                x = x * self.atom(a, e)
            r = r + x
        return r

    def blk(self, e):
        return e if isinstance(e, int) else e.b

    def atom(self, a, e):
        k = a[0]
        if k in ("iv", "arg", "E", "FS", "NL", "ALL", "CLS", "lab", "cell", "rank", "val", "PRE", "CNT"):
            return P(a)
        if k == "fc":
            return P(a)
        if k == "sel":
            return X("sel", self.rel(a[1], e), self.num(a[2], e), self.num(a[3], e))
        if k == "phi":
            return self.phi(a, e)
        s = self.byres.get(a)
        if s is not None and s.kind == "call":
            n = self.v.get(id(s))
            if n == "entries_amount":
                return E
            if n == "feature_size":
                return FS
            m = s.callee.split("::")[-1]
            if m == "size":
                return self.csize(self.container(s.args[0]))
        if k == "ld" and a[2] is not None:
            b, off = a[1], a[2]
            if b[0] == "vec":
                c = self.container(b[1])
                i = self.num(off, e)
                if any(x % 8 for _, x in i.monos()):
                    raise No("index")
                i = Poly({m: x // 8 for m, x in i.c})
                if c[0] == "entry":
                    return X("cell", c[1], i)
                if c[0] == "labvec":
                    return X("lab", i)
                if c[0] == "col":
                    return X("cell", i, c[1])
                raise No("element of " + c[0])
            s = self.byres.get(b)
            if s is not None and s.kind == "call" and off == ZERO:
                m = s.callee.split("::")[-1]
                if m == "operator*":
                    for L in reversed(loops_of(self.f, s.b)):
                        h = L["header"]
                        try:
                            self.bound(h)
                        except No:
                            continue
                        if self.bounds[h][2] == s.args[0]:
                            c = self.bounds[h][1]
                            if c[0] == "labels":
                                return X("lab", X("iv", h))
                            if c[0] == "uniq":
                                return X("val", c[1], X("iv", h))
                if m == "operator*":
                    st = [x for x in self.evs if x.kind == "store" and x.args[0] == s.args[0]]
                    inc = [x for x in self.evs if x.kind == "call" and s.args[0] in x.args and x.callee.split("::")[-1] in ("operator++", "operator--")]
                    if len(st) == 1 and not inc and st[0].b in self.dom[s.b]:
                        y = [x for x in self.evs if x.kind == "call" and x.callee.split("::")[-1] == "begin" and x.res == st[0].args[1]]
                        if y and self.container(y[0].args[0]) == ("labels",):
                            return X("lab", ZERO)
                if m in ("at", "operator[]") and s.callee.startswith(MAP):
                    c = self.container(s.args[0])
                    v = self.num(self.ai.load(s.state, self.ai.as_ptr(s.args[1]), 8, "double", None), s)
                    if c[0] == "map":
                        return X("rank", c[1], v)
        raise No("value " + show(a)[:80])

    def rel(self, c, e):
        if isinstance(c, tuple) and c[0] == "ne" and len(c) == 2:
            return ("no", self.rel(("eq", c[1]), e))
        if isinstance(c, tuple) and c[0] == "not":
            r = self.rel(c[1], e)
            return ("no", r)
        a = None
        if isinstance(c, tuple) and c[0] == "eq" and isinstance(c[1], Poly):
            a = c[1].atom()
        s = self.byres.get(a) if a else None
        if s is not None and s.callee == SET + "count" and self.container(s.args[0]) == ("labels",):
            v = self.num(self.ai.load(s.state, self.ai.as_ptr(s.args[1]), 8, "i64", None), s)
            return ("no", ("label", v))
        if isinstance(c, tuple) and c[0] in ("eq", "ult", "ule", "slt", "sle") and all(isinstance(x, Poly) for x in c[1:]):
            d = self.num(c[1], e) - self.num(c[2], e) if len(c) > 2 else self.num(c[1], e)
            if c[0] == "eq" and d.c and repr(-d) < repr(d):
                d = -d
            return (c[0], d)
        it = self.iters(c)
        if it is not None:
            x, y, ne = it
            # find(col) compared with end()
            vx, vy = [self.ai.load(e.state, z, 8, "ptr", None) for z in (x, y)]
            fx = [s for s in self.evs if s.kind == "call" and s.callee == SET + "find" and s.res == vx]
            fy = [s for s in self.evs if s.kind == "call" and s.callee in (SET + "end", SET + "cend") and s.res == vy]
            if len(fx) == 1 and fy and any(s.args[0] == fx[0].args[0] for s in fy) and self.container(fx[0].args[0]) == ("labels",):
                s = fx[0]
                v = self.num(self.ai.load(s.state, self.ai.as_ptr(s.args[1]), 8, "i64", None), s)
                return ("label", v) if ne else ("no", ("label", v))
        raise No("condition")

    def phi(self, a, e):
        """a value carried round a loop, or a join"""
        ai = self.ai
        h = phi_block(a)
        if a not in ai.phiinc:
            raise No("join")
        L = next((L for L in self.f.loops if L["header"] == h), None)
        if L is None:
            raise No("join")
        inc = ai.phiinc[a]
        st = {self.num(v, h) for p, v in inc if p not in L["blocks"]}
        if len(st) != 1:
            raise No("start")
        st = st.pop()
        steps, raw = [], []
        for p, v in inc:
            if p in L["blocks"]:
                if not isinstance(v, Poly):
                    raise No("step")
                o = ai.out_state.get((p, h))
                for (x,), fs in cases(ai, [v - P(a)], o.facts):
                    if any(y == a for y in walk(x)):
                        # made anew in every turn: the last one stands
                        if any(y == a for y in walk(x + P(a))):
                            raise No("recurrence")
                        x = self.num(x + P(a), p)
                        if any(y[0] in ("PRE", "CNT", "SUM") for y in walk(x) if y):
                            raise No("recurrence")
                        return X("LAST", h, st, x)
                    for y in raw:
                        if y != x and Zone(fs, ()).zero(x - y):
                            x = y
                            break
                    raw.append(x)
                    steps.append((self.num(x, p), fs, p))
        vals = {s for s, _, _ in steps}
        inside = self.blk(e) in L["blocks"]
        iv = X("iv", h)
        if len(vals) == 1:
            s = vals.pop()
            if s == X("CLS", X("lab", iv)) and self.bound(h) == NL:
                return st + (X("PRE", h) if inside else ALL)
            if not any(x == ("iv", h) for x in walk(s)):
                return st + s * (iv if inside else self.bound(h))
            return st + X("SUM", h, s)
        if vals == {ZERO, P(1)}:
            # a counter of the turns in which a condition holds
            conds = set()
            for s, fs, p in steps:
                rs = set()
                for c in fs:
                    try:
                        r = self.rel(c, self.lastev(p))
                    except No:
                        continue
                    if any(x and x[0] == "label" for x in walk(r)):
                        rs.add(r)
                if len(rs) != 1:
                    raise No("counter")
                r = rs.pop()
                if s == ZERO:
                    r = r[1] if r[0] == "no" else ("no", r)
                conds.add(r)
            if len(conds) == 1:
                return st + X("CNT", h, conds.pop())
            raise No("counter")
        common = frozenset.intersection(*[frozenset(fs) for _, fs, _ in steps])
        for _, fs, p in steps:
            for c in fs - common:
                self.rel(c, self.lastev(p))     # what the cases differ in has to be understood
        return st + X("MIX", h, tuple(sorted(vals, key=repr)))

    def lastev(self, p):
        es = [e for e in self.evs if e.b == p]
        if es:
            return es[-1]

        class S(object):
            pass
        s = S()
        s.state, s.b = self.ai.in_state[p], p
        return s

    def facts(self, e):
        out = []
        for c in e.facts:
            try:
                out.append(self.rel(c, e))
            except (No, TypeError):
                pass
        return out


ONE, DEF = "one-hot", "default"


def model(ck, m, name, arg, which):
    """the function for one encoding: what happens under the other one is left out"""
    M = Model(ck, m, name)
    if arg is None:
        return M
    z = eq(X("arg", arg), ZERO)
    no = neg(z) if which == ONE else z
    M.no = no
    M.evs = [e for e in M.evs if no not in e.facts]
    return M


def compare(ck, rule, M, e, got, want, what):
    """one equality; what the analysis cannot name leaves it undecided"""
    key = M.f.q.split("::")[-1] + " | " + what
    try:
        g = got()
    except No as x:
        ck.ob(rule, M.f.where(), None, "%s: %s" % (what, x), key)
        return False
    ok = g == want or (isinstance(want, list) and g in want)
    w = want[0] if isinstance(want, list) else want
    ck.ob(rule, e.loc() if e is not None else M.f.where(), ok, "" if ok else "%s is %s, should be %s" % (what, show(g), show(w)), key)
    return ok


def unique(ck, m):
    rule = "the values of a column are those of every entry"
    M = model(ck, m, "unique", None, None)
    compare(ck, rule, M, None, lambda: M.container(("p", ("arg", 0), ZERO)), ("uniq", X("arg", 2)), "the set returned")


def umap(ck, m):
    rule = "the index of a value is its rank among the values of the column"
    M = model(ck, m, "unique_map", None, None)
    compare(ck, rule, M, None, lambda: M.container(("p", ("arg", 0), ZERO)), ("map", X("arg", 2)), "the map returned")


def width(ck, m):
    rule = "the encoded width is the inputs plus one column per value of every label"
    for which, want in ((ONE, FS - NL + ALL), (DEF, FS)):
        M = model(ck, m, "encoding_feature_size", 1, which)
        for e in M.ai.rets():
            for (t,), fs in cases(M.ai, [e.args[0]], e.facts):
                if M.no in fs:
                    continue
                compare(ck, rule, M, e, lambda: M.num(t, e), want, "the width (%s)" % which)


def labels(ck, m):
    rule = "the encoded label columns are those behind the inputs"
    R = ("p", ("arg", 0), ZERO)
    M = model(ck, m, "encoding_labels_idx", 2, DEF)
    compare(ck, rule, M, None, lambda: M.container(R), ("labels",), "the columns (default)")
    M = model(ck, m, "encoding_labels_idx", 2, ONE)

    def got():
        c = M.container(R)
        if c[0] != "items":
            raise No(c[0])
        iv = X("iv", c[3])
        if any(x == ("iv", c[3]) for x in walk(c[1] - iv)):
            raise No("step")
        return ("columns", c[1] - iv, c[1] - iv + c[2])
    compare(ck, rule, M, None, got, ("columns", FS - NL, FS - NL + ALL), "the columns (one-hot)")


def data(ck, m):
    rule = "the encoded data holds the inputs of an entry, then the one-hot vectors of its labels"
    R = ("p", ("arg", 0), ZERO)
    for which in (ONE, DEF):
        W = FS - NL + ALL if which == ONE else FS
        M = model(ck, m, "data_to_encoding", 2, which)
        ai = M.ai
        us = M.uses(R)
        ctor = [e for e in us if e.callee == VEC + "vector"]
        if len(us) != 1 or len(ctor) != 1 or len(ctor[0].args) < 3 or not isinstance(ctor[0].args[1], Poly):
            ck.ob(rule, M.f.where(), None, "the result is built in another way (%s)" % which, "data_to_encoding")
            continue
        compare(ck, rule, M, ctor[0], lambda: M.num(ctor[0].args[1], ctor[0]), W * E, "the size of the result (%s)" % which)
        seen = set()
        for e in M.evs:
            if e.kind not in ("store", "memcpy", "memset") or ai.as_ptr(e.args[0])[1] != ("vec", R):
                if e.kind == "call" and any(isinstance(a, tuple) and len(a) == 3 and a[0] == "p" and a[1] == ("vec", R) for a in e.args):
                    ck.ob(rule, e.loc(), None, "the result is passed to " + e.callee, "data_to_encoding")
                continue
            if e.kind != "store":
                ck.ob(rule, e.loc(), None, "block copy", "data_to_encoding")
                continue
            try:
                hs = [L["header"] for L in loops_of(M.f, e.b)]
                for h in hs:
                    if M.exit(h) not in M.dom[e.b]:
                        raise No("loop form")
                bs = [M.bound(h) for h in hs]
                off = M.num(ai.as_ptr(e.args[0])[2], e)
                v = M.num(e.args[1], e)
                gs = M.facts(e)
            except No as x:
                ck.ob(rule, e.loc(), None, "%s (%s)" % (x, which), "data_to_encoding")
                continue
            if any(k % 8 for _, k in off.monos()) or not hs:
                ck.ob(rule, e.loc(), None, "place", "data_to_encoding")
                continue
            off = Poly({mm: k // 8 for mm, k in off.c})
            r = X("iv", hs[0])
            rest = off - r * W
            a = v.atom()
            lab = [g for g in gs if any(x and x[0] == "label" for x in walk(g))]
            if a and a[0] == "cell" and len(hs) == 2:
                c = X("iv", hs[1])
                free = ("no", ("label", c))
                seen.add("inputs")
                want = ((E, FS), r * W + (X("CNT", hs[1], free) if which == ONE else c), X("cell", r, c), [free] if which == ONE else [])
                got = (tuple(bs), off, v, lab)
                names = ("rows and columns visited", "the place", "the value", "the columns taken")
            elif a and a[0] == "sel" and len(hs) == 3 and which == ONE:
                l, k = X("iv", hs[1]), X("iv", hs[2])
                seen.add("labels")
                rk = X("rank", X("lab", l), X("cell", r, X("lab", l)))
                d = rk - k
                if repr(-d) < repr(d):
                    d = -d
                one, zero = X("fc", "1.00000000000000000e+00"), X("fc", "0.0e+00")
                want = ((E, NL, X("CLS", X("lab", l))), r * W + FS - NL + X("PRE", hs[1]) + k, X("sel", ("eq", d), one, zero))
                if v == X("sel", ("no", ("eq", d)), zero, one):
                    v = want[2]
                got = (tuple(bs), off, v)
                names = ("rows, labels and values visited", "the place", "the value")
            elif a and a[0] == "fc" and len(hs) == 2 and which == ONE and float(a[1]) == 1.0:
                # set in a zero-initialised result
                l = X("iv", hs[1])
                seen.add("labels")
                rk = X("rank", X("lab", l), X("cell", r, X("lab", l)))
                want = ((E, NL), r * W + FS - NL + X("PRE", hs[1]) + rk)
                got = (tuple(bs), off)
                names = ("rows and labels visited", "the place")
            else:
                ck.ob(rule, e.loc(), None, "%s stored in %d loops (%s)" % (show(v)[:60], len(hs), which), "data_to_encoding")
                continue
            for n, g, w in zip(names, got, want):
                ok = g == w
                if n == "the columns taken" and not ok and g and len(g) != len(w):
                    ok = None
                ck.ob(rule, e.loc(), ok, "" if ok else "%s: %s, should be %s (%s)" % (n, show(g) if not isinstance(g, list) else g, show(w) if not isinstance(w, list) else w, which),
                      "data_to_encoding %s %s %s" % (which, sorted(seen), n))
        if seen != ({"inputs", "labels"} if which == ONE else {"inputs"}):
            ck.ob(rule, M.f.where(), None, "parts of the result not found (%s)" % which, "data_to_encoding")


def C15(ck):
    m = ir.view("parser")
    for part in (unique, umap, width, labels, data):
        ck.part(part, m)
    return ["the member functions entry, entries_amount, feature_size and labels_idx of a dataset answer the same on every call",
            "label values are ordered by < (no NaN)"]
