"""Helpers shared by the rules."""
from ..absint import Absint
from ..ir import AnalysisBroken
from ..terms import *

_cache = {}


def run(ck, fn, consts=None, init=None, facts=(), objs=None):
    key = (fn.mod.vname, fn.key, tuple(sorted((consts or {}).items(), key=repr)), tuple(sorted((init or {}).items(), key=repr)),
           tuple(sorted((objs or {}).items(), key=repr)),
           tuple(sorted(facts, key=repr)))
    a = _cache.get(key)
    if a is None:
        a = Absint(fn, consts=consts, init=init, facts=facts, objs=objs)
        _cache[key] = a
    if ck is not None:
        ck.absint(a)
    return a


def need(x, what):
    if x is None or x == []:
        raise AnalysisBroken("anchor not found: " + what)
    return x


def getter(ck, m, cls, name, nparams=0, **kw):
    """the terms a (non-void) getter may return"""
    fs = [f for f in m.method(cls, name, nparams)]
    need(fs, "%s::%s" % (cls, name))
    out = []
    for f in fs:
        a = run(ck, f, **kw)
        out.append([e.args[0] if e.args else None for e in a.rets()])
    return out


def getter_off(ck, m, cls, name):
    """offset of the member whose address/value a getter exposes"""
    offs = set()
    for ts in getter(ck, m, cls, name):
        for t in ts:
            if isinstance(t, tuple) and t[0] == "p" and t[1] == ("this",) and t[2].const() is not None:
                offs.add(t[2].const())
            elif isinstance(t, Poly) and t.atom() and t.atom()[0] == "ld" and t.atom()[1] == ("this",):
                offs.add(t.atom()[2].const())
    return offs.pop() if len(offs) == 1 else None


def loops_of(fn, b):
    ls = [L for L in fn.loops if b in L["blocks"]]
    return sorted(ls, key=lambda L: -len(L["blocks"]))


def normal_blocks(ai):
    """blocks from which a normal return is reachable"""
    fn = ai.fn
    good = set()
    st = [e.b for k, e in ai.exits if k == "ret"]
    while st:
        b = st.pop()
        if b in good:
            continue
        good.add(b)
        st += [p for p in fn.pred[b] if (p, b) in ai.out_state]
    return good


def loop_exits(ai, L, good=None):
    good = normal_blocks(ai) if good is None else good
    out = []
    inside = set(L["blocks"])
    for b in L["blocks"]:
        if any(s not in inside and s in good and (b, s) in ai.out_state for s in ai.fn.succ[b]):
            out.append(b)
    return out


def loop_count(ai, L):
    """(exit block, back edges taken before the single normal exit) or None"""
    ex = loop_exits(ai, L)
    if len(ex) != 1:
        return None
    for b, s in L["exiting"]:
        if b == ex[0]:
            if s[0] == "cnc":
                return None
            t = ai.scev_term(s)
            return None if t is None else (b, t)
    return None


def execs(ai, L, b):
    """how often block b runs per entry of L (None when conditional or unknown)"""
    lc = loop_count(ai, L)
    if lc is None:
        return None
    x, c = lc
    dom = ai.dom()
    latches = [p for p in ai.fn.pred[L["header"]] if p in L["blocks"] and (p, L["header"]) in ai.out_state]
    # b must run in every iteration (inner loops run at least their header)
    if not all(b in dom[p] for p in latches):
        return None
    if b in dom[x]:
        return c + 1
    return c


def iterspace(ai, b):
    """[(header, count)] for all loops around b, outermost first, or None"""
    out = []
    fn = ai.fn
    ls = loops_of(fn, b)
    for k, L in enumerate(ls):
        if k + 1 < len(ls):
            bb = ls[k + 1]["header"]
        else:
            bb = b
        n = execs(ai, L, bb)
        if n is None:
            return None
        out.append((L["header"], n))
    return out


class NotConst(Exception):
    pass


def evalp(p, env):
    r = 0
    for mono, k in P(p).monos():
        x = k
        for a in mono:
            x *= evala(a, env)
        r += x
    return r


def evala(a, env):
    if a in env:
        return env[a]
    k = a[0]
    if k in ("urem", "udiv"):
        x, y = evalp(a[1], env), evalp(a[2], env)
        if y == 0 or x < 0:
            raise NotConst(a)
        return x % y if k == "urem" else x // y
    if k in ("umin", "smin"):
        return min(evalp(x, env) for x in a[1:])
    if k in ("umax", "smax"):
        return max(evalp(x, env) for x in a[1:])
    if k == "trunc" and len(a) == 3 and isinstance(a[1], int):
        return evalp(a[2], env) % (1 << a[1])
    if k == "b2i":
        return 1 if evalb(a[1], env) else 0
    if k == "sel":
        return evalp(a[2], env) if evalb(a[1], env) else evalp(a[3], env)
    raise NotConst(a)


def evalb(t, env):
    k = t[0]
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if k == "eq":
        return evalp(t[1], env) == 0
    if k == "ne":
        return evalp(t[1], env) != 0
    if k in ("ult", "slt"):
        return evalp(t[1], env) < evalp(t[2], env)
    if k in ("ule", "sle"):
        return evalp(t[1], env) <= evalp(t[2], env)
    if k == "and":
        return evalb(t[1], env) and evalb(t[2], env)
    if k == "or":
        return evalb(t[1], env) or evalb(t[2], env)
    if k == "not":
        return not evalb(t[1], env)
    raise NotConst(t)


def points(ai, b, limit=200000):
    """environments {('iv',h): value} of the iteration space around block b;
    None when the space is not constant"""
    sp = iterspace(ai, b)
    if sp is None:
        return None
    envs = [{}]
    for h, n in sp:
        nxt = []
        for e in envs:
            try:
                c = evalp(n, e)
            except NotConst:
                return None
            if c < 0 or c > limit:
                return None
            for v in range(c):
                d = dict(e)
                d[("iv", h)] = v
                nxt.append(d)
            if len(nxt) > limit:
                return None
        envs = nxt
    return envs


def be32(origin, pos):
    return sum((P(("fbyte", origin, P(pos + k))) * (256 ** (3 - k)) for k in range(4)), ZERO)


def cells(ai, base=("this",)):
    """constant scalar cells of a region common to all normal exits"""
    out = None
    for e in ai.rets():
        d = {k: v for k, v in e.state.mem.items() if k[0] == base}
        if out is None:
            out = dict(d)
        else:
            out = {k: v for k, v in out.items() if d.get(k) == v}
    return out or {}


def reducer(eqs):
    """linear consequences of a set of equality facts: a function that
    reduces a polynomial modulo the span of the polynomials known to be 0"""
    from fractions import Fraction
    rows = []       # (pivot monomial, {mono: Fraction} with pivot 1)

    def red(d):
        for piv, r in rows:
            k = d.get(piv)
            if k:
                for mo, c in r.items():
                    v = d.get(mo, 0) - k * c
                    if v:
                        d[mo] = v
                    else:
                        d.pop(mo, None)
        return d
    for t in eqs:
        if t[0] != "eq" or len(t) != 2 or not isinstance(t[1], Poly):
            continue
        d = red({mo: Fraction(k) for mo, k in t[1].c})
        cand = [mo for mo in d if mo != ()]
        if not cand:
            continue
        piv = max(cand)
        k = d[piv]
        d = {mo: c / k for mo, c in d.items()}
        new = []
        for p2, r in rows:
            k2 = r.get(piv)
            if k2:
                r = dict(r)
                for mo, c in d.items():
                    v = r.get(mo, 0) - k2 * c
                    if v:
                        r[mo] = v
                    else:
                        r.pop(mo, None)
            new.append((p2, r))
        rows = new + [(piv, d)]

    def apply(p):
        return red({mo: Fraction(k) for mo, k in p.c})
    return apply


def implied_eq(facts, t):
    """t is among the facts or a linear consequence of the equalities"""
    if t in facts:
        return True
    return t[0] == "eq" and len(t) == 2 and not reducer(facts)(t[1])


def verdict(lit, red):
    """truth of a literal once the equalities behind `red` hold: TRUE,
    FALSE or None"""
    def c(p):
        d = red(p)
        return d.get((), 0) if all(mo == () for mo in d) else None
    k = lit[0]
    if k in ("eq", "ne") and len(lit) == 2 and isinstance(lit[1], Poly):
        v = c(lit[1])
        return None if v is None else ((v == 0) == (k == "eq"))
    if k in ("ult", "ule", "slt", "sle") and isinstance(lit[1], Poly) and isinstance(lit[2], Poly):
        v = c(lit[2] - lit[1])
        if v is None:
            return None
        return v > 0 if k in ("ult", "slt") else v >= 0
    if k == "not":
        v = verdict(lit[1], red)
        return None if v is None else not v
    if k in ("and", "or"):
        a, b = verdict(lit[1], red), verdict(lit[2], red)
        if k == "and":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    return None


def fact_true(facts, t):
    return t in facts


# ------------------------------------------------------------------ guarded case analysis
UNKNOWN = ("phi", "by", "call", "op", "unk", "unkpos", "ign", "made", "undef", "j", "ev", "fn", "xor", "and", "or")


def unknown_atoms(t):
    return [x for x in walk(t) if x and (x[0] in UNKNOWN or (x[0] == "ld" and len(x) > 4) or (x[0] == "obj" and len(x) > 2))]


def psubst(t, m):
    """subst that also replaces pointer bases"""
    return subst(t, m)


def phis(t):
    return [x for x in walk(t) if x and x[0] == "phi"]


def phi_block(atom):
    return atom[1] if isinstance(atom[1], int) else atom[2]


def cases(ai, ts, facts, depth=6):
    """split a tuple of terms on the joins and selections they mention:
    yields (terms, facts); loop-carried joins are left in place"""
    ts = tuple(ts)
    if depth > 0:
        headers = {L["header"] for L in ai.fn.loops}
        for t in ts:
            for x in phis(t):
                b = phi_block(x)
                if b in headers or x not in ai.phiinc:
                    continue
                mine = []
                for tt in list(ts) + list(facts):
                    for y in phis(tt):
                        if phi_block(y) == b and y in ai.phiinc and y not in mine:
                            mine.append(y)
                out = []
                for p in ai.fn.pred[b]:
                    o = ai.out_state.get((p, b))
                    if o is None:
                        continue
                    m = {}
                    okp = True
                    for y in mine:
                        v = dict(ai.phiinc[y]).get(p)
                        if v is None or contains(v, lambda z: z == y):
                            okp = False
                            break
                        m[y] = v
                    if not okp:
                        out = None
                        break
                    fs = frozenset(psubst(f, m) for f in facts) | o.facts
                    if ai.contradict(fs) or FALSE in fs:
                        continue
                    out += list(cases(ai, [psubst(tt, m) for tt in ts], fs, depth - 1))
                if out is not None:
                    return out
        for t in ts:
            for x in walk(t):
                if x and x[0] == "sel":
                    out = []
                    for c, v in ((x[1], x[2]), (neg(x[1]), x[3])):
                        fs = facts | frozenset(ai.edge_facts(c, True) or [FALSE])
                        if FALSE in fs or ai.contradict(fs):
                            continue
                        out += list(cases(ai, [psubst(tt, {x: v}) for tt in ts], fs, depth - 1))
                    return out
    return [(ts, facts)]


PREF = {"iv": 0, "phi": 1, "urem": 3, "ld": 2, "arg": 4}


def equalities(facts, ts):
    """substitution that solves the equalities among the facts for atoms"""
    m = {}
    for _ in range(3):
        new = False
        for f in facts:
            if f[0] != "eq" or not isinstance(f[1], Poly):
                continue
            p = psubst(f[1], m)
            best = None
            for mono, k in p.monos():
                if len(mono) == 1 and k in (1, -1):
                    rest = (P(mono[0]) * k - p) * k
                    if contains(rest, lambda z: z == mono[0]):
                        continue
                    r = PREF.get(mono[0][0], 3)
                    if rest.const() is not None and r != 0:
                        r = min(r, 2)
                    key = (r, repr(mono[0]))
                    if best is None or key < best[0]:
                        best = (key, mono[0], rest)
            if best and best[1] not in m:
                one = {best[1]: best[2]}
                m = {a: psubst(v, one) for a, v in m.items()}
                m[best[1]] = best[2]
                new = True
        if not new:
            break
    return m


def local(t, facts):
    """rewrites of single atoms justified by facts"""
    m = {}
    for x in walk(t):
        if not x:
            continue
        if x[0] == "urem" and cmp("ult", x[1], x[2]) in facts:
            m[x] = x[1]
        elif x[0] == "udiv" and cmp("ult", x[1], x[2]) in facts:
            m[x] = ZERO
        elif x[0] == "b2i":
            if x[1] in facts:
                m[x] = ONE
            elif neg(x[1]) in facts:
                m[x] = ZERO
    return m


def simp(t, facts):
    """rewrite a term with what is known"""
    for _ in range(4):
        m = local(t, facts)
        eqs = equalities(facts, [t])
        m.update({a: v for a, v in eqs.items() if a not in m})
        if not m:
            return t
        t2 = psubst(t, m)
        if t2 == t:
            return t
        t = t2
    return t


# difference bounds: atoms x, y and the greatest known c with x - y <= c
class Zone(object):
    def __init__(self, facts, extra=()):
        self.d = {}
        self.ne = []
        for f in list(facts) + list(extra):
            if f[0] in ("ult", "ule", "slt", "sle") and isinstance(f[1], Poly) and isinstance(f[2], Poly):
                self.add(f[1] - f[2], -1 if f[0].endswith("lt") else 0)
            elif f[0] == "eq" and isinstance(f[1], Poly):
                self.add(f[1], 0)
                self.add(-f[1], 0)
            elif f[0] == "ne" and isinstance(f[1], Poly):
                self.ne.append(f[1])
        self.close()
        for p in self.ne:
            for q in (p, -p):
                v = self.split(q)
                if v is None:
                    continue
                x, y, c = v
                # x - y + c != 0 and x - y + c <= 0  =>  <= -1
                if self.d.get((x, y), INF) == -c:
                    self.d[(x, y)] = -c - 1
        self.close()

    def split(self, p):
        """p as x - y + c, with missing x or y the zero atom"""
        x = y = 0
        c = 0
        for mono, k in p.monos():
            if not mono:
                c = k
            elif len(mono) == 1 and k == 1 and x == 0:
                x = mono[0]
            elif len(mono) == 1 and k == -1 and y == 0:
                y = mono[0]
            else:
                return None
        return x, y, c

    def add(self, p, b):
        v = self.split(p)
        if v is None:
            return
        x, y, c = v
        self.d[(x, y)] = min(self.d.get((x, y), INF), b - c)

    def close(self):
        ns = {0}
        for x, y in self.d:
            ns |= {x, y}
        # sizes and counters are not negative
        for n in ns:
            if n != 0:
                self.d[(0, n)] = min(self.d.get((0, n), INF), 0)
        ns = list(ns)
        for k in ns:
            for i in ns:
                a = self.d.get((i, k), INF)
                if a == INF:
                    continue
                for j in ns:
                    b = self.d.get((k, j), INF)
                    if a + b < self.d.get((i, j), INF):
                        self.d[(i, j)] = a + b

    def le0(self, p):
        """is p <= 0 certain"""
        v = self.split(p)
        if v is None:
            return False
        x, y, c = v
        if x == y:
            return c <= 0
        return self.d.get((x, y), INF) + c <= 0

    def zero(self, p):
        return self.le0(p) and self.le0(-p)


INF = float("inf")


def teq(ai, g, w, facts, zone):
    """certainly equal under the facts?"""
    if g == w:
        return True
    if isinstance(g, Poly) and isinstance(w, Poly):
        d = g - w
        if zone.zero(d):
            return True
        ga, wa = g.atom(), w.atom()
        if ga and wa and ga[0] == wa[0] and len(ga) == len(wa) and ga[0] in STRUCT:
            return all(teq(ai, x, y, facts, zone) if isinstance(x, (tuple, Poly)) else x == y for x, y in zip(ga[1:], wa[1:]))
        if ga and ga[0] == "nl" and teq(ai, ga[4], ZERO, facts, zone):
            return teq(ai, ga[2], w, facts, zone)
        if wa and wa[0] == "nl" and teq(ai, wa[4], ZERO, facts, zone):
            return teq(ai, g, wa[2], facts, zone)
        return False
    if isinstance(g, tuple) and isinstance(w, tuple) and g and w and g[0] == w[0] and len(g) == len(w):
        return all(teq(ai, x, y, facts, zone) if isinstance(x, (tuple, Poly)) else x == y for x, y in zip(g[1:], w[1:]))
    return False


STRUCT = ("nl", "fbyte", "ld", "parsed", "size", "pure", "after", "sx8", "trunc", "b2i")


def ivsplit(ai, ts, facts, live=()):
    """alternatives for the iteration counters of finished loops: the exit test
    failed for the first time, so the counter is zero or exactly the bound"""
    for t in ts:
        for x in walk(t):
            if x and x[0] == "iv" and x[1] not in live:
                for f in facts:
                    if f[0] in ("ule", "ult", "sle", "slt") and isinstance(f[1], Poly) and isinstance(f[2], Poly):
                        A, B = f[2] - P(x), f[1]
                        if contains(A, lambda z: z == x) or contains(B, lambda z: z == x):
                            continue
                        # B <= A + iv   (or <)
                        n = B - A + (1 if f[0].endswith("lt") else 0)
                        return x, [(ZERO, frozenset([cmp(f[0][0] + "le", n, ZERO)]) if False else frozenset([cmp(f[0], B, A)])),
                                   (n, frozenset([cmp(f[0][0] + "lt", A, B + (1 if f[0].endswith("lt") else 0))]))]
    return None


def same(ai, got, want, facts=frozenset(), why=None, outside=True, at=None):
    """True / False / None: does `got` equal `want` wherever control reaches?
    outside: the terms are observed after every loop they mention, except
    for the loops around block `at`"""
    live = {L["header"] for L in loops_of(ai.fn, at)} if at is not None else ()
    if got == want:
        return True
    res = True
    for (g, w), fs in cases(ai, (got, want), frozenset(facts)):
        alts = [((g, w), fs)]
        if outside:
            for _ in range(3):
                nxt = []
                for (g0, w0), f0 in alts:
                    sp = ivsplit(ai, (g0, w0), f0, live)
                    if sp is None:
                        nxt.append(((g0, w0), f0))
                        continue
                    x, opts = sp
                    for v, extra in opts:
                        m = {x: v}
                        f1 = frozenset(psubst(f, m) for f in f0) | extra
                        if FALSE in f1 or ai.contradict(f1):
                            continue
                        nxt.append(((psubst(g0, m), psubst(w0, m)), f1 - {TRUE}))
                alts = nxt
        for (g0, w0), f0 in alts:
            z = Zone(f0)
            if any(z.d.get((x, x), 0) < 0 for x, _ in list(z.d)):
                continue
            m = local(("t", g0, w0), f0)
            m.update({a: v for a, v in equalities(f0, ()).items() if a not in m})
            g1, w1 = psubst(g0, m), psubst(w0, m)
            if g1 == w1 or teq(ai, g1, w1, f0, Zone(frozenset(psubst(f, m) for f in f0) | f0)):
                continue
            ug = [x for x in unknown_atoms(g1) if x not in unknown_atoms(w1)]
            if ug:
                if res is True:
                    res = None
                continue
            if murky(g1, w1, f0):
                if res is True:
                    res = None
                continue
            if why is not None:
                why.append(show(g1))
            res = False
    return res


def murky(g, w, facts):
    """a relation between the numbers compared that is stated in terms of unresolved values"""
    leaves = {x for x in walk(("t", g, w)) if x and x[0] in ("iv", "ld", "arg", "size")}
    for f in facts:
        if f[0] in ("ult", "ule", "slt", "sle", "eq", "ne") and unknown_atoms(f):
            if any(x in leaves for x in walk(f) if x):
                return True
    return False


# ------------------------------------------------------------------ sequences
class Unknown(Exception):
    pass


SIGNED = {"char": True, "signed char": True, "unsigned char": False, "int": True, "long": True, "unsigned long": False,
          "unsigned int": False, "short": True, "unsigned short": False}
SZ = {"char": 1, "signed char": 1, "unsigned char": 1, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "short": 2,
      "unsigned short": 2, "double": 8, "float": 4, "bool": 1, "unsigned long long": 8, "long long": 8}
LT = {1: "i8", 2: "i16", 4: "i32", 8: "i64"}


def vec_type(e):
    from ..absint import first_targ
    return first_targ(e.full)


def conv(term, src, dst):
    if src == dst:
        return term
    if dst in ("double", "float") and src in SIGNED:
        return ("sitofp" if SIGNED[src] else "uitofp", P(term), dst)
    raise Unknown("conversion %s to %s" % (src, dst))


def lorder(ai):
    """linear order of the live blocks in which every loop is contiguous"""
    o = getattr(ai, "_lorder", None)
    if o is not None:
        return o
    fn = ai.fn
    depth = {}
    for L in fn.loops:
        for b in L["blocks"]:
            depth[b] = depth.get(b, 0) + 1
    post, seen = [], {0}
    st = [(0, None)]
    def succs(b):
        ss = [s for s in dict.fromkeys(fn.succ[b]) if (b, s) in ai.out_state]
        return sorted(ss, key=lambda s: depth.get(s, 0))
    st = [(0, iter(succs(0)))]
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(s))))
                break
        else:
            post.append(b)
            st.pop()
    post.reverse()
    ai._lorder = {b: i for i, b in enumerate(post)}
    return ai._lorder


def ev_key(ai, e):
    idx = lorder(ai)
    k = []
    for L in loops_of(ai.fn, e.b):
        k.append((idx[L["header"]], -1))
        k.append(("iv", L["header"]))
    k.append((idx[e.b], e.ins.j))
    return k


def ev_points(ai, e, doms):
    """[(key, env)] in execution order; unconditional events only"""
    ps = points(ai, e.b)
    if ps is None:
        raise Unknown("iteration space of %s" % e)
    top = loops_of(ai.fn, e.b)
    anchor = top[0]["header"] if top else e.b
    if not all(anchor in doms[r.b] for r in ai.rets()):
        raise Unknown("conditional %s" % e)
    pat = ev_key(ai, e)
    out = []
    for env in ps:
        out.append((tuple((env[x], 0) if x[0] == "iv" else x for x in pat), env))
    return out


def cst(ai, p, env):
    v = subst(P(p), {k: P(x) for k, x in env.items()}).const()
    if v is None:
        raise Unknown("not constant: %s" % show(p))
    return v


def at(t, env):
    return subst(t, {k: P(x) for k, x in env.items()})


def elem_load(ai, st, ptr, ty):
    n = SZ.get(ty)
    if n is None:
        raise Unknown("element type " + str(ty))
    return ai.load(st, ptr, n, ty if ty in ("double", "float") else LT[n], None)


def region(ai, st, first, last, ty, before, env):
    """element terms of [first, last)"""
    if first[1] != last[1]:
        raise Unknown("range over two objects")
    n = SZ[ty] if ty in SZ else None
    if n is None:
        raise Unknown("element type " + str(ty))
    a, b = cst(ai, first[2], env), cst(ai, last[2], env)
    if first[1][0] == "vec":
        try:
            whole = sequence(ai, first[1][1], before)
        except Unknown:
            whole = None
        if whole is not None:
            return whole[a // n:b // n]
    return [elem_load(ai, st, ("p", first[1], P(o)), ty) for o in range(a, b, n)]


def sequence(ai, vec, before=None):
    """the element terms a vector holds at the (normal) end of the function, or
    just before an event; raises Unknown when it is not determined"""
    good = normal_blocks(ai)
    doms = ai.dom()
    idx = lorder(ai)
    base = ("vec", vec)
    evs = []
    for e in ai.events:
        if e.b not in good or e.b not in idx:
            continue
        if before is not None and (idx[e.b], e.ins.j) >= (idx[before.b], before.ins.j):
            continue
        if e.kind == "call" and e.args and e.args[0] == vec and e.callee.startswith("std::vector::"):
            m = e.callee.split("::")[-1]
            if m in ("size", "begin", "end", "data", "empty", "reserve", "capacity", "operator[]", "at", "~vector", "cbegin", "cend",
                     "front", "back", "shrink_to_fit", "max_size"):
                continue
            evs.append((m, e))
        elif e.kind == "call" and vec in e.args and not e.callee.startswith("std::vector::"):
            if e.callee.startswith("std::allocator") or e.callee.startswith("std::__new_alloc"):
                continue
            raise Unknown("passed to " + e.callee)
        elif e.kind in ("store", "memcpy", "memset") and isinstance(e.args[0], tuple) and e.args[0][1] == base:
            evs.append((e.kind, e))
        elif e.kind == "call" and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "p" and x[1] == base for x in e.args) and \
                not e.callee.startswith("std::vector::"):
            if e.callee == "std::istream::read":
                evs.append(("read", e))
            else:
                raise Unknown("written by " + e.callee)
    ops = []
    for m, e in evs:
        for key, env in ev_points(ai, e, doms):
            ops.append((key, m, e, env))
    ops.sort(key=lambda o: o[0])
    cur = None
    ty = None
    for key, m, e, env in ops:
        st = e.state
        if e.kind == "call" and m != "read":
            ty = vec_type(e)
        if m == "vector":
            params = ir_params(e)
            a = e.args
            if len(a) == 1 or (len(a) == 2 and params and params[0].startswith("std::allocator")):
                cur = []
            elif params and params[0] == "unsigned long":
                n = cst(ai, a[1], env)
                if len(params) > 1 and not params[1].startswith("std::allocator"):
                    v = elem_load(ai, st, a[2], ty)
                else:
                    v = ("fc", 0.0) if ty in ("double", "float") else ZERO
                cur = [v] * n
            elif params and params[0].startswith("std::vector"):
                cur = list(content_of(ai, e, a[1], ty))
            elif params and params[0].startswith("std::initializer_list"):
                n = cst(ai, a[2], env)
                cur = [elem_load(ai, st, ("p", a[1][1], a[1][2] + k * SZ[ty]), ty) for k in range(n)]
            elif len(a) >= 3 and isinstance(a[1], tuple) and isinstance(a[2], tuple):
                src = iter_type(params[0], ty)
                cur = [conv(x, src, ty) for x in region(ai, st, a[1], a[2], src, e, env)]
            else:
                raise Unknown(e.full)
        elif m in ("push_back", "emplace_back"):
            if cur is None:
                raise Unknown("initial content")
            v = e.args[1]
            if isinstance(v, tuple) and v[0] == "p":
                src = ty
                if m == "emplace_back":
                    src = ir_params(e)[0].replace("const", "").replace("&", "").strip()
                v = conv(elem_load(ai, st, v, src), src, ty)
            cur.append(at(v, env))
        elif m == "resize":
            n = cst(ai, e.args[1], env)
            z = ("fc", 0.0) if ty in ("double", "float") else ZERO
            cur = (cur or [])[:n] + [z] * max(0, n - len(cur or []))
        elif m == "clear":
            cur = []
        elif m == "insert":
            if cur is None:
                raise Unknown("initial content")
            pos = cst(ai, e.args[1][2], env) // SZ[ty] if e.args[1][1] == base and e.args[1][2].const() is not None else None
            if pos is None:
                # insertion at end()
                if any(x.callee in ("std::vector::end", "std::vector::cend") and x.res == e.args[1] for x in ai.events if x.kind == "call"):
                    pos = len(cur)
            if pos is None:
                raise Unknown("insert position")
            params = ir_params(e)
            if len(e.args) >= 4:
                src = iter_type(params[1], ty)
                new = [conv(x, src, ty) for x in region(ai, st, e.args[2], e.args[3], src, e, env)]
            else:
                v = e.args[2]
                new = [elem_load(ai, st, v, ty) if isinstance(v, tuple) and v[0] == "p" else v]
            cur = cur[:pos] + [at(x, env) for x in new] + cur[pos:]
        elif m == "assign" or m == "operator=":
            if m == "operator=":
                cur = list(content_of(ai, e, e.args[1], ty))
            else:
                raise Unknown("assign")
        elif m == "store":
            if cur is None:
                raise Unknown("initial content")
            sz = e.args[2].const()
            o = cst(ai, e.args[0][2], env)
            if o % sz or not 0 <= o // sz < len(cur):
                raise Unknown("store outside")
            cur = list(cur)
            cur[o // sz] = at(e.args[1], env)
        elif m == "memcpy":
            n = cst(ai, e.args[2], env)
            es = SZ.get(ty or "unsigned char", 1)
            o = cst(ai, e.args[0][2], env)
            if cur is None:
                raise Unknown("initial content")
            src = e.args[1]
            s0 = at(src[2], env)
            new = region(ai, st, ("p", src[1], s0), ("p", src[1], s0 + n), ty, e, env)
            cur = cur[:o // es] + new + cur[o // es + len(new):]
        elif m == "read":
            n = cst(ai, e.args[2], env)
            v = ai_strm0(ai, e)
            if v is None or cur is None:
                raise Unknown("read")
            o = cst(ai, e.args[1][2], env)
            cur = cur[:o] + [P(("fbyte", v[1], v[2] + k)) for k in range(n)] + cur[o + n:]
        else:
            raise Unknown(e.callee)
    if cur is None:
        raise Unknown("never constructed")
    return cur


def ai_strm0(ai, e):
    v = e.state.obj.get(ai.okey(e.args[0]))
    if isinstance(v, tuple) and v and v[0] == "strm":
        return v
    v = ai.oget(e.state, e.args[0])
    return ("strm", v, P(("pos", v)), (), ("start",))


def ir_params(e):
    from ..ir import strip_templates
    return strip_templates(e.full)[1]


def iter_type(ptxt, dflt):
    """element type behind an iterator parameter such as __normal_iterator<unsigned char const*, ...>"""
    t = ptxt
    if "__normal_iterator<" in t:
        t = t.split("__normal_iterator<", 1)[1]
        t = t.split("*")[0]
    elif t.endswith("*"):
        t = t.rstrip("*")
    else:
        raise Unknown("iterator " + ptxt)
    return t.replace("const", "").strip()


def content_of(ai, e, src, ty):
    """elements of the vector at src just before event e"""
    try:
        return sequence(ai, src, e)
    except Unknown:
        pass
    from ..absint import vec_size
    n = vec_size(ai, e.state, src).const()
    if n is None:
        raise Unknown("length of source")
    return [elem_load(ai, e.state, ("p", ("vec", src), P(k * SZ[ty])), ty) for k in range(n)]


# ------------------------------------------------------------------ text
def lit(ai, p):
    if isinstance(p, tuple) and p[0] == "p" and p[1][0] == "glob" and p[2].const() is not None:
        b = ai.mod.string(p[1][1])
        if b is not None:
            return [P(c) for c in b[p[2].const():].split(b"\0")[0]]
    return None


def textval(ai, v):
    """characters of an abstract string value"""
    if isinstance(v, tuple) and v[:1] == ("str",):
        return [P(ord(c)) for c in v[1]]
    return None


def text(ai, s, before=None):
    """the character terms a string holds at the normal end of the function"""
    good = normal_blocks(ai)
    doms = ai.dom()
    idx = lorder(ai)
    evs = []
    for e in ai.events:
        if e.kind not in ("call",) or e.b not in good or e.b not in idx or s not in e.args:
            continue
        if before is not None and (idx[e.b], e.ins.j) >= (idx[before.b], before.ins.j):
            continue
        if e.args[0] != s or not e.callee.startswith("std::basic_string::"):
            raise Unknown("passed to " + e.callee)
        m = e.callee.split("::")[-1]
        if m in ("size", "length", "reserve", "~basic_string", "c_str", "data", "empty", "capacity", "shrink_to_fit"):
            continue
        evs.append((m, e))
    ops = []
    for m, e in evs:
        for key, env in ev_points(ai, e, doms):
            ops.append((key, m, e, env))
    ops.sort(key=lambda o: o[0])
    cur = None
    for key, m, e, env in ops:
        ps = ir_params(e)
        a = e.args

        def arg(k):
            p0 = ps[k - 1] if len(ps) >= k else ""
            if p0 == "char":
                return [at(a[k], env)]
            if p0.startswith("char const*"):
                x = lit(ai, a[k])
                if x is None:
                    raise Unknown("text")
                return x
            if p0.startswith("std::basic_string") or p0.startswith("std::__cxx11"):
                x = textval(ai, ai.oget(e.state, a[k]))
                if x is None:
                    x = text(ai, a[k], e)
                return x
            raise Unknown(e.full)
        if m == "basic_string":
            if len(a) == 1 or ps[0].startswith("std::allocator"):
                cur = []
            elif ps[0] == "unsigned long" and ps[1] == "char":
                cur = [at(a[2], env)] * cst(ai, a[1], env)
            else:
                cur = arg(1)
        elif m in ("operator+=", "push_back", "append"):
            if cur is None:
                raise Unknown("initial text")
            if m == "append" and ps[:2] == ["unsigned long", "char"]:
                cur += [at(a[2], env)] * cst(ai, a[1], env)
            elif m == "append" and len(ps) > 1:
                raise Unknown("append")
            else:
                cur += arg(1)
        elif m == "clear":
            cur = []
        elif m == "operator=":
            cur = list(arg(1))
        else:
            raise Unknown(e.callee)
    if cur is None:
        raise Unknown("never constructed")
    return cur


# ------------------------------------------------------------------ floating terms
def fconst(t):
    if isinstance(t, tuple) and t[0] == "fc":
        return float(t[1])
    if isinstance(t, tuple) and t[0] in ("sitofp", "uitofp"):
        c = P(t[1]).const()
        return None if c is None else float(c)
    return None


def frange(ai, t):
    """interval of a floating term (real arithmetic, outward by a few ulps)"""
    if isinstance(t, Poly):
        return ai.range(t)
    k = t[0]
    if k == "fc":
        return float(t[1]), float(t[1])
    if k in ("sitofp", "uitofp"):
        return irange(ai, P(t[1]))
    if k in ("fpext", "fptrunc"):
        return frange(ai, t[1])
    if k == "fneg":
        r = frange(ai, t[1])
        return (-r[1], -r[0]) if r else None
    if k in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = frange(ai, t[1]), frange(ai, t[2])
        if not x or not y:
            return None
        if k == "fadd":
            r = (x[0] + y[0], x[1] + y[1])
        elif k == "fsub":
            r = (x[0] - y[1], x[1] - y[0])
        elif k == "fmul":
            c = [a * b for a in x for b in y]
            r = (min(c), max(c))
        else:
            if y[0] <= 0 <= y[1]:
                return None
            c = [a / b for a in x for b in y]
            r = (min(c), max(c))
        return r
    return None


def irange(ai, p):
    """integer interval, looking through float-to-integer conversions"""
    lo = hi = 0
    for mono, k in p.monos():
        l = h = 1
        for a in mono:
            if a[0] in ("fptoui", "fptosi"):
                r = frange(ai, a[1])
                r = (int(r[0]), int(r[1])) if r else None
            elif a[0] == "trunc" or a[0] == "sx8":
                r = irange(ai, P(a[-1]))
                w = a[1] if a[0] == "trunc" else 8
                if r is None or not (0 <= r[0] and r[1] < 1 << (w - (0 if a[0] == "trunc" and w == 8 else 1))):
                    r = None
            elif a[0] == "udiv" and a[2].const():
                r = irange(ai, a[1])
                r = (r[0] // a[2].const(), r[1] // a[2].const()) if r and r[0] >= 0 else None
            elif a[0] in ("umin", "smin"):
                rs = [irange(ai, x) for x in a[1:]]
                his = [x[1] for x in rs if x]
                los = [x[0] for x in rs]  if all(rs) else None
                r = (min(x[0] for x in rs) if all(rs) else 0, min(his)) if his else None
            else:
                r = ai.arange(a)
            if r is None:
                return None
            c = [x * y for x in (l, h) for y in r]
            l, h = min(c), max(c)
        lo += min(k * l, k * h)
        hi += max(k * l, k * h)
    return lo, hi


def flinear(t):
    """{term: coefficient} of a floating linear combination, or None"""
    if isinstance(t, tuple) and t[0] == "fc":
        return {None: float(t[1])}
    if isinstance(t, tuple) and t[0] in ("sitofp", "uitofp", "fpext", "fptrunc"):
        if t[0] in ("fpext", "fptrunc"):
            return flinear(t[1])
        p = P(t[1])
        out = {}
        for mono, k in p.monos():
            if len(mono) > 1:
                return {t[1]: 1.0}
            out[P(mono[0]) if mono else None] = float(k)
        return out
    if isinstance(t, tuple) and t[0] in ("fadd", "fsub"):
        x, y = flinear(t[1]), flinear(t[2])
        if x is None or y is None:
            return None
        r = dict(x)
        for k, v in y.items():
            r[k] = r.get(k, 0.0) + (v if t[0] == "fadd" else -v)
        return r
    if isinstance(t, tuple) and t[0] in ("fmul", "fdiv"):
        x, y = flinear(t[1]), flinear(t[2])
        if x is None or y is None:
            return None
        if set(y) == {None}:
            f = y[None] if t[0] == "fmul" else 1 / y[None]
            return {k: v * f for k, v in x.items()}
        if t[0] == "fmul" and set(x) == {None}:
            return {k: v * x[None] for k, v in y.items()}
        return None
    return {t: 1.0}


# ------------------------------------------------------------------ decision walks
def evalc(t, atom):
    """truth value of a condition given the truth of its atoms"""
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    v = atom(t)
    if v is not None:
        return v
    k = t[0] if isinstance(t, tuple) and t else None
    if k == "not":
        return not evalc(t[1], atom)
    if k == "and":
        return evalc(t[1], atom) and evalc(t[2], atom)
    if k == "or":
        return evalc(t[1], atom) or evalc(t[2], atom)
    if k == "xor":
        return evalc(t[1], atom) != evalc(t[2], atom)
    if k == "sel":
        return evalc(t[2] if evalc(t[1], atom) else t[3], atom)
    if k in ("ne",):
        return not evalc(("eq",) + t[1:], atom)
    if k in ("eq", "ult", "ule", "slt", "sle"):
        ps = [simp_sel(x, atom) if isinstance(x, Poly) else x for x in t[1:]]
        u = (k,) + tuple(ps)
        if k == "eq" and ps[0].const() is not None:
            return ps[0].const() == 0
        if k != "eq" and all(isinstance(p, Poly) and p.const() is not None for p in ps):
            a, b = ps[0].const(), ps[1].const()
            return a < b if k.endswith("lt") else a <= b
        if u != t:
            return evalc(u, atom)
    if k == "i2b":
        p = simp_sel(t[1], atom)
        if p.const() is not None:
            return p.const() & 1 == 1
        if ("i2b", p) != t:
            return evalc(("i2b", p), atom)
    raise Unknown("condition " + show(t))


def simp_sel(p, atom):
    """resolve selections and truth values inside an integer term"""
    for _ in range(8):
        m = {}
        for x in walk(p):
            if x and x[0] == "sel" and x not in m:
                try:
                    m[x] = P(x[2]) if evalc(x[1], atom) else P(x[3])
                except Unknown:
                    pass
            elif x and x[0] == "b2i" and x not in m:
                try:
                    m[x] = ONE if evalc(x[1], atom) else ZERO
                except Unknown:
                    pass
        if not m:
            return p
        q = psubst(p, m)
        if q == p:
            return p
        p = q
    return p


def follow(ai, atom, start=0, stop=None, limit=5000, env=None, pred=None):
    """the one path through the function that the given truth values select:
    (last block, environment of joined values); calls take their normal edge"""
    fn = ai.fn
    env = dict(env or {})
    b = start
    headers = {L["header"] for L in fn.loops}
    byblock = getattr(ai, "_phib", None)
    if byblock is None:
        byblock = ai._phib = {}
        for x in ai.phiinc:
            byblock.setdefault(phi_block(x), []).append(x)
    for _ in range(limit):
        if stop is not None and stop(b, env):
            return b, env
        T = fn.blocks[b][-1]
        if T.op in ("ret", "unreachable", "resume"):
            return b, env
        if T.op == "br" and "cond" in T.d:
            c = psubst(ai.val(T.d["cond"]), env)
            s = T.d["succ"][0 if evalc(c, atom) else 1]
        elif T.op == "br":
            s = T.d["succ"][0]
        elif T.op == "invoke":
            s = T.d["succ"][0]
        elif T.op == "switch":
            v = simp_sel(psubst(ai.as_poly(ai.val(T.d["cond"])), env), atom)
            if v.const() is None:
                raise Unknown("switch on " + show(v))
            s = T.d["default"]
            for k, x in T.d["cases"]:
                if k == v.const():
                    s = x
        else:
            raise Unknown(T.op)
        if (b, s) not in ai.out_state:
            raise Unknown("edge %d-%d" % (b, s))
        upd = {}
        for x in byblock.get(s, ()):
            v = dict(ai.phiinc[x]).get(b)
            if v is not None:
                upd[x] = psubst(v, env)
        env.update({x: v for x, v in upd.items()})
        b = s
    raise Unknown("no end")
