"""Canonical terms used by the abstract interpreter.

Integer terms are polynomials (class Poly) with integer coefficients over
interned atoms; pointers are ('p', base, Poly offset-in-bytes); booleans and
floating-point terms are tuples.  Canonical forms make two ways of writing the
same computation compare equal.
"""

from fractions import Fraction

_atoms = []
_ids = {}
_udivs = set()


def _aid(t):
    i = _ids.get(t)
    if i is None:
        i = len(_atoms)
        _ids[t] = i
        _atoms.append(t)
        if t[0] == "udiv":
            _udivs.add(i)
    return i


class Poly:
    __slots__ = ("c", "_h")

    def __init__(self, d):
        self.c = tuple(sorted((m, k) for m, k in d.items() if k != 0))
        self._h = hash(self.c)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.c == o.c

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        o = P(o)
        d = dict(self.c)
        for m, k in o.c:
            d[m] = d.get(m, 0) + k
        return Poly(d)

    def __neg__(self):
        return Poly({m: -k for m, k in self.c})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        d = {}
        for m, k in self.c:
            for n, j in o.c:
                x = tuple(sorted(m + n))
                d[x] = d.get(x, 0) + k * j
        if _udivs and any(i in _udivs for x in d for i in x):
            return _fold(d)
        return Poly(d)

    __radd__ = __add__
    __rmul__ = __mul__

    def const(self):
        """integer value or None"""
        if not self.c:
            return 0
        if len(self.c) == 1 and self.c[0][0] == ():
            return self.c[0][1]
        return None

    def atom(self):
        """the atom if the polynomial is exactly one atom, else None"""
        if len(self.c) == 1 and len(self.c[0][0]) == 1 and self.c[0][1] == 1:
            return _atoms[self.c[0][0][0]]
        return None

    def atoms(self):
        s = []
        for m, _ in self.c:
            for a in m:
                if _atoms[a] not in s:
                    s.append(_atoms[a])
        return s

    def monos(self):
        return [([_atoms[a] for a in m], k) for m, k in self.c]

    def __repr__(self):
        if not self.c:
            return "0"
        out = []
        for m, k in self.c:
            f = "*".join(show(_atoms[a]) for a in m)
            if not f:
                out.append(str(k))
            elif k == 1:
                out.append(f)
            else:
                out.append("%s*%s" % (k, f))
        return " + ".join(out)


def _fold(d):
    """b * (a div b)  ->  a - a mod b"""
    r = ZERO
    out = {}
    for x, k in d.items():
        for i in x:
            if i not in _udivs:
                continue
            _, a, b = _atoms[i]
            rest = list(x)
            rest.remove(i)
            if len(b.c) != 1:
                continue
            bm, bk = b.c[0]
            if k % bk:
                continue
            try:
                for y in bm:
                    rest.remove(y)
            except ValueError:
                continue
            r = r + Poly({tuple(rest): k // bk}) * (a - urem(a, b))
            break
        else:
            out[x] = k
    return Poly(out) + r


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, Fraction)):
        return Poly({(): x})
    return Poly({(_aid(x),): 1})


ZERO = P(0)
ONE = P(1)
TRUE = ("true",)
FALSE = ("false",)


def show(t):
    if isinstance(t, Poly):
        return repr(t)
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "p":
            o = repr(t[2])
            return show(t[1]) + ("" if o == "0" else "+(" + o + ")")
        if not t:
            return "()"
        if len(t) == 1:
            return str(t[0])
        return str(t[0]) + "(" + ", ".join(show(x) for x in t[1:]) + ")"
    return str(t)


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == "not":
        return t[1]
    if t[0] == "eq":
        return ("ne",) + t[1:]
    if t[0] == "ne":
        return ("eq",) + t[1:]
    if t[0] == "ult":
        return ("ule", t[2], t[1])
    if t[0] == "ule":
        return ("ult", t[2], t[1])
    if t[0] == "slt":
        return ("sle", t[2], t[1])
    if t[0] == "sle":
        return ("slt", t[2], t[1])
    return ("not", t)


def _sgn(p):
    # canonical sign for an equality polynomial
    lead = [k for m, k in p.c if m != ()]
    if lead and lead[0] < 0:
        return -p
    return p


def eq(a, b):
    """a == b for integer or pointer terms"""
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = a - b
        c = d.const()
        if c is not None:
            return TRUE if c == 0 else FALSE
        return ("eq", _sgn(d))
    if a == b:
        return TRUE
    x, y = sorted((a, b), key=repr)
    if is_null(x) or is_null(y):
        o = y if is_null(x) else x
        if isinstance(o, tuple) and o[0] == "p" and o[1][0] in ("alloca", "arg", "glob", "this"):
            return FALSE
        return ("null", o)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "p" and b[0] == "p" and a[1] == b[1]:
        return eq(a[2], b[2])
    return ("peq", x, y)


NULL = ("p", ("null",), ZERO)


def is_null(t):
    return t == NULL


def cmp(pred, a, b):
    if pred == "eq":
        return eq(a, b)
    if pred == "ne":
        return neg(eq(a, b))
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "p" and b[0] == "p" and a[1] == b[1]:
            a, b = a[2], b[2]
        else:
            return ("icmp", pred, a, b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        r = {"ult": ca < cb, "ule": ca <= cb, "ugt": ca > cb, "uge": ca >= cb,
             "slt": ca < cb, "sle": ca <= cb, "sgt": ca > cb, "sge": ca >= cb}[pred]
        return TRUE if r else FALSE
    s = pred[0]
    p = pred[1:]
    if p == "gt":
        a, b, p = b, a, "lt"
    elif p == "ge":
        a, b, p = b, a, "le"
    # x <= c  ->  x < c+1 ; c <= x -> c-1 < x
    if p == "le" and b.const() is not None and b.const() >= 0:
        b, p = b + 1, "lt"
    elif p == "le" and a.const() is not None and a.const() >= 1:
        a, p = a - 1, "lt"
    if s == "u" and p == "lt" and b.const() == 1:
        return eq(a, ZERO)
    if s == "u" and p == "lt" and a.const() == 0:
        return neg(eq(b, ZERO))
    return (s + p, a, b)


def subst(t, m):
    """substitute atoms/terms according to dict m (bottom-up, refolding)"""
    if isinstance(t, Poly):
        r = ZERO
        for mono, k in t.c:
            x = P(k)
            for a in mono:
                x = x * P(subst_atom(_atoms[a], m))
            r = r + x
        return r
    if isinstance(t, tuple):
        return subst_atom(t, m)
    return t


def subst_atom(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    a = [t[0]] + [subst(x, m) if isinstance(x, (Poly, tuple)) else x for x in t[1:]]
    if k == "eq" and len(a) == 2:
        return eq(a[1], ZERO)
    if k == "ne" and len(a) == 2:
        return neg(eq(a[1], ZERO))
    if k in ("ult", "ule", "slt", "sle"):
        return cmp(k, a[1], a[2])
    if k == "not":
        return neg(a[1])
    if k == "sel":
        return sel(a[1], a[2], a[3])
    if k == "and":
        return land(a[1], a[2])
    if k == "or":
        return lor(a[1], a[2])
    if k == "b2i":
        return b2i(a[1])
    if k == "peq":
        return eq(a[1], a[2])
    if k == "null":
        return eq(a[1], NULL)
    if k == "urem":
        return urem(a[1], a[2])
    if k == "udiv":
        return udiv(a[1], a[2])
    if k == "p":
        if isinstance(a[1], tuple) and a[1] and a[1][0] == "p":
            return ("p", a[1][1], a[1][2] + P(a[2]))
    return tuple(a)


def sel(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return neg(c)
    if b == FALSE:
        return land(c, a)
    if a == TRUE:
        return lor(c, b)
    if c[0] in ("ne", "not"):
        c, a, b = neg(c), b, a
    return ("sel", c, a, b)


def land(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def lor(a, b):
    if a == TRUE or b == TRUE:
        return TRUE
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    return ("or", a, b)


def b2i(t):
    if t == TRUE:
        return ONE
    if t == FALSE:
        return ZERO
    if isinstance(t, tuple) and t[0] == "i2b":
        return t[1]
    return P(("b2i", t))


def urem(a, b):
    ca, cb = a.const(), b.const()
    if cb and ca is not None and ca >= 0 and cb > 0:
        return P(ca % cb)
    if cb == 1:
        return ZERO
    if cb and cb > 0:
        # drop multiples of the modulus
        d = {m: k for m, k in a.c if k % cb != 0 or m == ()}
        if () in d:
            d[()] = d[()] % cb if d[()] >= 0 else d[()]
        a = Poly(d)
        if a.const() is not None and a.const() >= 0:
            return P(a.const() % cb)
    return P(("urem", a, b))


def udiv(a, b):
    ca, cb = a.const(), b.const()
    if cb and ca is not None and ca >= 0 and cb > 0:
        return P(ca // cb)
    if cb == 1:
        return a
    if cb and all(k % cb == 0 for _, k in a.c):
        return Poly({m: k // cb for m, k in a.c})
    return P(("udiv", a, b))


def contains(t, pred):
    if isinstance(t, Poly):
        return any(contains(a, pred) for a in t.atoms())
    if isinstance(t, tuple):
        if t and pred(t):
            return True
        return any(contains(x, pred) for x in t if isinstance(x, (tuple, Poly)))
    return False


def walk(t):
    if isinstance(t, Poly):
        for a in t.atoms():
            yield from walk(a)
    elif isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, (tuple, Poly)):
                yield from walk(x)
