"""Closed forms of the numeric kernels (DLMath): what every function computes, for every size, against its defining formula.

The closed form of a function (store statements over iteration domains, recurrences of the values carried round its loops) comes from
the abstract interpretation of its normalised IR; it is compared with the formula on a grid of sizes, element by element, as terms over
symbolic data.  Real arithmetic; rounding, overflow and NaN are not modelled."""
import itertools
from .. import ir
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres, F, fn, inv, fmax, fsel, differ
from ..terms import *
from fractions import Fraction

D, DC, U, N = "double*", "double const*", "unsigned long", "double"
S3, S2 = "EdgeLearning::DLMath::Shape3d", "EdgeLearning::DLMath::Shape2d"
VU = "std::vector<unsigned long, std::allocator<unsigned long>>"
V3 = "std::vector<EdgeLearning::DLMath::Shape3d, std::allocator<EdgeLearning::DLMath::Shape3d>>"


def A(k, i):
    return P(("in", ("arg", k), i))


def X(k):
    return P(("farg", k))


def size(**k):
    return {("arg", int(a[1:])): v for a, v in k.items()}


def vec(k, *xs):
    d = {("size", (("arg", k), 0)): len(xs)}
    r = ("vec", ("p", ("arg", k), ZERO))
    for i, x in enumerate(xs):
        d[(r, i)] = x
    return d


def shapes(k, *ss):
    """a vector of shapes"""
    d = {("size", (("arg", k), 0)): len(ss)}
    R = ("vec", ("p", ("arg", k), ZERO))
    for i, s in enumerate(ss):
        d[("size", (R, 24 * i))] = len(s)
        r = ("vec", ("p", R, P(24 * i)))
        for j, x in enumerate(s):
            d[(r, j)] = x
    return d


class Case(object):
    def __init__(self, text, params, cells=None, ret=None, limits=None, throws=False, positive=(), inplace=False):
        self.text, self.params, self.cells, self.ret, self.limits, self.throws, self.positive, self.inplace = \
            text, params, cells or {}, ret, limits or {}, throws, positive, inplace


class Spec(object):
    """a function, its parameter types, and cases(tier) -> Case..."""

    def __init__(self, name, sig, what, cases):
        self.name, self.sig, self.what, self.cases = name, tuple(sig), what, cases


_fns = {}


def find(name, sig):
    m = ir.view("kernels")
    if id(m) not in _fns:
        t = {}
        for f in m.fns.values():
            if "{lambda" in f.name:
                continue
            q, ps = strip_templates(f.name)
            if q.startswith("EdgeLearning::DLMath::"):
                t.setdefault((q[len("EdgeLearning::DLMath::"):], tuple(ps)), f)
        _fns.clear()
        _fns[id(m)] = t
    return _fns[id(m)].get((name, tuple(sig)))


_kern = {}


def kern(c, f):
    if f.key not in _kern:
        _kern[f.key] = Kern(c.absint(Absint(c.fn(f))))
    return _kern[f.key]


def run(c, spec):
    rule = "closed form: " + spec.what
    f = find(spec.name, spec.sig)
    where = "DLMath::%s(%s)" % (spec.name, ", ".join(x.split("::")[-1] for x in spec.sig))
    if f is None:
        c.ob(rule, where, None, "no such function")
        return
    where = f.where()
    try:
        k = kern(c, f)
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, where, None, str(x))
        return
    n = 0
    und = {}
    for case in spec.cases(c.tier):
        n += 1
        try:
            bad = compare(k, case)
        except Unres as x:
            und.setdefault(str(x), case.text)
            continue
        if bad:
            c.ob(rule, where, False, "%s: %s" % (case.text, bad), construct="%s|%s" % (spec.name, len(spec.sig)))
            return
    if und and len(und) and n:
        x = sorted(und.items())[0]
        c.ob(rule, where, None, "%s (%s)" % x)
    else:
        c.ob(rule, where, True, "%d size cases, every element" % n)


def compare(k, case):
    i = k.at(case.params)
    t = i.throws()
    if case.throws:
        return None if t is True else "accepted without an exception" if t is False else None
    if t is True:
        return "an exception is thrown"
    got = i.final()
    for b, cells in got.items():
        if b[0] == "arg" and b[1] not in case.cells and cells:
            return "argument %d is written" % b[1]
    pos = lambda a: a[0] == "in" and a[1][0] == "arg" and a[1][1] in case.positive or a[0] == "farg" and a[1] in case.positive
    for a, want in case.cells.items():
        have = got.get(("arg", a), {})
        for x in sorted(set(have) | set(want)):
            if x not in want:
                return "element %d of argument %d is written, which lies outside" % (x, a)
            if x not in have:
                if want[x] == A(a, x):
                    continue
                return "element %d of argument %d is not written" % (x, a)
            v = have[x]
            if not isinstance(v, Poly):
                raise Unres(str(v)[:100])
            d = differ(clamp(v), want[x], positive=pos)
            if d:
                return "element %d of argument %d is %s" % (x, a, d)
    for (b, x) in i.reads:
        if b[0] == "arg" and b[1] in case.limits and not 0 <= x < case.limits[b[1]]:
            return "element %d of argument %d is read, which lies outside" % (x, b[1])
    if case.inplace:
        x = i.overwritten(("arg", 0), ("arg", 1))
        if x is not None:
            return "element %d of argument 1 is read after element %d of argument 0 is written, which is the same when the array is its own destination" % (x, x)
    rets = [e for e in k.ai.rets() if e.b in k.good and e.args]
    if case.ret is not None:
        for e in rets:
            a = i.active(e.b, {})
            if a is False:
                continue
            if isinstance(case.ret, Poly):
                d = differ(clamp(i.result(e)), case.ret, positive=pos)
                if d:
                    return "the result is %s" % d
            else:
                q = i.ptr(e.args[0], {})
                if q[1] != case.ret or q[2] != ZERO:
                    return "the result points to %s" % show(q)[:80]
    return None


def clamp(p):
    """values kept away from zero by a tiny constant count as the values themselves"""
    if not isinstance(p, Poly):
        return p
    r = ZERO
    for mono, k in p.monos():
        x = F(k)
        for a in mono:
            x = x * catom(a)
        r = r + x
    return r


def catom(a):
    if a[0] == "max":
        xs = [clamp(x) for x in a[1:]]
        ys = [x for x in xs if not (x.const() is not None and 0 < x.const() < Fraction(1, 10 ** 6))]
        return fmax(ys if ys else xs)
    if a[0] == "fn":
        return fn(a[1], *[clamp(x) for x in a[2:]])
    if a[0] == "inv":
        return inv(clamp(a[1]))
    if a[0] == "sel":
        c = a[1]
        if c[0] in ("lt", "le") and isinstance(c[1], Poly):
            # x < eps ? eps : x
            for p in (a[2], a[3]):
                if p.const() is not None and 0 < p.const() < Fraction(1, 10 ** 6):
                    return clamp(a[3] if p is a[2] else a[2])
        return P(("sel", c, clamp(a[2]), clamp(a[3])))
    return P(a)


# ---------------------------------------------------------------- sizes
def ns(tier, lo=0):
    return range(lo, 5 if tier == "thorough" else 4)


def pairs(tier):
    m = 5 if tier == "thorough" else 4
    return itertools.product(range(m), range(m))


def total(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


# ---------------------------------------------------------------- C16 linear kernels
def elementwise(name, sig, what, f, lens, extra=None, positive=(), lo=0, limits=(), inplace=False):
    """dst[i] = f(i) for i < n"""
    kn = len(sig) - 1 if extra is None else extra

    def cases(tier):
        for n in ns(tier, lo):
            yield Case("length %d" % n, {("arg", kn): n}, {0: {i: f(i, n) for i in range(n)}}, ("arg", 0),
                       {k: n for k in lens}, positive=positive, inplace=inplace)
    return Spec(name, sig, what, cases)


def linear_specs():
    out = []
    out.append(elementwise("arr_mul", (D, DC, DC, U), "product of two arrays", lambda i, n: A(1, i) * A(2, i), (1, 2)))
    out.append(elementwise("arr_mul", (D, DC, N, U), "array times number", lambda i, n: A(1, i) * X(2), (1,)))
    out.append(elementwise("arr_sum", (D, DC, DC, U), "sum of two arrays", lambda i, n: A(1, i) + A(2, i), (1, 2)))
    out.append(elementwise("arr_sum", (D, DC, N, U), "array plus number", lambda i, n: A(1, i) + X(2), (1,)))

    def mat(tier):
        for r, q in pairs(tier):
            yield Case("%d x %d" % (r, q), size(a3=r, a4=q),
                       {0: {i: total(A(1, i * q + j) * A(2, j) for j in range(q)) for i in range(r)}}, ("arg", 0), {1: r * q, 2: q})
    for nm in ("matarr_mul", "matarr_mul_no_check"):
        out.append(Spec(nm, (D, DC, DC, U, U), "matrix times array", mat))

    def dense(tier):
        for m, n in pairs(tier):
            yield Case("%d inputs, %d outputs" % (m, n), size(a4=m, a5=n),
                       {0: {i: A(3, i) + total(A(2, i * m + j) * A(1, j) for j in range(m)) for i in range(n)}}, ("arg", 0),
                       {1: m, 2: m * n, 3: n})
    for nm in ("dense", "dense_thread_opt", "dense_simd_opt"):
        out.append(Spec(nm, (D, DC, DC, DC, U, U), "dense layer output", dense))

    def dense1(tier):
        for m, n in pairs(tier):
            yield Case("%d inputs, %d outputs" % (m, n), size(a6=m, a7=n), {
                0: {j: total(A(3, i) * A(5, i * m + j) for i in range(n)) for j in range(m)},
                1: {i * m + j: A(1, i * m + j) + A(3, i) * A(4, j) for i in range(n) for j in range(m)},
                2: {i: A(2, i) + A(3, i) for i in range(n)}}, ("arg", 0), {3: n, 4: m, 5: m * n})
    for nm in ("dense_1", "dense_1_thread_opt"):
        out.append(Spec(nm, (D, D, D, DC, DC, DC, U, U), "dense layer gradients", dense1))
    return out


# ---------------------------------------------------------------- C17 activations
def pos(x):
    return ("lt", -x)


ACT = {
    "relu": lambda x: fmax([ZERO, x]),
    "relu_1": lambda x: fsel(pos(x), ONE, ZERO),
    "tanh": lambda x: fn("tanh", x),
    "tanh_1": lambda x: ONE - fn("tanh", x) * fn("tanh", x),
    "tanh_1_opt": lambda x: ONE - x * x,
    "sigmoid": lambda x: inv(fn("exp", -x) + 1),
    "sigmoid_1": lambda x: inv(fn("exp", -x) + 1) * (ONE - inv(fn("exp", -x) + 1)),
    "sigmoid_1_opt": lambda x: x * (ONE - x),
}
ELU = {
    "elu": lambda x, a: fsel(pos(x), x, a * (fn("exp", x) - 1)),
    "elu_1": lambda x, a: fsel(pos(x), ONE, a * fn("exp", x)),
    "elu_1_opt": lambda x, a: fsel(pos(x), ONE, x + a),
}


def one(name, sig, what, ret, positive=()):
    return Spec(name, sig, what, lambda tier: [Case("one value", {}, {}, ret, positive=positive)])


def activation_specs():
    out = []
    for nm, f in ACT.items():
        out.append(one(nm, (N,), "%s of a number" % nm, f(X(0))))
        out.append(elementwise(nm, (D, DC, U), "%s of an array" % nm, lambda i, n, f=f: f(A(1, i)), (1,), inplace=True))
    for nm, f in ELU.items():
        out.append(one(nm, (N, N), "%s of a number" % nm, f(X(0), X(1))))
        out.append(elementwise(nm, (D, DC, U, N), "%s of an array" % nm, lambda i, n, f=f: f(A(1, i), X(3)), (1,), extra=2, inplace=True))
    return out


# ---------------------------------------------------------------- C18 softmax and losses
def softmax(n, k=1):
    s = inv(total(fn("exp", A(k, j)) for j in range(n)))
    return [fn("exp", A(k, i)) * s for i in range(n)]


def jvp(s, g):
    """gradient through softmax outputs s"""
    t = total(x * y for x, y in zip(s, g))
    return [x * (y - t) for x, y in zip(s, g)]


def loss_specs():
    out = []
    sm = lambda i, n: softmax(n)[i]
    for nm in ("softmax", "stable_softmax", "stable_softmax_no_check"):
        out.append(elementwise(nm, (D, DC, U), nm + " of an array", sm, (1,), lo=1))
    for nm in ("softmax_1_opt", "softmax_1_opt_no_check"):
        out.append(elementwise(nm, (D, DC, DC, U), nm + " of an array",
                               lambda i, n: jvp([A(1, j) for j in range(n)], [A(2, j) for j in range(n)])[i], (1, 2), lo=1))
    out.append(elementwise("softmax_1", (D, DC, DC, U), "softmax_1 of an array",
                           lambda i, n: jvp(softmax(n), [A(2, j) for j in range(n)])[i], (1, 2), lo=1))
    out.append(one("cross_entropy", (N, N), "cross entropy of a number", -X(0) * fn("log", X(1)), positive=(1,)))
    out.append(one("cross_entropy_1", (N, N, N), "derivative of the cross entropy", -X(0) * inv(X(1)) * X(2), positive=(1,)))
    out.append(one("squared_error", (N, N), "squared error of a number", (X(0) - X(1)) * (X(0) - X(1))))
    out.append(one("squared_error_1", (N, N, N), "derivative of the squared error", (X(1) - X(0)) * X(2) * 2))

    def reduce(f, lo):
        def cases(tier):
            for n in ns(tier, lo):
                yield Case("length %d" % n, size(a2=n), {}, f(n), {0: n, 1: n}, positive=(1,))
        return cases
    out.append(Spec("cross_entropy", (DC, DC, U), "cross entropy of arrays",
                    reduce(lambda n: -total(A(0, i) * fn("log", A(1, i)) for i in range(n)), 0)))
    out.append(Spec("mean_squared_error", (DC, DC, U), "mean squared error of arrays",
                    reduce(lambda n: total((A(0, i) - A(1, i)) * (A(0, i) - A(1, i)) for i in range(n)) * inv(F(n)), 1)))
    out.append(elementwise("cross_entropy_1", (D, DC, DC, N, U), "derivative of the cross entropy over arrays",
                           lambda i, n: -A(1, i) * inv(A(2, i)) * X(3), (1, 2), positive=(2,)))
    out.append(elementwise("mean_squared_error_1", (D, DC, DC, N, U), "derivative of the mean squared error over arrays",
                           lambda i, n: (A(2, i) - A(1, i)) * X(3) * 2, (1, 2)))

    def red1(f):
        def cases(tier):
            for n in ns(tier, 1):
                yield Case("length %d" % n, size(a1=n), {}, f(n), {0: n})
        return cases
    out.append(Spec("max", (DC, U), "largest element", red1(lambda n: fmax([A(0, i) for i in range(n)]))))
    def both(tier):
        for n in ns(tier, 1):
            # the tuple comes back through memory, position first
            yield Case("length %d" % n, size(a2=n), {0: {0: P(("amax",) + tuple(A(1, i) for i in range(n))), 1: fmax([A(1, i) for i in range(n)])}},
                       None, {1: n})
    out.append(Spec("max_and_argmax", (D, U), "largest element and its position", both))
    out.append(Spec("argmax", (DC, U), "position of the largest element",
                    red1(lambda n: P(("amax",) + tuple(A(0, i) for i in range(n))))))
    return out


# ---------------------------------------------------------------- C19 windows
def windows(tier, pad):
    """(h, w, channels, kernel h, kernel w, filters, stride h, stride w, padding h, padding w)"""
    base = [
        (1, 1, 1, 1, 1, 1, 1, 1, 0, 0), (2, 3, 1, 2, 2, 1, 1, 1, 0, 0), (3, 2, 1, 2, 1, 1, 1, 1, 0, 0), (3, 4, 1, 1, 2, 1, 2, 1, 0, 0),
        (4, 3, 1, 2, 1, 1, 1, 2, 0, 0), (2, 3, 2, 1, 2, 1, 1, 1, 0, 0), (3, 3, 2, 2, 3, 1, 1, 1, 0, 0), (4, 5, 2, 3, 2, 1, 1, 3, 0, 0),
        (5, 4, 1, 2, 3, 1, 3, 1, 0, 0), (3, 5, 3, 3, 1, 1, 1, 2, 0, 0), (4, 4, 1, 2, 2, 1, 2, 2, 0, 0), (5, 5, 1, 2, 2, 1, 2, 2, 0, 0),
    ]
    more = [
        (2, 3, 1, 2, 2, 1, 1, 1, 1, 0), (2, 3, 1, 2, 2, 1, 1, 1, 0, 1), (2, 2, 2, 2, 2, 1, 1, 1, 1, 1), (3, 2, 1, 2, 1, 1, 2, 1, 1, 0),
        (2, 3, 1, 1, 2, 1, 1, 2, 0, 2), (2, 3, 1, 1, 2, 3, 1, 1, 0, 0), (2, 2, 2, 2, 1, 2, 1, 1, 1, 0), (3, 3, 2, 2, 2, 3, 1, 2, 0, 1),
        (1, 1, 1, 3, 3, 1, 1, 1, 1, 1), (2, 2, 1, 3, 1, 2, 2, 1, 2, 1),
    ]
    out = base + (more if pad else [])
    if tier == "thorough":
        for t in itertools.product((2, 3), (2, 4), (1, 2), (1, 2), (1, 2), (1, 2) if pad else (1,), (1, 2), (1, 2), (0, 1) if pad else (0,), (0, 1) if pad else (0,)):
            out.append(t)
    return out


def out_size(n, k, s, p):
    return (n - k + 2 * p) // s + 1


def conv(src, ker, t):
    h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
    H, W = out_size(h, kh, sh, ph), out_size(w, kw, sw, pw)
    cells = {}
    for r, q, f in itertools.product(range(H), range(W), range(Fn)):
        s = ZERO
        for a, b, ch in itertools.product(range(kh), range(kw), range(C)):
            y, x = r * sh - ph + a, q * sw - pw + b
            if 0 <= y < h and 0 <= x < w:
                s = s + src((y * w + x) * C + ch) * ker(((a * kw + b) * C + ch) * Fn + f)
        cells[(r * W + q) * Fn + f] = s
    return cells


def pool(src, t, how):
    h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
    H, W = out_size(h, kh, sh, 0), out_size(w, kw, sw, 0)
    cells = {}
    for r, q, ch in itertools.product(range(H), range(W), range(C)):
        xs = [src(((r * sh + a) * w + q * sw + b) * C + ch) for a in range(kh) for b in range(kw)]
        cells[(r * W + q) * C + ch] = fmax(xs) if how == "max" else total(xs) * inv(F(len(xs)))
    return cells


def wtext(t):
    return "source %dx%dx%d, window %dx%d, filters %d, stride %dx%d, padding %dx%d" % t


def window_specs():
    out = []

    def cc(sig, shape2, nf):
        def cases(tier):
            for t in windows(tier, True):
                h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
                if shape2 and C != 1 or not nf and Fn != 1:
                    continue
                p = dict(vec(2, h, w) if shape2 else vec(2, h, w, C))
                p.update(vec(4, kh, kw))
                o = 5
                if nf:
                    p[("arg", 5)] = Fn
                    o = 6
                p.update(vec(o, sh, sw))
                p.update(vec(o + 1, ph, pw))
                yield Case(wtext(t), p, {0: conv(lambda i: A(1, i), lambda i: A(3, i), t)}, ("arg", 0), {1: h * w * C, 3: kh * kw * C * Fn})
        return Spec("cross_correlation", sig, "cross correlation", cases)
    out.append(cc((D, DC, S3, DC, S2, U, S2, S2), False, True))
    out.append(cc((D, DC, S3, DC, S2, S2, S2), False, False))
    out.append(cc((D, DC, S2, DC, S2, S2, S2), True, False))
    for how in ("max", "avg"):
        def cases(tier, how=how):
            for t in windows(tier, False):
                h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
                p = dict(vec(2, h, w, C))
                p.update(vec(3, kh, kw))
                p.update(vec(4, sh, sw))
                yield Case(wtext(t), p, {0: pool(lambda i: A(1, i), t, how)}, ("arg", 0), {1: h * w * C})
        out.append(Spec(how + "_pool", (D, DC, S3, S2, S2), how + " pooling", cases))
    return out


# ---------------------------------------------------------------- C20 joining and splitting along an axis
def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def positions(shape, axis, n, off, extent):
    """positions in a block with `extent` on the axis of the elements of a part of `n` starting at `off`: part index -> block index"""
    outer, inner = prod(shape[:axis]), prod(shape[axis + 1:])
    return {(a * n + b) * inner + x: (a * extent + off + b) * inner + x
            for a in range(outer) for b in range(n) for x in range(inner)}


def axis_cases(tier):
    hi = 3 if tier == "thorough" else 2
    for axis in range(3):
        for a, b in itertools.product(range(1, hi + 1), range(1, hi + 1)):
            for n1, n2 in ((1, 1), (1, 2), (2, 1), (2, 3)):
                s = [a, b]
                s1, s2 = list(s), list(s)
                s1.insert(axis, n1)
                s2.insert(axis, n2)
                yield axis, tuple(s1), tuple(s2)


def join_specs():
    out = []

    def cat(tier):
        for axis, s1, s2 in axis_cases(tier):
            p = dict(vec(2, *s1))
            p.update(vec(4, *s2))
            p[("arg", 5)] = axis
            e = s1[axis] + s2[axis]
            cells = {y: A(1, x) for x, y in positions(s1, axis, s1[axis], 0, e).items()}
            cells.update({y: A(3, x) for x, y in positions(s2, axis, s2[axis], s1[axis], e).items()})
            yield Case("%s and %s on axis %d" % (s1, s2, axis), p, {0: cells}, ("arg", 0), {1: prod(s1), 3: prod(s2)})
        for s1, s2, axis in (((2, 1, 1), (2, 1, 1), 3), ((2, 1, 1), (1, 1, 1), 1), ((2, 3, 1), (2, 2, 1), 0), ((2, 2, 1), (2, 2, 2), 0)):
            p = dict(vec(2, *s1))
            p.update(vec(4, *s2))
            p[("arg", 5)] = axis
            yield Case("%s and %s on axis %d" % (s1, s2, axis), p, throws=True)
    out.append(Spec("concatenate", (D, DC, S3, DC, S3, U), "concatenation of two blocks", cat))

    def sep(tier):
        for axis, s1, s2 in axis_cases(tier):
            p = dict(vec(1, *s1))
            p.update(vec(3, *s2))
            p[("arg", 5)] = axis
            e = s1[axis] + s2[axis]
            yield Case("%s and %s on axis %d" % (s1, s2, axis), p, {
                0: {x: A(4, y) for x, y in positions(s1, axis, s1[axis], 0, e).items()},
                2: {x: A(4, y) for x, y in positions(s2, axis, s2[axis], s1[axis], e).items()}}, None, {4: prod(s1) + prod(s2)})
        for s1, s2, axis in (((2, 1, 1), (2, 1, 1), 3), ((2, 1, 1), (1, 1, 1), 1), ((2, 3, 1), (2, 2, 1), 0), ((2, 2, 1), (2, 2, 2), 0)):
            p = dict(vec(1, *s1))
            p.update(vec(3, *s2))
            p[("arg", 5)] = axis
            yield Case("%s and %s on axis %d" % (s1, s2, axis), p, throws=True)
    out.append(Spec("separate", (D, S3, D, S3, DC, U), "separation into two blocks", sep))

    def multi(tier):
        for axis, s1, s2 in axis_cases(tier):
            yield axis, [s1]
            yield axis, [s1, s2]
            yield axis, [s2, s1, s2]

    def catn(tier):
        for axis, ss in multi(tier):
            p = dict(shapes(2, *ss))
            p[("arg", 3)] = axis
            e = sum(s[axis] for s in ss)
            cells, src, off = {}, 0, 0
            for s in ss:
                cells.update({y: A(1, src + x) for x, y in positions(s, axis, s[axis], off, e).items()})
                src += prod(s)
                off += s[axis]
            yield Case("%s on axis %d" % (ss, axis), p, {0: cells}, ("arg", 0), {1: src})
        for ss, axis in (([(2, 1, 1), (2, 1, 1)], 3), ([(2, 1, 1), (1, 1, 1)], 1), ([(2, 1, 1), (2, 1, 2), (2, 1, 1)], 0),
                         ([(1, 2, 1), (1, 2, 1), (1, 1, 1)], 0)):
            p = dict(shapes(2, *ss))
            p[("arg", 3)] = axis
            yield Case("%s on axis %d" % (ss, axis), p, throws=True)
    out.append(Spec("concatenate", (D, DC, V3, U), "concatenation of several blocks", catn))

    def sepn(tier):
        for axis, ss in multi(tier):
            p = dict(shapes(1, *ss))
            p[("arg", 3)] = axis
            e = sum(s[axis] for s in ss)
            cells, dst, off = {}, 0, 0
            for s in ss:
                cells.update({dst + x: A(2, y) for x, y in positions(s, axis, s[axis], off, e).items()})
                dst += prod(s)
                off += s[axis]
            yield Case("%s on axis %d" % (ss, axis), p, {0: cells}, ("arg", 0), {2: dst})
        for ss, axis in (([(2, 1, 1), (2, 1, 1)], 3), ([(2, 1, 1), (1, 1, 1)], 1), ([(2, 1, 1), (2, 1, 2), (2, 1, 1)], 0),
                         ([(1, 2, 1), (1, 2, 1), (1, 1, 1)], 0)):
            p = dict(shapes(1, *ss))
            p[("arg", 3)] = axis
            yield Case("%s on axis %d" % (ss, axis), p, throws=True)
    out.append(Spec("separate", (D, V3, DC, U), "separation into several blocks", sepn))

    def app(tier):
        for axis, s1, s2 in axis_cases(tier):
            for part, off in ((s1, 0), (s2, s1[axis])):
                dst = list(s1)
                dst[axis] = s1[axis] + s2[axis]
                yield axis, part, off, tuple(dst)

    def append(tier):
        for axis, part, off, dst in app(tier):
            p = dict(vec(1, *dst))
            p.update(size(a3=part[axis], a4=axis, a5=off))
            yield Case("part %s at %d of %s on axis %d" % (part, off, dst, axis), p,
                       {0: {y: A(2, x) for x, y in positions(part, axis, part[axis], off, dst[axis]).items()}}, ("arg", 0), {2: prod(part)})

    def extract(tier):
        for axis, part, off, src in app(tier):
            p = dict(vec(1, *part))
            p.update(size(a3=src[axis], a4=axis, a5=off))
            yield Case("part %s at %d of %s on axis %d" % (part, off, src, axis), p,
                       {0: {x: A(2, y) for x, y in positions(part, axis, part[axis], off, src[axis]).items()}}, ("arg", 0), {2: prod(src)})
    def checked(f):
        def cases(tier):
            yield from f(tier)
            for axis in (3, 4):
                p = dict(vec(1, 2, 1, 2))
                p.update(size(a3=1, a4=axis, a5=0))
                yield Case("an axis %d of 3 dimensions" % axis, p, throws=True)
        return cases
    for nm, f in (("append", append), ("append_check", checked(append))):
        out.append(Spec(nm, (D, VU, DC, U, U, U), "copying a part into a block", f))
    for nm, f in (("extract", extract), ("extract_check", checked(extract))):
        out.append(Spec(nm, (D, VU + " const&", DC, U, U, U), "copying a part out of a block", f))
    return out


ASSUME = ["real arithmetic: rounding, overflow and NaN are not modelled", "source and destination arrays of a kernel do not overlap",
          "the loops of a kernel are affine in its counters and sizes, so that two closed forms that differ differ on the grid of sizes used",
          "tasks handed to the task manager run"]


def group(c, specs, text):
    c.rule(text)
    for s in specs:
        c.part(lambda c, s=s: run(c, s))
    return ASSUME


def C16(c):
    return group(c, linear_specs(), "the closed form of every array, matrix and dense kernel equals its defining sum, element by element")


def C17(c):
    return group(c, activation_specs(), "the closed form of every activation kernel equals its formula; derivatives those of the same function")


def C18(c):
    return group(c, loss_specs(), "the closed forms of softmax, the losses, their derivatives and the extrema equal their formulas")


def C19(c):
    return group(c, window_specs(), "the closed form of every sliding window kernel equals the sum, largest or mean value over the window at stride and padding")


def C20(c):
    return group(c, join_specs(), "concatenation and separation move every element to and from its place along the axis")
