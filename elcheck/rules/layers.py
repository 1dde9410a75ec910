"""The layers of a network: what forward, training_forward and backward compute from the members and arguments, for every shape.

The closed form of a method (kernel.py) over the normalised IR of the whole dnn library is compared with the defining formula of the
layer on a grid of shapes, element by element, over symbolic data.  The state of a layer object is bound by member name: the offsets
come from the debug information of the class."""
import itertools
from .. import ir
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres, F, fn, inv, fmax, fsel, differ as kdiffer
from ..terms import *
from .kernels import Case, clamp, total, softmax, jvp, windows, conv, pool, wtext, out_size, prod, ns, pairs, pos, ACT, ELU
from fractions import Fraction

THIS = ("this",)
E = "EdgeLearning::"
VD = "std::vector<double, std::allocator<double>> const&"

_t = {}


def module():
    m = ir.view("dnn") if "m" not in _t else _t["m"]
    if "m" not in _t:
        _t["m"] = m
        t = {}
        for f in m.fns.values():
            if "{lambda" in f.name or "::$_" in f.name:
                continue
            q, ps = strip_templates(f.name)
            t.setdefault(q, []).append((tuple(ps), f))
        _t["fns"] = t
    return m


def method(cls, name):
    """the functions Class::name, those of the nearest base class that has one"""
    m = module()
    seen = [cls]
    for c in seen:
        r = _t["fns"].get(E + c + "::" + name)
        if r:
            return r
        for k, t in m.types.items():
            if k == E + c:
                for b in t.get("bases", []):
                    n = b[0] if isinstance(b, (list, tuple)) else b
                    seen.append(n[len(E):] if n.startswith(E) else n)
    return []


def members(cls):
    """{member: (offset, type)} with those of the base classes"""
    m = module()
    t = m.types.get(E + cls)
    if t is None:
        raise Unres("no class " + cls)
    out = {}
    for b in t.get("bases", []):
        n = b[0] if isinstance(b, (list, tuple)) else b
        o = b[1] if isinstance(b, (list, tuple)) and len(b) > 1 else 0
        if n.startswith(E):
            for k, (x, y) in members(n[len(E):]).items():
                out[k] = (x + o, y)
    for x in t["members"]:
        out[x[0]] = (x[1], x[2])
    return out


def S(name):
    return P(("sym", name))


class State(object):
    """the numbers and sizes of one layer object"""

    def __init__(self, cls):
        self.cls, self.mem = cls, members(cls)
        self.p, self.inputs, self.names = {}, {}, {}
        self.ignore = ()       # places of no interest

    def off(self, m):
        if m not in self.mem:
            raise Unres("no member %s of %s" % (m, self.cls))
        return self.mem[m][0]

    def data(self, m):
        """the region of the elements of a member"""
        if "SharedParams" in self.mem[m][1]:
            r = ("vec", ("p", ("shared", THIS, self.off(m)), ZERO))
        elif self.mem[m][1].endswith("*"):
            r = ("member", m)
        else:
            r = ("vec", ("p", THIS, P(self.off(m))))
        self.names[r] = m
        return r

    def elem(self, m, i):
        return P(("in", self.data(m), i))

    def vec(self, m, n, value=None):
        o = self.off(m)
        k = (("shared", THIS, o), 0) if "SharedParams" in self.mem[m][1] else (THIS, o)
        self.p[("size", k)] = n
        r = self.data(m)
        if value is not None:
            self.inputs[r] = value
        return self

    def num(self, m, v):
        self.p[(THIS, self.off(m) // 8)] = v
        return self

    def get(self, m):
        return P(("in", THIS, self.off(m) // 8))

    def pointer(self, m):
        self.p[("ld", THIS, P(self.off(m)), 8)] = ("P", self.data(m), ZERO)
        return self

    def shape(self, m, *xs):
        self.p[("size", (THIS, self.off(m)))] = len(xs)
        r = ("vec", ("p", THIS, P(self.off(m))))
        for i, x in enumerate(xs):
            self.p[(r, i)] = x
        return self

    def fields(self, inp, out):
        fm = members("Layer::Fields")
        R = ("shared", THIS, self.off("_shared_fields"))
        for nm, s in (("input", inp), ("output", out)):
            o = fm["_%s_shape" % nm][0]
            self.p[("size", (R, o))] = 1
            e = ("vec", ("p", R, P(o)))
            self.p[("size", (e, 0))] = 3
            r = ("vec", ("p", e, ZERO))
            for i, x in enumerate(s):
                self.p[(r, i)] = x
            if "_%s_size" % nm in fm:
                self.p[(R, fm["_%s_size" % nm][0] // 8)] = prod(s)
        return self

    def arg(self, k, n):
        self.p[("size", (("arg", k), 0))] = n
        self.names[("vec", ("p", ("arg", k), ZERO))] = "the argument"
        return self


def AV(k, i):
    """element i of the vector passed as argument k"""
    return P(("in", ("vec", ("p", ("arg", k), ZERO)), i))


def slots(cls):
    """{offset in the virtual table: method name}"""
    m = module()
    out = {}
    for i, r in enumerate((m.vtable(E + cls) or [])[2:]):
        if r and r.get("ref"):
            n = m.dem.get(r["ref"]) if isinstance(m.dem, dict) else m.dem(r["ref"])
            if n:
                out[8 * i] = strip_templates(n)[0].split("::")[-1]
    return out


SHAPE3 = "EdgeLearning::DLMath::Shape3d"


def layer_shape(i, e, env, key):
    """LayerShape::LayerShape: of a vector of shapes, of one shape, of a number"""
    ps = strip_templates(e.full)[1]
    v = i.vplace(e.args[0], env)
    if not ps:
        return i.vset(v, key, [])
    if ps[0] == "unsigned long":
        x = [i.ev(e.args[1], env), ONE, ONE]
    else:
        w = i.vplace(e.args[1], env)
        if ps[0].startswith(("std::vector", "EdgeLearning::LayerShape")):
            return i.vcopy(v, w, key, SHAPE3)
        x = i.vget(w, key)
    i.vsz.setdefault(v, []).append((key, 1))
    i.vset((i.vdata(v), 0), key, x)


def make_shared(i, e, env, key):
    """std::make_shared<Layer::Fields>(name, input shape, output shape), std::make_shared<Params>()"""
    b, o = i.vplace(e.args[0], env)
    R = ("shared", b, o)
    if "make_shared<std::vector<double" in e.full:
        if len(e.args) == 1:
            return i.vset((R, 0), key, [])
        if len(e.args) == 2 and "unsigned long" in e.full:
            return i.vset((R, 0), key, [ZERO] * i.int(i.arg_value(e.args[1], env, key)))
        raise Unres(e.full[:80])
    if "Layer::Fields" not in e.full or len(e.args) != 4:
        return
    for k, nm in ((2, "_input"), (3, "_output")):
        v = (R, members("Layer::Fields")[nm + "_shape"][0])
        w = i.vplace(e.args[k], env)
        i.vcopy(v, w, key, SHAPE3)
        x = i.vget((i.vdata(w), 0), key)
        n = ONE
        for y in x:
            n = n * y
        i.write(R, members("Layer::Fields")[nm + "_size"][0] // 8, key, True, n)


EFFECTS = {"EdgeLearning::LayerShape::LayerShape": layer_shape, "std::make_shared": make_shared}
_kern = {}


def kern(c, f, calls=None):
    if f.key not in _kern:
        _kern[f.key] = Kern(c.absint(Absint(c.fn(f))), calls, EFFECTS)
    return _kern[f.key]


def run(c, rule, cls, name, cases, params=None, calls=None):
    """cases: (text, State, want {region: {element: value}}, returned place or value or None, positive symbols, throws)"""
    fs = method(cls, name)
    if params is not None:
        fs = [x for x in fs if (params(x[0]) if callable(params) else x[0] == tuple(params))]
    where = "%s::%s" % (cls, name)
    if len(fs) != 1:
        c.ob(rule, where, None, "%d such functions" % len(fs))
        return
    f = fs[0][1]
    where = f.where()
    try:
        k = kern(c, f, calls)
        n, und = 0, {}
        for case in cases:
            n += 1
            try:
                bad = compare(k, *case)
            except Unres as x:
                und.setdefault(str(x), case[0])
                continue
            if bad:
                c.ob(rule, where, False, "%s: %s" % (case[0], bad), construct="%s::%s" % (cls, name))
                return
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, where, None, str(x))
        return
    if und or not n:
        c.ob(rule, where, None, "%s (%s)" % sorted(und.items())[0] if und else "no case")
    else:
        c.ob(rule, where, True, "%d cases, every element" % n)


def persistent(b):
    """is region b part of the object or the arguments, not a local?"""
    while True:
        if b[0] in ("this", "arg", "member"):
            return True
        if b[0] in ("vec", "ld"):
            b = b[1][1] if b[1][0] == "p" else b[1]
        elif b[0] == "shared":
            b = b[1]
        else:
            return False


def compare(k, text, st, want, ret=None, positive=(), throws=False, keep=None, sizes=None):
    i = k.at(st.p, None, st.inputs)
    t = i.throws()
    if throws:
        return None if t is True else "accepted without an exception" if t is False else None
    if t is True:
        return "an exception is thrown"
    got = i.final()
    special = positive != "distinct"
    if not special:
        positive = ()
    differ = lambda g, w, positive=(): kdiffer(g, w, positive=positive, special=special)
    posf = lambda a: a[0] == "sym" and a[1] in positive or a[0] == "in" and (a[1] in positive or a[1:] in positive)
    for b in sorted(set(got) | set(want), key=repr):
        if b not in want and b not in st.names:
            continue
        have, w = got.get(b, {}), want.get(b, {})
        nm = st.names.get(b, "the object")
        for x in sorted(set(have) | set(w)):
            if (b, x) in st.ignore or x in w and w[x] is None:
                continue
            mine = P(("in", b, x))
            v = have.get(x)
            if v is None:
                f = st.inputs.get(b)
                v = st.p.get((b, x))
                v = v if v is not None else f(x) if f else None
                v = v if v is not None else mine
                if isinstance(w[x], tuple):
                    return "element %d of %s is not written" % (x, nm)
                v = v if isinstance(v, Poly) else F(v)
                if w[x] == v:
                    continue
                d = differ(v, w[x], positive=posf)
                if d:
                    return "element %d of %s is not written" % (x, nm)
                continue
            if not isinstance(v, Poly):
                if b not in want or x not in w:
                    continue
                if v[:1] == ("P",) and isinstance(w[x], tuple):
                    if (v[1], v[2]) == (w[x][1], w[x][2]):
                        continue
                    return "element %d of %s refers to %s + %s" % (x, nm, show(v[1])[:60], show(v[2])[:20])
                raise Unres(str(v)[:100])
            if isinstance(w.get(x), tuple):
                raise Unres("a number where a pointer belongs")
            if x not in w:
                if b not in st.names:
                    continue
                f = st.inputs.get(b)
                f = f(x) if f else None
                if f is None and isinstance(st.p.get((b, x)), (int, Poly)):
                    f = F(st.p[(b, x)])
                d = differ(clamp(v), f if f is not None else mine, positive=posf)
                if d:
                    return "element %d of %s is written: %s" % (x, nm, d)
                continue
            d = differ(clamp(v), w[x], positive=posf)
            if d:
                return "element %d of %s is %s" % (x, nm, d)
    for v, n in (sizes or {}).items():
        m = i.vsize(v, None)
        if m != n:
            return "%s holds %d elements instead of %d" % (st.names.get(("vec", ("p", v[0], P(v[1]))), "a vector"), m, n)
    if keep:
        for b, x in i.reads:
            if b in keep and not 0 <= x < keep[b]:
                return "element %d of %s is read, which lies outside" % (x, st.names.get(b, "the argument"))
    if ret is not None:
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            if i.active(e.b, {}) is False:
                continue
            if isinstance(ret, Poly):
                d = differ(clamp(i.result(e)), ret, positive=posf)
                if d:
                    return "the result is %s" % d
            else:
                q = i.ptr(e.args[0], {})
                if (q[1], i.int(q[2])) != ret:
                    return "the result refers to %s + %s" % (show(q[1])[:60], show(q[2])[:20])
    return None


# ---------------------------------------------------------------- forward
def fl(n):
    return (n, 1, 1)


def layer(cls, n, m=None, inp=None, out=None):
    """a feedforward layer of n inputs and m outputs"""
    m = n if m is None else m
    st = State(cls)
    st.fields(inp or fl(n), out or fl(m))
    st.vec("_output_activations", m).vec("_input_gradients", n)
    return st


def buf(st, m):
    return (THIS, st.off(m))


def act_f(f):
    def cases(tier, cls, extra=None):
        for n in ns(tier):
            st = layer(cls, n).arg(1, n)
            if extra:
                extra(st)
            o = st.data("_output_activations")
            yield ("%d neurons" % n, st, {o: {i: f([AV(1, j) for j in range(n)])[i] for i in range(n)}}, buf(st, "_output_activations"), (), False,
                   {("vec", ("p", ("arg", 1), ZERO)): n})
    return cases


def each(f):
    return lambda xs: [f(x) for x in xs]


def sm(xs):
    s = inv(total(fn("exp", x) for x in xs))
    return [fn("exp", x) * s for x in xs]


ALPHA = S("alpha")
ACTIVATIONS = {
    "ReluLayer": each(ACT["relu"]), "TanhLayer": each(ACT["tanh"]), "SigmoidLayer": each(ACT["sigmoid"]),
    "EluLayer": each(lambda x: ELU["elu"](x, ALPHA)), "SoftmaxLayer": sm, "LinearLayer": each(lambda x: x),
}
DERIVATIVES = {
    "ReluLayer": each(ACT["relu_1"]), "TanhLayer": each(ACT["tanh_1"]), "SigmoidLayer": each(ACT["sigmoid_1"]),
    "EluLayer": each(lambda x: ELU["elu_1"](x, ALPHA)), "LinearLayer": each(lambda x: ONE),
}


def alpha(st):
    if "_alpha" in st.mem:
        st.num("_alpha", ALPHA)


def forward_layers(c):
    rule = "forward of a layer"
    for cls, f in ACTIVATIONS.items():
        c.part(lambda c: run(c, rule, cls, "forward", act_f(f)(c.tier, cls, alpha)))

    def dense(tier):
        for m, n in pairs(tier):
            st = layer("DenseLayer", m, n).arg(1, m)
            st.vec("_weights", m * n).vec("_biases", n).vec("_weight_gradients", m * n).vec("_bias_gradients", n)
            W, B = (lambda i: st.elem("_weights", i)), (lambda i: st.elem("_biases", i))
            for x in ("_weight_gradients", "_bias_gradients"):
                st.data(x)
            yield ("%d inputs, %d outputs" % (m, n), st,
                   {st.data("_output_activations"): {i: B(i) + total(W(i * m + j) * AV(1, j) for j in range(m)) for i in range(n)}},
                   buf(st, "_output_activations"), (), False, {("vec", ("p", ("arg", 1), ZERO)): m})
    c.part(lambda c: run(c, rule, "DenseLayer", "forward", dense(c.tier)))

    def convf(tier):
        for t in windows(tier, True):
            st = conv_state(t).arg(1, t[0] * t[1] * t[2])
            cells = conv(lambda i: AV(1, i), lambda i: st.elem("_weights", i), t)
            cells = {x: v + st.elem("_biases", x % t[5]) for x, v in cells.items()}
            yield (wtext(t), st, {st.data("_output_activations"): cells}, buf(st, "_output_activations"))
    c.part(lambda c: run(c, rule, "ConvolutionalLayer", "forward", convf(c.tier)))
    for cls, how in (("MaxPoolingLayer", "max"), ("AveragePoolingLayer", "avg")):
        def poolf(tier):
            for t in windows(tier, False):
                st = pool_state(cls, t).arg(1, t[0] * t[1] * t[2])
                yield (wtext(t), st, {st.data("_output_activations"): pool(lambda i: AV(1, i), t, how)}, buf(st, "_output_activations"))
        c.part(lambda c: run(c, rule, cls, "forward", poolf(c.tier)))


def pool_state(cls, t):
    h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
    H, W = out_size(h, kh, sh, 0), out_size(w, kw, sw, 0)
    st = layer(cls, h * w * C, H * W * C, (h, w, C), (H, W, C))
    return st.shape("_kernel_shape", kh, kw).shape("_stride", sh, sw)


def conv_state(t):
    h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
    H, W = out_size(h, kh, sh, ph), out_size(w, kw, sw, pw)
    st = layer("ConvolutionalLayer", h * w * C, H * W * Fn, (h, w, C), (H, W, Fn))
    st.shape("_kernel_shape", kh, kw).shape("_stride", sh, sw).shape("_padding", ph, pw).num("_n_filters", Fn)
    n = kh * kw * C * Fn
    return st.vec("_weights", n).vec("_biases", Fn).vec("_weight_gradients", n).vec("_bias_gradients", Fn)


# ---------------------------------------------------------------- backward
def back(st, m):
    """the gradient of the inputs is returned, gradients come in as the argument"""
    return buf(st, "_input_gradients")


def backward_layers(c):
    rule = "backward of a layer"
    for cls, d in DERIVATIVES.items():
        def cases(tier):
            for n in ns(tier):
                st = layer(cls, n).arg(1, n).pointer("_last_input")
                alpha(st)
                xs = [st.elem("_last_input", i) for i in range(n)]
                ys = ACTIVATIONS[cls](xs)
                st.vec("_output_activations", n, lambda i: ys[i] if 0 <= i < n else None)
                yield ("%d neurons" % n, st, {st.data("_input_gradients"): {i: x * AV(1, i) for i, x in enumerate(d(xs))}}, back(st, n), ("alpha",))
        c.part(lambda c: run(c, rule, cls, "backward", cases(c.tier)))

    def soft(tier):
        for n in ns(tier, 1):
            st = layer("SoftmaxLayer", n).arg(1, n).pointer("_last_input")
            ys = sm([st.elem("_last_input", i) for i in range(n)])
            st.vec("_output_activations", n, lambda i: ys[i] if 0 <= i < n else None)
            g = jvp(ys, [AV(1, i) for i in range(n)])
            yield ("%d neurons" % n, st, {st.data("_input_gradients"): dict(enumerate(g))}, back(st, n))
    c.part(lambda c: run(c, rule, "SoftmaxLayer", "backward", soft(c.tier)))

    def dense(tier):
        for m, n in pairs(tier):
            st = layer("DenseLayer", m, n).arg(1, n).pointer("_last_input")
            st.vec("_weights", m * n).vec("_biases", n).vec("_weight_gradients", m * n).vec("_bias_gradients", n)
            W, B, X = (lambda i: st.elem("_weights", i)), (lambda i: st.elem("_biases", i)), (lambda i: st.elem("_last_input", i))
            B(0)
            yield ("%d inputs, %d outputs" % (m, n), st, {
                st.data("_input_gradients"): {j: total(AV(1, i) * W(i * m + j) for i in range(n)) for j in range(m)},
                st.data("_weight_gradients"): {i * m + j: st.elem("_weight_gradients", i * m + j) + AV(1, i) * X(j) for i in range(n) for j in range(m)},
                st.data("_bias_gradients"): {i: st.elem("_bias_gradients", i) + AV(1, i) for i in range(n)}}, back(st, n))
    c.part(lambda c: run(c, rule, "DenseLayer", "backward", dense(c.tier)))

    def convb(tier):
        for t in windows(tier, True):
            h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
            H, W_ = out_size(h, kh, sh, ph), out_size(w, kw, sw, pw)
            st = conv_state(t).arg(1, H * W_ * Fn).pointer("_last_input")
            gi = {i: ZERO for i in range(h * w * C)}
            gw = {i: st.elem("_weight_gradients", i) for i in range(kh * kw * C * Fn)}
            gb = {i: st.elem("_bias_gradients", i) for i in range(Fn)}
            for r, q, f in itertools.product(range(H), range(W_), range(Fn)):
                g = AV(1, (r * W_ + q) * Fn + f)
                gb[f] = gb[f] + g
                for a, b, ch in itertools.product(range(kh), range(kw), range(C)):
                    y, x = r * sh - ph + a, q * sw - pw + b
                    if 0 <= y < h and 0 <= x < w:
                        s, k = (y * w + x) * C + ch, ((a * kw + b) * C + ch) * Fn + f
                        gi[s] = gi[s] + g * st.elem("_weights", k)
                        gw[k] = gw[k] + g * st.elem("_last_input", s)
            yield (wtext(t), st, {st.data("_input_gradients"): gi, st.data("_weight_gradients"): gw, st.data("_bias_gradients"): gb}, back(st, 0))
    c.part(lambda c: run(c, rule, "ConvolutionalLayer", "backward", convb(c.tier)))

    def avg(tier):
        for t in windows(tier, False):
            h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
            H, W_ = out_size(h, kh, sh, 0), out_size(w, kw, sw, 0)
            st = pool_state("AveragePoolingLayer", t).arg(1, H * W_ * C).pointer("_last_input")
            gi = {i: ZERO for i in range(h * w * C)}
            for r, q, ch, a, b in itertools.product(range(H), range(W_), range(C), range(kh), range(kw)):
                s = ((r * sh + a) * w + q * sw + b) * C + ch
                gi[s] = gi[s] + AV(1, (r * W_ + q) * C + ch) * inv(F(kh * kw))
            yield (wtext(t), st, {st.data("_input_gradients"): gi}, back(st, 0))
    c.part(lambda c: run(c, rule, "AveragePoolingLayer", "backward", avg(c.tier)))


    def mx(tier):
        for t in windows(tier, False):
            h, w, C, kh, kw, Fn, sh, sw, ph, pw = t
            if kh * kw > 6 or h * w * C > 20:
                continue
            H, W_ = out_size(h, kh, sh, 0), out_size(w, kw, sw, 0)
            st = pool_state("MaxPoolingLayer", t).arg(1, H * W_ * C).pointer("_last_input")
            gi = {i: ZERO for i in range(h * w * C)}
            X = lambda i: st.elem("_last_input", i)
            for r, q, ch in itertools.product(range(H), range(W_), range(C)):
                win = [((r * sh + a) * w + q * sw + b) * C + ch for a in range(kh) for b in range(kw)]
                for s in win:
                    k = AV(1, (r * W_ + q) * C + ch)
                    for o in win:
                        if o != s:
                            k = k * fsel(("lt", X(o) - X(s)), ONE, ZERO)
                    gi[s] = gi[s] + k
            yield (wtext(t), st, {st.data("_input_gradients"): gi}, back(st, 0), "distinct")
    c.part(lambda c: run(c, rule, "MaxPoolingLayer", "backward", mx(c.tier)))


ASSUME = ["real arithmetic: rounding, overflow and NaN are not modelled", "the buffers of a layer and its arguments do not overlap",
          "tasks handed to the task manager run"]


# ---------------------------------------------------------------- dropout, the base class
RANDOM = "std::mersenne_twister_engine::operator()"


def draw(i, e, env):
    """the next raw number of the generator, given by the case in the order of the outermost loop"""
    xs = i.params[("random",)]
    hs = sorted((i.k.idx[h], t) for h, t in env.items())
    return F(xs[hs[0][1] if hs else 0] * 2 ** 64)


def masks(tier):
    pats = {1: [(0,), (1,)], 2: [(1, 0), (0, 0)], 3: [(1, 1, 0), (0, 1, 1)], 4: [(0, 1, 1, 0), (1, 1, 1, 1)]}
    for n in ns(tier):
        if n in pats:
            for q in pats[n]:
                yield n, q


def drop_state(n, p, mask):
    st = layer("DropoutLayer", n).arg(1, n)
    st.num("_drop_probability", F(p)).num("_scale", F(1 if p == 1 else 1 / (1 - p)))
    return st


def dropout(c):
    rule = "forward of a layer"

    def plain(tier):
        for n in ns(tier):
            st = drop_state(n, Fraction(1, 4), ())
            yield "%d neurons" % n, st, {}, (("arg", 1), 0)
    c.part(lambda c: run(c, rule, "DropoutLayer", "forward", plain(c.tier)))

    def train(tier):
        for p in (Fraction(1, 4), Fraction(3, 4), Fraction(1), Fraction(1, 8)):
            for n, q in masks(tier):
                if p == 1 and any(q):
                    continue
                st = drop_state(n, p, q)
                mask = ("vec", ("p", THIS, P(st.off("_zero_mask_idxs"))))
                st.names[mask] = "_zero_mask_idxs"
                st.p[("size", (THIS, st.off("_zero_mask_idxs")))] = 2
                st.p[(mask, 0)], st.p[(mask, 1)] = 0, n
                st.data("_output_activations")
                st.names[THIS] = "the object"

                st.p[("random",)] = [((p + Fraction(1, 16) * (1 + j % 2)) if k else (p * Fraction(j % 2 + 2, 4))) for j, k in enumerate(q)] + [Fraction(1, 2)] * 4
                kept = [j for j, k in enumerate(q) if k]
                drop = [j for j, k in enumerate(q) if not k]
                sc = F(1 if p == 1 else 1 / (1 - p))
                want = {st.data("_output_activations"): {j: AV(1, j) * sc if j in kept else ZERO for j in range(n)},
                        mask: {j: F(x) for j, x in enumerate(drop)},
                        THIS: {st.off("_last_input") // 8: ("P", ("vec", ("p", ("arg", 1), ZERO)), ZERO)}}
                yield ("%d neurons, drop probability %s, drawn %s" % (n, p, "".join("kept " if k else "dropped " for k in q)), st, want,
                       buf(st, "_output_activations"), (), False, None, {(THIS, st.off("_zero_mask_idxs")): len(drop)})
    c.part(lambda c: run(c, "training_forward of a layer", "DropoutLayer", "training_forward", train(c.tier), calls={RANDOM: draw}))


def base_layer(c):
    def ident(tier):
        yield "any input", State("Layer").arg(1, 2), {}, (("arg", 1), 0)
    c.part(lambda c: run(c, "forward of a layer", "Layer", "forward", ident(c.tier)))

    def train(tier):
        out = ("P", ("member", "result of forward"), ZERO)
        for n in ns(tier):
            st = State("Layer").fields(fl(n), fl(n)).arg(1, n).pointer("_last_input")
            st.names[THIS] = "the object"
            st.p[("object", THIS)] = (slots("DenseLayer"), {"forward": lambda i, x: out if x == ("P", ("arg", 1), ZERO) else ("P", ("member", "forward of another vector"), ZERO)})
            yield ("%d inputs" % n, st, {THIS: {st.off("_last_input") // 8: ("P", ("vec", ("p", ("arg", 1), ZERO)), ZERO)}}, (out[1], 0))
    for cls in LAYERS:
        if cls != "DropoutLayer":
            c.part(lambda c: run(c, "training_forward of a layer", cls, "training_forward", train(c.tier)))


LAYERS = ("DenseLayer", "ConvolutionalLayer", "MaxPoolingLayer", "AveragePoolingLayer", "DropoutLayer", "ReluLayer", "EluLayer", "SoftmaxLayer", "TanhLayer",
          "SigmoidLayer", "LinearLayer")


def dropout_back(c):
    def cases(tier):
        for p in (Fraction(1, 4), Fraction(3, 4), Fraction(1)):
            for n, q in masks(tier):
                st = drop_state(n, p, q)
                drop = [j for j, k in enumerate(q) if not k]
                mask = ("vec", ("p", THIS, P(st.off("_zero_mask_idxs"))))
                st.p[("size", (THIS, st.off("_zero_mask_idxs")))] = len(drop)
                for j, x in enumerate(drop):
                    st.p[(mask, j)] = x
                sc = F(1 if p == 1 else 1 / (1 - p))
                yield ("%d neurons, dropped %s" % (n, drop), st, {st.data("_input_gradients"): {j: ZERO if j in drop else AV(1, j) * sc for j in range(n)}}, back(st, n))
    c.part(lambda c: run(c, "backward of a layer", "DropoutLayer", "backward", cases(c.tier)))

    def ident(tier):
        yield "any gradient", State("Layer").arg(1, 2), {}, (("arg", 1), 0)
    c.part(lambda c: run(c, "backward of a layer", "Layer", "backward", ident(c.tier)))


def C21(c):
    c.rule("forward and training_forward of every layer fill the output buffer with the formula of the layer and return it")
    forward_layers(c)
    dropout(c)
    base_layer(c)
    return ASSUME


def C22(c):
    c.rule("backward of every layer fills the input gradient with the derivative of forward times the incoming gradient and accumulates the parameter gradients")
    backward_layers(c)
    dropout_back(c)
    return ASSUME
