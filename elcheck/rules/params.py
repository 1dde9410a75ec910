"""Parameters and their gradients by index; shapes and buffer sizes of layers.

Same engine as layers.py: what a method returns or resizes, as a function of the sizes of the object, derived from the IR and compared
with the specification on a grid of sizes."""
from fractions import Fraction
from ..kernel import F
from ..terms import *
from .kernels import ns, prod
from .layers import State, THIS, S, run, method, members, slots, fl, layer, pool_state, conv_state, LAYERS
from .training import ASSUME, LOSSES

NONE = [x for x in LAYERS if x not in ("DenseLayer", "ConvolutionalLayer")] + list(LOSSES)
PARTS = {
    "DenseLayer": ("_weights", "_biases"),
    "ConvolutionalLayer": ("_weights", "_biases"),
    "RecurrentLayer": ("_weights_i_to_h", "_weights_h_to_h", "_biases_to_h", "_weights_h_to_o", "_biases_to_o"),
}
GRADS = {
    "DenseLayer": ("_weight_gradients", "_bias_gradients"),
    "ConvolutionalLayer": ("_weight_gradients", "_bias_gradients"),
    "RecurrentLayer": tuple(x + "_gradients" for x in PARTS["RecurrentLayer"]),
}


def states(cls, tier):
    """objects of many sizes: (text, state, sizes of the parts)"""
    big = tier != "quick"
    if cls == "DenseLayer":
        for n in (1, 2, 3, 5)[:4 if big else 3]:
            for m in (1, 2, 4):
                yield "%d inputs, %d outputs" % (n, m), State(cls).fields(fl(n), fl(m)), (n * m, m)
    elif cls == "ConvolutionalLayer":
        for C in (1, 2, 3):
            for kh, kw in ((1, 1), (2, 1), (2, 3)):
                for f in (1, 2, 3):
                    st = State(cls).fields((4, 5, C), (3, 3, f)).shape("_kernel_shape", kh, kw).num("_n_filters", f)
                    yield "%d channels, kernel %dx%d, %d filters" % (C, kh, kw, f), st, (kh * kw * C * f, f)
    else:
        for n, h, m in ((1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 2, 1), (2, 2, 2)):
            st = State(cls).fields(fl(n), fl(m)).num("_hidden_size", h)
            yield "%d inputs, %d hidden, %d outputs" % (n, h, m), st, (n * h, h * h, h, h * m, m)


def enumeration(c):
    for cls in PARTS:
        def count(tier):
            for text, st, parts in states(cls, tier):
                yield text, st, {}, P(sum(parts))
        c.part(lambda c: run(c, "number of parameters", cls, "param_count", count(c.tier)))
        for name, table in (("param", PARTS), ("gradient", GRADS)):
            def at(tier):
                for text, st0, parts in states(cls, tier):
                    total = sum(parts)
                    for x in sorted({0, 1, total - 1, total, total + 1, 2 * total} | {sum(parts[:k]) + d for k in range(len(parts)) for d in (-1, 0)}):
                        if x < 0:
                            continue
                        st = State(cls)
                        st.p.update(st0.p)
                        st.p[("object", THIS)] = (slots(cls), {"param_count": lambda i, n=total: P(n)})
                        for m, n in zip(PARTS[cls] + GRADS[cls], parts * 2):
                            st.vec(m, n)
                        st.p[("arg", 1)] = x
                        if x >= total:
                            yield "%s, index %d" % (text, x), st, {}, None, (), True
                            continue
                        k, y = 0, x
                        while y >= parts[k]:
                            y -= parts[k]
                            k += 1
                        yield "%s, index %d" % (text, x), st, {}, (st.data(table[cls][k]), 8 * y)
            c.part(lambda c: run(c, "%s by index" % name, cls, name, at(c.tier)))
    for cls in NONE:
        def none(tier):
            yield "any size", State(cls), {}, ZERO
        c.part(lambda c: run(c, "number of parameters", cls, "param_count", none(c.tier)))
        for name in ("param", "gradient"):
            def refused(tier):
                for x in (0, 1, 7):
                    st = State(cls)
                    st.p[("arg", 1)] = x
                    yield "index %d" % x, st, {}, None, (), True
            c.part(lambda c: run(c, "%s by index" % name, cls, name, refused(c.tier)))


def made(ps):
    """a constructor that does not copy"""
    return not (len(ps) == 1 and ps[0].endswith(("&", "&&")))


FLATS = ("ReluLayer", "EluLayer", "SoftmaxLayer", "TanhLayer", "SigmoidLayer", "LinearLayer", "DropoutLayer")


# ---------------------------------------------------------------- shapes and buffers
def shared(st, m):
    """(region, offset) of a member vector, behind its shared pointer if it has one"""
    o = st.off(m)
    return (("shared", THIS, o), 0) if "SharedParams" in st.mem[m][1] else (THIS, o)


def fields_shape(st, which):
    fm = members("Layer::Fields")
    R = ("shared", THIS, st.off("_shared_fields"))
    e = ("vec", ("p", R, P(fm["_%s_shape" % which][0])))
    return R, (R, fm["_%s_shape" % which][0]), (e, 0), ("vec", ("p", e, ZERO))


def shape_arg(st, k, s):
    """an argument of type LayerShape, one shape"""
    a = ("arg", k)
    st.p[("size", (a, 0))] = 1
    e = ("vec", ("p", a, ZERO))
    st.p[("size", (e, 0))] = len(s)
    for i, x in enumerate(s):
        st.p[(("vec", ("p", e, ZERO)), i)] = x
    return st


def flat_arg(st, k, s):
    """an argument of type Shape2d or Shape3d"""
    st.p[("size", (("arg", k), 0))] = len(s)
    for i, x in enumerate(s):
        st.p[(("vec", ("p", ("arg", k), ZERO)), i)] = x
    return st


def expect(st, inp, out, sizes, new=True):
    """(what the shapes hold afterwards, what the vectors hold)"""
    w, z = {}, {}
    for nm, s in (("input", inp), ("output", out)):
        R, v, e, r = fields_shape(st, nm)
        z[v], z[e] = 1, 3
        st.names[r] = "the %s shape" % nm
        w[r] = {i: F(x) for i, x in enumerate(s)}
    fm = members("Layer::Fields")
    st.names[R] = "the shared fields"
    w[R] = {fm["_input_size"][0] // 8: F(prod(inp)), fm["_output_size"][0] // 8: F(prod(out)) if new else None}
    for m, n in sizes.items():
        z[shared(st, m)] = n
        st.names[st.data(m)] = m
        # gradients are added up: they start from zero
        w[st.data(m)] = {i: ZERO if new and m.endswith("_gradients") and m != "_input_gradients" else None for i in range(n)}
    return w, z


def dense_sizes(n, m):
    return {"_weights": n * m, "_biases": m, "_weight_gradients": n * m, "_bias_gradients": m, "_output_activations": m, "_input_gradients": n}


def conv_sizes(inp, k, f, out):
    n = k[0] * k[1] * inp[2] * f
    return {"_weights": n, "_biases": f, "_weight_gradients": n, "_bias_gradients": f, "_output_activations": prod(out), "_input_gradients": prod(inp)}


def rec_sizes(n, h, m, t):
    s = {"_weights_i_to_h": n * h, "_weights_h_to_h": h * h, "_biases_to_h": h, "_weights_h_to_o": h * m, "_biases_to_o": m}
    s.update({k + "_gradients": v for k, v in list(s.items())})
    s.update({"_output_activations": m * t, "_hidden_state": h * max(t, 1), "_input_gradients": n * t})
    return s


def ff_sizes(n, m):
    return {"_output_activations": m, "_input_gradients": n}


def side(n, k, s, p):
    return 0 if n == 0 else (n + 2 * p - k) // s + 1


def conv_cases(tier):
    """input shape, kernel, filters, stride, padding"""
    for h, w, C in ((0, 0, 1), (1, 2, 1), (4, 3, 2), (5, 7, 1), (6, 4, 3)):
        for k in ((1, 1), (2, 1), (2, 3), (3, 2)):
            for p in ((0, 0), (1, 0), (0, 1), (2, 1)):
                if h and (k[0] > h + 2 * p[0] or k[1] > w + 2 * p[1]):
                    continue
                for s in ((1, 1), (2, 1), (1, 3)) if tier == "quick" else ((1, 1), (2, 1), (1, 2), (1, 3), (3, 2)):
                    for f in (1, 3):
                        yield (h, w, C), k, f, s, p


def conv_text(x):
    return "input %s, kernel %s, %d filters, stride %s, padding %s" % tuple("x".join(map(str, y)) if isinstance(y, tuple) else y for y in x)


def conv_out(inp, k, f, s, p):
    return side(inp[0], k[0], s[0], p[0]), side(inp[1], k[1], s[1], p[1]), f


def pool_out(inp, k, s):
    return side(inp[0], k[0], s[0], 0), side(inp[1], k[1], s[1], 0), inp[2]


def pool_cases(tier):
    for inp, k, f, s, p in conv_cases(tier):
        if f == 1 and p == (0, 0):
            yield inp, k, s


def vec_at(st, m, xs, want=None):
    """a member that holds a Shape2d"""
    r = st.data(m)
    if want is not None:
        st.names[r] = m
        want[r] = {i: F(x) for i, x in enumerate(xs)}


def fresh(cls):
    st = State(cls)
    st.p[("sizeof",)] = lambda v: 0 if v[0] == THIS else None
    st.names[THIS] = "the object"
    return st


def this_wants(st, w, **values):
    """numbers of the object itself; what is not given does not matter"""
    st.names.setdefault(THIS, "the object")
    w[THIS] = {st.off(m) // 8: v if isinstance(v, Poly) else F(v) for m, v in values.items()}
    keep = set(w[THIS])
    st.ignore = {(THIS, i) for i in range(4096) if i not in keep}


def buffers(c):
    rule = "buffers of a new layer"

    def dense(tier):
        for n in (0, 1, 2, 3):
            for m in (0, 1, 2, 4):
                st = fresh("DenseLayer")
                st.p[("arg", 2)], st.p[("arg", 3)] = n, m
                w, z = expect(st, fl(n), fl(m), dense_sizes(n, m))
                this_wants(st, w)
                yield "%d inputs, %d outputs" % (n, m), st, w, None, (), False, None, z
    c.part(lambda c: run(c, rule, "DenseLayer", "DenseLayer", dense(c.tier), params=made))

    def conv(tier):
        for x in conv_cases(tier):
            inp, k, f, s, p = x
            st = fresh("ConvolutionalLayer")
            flat_arg(st, 2, inp), flat_arg(st, 3, k), flat_arg(st, 5, s), flat_arg(st, 6, p)
            st.p[("arg", 4)] = f
            out = conv_out(*x)
            w, z = expect(st, inp, out, conv_sizes(inp, k, f, out))
            for m, v in (("_kernel_shape", k), ("_stride", s), ("_padding", p)):
                z[shared(st, m)] = 2
                vec_at(st, m, v, w)
            this_wants(st, w, _n_filters=f)
            yield conv_text(x), st, w, None, (), False, None, z
    c.part(lambda c: run(c, rule, "ConvolutionalLayer", "ConvolutionalLayer", conv(c.tier), params=made))

    for cls in ("MaxPoolingLayer", "AveragePoolingLayer"):
        def pool(tier):
            for x in pool_cases(tier):
                inp, k, s = x
                st = fresh(cls)
                flat_arg(st, 2, inp), flat_arg(st, 3, k), flat_arg(st, 4, s)
                out = pool_out(*x)
                w, z = expect(st, inp, out, ff_sizes(prod(inp), prod(out)))
                for m, v in (("_kernel_shape", k), ("_stride", s)):
                    z[shared(st, m)] = 2
                    vec_at(st, m, v, w)
                this_wants(st, w)
                yield "input %s, window %s, stride %s" % x, st, w, None, (), False, None, z
        c.part(lambda c: run(c, rule, cls, cls, pool(c.tier), params=made))

    for cls in FLATS:
        def flat(tier):
            for n in ns(tier):
                for q in (None,) if cls != "DropoutLayer" else (Fraction(0), Fraction(1, 4), Fraction(1)):
                    st = fresh(cls)
                    st.p[("arg", 2)] = n
                    w, z = expect(st, fl(n), fl(n), ff_sizes(n, n))
                    if q is None:
                        this_wants(st, w, **({"_alpha": P(("farg", 3))} if cls == "EluLayer" else {}))
                    else:
                        st.p[("farg", 3)] = q
                        z[shared(st, "_zero_mask_idxs")] = 0
                        this_wants(st, w, _drop_probability=q, _scale=1 if q == 1 else 1 / (1 - q))
                    yield "%d neurons%s" % (n, "" if q is None else ", probability %s" % q), st, w, None, (), False, None, z
        c.part(lambda c: run(c, rule, cls, cls, flat(c.tier), params=made))

    for cls in LOSSES:
        def loss(tier):
            for n in ns(tier):
                for b in (0, 1, 2, 8):
                    st = fresh(cls)
                    st.p[("arg", 2)], st.p[("arg", 3)] = n, b
                    w, z = expect(st, fl(n), fl(0), {"_gradients": n, "_target": 0})
                    v = {"_inv_batch_size": Fraction(1, max(b, 1)), "_cumulative_loss": 0, "_correct": 0, "_incorrect": 0}
                    if cls == "MeanSquaredLossLayer":
                        v["_loss_tolerance"] = P(("farg", 4))
                    this_wants(st, w, **v)
                    yield "%d inputs, batches of %d" % (n, b), st, w, None, (), False, None, z
        c.part(lambda c: run(c, rule, cls, cls, loss(c.tier), params=made))

    def rec(tier):
        for n, h, m, t in ((1, 1, 1, 1), (2, 1, 3, 0), (1, 3, 2, 4), (3, 2, 1, 2), (0, 2, 2, 3)):
            st = fresh("RecurrentLayer")
            for i, x in enumerate((n, m, h, t)):
                st.p[("arg", 2 + i)] = x
            w, z = expect(st, fl(n), fl(m), rec_sizes(n, h, m, t))
            w[st.data("_hidden_state")] = {i: ZERO for i in range(h * max(t, 1))}
            this_wants(st, w, _hidden_size=h, _time_steps=t)
            yield "%d inputs, %d hidden, %d outputs, %d steps" % (n, h, m, t), st, w, None, (), False, None, z
    c.part(lambda c: run(c, rule, "RecurrentLayer", "RecurrentLayer", rec(c.tier), params=made))


def resized(c):
    """a change of the input shape of an existing layer"""
    rule = "buffers after a new input shape"

    def after(cls, old, new, settings, sizes, text):
        """old, new: (input shape, output shape)"""
        st = State(cls).fields(*old)
        for m, n in sizes(*old).items():
            st.vec(m, n)
        for m, v in settings.items():
            st.shape(m, *v) if isinstance(v, tuple) else st.num(m, v)
        shape_arg(st, 1, new[0])
        w, z = expect(st, new[0], new[1], sizes(*new), False)
        for m, v in settings.items():
            if isinstance(v, tuple):
                z[shared(st, m)] = len(v)
                vec_at(st, m, v, w)
        this_wants(st, w, **{m: v for m, v in settings.items() if not isinstance(v, tuple)})
        return "%s, input %s before, %s now" % (text, "x".join(map(str, old[0])), "x".join(map(str, new[0]))), st, w, None, (), False, None, z

    def dense(tier):
        for n, m, n2 in ((0, 2, 3), (2, 3, 4), (3, 1, 1), (4, 2, 0), (2, 0, 3)):
            yield after("DenseLayer", (fl(n), fl(m)), (fl(n2), fl(m)), {}, lambda a, b: dense_sizes(prod(a), prod(b)), "%d outputs" % m)
        yield after("DenseLayer", (fl(0), fl(2)), ((2, 3, 2), fl(2)), {}, lambda a, b: dense_sizes(prod(a), prod(b)), "2 outputs")
    c.part(lambda c: run(c, rule, "DenseLayer", "_set_input_shape", dense(c.tier)))

    def conv(tier):
        for x in conv_cases(tier):
            inp, k, f, s, p = x
            for old in ((0, 0, 1), (3, 3, 2)):
                yield after("ConvolutionalLayer", (old, conv_out(old, k, f, s, p)), (inp, conv_out(*x)), {"_kernel_shape": k, "_n_filters": f, "_stride": s, "_padding": p},
                            lambda a, b: conv_sizes(a, k, f, b), conv_text(x))
    c.part(lambda c: run(c, rule, "ConvolutionalLayer", "_set_input_shape", conv(c.tier)))

    def pool(tier):
        for x in pool_cases(tier):
            inp, k, s = x
            for old in ((0, 0, 1), (3, 3, 2)):
                yield after("PoolingLayer", (old, pool_out(old, k, s)), (inp, pool_out(*x)), {"_kernel_shape": k, "_stride": s},
                            lambda a, b: ff_sizes(prod(a), prod(b)), "window %dx%d, stride %dx%d" % (k + s))
    c.part(lambda c: run(c, rule, "PoolingLayer", "_set_input_shape", pool(c.tier)))

    def act(tier):
        for a, b in ((fl(0), fl(3)), (fl(2), fl(1)), (fl(3), (2, 3, 2)), (fl(2), fl(0))):
            yield after("ActivationLayer", (a, a), (b, fl(prod(b))), {}, lambda a, b: ff_sizes(prod(a), prod(b)), "activation")
    c.part(lambda c: run(c, rule, "ActivationLayer", "_set_input_shape", act(c.tier)))

    def drop(tier):
        for a, b in ((fl(0), fl(3)), (fl(2), fl(1)), (fl(3), (2, 3, 2)), (fl(2), fl(0))):
            yield after("DropoutLayer", (a, a), (b, b), {"_drop_probability": S("p"), "_scale": S("scale")}, lambda a, b: ff_sizes(prod(a), prod(b)), "dropout")
    c.part(lambda c: run(c, rule, "DropoutLayer", "_set_input_shape", drop(c.tier)))

    def loss(tier):
        for a, b in ((fl(0), fl(3)), (fl(2), fl(1)), (fl(3), (2, 3, 2)), (fl(2), fl(0))):
            yield after("LossLayer", (a, fl(0)), (b, fl(0)), {"_inv_batch_size": S("inv"), "_cumulative_loss": S("total"), "_correct": F(3), "_incorrect": F(2)},
                        lambda a, b: {"_gradients": prod(a)}, "loss")
    c.part(lambda c: run(c, rule, "LossLayer", "_set_input_shape", loss(c.tier)))

    def rec(tier):
        for n, h, m, t, n2 in ((0, 2, 3, 2, 4), (2, 3, 1, 0, 1), (3, 1, 2, 4, 5), (1, 2, 2, 1, 0)):
            yield after("RecurrentLayer", (fl(n), fl(m)), (fl(n2), fl(m)), {"_hidden_size": F(h), "_time_steps": F(t)}, lambda a, b: rec_sizes(prod(a), h, prod(b), t),
                        "%d hidden, %d outputs, %d steps" % (h, m, t))
    c.part(lambda c: run(c, rule, "RecurrentLayer", "_set_input_shape", rec(c.tier)))


def C26(c):
    c.rule("after construction and after every change of the input shape, shapes and buffers are those that follow from the input shape")
    buffers(c)
    resized(c)
    return ASSUME[:1]


def C25(c):
    c.rule("every index below param_count addresses one parameter and, at the same position, its gradient; every other index is refused")
    enumeration(c)
    return ASSUME[:2]
