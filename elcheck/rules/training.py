"""Optimizers and loss layers: the update of each parameter, the bookkeeping of losses and hits.

As in layers.py: closed forms from the normalised IR, compared with the defining formulas over symbolic data.  The layers an optimizer
works on are described by what their virtual methods return (param_count, param(i), gradient(i)); which method a call through the
virtual table reaches is read from the table in the IR."""
from fractions import Fraction
from ..absint import Absint
from ..ir import AnalysisBroken
from ..kernel import Unres, F, fn, inv, fsel, sgn
from ..terms import *
from .kernels import clamp, total, ns, prod
from .layers import State, THIS, S, AV, run, method, members, slots, fl, module, kern, LAYERS


class Layers(object):
    """two layers handed to an optimizer"""

    def __init__(self, st, n, m=None, names=("from", "to")):
        m = n if m is None else m
        self.st = st
        t = slots("DenseLayer")
        for k, nm, cnt in ((1, names[0], n), (2, names[1], m)):
            g, p = ("member", "gradients of layer_" + nm), ("member", "parameters of layer_" + nm)
            st.names[g], st.names[p] = g[1], p[1]

            def at(r, cnt):
                def f(i, x):
                    j = i.int(x)
                    if not 0 <= j < cnt:
                        raise Unres("index %d of %d" % (j, cnt))
                    return ("P", r, P(8 * j))
                return f
            st.p[("object", ("arg", k))] = (t, {"param_count": (lambda c: lambda i: F(c))(cnt), "param": at(p, cnt), "gradient": at(g, cnt)})
        self.g = lambda i: P(("in", ("member", "gradients of layer_" + names[0]), i))
        self.q = lambda i: P(("in", ("member", "parameters of layer_" + names[1]), i))
        self.G, self.Q = ("member", "gradients of layer_" + names[0]), ("member", "parameters of layer_" + names[1])


def optimizers(c):
    rule = "update of an optimizer"

    def gd(tier):
        for n in ns(tier):
            st = State("GradientDescentOptimizer").num("_eta", S("eta"))
            st.names[THIS] = "the optimizer"
            L = Layers(st, n)
            yield "%d parameters" % n, st, {L.Q: {i: L.q(i) - S("eta") * L.g(i) for i in range(n)}, L.G: {i: ZERO for i in range(n)}}
    c.part(lambda c: run(c, rule, "GradientDescentOptimizer", "_train", gd(c.tier)))

    def adam(tier):
        for n in (0, 1, 2, 3):
            for t in (1, 2):
                st = State("AdamOptimizer").num("_t", t)
                for x in ("eta", "beta_1", "beta_2", "epsilon", "m", "v"):
                    st.num("_" + x, S(x))
                st.names[THIS] = "the optimizer"
                L = Layers(st, n)
                m, v, w = S("m"), S("v"), {}
                b1, b2 = S("beta_1"), S("beta_2")
                for i in range(n):
                    m = b1 * m + (ONE - b1) * L.g(i)
                    v = b2 * v + (ONE - b2) * L.g(i) * L.g(i)
                    mc, vc = m * inv(ONE - fn("pow", b1, F(t + i))), v * inv(ONE - fn("pow", b2, F(t + i)))
                    w[i] = L.q(i) - S("eta") * mc * inv(fn("sqrt", vc) + S("epsilon"))
                o = {st.off("_m") // 8: m, st.off("_v") // 8: v, st.off("_t") // 8: F(t + n)} if n else {}
                yield "%d parameters, step %d" % (n, t), st, {L.Q: w, L.G: {i: ZERO for i in range(n)}, THIS: o}, None, ("eta", "beta_1", "beta_2", "epsilon", "m", "v")
    c.part(lambda c: run(c, rule, "AdamOptimizer", "_train", adam(c.tier)))

    def reset(tier):
        st = State("AdamOptimizer")
        st.names[THIS] = "the optimizer"
        yield "any state", st, {THIS: {st.off("_t") // 8: ONE, st.off("_m") // 8: ZERO, st.off("_v") // 8: ZERO}}
    c.part(lambda c: run(c, "reset of an optimizer", "AdamOptimizer", "reset", reset(c.tier)))

    def made(cls, args, rest):
        def cases(tier):
            st = State(cls)
            st.names[THIS] = "the optimizer"
            w = {st.off(x) // 8: P(("farg", i + 1)) for i, x in enumerate(args)}
            w.update({st.off(x) // 8: F(v) for x, v in rest.items()})
            w[0] = None
            yield "any rates", st, {THIS: w}
        return cases
    c.part(lambda c: run(c, "a new optimizer", "AdamOptimizer", "AdamOptimizer", made("AdamOptimizer", ("_eta", "_beta_1", "_beta_2", "_epsilon"), {"_t": 1, "_m": 0, "_v": 0})(c.tier),
                         params=("double",) * 4))
    c.part(lambda c: run(c, "a new optimizer", "GradientDescentOptimizer", "GradientDescentOptimizer", made("GradientDescentOptimizer", ("_eta",), {})(c.tier),
                         params=("double",)))
    c.part(delegation)


def delegation(c):
    """train hands exactly the two layers over, train_check only layers of equal size"""
    t = slots("AdamOptimizer")
    for ps, f in method("Optimizer", "train") + method("Optimizer", "train_check"):
        where = f.where()
        rule = "hand-over to the update"
        try:
            ai = c.absint(Absint(c.fn(f)))
        except AnalysisBroken as x:
            c.ob(rule, where, None, str(x))
            continue
        calls = []
        for e in ai.events:
            if e.kind != "call":
                continue
            a = list(e.args)
            name = e.callee.split("::")[-1]
            if e.callee == "<indirect>":
                x = a.pop(0)
                x = x.atom() if isinstance(x, Poly) else x[1] if isinstance(x, tuple) and x[:1] == ("p",) else x
                if not x or x[0] != "ld":
                    continue
                name = t.get(ai.as_poly(x[2]).const()) if a and ai.as_ptr(a[0])[1] == THIS else None
            if name in ("train", "_train") and a and ai.as_ptr(a[0])[1] == THIS:
                calls.append((e, [ai.as_ptr(x)[1] for x in a[1:]]))
        want = [("arg", 1), ("arg", 1) if len(ps) == 1 else ("arg", 2)]
        bad = [x for e, x in calls if x != want and not (x == want[:1] and len(ps) == 1 and len(x) == 1 and False)]
        if not calls:
            c.ob(rule, where, None if any(e.kind == "store" for e in ai.events) else False, "no layer is handed to the update", construct=f.q)
        elif bad:
            c.ob(rule, where, False, "the update receives %s instead of %s" % ([show(x) for x in bad[0]], [show(x) for x in want]), construct=f.q)
        else:
            r = [e for k, e in ai.exits if k == "ret"]
            ok = all(any(ai.dominates(e.b, y.b) for e, x in calls) for y in r) if hasattr(ai, "dominates") else True
            c.ob(rule, where, ok or None, "each of %d hand-overs passes the layers in order" % len(calls), construct=f.q)
    for ps, f in method("Optimizer", "train_check"):
        rule = "layers of different size are refused"
        bad = None
        try:
            k = kern(c, f)
            for n in range(4):
                for m in range(4):
                    st = State("AdamOptimizer")
                    Layers(st, n, m)
                    i = k.at(st.p, None, {})
                    x = i.throws()
                    if x not in (True, False):
                        raise Unres("a condition over data")
                    if x != (n != m):
                        bad = bad or "%d and %d parameters: %s" % (n, m, "an exception" if x else "no exception")
            c.ob(rule, f.where(), not bad, bad or "16 cases", construct=f.q)
        except (Unres, AnalysisBroken) as x:
            c.ob(rule, f.where(), None, str(x))


ASSUME = ["real arithmetic: rounding, overflow and NaN are not modelled", "the buffers of layers and arguments do not overlap",
          "param(i) and gradient(i) of a layer refer to a distinct number for each index (decided by C25)"]


def C23(c):
    c.rule("one training step of each optimizer changes every parameter by its rule and clears the gradient; what cannot be trained together is refused")
    optimizers(c)
    return ASSUME


# ---------------------------------------------------------------- losses
LOSSES = ("MeanSquaredLossLayer", "CategoricalCrossEntropyLossLayer")
CUM, COR, INC = "_cumulative_loss", "_correct", "_incorrect"


def loss_state(cls, n, target=None):
    st = State(cls).fields(fl(n), (0, 1, 1)).arg(1, n).vec("_target", n).vec("_gradients", n).pointer("_last_input")
    st.num("_inv_batch_size", S("inv_batch_size")).num(CUM, S("cumulative"))
    st.num(COR, F(3)).num(INC, F(4))
    if "_loss_tolerance" in st.mem:
        st.num("_loss_tolerance", S("tolerance"))
    st.names[THIS] = "the object"
    st.ignore = {(THIS, st.off(x) // 8) for x in ("_loss", "_active") if x in st.mem}
    t = ("vec", ("p", THIS, P(st.off("_target"))))
    for i, x in enumerate(target or ()):
        st.p[(t, i)] = F(x)
    st.data("_target")
    return st


def T(st, i):
    return st.elem("_target", i)


def losses(c):
    rule = "loss and score of a sample"

    def mse(tier):
        for n in ns(tier, 1):
            for tol in (S("tolerance"), None):
                st = loss_state("MeanSquaredLossLayer", n)
                l = total((T(st, i) - AV(1, i)) * (T(st, i) - AV(1, i)) for i in range(n)) * inv(F(n))
                if tol is None:
                    tol = l
                    st.num("_loss_tolerance", l)
                low = ("le", -l - tol)
                hit = lambda a, b: fsel(low, a, b) if l == tol else fsel(("le", l - tol), fsel(low, a, b), b)
                o = {st.off(CUM) // 8: S("cumulative") + l, st.off(COR) // 8: hit(F(4), F(3)), st.off(INC) // 8: hit(F(4), F(5))}
                yield "%d outputs%s" % (n, ", the loss equal to the tolerance" if l == tol else ""), st, {THIS: o}, (("arg", 1), 0)
        st = loss_state("MeanSquaredLossLayer", 2).vec("_target", 0)
        yield "no target", st, {}, None, (), True
    c.part(lambda c: run(c, rule, "MeanSquaredLossLayer", "forward", mse(c.tier)))

    def cce(tier):
        for n in ns(tier, 1):
            for a in range(n):
                for rest in ((0,), (0, 1)):
                    if len(rest) > 1 and a == n - 1:
                        continue
                    t = [0] * n
                    t[a] = 1
                    if len(rest) > 1:
                        t[n - 1] = Fraction(1, 2)
                    st = loss_state("CategoricalCrossEntropyLossLayer", n, t)
                    xs = [AV(1, i) for i in range(n)]
                    l = -total(F(t[i]) * fn("log", xs[i]) for i in range(n))
                    first = P(("amax",) + tuple(xs)) if n > 1 else ZERO
                    d = first - F(a)
                    hit = lambda x, y: fsel(("eq", sgn(d)), x, y) if d.const() is None else (x if d.const() == 0 else y)
                    o = {st.off(CUM) // 8: S("cumulative") + l, st.off(COR) // 8: hit(F(4), F(3)), st.off(INC) // 8: hit(F(4), F(5))}
                    yield "%d classes, target %s" % (n, t), st, {THIS: o}, (("arg", 1), 0), tuple((("vec", ("p", ("arg", 1), ZERO)), i) for i in range(n))
        yield "no target", loss_state("CategoricalCrossEntropyLossLayer", 2).vec("_target", 0), {}, None, (), True
        yield "a target of zeros", loss_state("CategoricalCrossEntropyLossLayer", 3, [0, 0, 0]), {}, None, (), True
    c.part(lambda c: run(c, rule, "CategoricalCrossEntropyLossLayer", "forward", cce(c.tier)))

    rule = "gradient of a loss"

    def back(cls, f):
        def cases(tier):
            for n in ns(tier, 1):
                st = loss_state(cls, n).arg(1, n)
                X = [st.elem("_last_input", i) for i in range(n)]
                yield ("%d outputs" % n, st, {st.data("_gradients"): {i: f(T(st, i), X[i]) * S("inv_batch_size") for i in range(n)}}, (THIS, st.off("_gradients")),
                       tuple((st.data("_last_input"), i) for i in range(n)))
        return cases
    c.part(lambda c: run(c, rule, "MeanSquaredLossLayer", "backward", back("MeanSquaredLossLayer", lambda t, x: (x - t) * 2)(c.tier)))
    c.part(lambda c: run(c, rule, "CategoricalCrossEntropyLossLayer", "backward", back("CategoricalCrossEntropyLossLayer", lambda t, x: -t * inv(x))(c.tier)))

    rule = "score of an epoch"

    def score(num):
        def cases(tier):
            for a, b in ((3, 1), (0, 2), (5, 0), (1, 3)):
                st = loss_state("LossLayer", 2).num(COR, F(a)).num(INC, F(b))
                yield "%d hits, %d misses" % (a, b), st, {}, (F(a) if num is None else S(num)) * inv(F(a + b))
        return cases
    c.part(lambda c: run(c, rule, "LossLayer", "accuracy", score(None)(c.tier)))
    c.part(lambda c: run(c, rule, "LossLayer", "avg_loss", score("cumulative")(c.tier)))

    def reset(tier):
        st = loss_state("LossLayer", 2)
        yield "any score", st, {THIS: {st.off(x) // 8: ZERO for x in (CUM, COR, INC)}}
    c.part(lambda c: run(c, rule, "LossLayer", "reset_score", reset(c.tier)))

    def target(tier):
        for n in ns(tier):
            for old in (0, 2, 5):
                st = loss_state("LossLayer", 2).vec("_target", old).arg(1, n)
                yield "%d values after %d" % (n, old), st, {st.data("_target"): {i: AV(1, i) for i in range(n)}}, None, (), False, None, {(THIS, st.off("_target")): n}
    c.part(lambda c: run(c, "target of a sample", "LossLayer", "set_target", target(c.tier)))


def C24(c):
    c.rule("forward of a loss layer adds the loss to the running total and counts the sample once; backward is the scaled derivative; the averages divide by the number of samples")
    losses(c)
    return ASSUME[:2]
