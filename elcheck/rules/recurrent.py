"""The recurrent layer: the recurrence over the time steps, and the gradients propagated back through them.

Closed forms as in layers.py.  Backward is evaluated on the members that the closed form of forward leaves behind, so how the two share
the hidden states is their own affair."""
from ..ir import AnalysisBroken
from ..kernel import Unres, F, fn
from ..terms import *
from .kernels import total
from .layers import State, THIS, S, AV, run, method, fl, module, kern, compare

CLS = "RecurrentLayer"
WIH, WHH, WHO, BH, BO = "_weights_i_to_h", "_weights_h_to_h", "_weights_h_to_o", "_biases_to_h", "_biases_to_o"
TEXT = "%d inputs, %d hidden, %d outputs, %d time steps"


def shapes(tier):
    out = [(1, 1, 1, 1), (2, 1, 1, 1), (1, 2, 1, 1), (1, 1, 2, 1), (1, 1, 1, 2), (2, 2, 1, 2), (1, 2, 2, 2), (1, 1, 1, 3), (2, 1, 2, 3)]
    return out + [(2, 2, 2, 1), (3, 2, 2, 2), (2, 2, 2, 3), (1, 2, 1, 4), (1, 3, 2, 2)] if tier != "quick" else out


def state(I, H, O, T, gradients=True):
    st = State(CLS).fields(fl(I), fl(O))
    st.num("_hidden_size", F(H)).num("_time_steps", F(T)).num("_hidden_activation", F(1))
    st.vec("_hidden_state", H * max(T, 1))
    for m, n in ((WIH, I * H), (WHH, H * H), (WHO, H * O), (BH, H), (BO, O)):
        st.vec(m, n)
        st.vec(m + "_gradients", n)
    st.vec("_output_activations", O * T).vec("_input_gradients", I * T)
    st.p[("sizeof",)] = lambda v: None
    return st


def steps(st, I, H, O, T, x):
    """([h_0..h_T], [outputs])"""
    w = lambda m, i: st.elem(m, i)
    hs = [[st.elem("_hidden_state", j) for j in range(H)]]
    out = []
    for t in range(T):
        p = hs[-1]
        hs.append([fn("tanh", total(w(WIH, j * I + i) * x(t * I + i) for i in range(I)) + total(w(WHH, j * H + k) * p[k] for k in range(H)) + w(BH, j)) for j in range(H)])
        out += [total(w(WHO, o * H + j) * hs[-1][j] for j in range(H)) + w(BO, o) for o in range(O)]
    return hs, out


def forward(c):
    def cases(tier):
        for I, H, O, T in shapes(tier):
            st = state(I, H, O, T).arg(1, I * T)
            hs, out = steps(st, I, H, O, T, lambda i: AV(1, i))
            # the member from which the next sequence starts; where the other steps are kept is free
            want = {st.data("_hidden_state"): dict([(j, hs[T][j]) for j in range(H)] + [(j, None) for j in range(H, H * T)]),
                    st.data("_output_activations"): dict(enumerate(out))}
            for m in (WIH, WHH, WHO, BH, BO):
                st.data(m)
            yield TEXT % (I, H, O, T), st, want, (THIS, st.off("_output_activations")), (), False, {("vec", ("p", ("arg", 1), ZERO)): I * T}
    run(c, "forward through the time steps", CLS, "forward", cases(c.tier))


def backward(c):
    """forward first, backward on what it leaves"""
    rule = "backward through the time steps"
    fs, fb = method(CLS, "forward"), method(CLS, "backward")
    if len(fs) != 1 or len(fb) != 1:
        c.ob(rule, CLS, None, "no such functions")
        return
    where = fb[0][1].where()
    try:
        kf, kb = kern(c, fs[0][1]), kern(c, fb[0][1])
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, where, None, str(x))
        return
    n, und = 0, {}
    for I, H, O, T in shapes(c.tier):
        text = TEXT % (I, H, O, T)
        try:
            st = state(I, H, O, T).arg(1, I * T)
            X = ("member", "the last input")
            a = kf.at(st.p, None, {("vec", ("p", ("arg", 1), ZERO)): lambda i: P(("in", X, i))})
            if a.throws() is not False:
                raise Unres("forward may throw")
            got = a.final()
            hs, out = steps(st, I, H, O, T, lambda i: P(("in", X, i)))
            s2 = state(I, H, O, T).arg(1, O * T)
            s2.p[("ld", THIS, P(s2.off("_last_input")), 8)] = ("P", X, ZERO)
            for b, cells in got.items():
                s2.inputs[b] = (lambda d: lambda i: d.get(i))(dict(cells))
            for v, h in a.vsz.items():
                if v[0] == THIS and h:
                    s2.p[("size", v)] = h[-1][1]
            want = gradients(s2, I, H, O, T, hs, lambda i: P(("in", X, i)), lambda i: AV(1, i))
            for m in (WIH, WHH, WHO, BH, BO):
                s2.data(m)
            bad = compare(kb, text, s2, want, (THIS, s2.off("_input_gradients")))
            n += 1
        except Unres as x:
            und.setdefault(str(x), text)
            continue
        if bad:
            c.ob(rule, where, False, "%s: %s" % (text, bad), construct=CLS + "::backward")
            return
    if und or not n:
        c.ob(rule, where, None, "%s (%s)" % sorted(und.items())[0] if und else "no case")
    else:
        c.ob(rule, where, True, "%d cases, every element" % n)


def gradients(st, I, H, O, T, hs, x, g):
    w = lambda m, i: st.elem(m, i)
    G = {m: {} for m in (WIH, WHH, WHO, BH, BO)}

    def add(m, i, v):
        G[m][i] = G[m].get(i, st.elem(m + "_gradients", i)) + v
    gi = {}
    later = [ZERO] * H
    for t in reversed(range(T)):
        go = [g(t * O + o) for o in range(O)]
        for o in range(O):
            add(BO, o, go[o])
            for j in range(H):
                add(WHO, o * H + j, go[o] * hs[t + 1][j])
        d = [(total(w(WHO, o * H + j) * go[o] for o in range(O)) + later[j]) * (ONE - hs[t + 1][j] * hs[t + 1][j]) for j in range(H)]
        for j in range(H):
            add(BH, j, d[j])
            for i in range(I):
                add(WIH, j * I + i, d[j] * x(t * I + i))
            for k in range(H):
                add(WHH, j * H + k, d[j] * hs[t][k])
        for i in range(I):
            gi[t * I + i] = total(d[j] * w(WIH, j * I + i) for j in range(H))
        later = [total(w(WHH, k * H + j) * d[k] for k in range(H)) for j in range(H)]
    out = {st.data(m + "_gradients"): v for m, v in G.items()}
    out[st.data("_input_gradients")] = gi
    return out


def C27(c):
    c.rule("forward runs h' = tanh(Wih x + Whh h + bh), y = Who h' + bo over the time steps; backward accumulates its exact derivative by every parameter and input")
    c.part(forward)
    c.part(backward)
    return ["real arithmetic: rounding, overflow and NaN are not modelled", "the buffers of the layer and its arguments do not overlap"]
