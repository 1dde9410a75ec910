"""A model as a whole: which methods of which layers a training step, a prediction and an update call, in which order, with what.

The closed form of the method (kernel.py) is evaluated over a model of a few layers and arcs that the case describes; the calls through
the virtual tables become a trace.  Two traces are the same when every layer sees the same calls in the same order - reads of its
results between two changes may come in any order."""
import itertools
from ..absint import Absint
from ..ir import AnalysisBroken
from ..kernel import Kern, Unres, F, inv
from ..terms import *
from .kernels import clamp, total, prod
from .layers import State, THIS, S, run, method, members, slots, module, kern, compare, E, fl

GETTERS = {"last_output", "last_input_gradient", "type", "param_count", "last_input", "print"}


def region(name):
    return ("layer", name)


def owner(v):
    """the layer whose result or self the argument is"""
    if isinstance(v, tuple) and v[:1] == ("P",):
        b = v[1]
        return b[1] if b[0] in ("layer", "out", "grad") else None
    return None


def call_event(i, e, env, key):
    r = i.target(e, env)
    if r is None:
        raise Unres("a call of an unknown method")
    o, name, reg, args = r
    if name in GETTERS:
        return
    vals = []
    for x in args:
        try:
            vals.append(i.ev(x, env))
        except Unres:
            vals.append(None)
    i.trace.append((reg[1], name, vals))


def copy_shared(i, e, env, key):
    """std::shared_ptr::shared_ptr(other), std::shared_ptr::operator=(other)"""
    d = i.vplace(e.args[0], env)
    if len(e.args) < 2:
        i.alias[d] = ("P", ("null",), ZERO)
        return
    s = i.vplace(e.args[1], env)
    q = i.shared(s[0], s[1], ZERO)
    i.alias[d] = ("P", q[1], q[2])


def assign_vector(i, e, env, key):
    v = i.vplace(e.args[0], env)
    if v[0][0] == "layer":
        w = i.ev(i.ai.as_ptr(e.args[1]), env)
        i.trace.append((v[0][1], "member at %d becomes" % v[1], [w]))
        return
    i.vecop(e, env, key)


def valid(i, e, env):
    b, o = i.place(i.ai.as_ptr(e.args[0]), env)
    q = i.shared(b, o, ZERO)
    return ZERO if q[1] == ("null",) else ONE


def same_pointer(i, e, env):
    qs = []
    for a in e.args[:2]:
        b, o = i.place(i.ai.as_ptr(a), env)
        q = i.shared(b, o, ZERO)
        if q[1][0] not in ("layer", "null"):
            raise Unres("comparison with %s" % show(q[1])[:60])
        qs.append(q[1])
    return ONE if (qs[0] == qs[1]) == e.callee.endswith("==") else ZERO


EFFECTS = {"<indirect>": call_event, "std::shared_ptr::shared_ptr": copy_shared, "std::shared_ptr::operator=": copy_shared,
           "std::vector::operator=": assign_vector}
CALLS = {"std::__shared_ptr::operator bool": valid, "std::operator==": same_pointer, "std::operator!=": same_pointer}
_k = {}


def mkern(c, f):
    if f.key not in _k:
        _k[f.key] = Kern(c.absint(Absint(c.fn(f))), CALLS, EFFECTS)
    return _k[f.key]


class Model(State):
    """a model object in region `base` (this, or an argument)"""

    def __init__(self, cls="Model"):
        State.__init__(self, cls)
        self.names[THIS] = "the model"
        self.st = members("Model::State")
        self.base0 = self.mem["_state"][0]
        self.lay = slots("DenseLayer")

    def soff(self, m):
        if m not in self.st:
            raise Unres("no member %s of Model::State" % m)
        return self.base0 + self.st[m][0]

    def layer(self, n, **kw):
        r = region(n)
        self.p[("object", r)] = (self.lay, {"last_output": lambda i: ("P", ("out", n), ZERO), "last_input_gradient": lambda i: ("P", ("grad", n), ZERO)})
        self.names[r] = "layer " + n

    def pointers(self, m, names, base=THIS):
        """a vector of shared pointers to layers"""
        o = self.soff(m)
        self.p[("size", (base, o))] = len(names)
        for k, n in enumerate(names):
            self.p[("shared", ("vec", ("p", base, P(o))), 16 * k)] = ("P", region(n) if n else ("null",), ZERO)
            if n:
                self.layer(n)
        return self

    def arcs(self, m, xs, base=THIS):
        o = self.soff(m)
        arc = members("DLGraph::Arc")
        self.p[("size", (base, o))] = len(xs)
        for k, (a, b) in enumerate(xs):
            for nm, x in (("from", a), ("to", b)):
                self.p[("shared", ("vec", ("p", base, P(o))), 32 * k + arc[nm][0])] = ("P", region(x), ZERO)
                self.layer(x)
        return self


def OUT(n):
    return ("P", ("out", n), ZERO)


def GRAD(n):
    return ("P", ("grad", n), ZERO)


def ARG(k):
    return ("P", ("arg", k), ZERO)


def sequences(tr):
    """{layer: calls that change it, separated by the multisets of calls that read it}"""
    out = {}
    for reg, name, vals in tr:
        t = (reg, name, tuple(vals))
        for x in {owner(v) for v in vals} - {None, reg}:
            s = out.setdefault(x, [])
            if not s or not isinstance(s[-1], list):
                s.append([])
            s[-1].append(t)
        out.setdefault(reg, []).append(t)
    return {k: [sorted(x, key=repr) if isinstance(x, list) else x for x in v] for k, v in out.items()}


def say(t):
    if isinstance(t, list):
        return " and ".join(say(x) for x in t)

    def v(x):
        if x is None:
            return "?"
        if isinstance(x, tuple) and x[:1] == ("P",):
            b = x[1]
            return {"out": "the output of %s", "grad": "the gradient of %s", "layer": "%s", "arg": "argument %s"}.get(b[0], "other data") .replace("%s", str(b[1]) if len(b) > 1 else "")
        return str(x)
    return "%s.%s(%s)" % (t[0], t[1], ", ".join(v(x) for x in t[2]))


def unlike(got, want, free):
    """what a layer sees differently; `free`: methods whose arguments are not compared"""
    g = [(a, b, [None if b in free and owner(x) is None else x for x in v]) for a, b, v in got]
    a, b = sequences(g), sequences(want)
    for n in sorted(set(a) | set(b), key=str):
        x, y = a.get(n, []), b.get(n, [])
        if x == y:
            continue
        for k in range(max(len(x), len(y))):
            if k >= len(x):
                return "%s is missing (call %d that concerns %s)" % (say(y[k]), k + 1, n)
            if k >= len(y):
                return "%s is one call too many" % say(x[k])
            if x[k] != y[k]:
                return "%s happens where %s belongs" % (say(x[k]), say(y[k]))
    return None


def traces(c, rule, name, cases, params=None, cls="Model"):
    """cases: (text, Model, expected calls, result or None, throws)"""
    fs = [x for x in method(cls, name) if params is None or params(x[0])]
    where = "%s::%s" % (cls, name)
    if len(fs) != 1:
        c.ob(rule, where, None, "%d such functions" % len(fs))
        return
    f = fs[0][1]
    where = f.where()
    try:
        k = mkern(c, f)
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, where, None, str(x))
        return
    n, und = 0, {}
    for text, st, want, ret, throws in cases:
        n += 1
        try:
            bad = one(k, st, want, ret, throws)
        except Unres as x:
            und.setdefault(str(x), text)
            continue
        if bad:
            c.ob(rule, where, False, "%s: %s" % (text, bad), construct="%s::%s" % (cls, name))
            return
    if und or not n:
        c.ob(rule, where, None, "%s (%s)" % sorted(und.items())[0] if und else "no case")
    else:
        c.ob(rule, where, True, "%d models, every call" % n)


def one(k, st, want, ret, throws):
    i = k.at(st.p, None, st.inputs)
    t = i.throws()
    if throws:
        return None if t is True else "accepted without an exception" if t is False else None
    if t is not False:
        if t is True:
            return "an exception is thrown"
        raise Unres("an exception that depends on data")
    i.final()
    if any(None in v for a, b, v in i.trace if b != "backward"):
        raise Unres("an argument of a call")
    d = unlike(i.trace, want, {"backward"})
    if d:
        return d
    for b, cells in i.final().items():
        if b[0] == "layer":
            raise Unres("a layer changed directly")
    if ret is not None:
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            if i.active(e.b, {}) is False:
                continue
            q = i.ptr(e.args[0], {})
            if ("P", q[1], q[2]) != ret:
                return "the result is not %s" % say(("", "", (ret,)))[2:-1]
    return None


# ---------------------------------------------------------------- the models of the cases
NETS = [
    # inputs, arcs forward in training, arcs forward, arcs backward, outputs, losses
    ("one layer and a loss", ["A"], [("A", "L")], [], [("L", "A")], ["A"], ["L"]),
    ("a chain of three", ["A"], [("A", "B"), ("B", "C"), ("C", "L")], [("A", "B"), ("B", "C")], [("L", "C"), ("C", "B"), ("B", "A")], ["C"], ["L"]),
    ("two inputs, two outputs, two losses", ["A", "B"], [("A", "C"), ("B", "D"), ("C", "L"), ("D", "M")], [("A", "C"), ("B", "D")],
     [("L", "C"), ("M", "D"), ("C", "A"), ("D", "B")], ["C", "D"], ["L", "M"]),
    ("no loss", ["A"], [("A", "B")], [("A", "B")], [], ["B"], []),
    ("no arcs", ["A", "B"], [], [], [], ["B", "A"], []),
    ("a layer that meets itself again", ["A"], [("A", "B"), ("B", "A"), ("A", "B"), ("B", "L")], [("A", "B"), ("B", "A")], [("L", "B"), ("B", "A"), ("A", "B")], ["B"], ["L"]),
]


def net(t, base=THIS):
    text, inp, tf, fw, bw, outp, loss = t
    st = Model()
    st.pointers("input_layers", inp, base).pointers("output_layers", outp, base).pointers("loss_layers", loss, base)
    st.pointers("layers", sorted(set(inp) | set(outp) | set(loss) | {x for a in tf for x in a}), base)
    return st.arcs("training_forward_run", tf, base).arcs("forward_run", fw, base).arcs("backward_run", bw, base)


def target_member():
    return members("LossLayer")["_target"][0]


def step(c):
    def cases(tier):
        for t in NETS:
            text, inp, tf, fw, bw, outp, loss = t
            st = net(t)
            want = [(l, "member at %d becomes" % target_member(), [ARG(2)]) for l in loss]
            want += [(a, "training_forward", [ARG(1)]) for a in inp]
            want += [(b, "training_forward", [OUT(a)]) for a, b in tf]
            want += [(l, "backward", [None]) for l in loss]
            want += [(b, "backward", [GRAD(a)]) for a, b in bw]
            yield text, st, want, None, False
    traces(c, "calls of a training step", "step", cases(c.tier))


def predict(c):
    def cases(tier):
        for t in NETS:
            text, inp, tf, fw, bw, outp, loss = t
            want = [(a, "forward", [ARG(1)]) for a in inp] + [(b, "forward", [OUT(a)]) for a, b in fw]
            yield text, net(t), want, OUT(outp[0]), False
        text, inp, tf, fw, bw, outp, loss = NETS[1]
        yield "no output layer", net(NETS[1]).pointers("output_layers", []), [], None, True
    traces(c, "calls of a prediction", "predict", cases(c.tier))


def train(c):
    def cases(k):
        def f(tier):
            for t in NETS:
                st = net(t, THIS if k is None else ("arg", k))
                if k is not None:
                    # the model that is asked to train is another one
                    for x in ("layers", "input_layers", "output_layers", "loss_layers"):
                        st.pointers(x, ["X", "Y"])
                st.p[("object", ("arg", 1))] = (slots("GradientDescentOptimizer"), {})
                names = sorted(set(t[1]) | set(t[5]) | set(t[6]) | {x for a in t[2] for x in a})
                yield t[0], st, [(1, "train", [("P", region(n), ZERO)]) for n in names], None, False
        return f
    c.part(lambda c: traces(c, "update of a model", "train", cases(None)(c.tier), lambda ps: len(ps) == 1))
    c.part(lambda c: traces(c, "update of a model", "train", cases(2)(c.tier), lambda ps: len(ps) == 2))


def scores(c):
    lm = members("LossLayer")
    cum, cor, inc = (lm[x][0] // 8 for x in ("_cumulative_loss", "_correct", "_incorrect"))

    def mean(name):
        def cases(tier):
            for n in (1, 2, 3):
                ls = ["L%d" % k for k in range(n)]
                st = Model().pointers("loss_layers", ls).pointers("layers", ["A"] + ls + ["B"]).pointers("input_layers", ["A"]).pointers("output_layers", ["A", "B"] * 3)
                vs = []
                for k, l in enumerate(ls):
                    r = region(l)
                    a, b = 2 * k + 1, k + 2
                    st.p[(r, cum)], st.p[(r, cor)], st.p[(r, inc)] = S("loss of " + l), a, b
                    vs.append((S("loss of " + l) if name == "avg_loss" else F(a)) * inv(F(a + b)))
                yield "%d losses" % n, st, {}, total(vs) * inv(F(n))
        return cases
    for nm in ("accuracy", "avg_loss"):
        c.part(lambda c: run(c, "score of a model", "Model", nm, mean(nm)(c.tier)))

    def reset(tier):
        for n in (0, 1, 2):
            ls = ["L%d" % k for k in range(n)]
            st = Model().pointers("loss_layers", ls).pointers("layers", ["A"] + ls + ["B"]).pointers("input_layers", ["A"]).pointers("output_layers", ["A", "B"] * 3)
            yield "%d losses" % n, st, {region(l): {cum: ZERO, cor: ZERO, inc: ZERO} for l in ls}
    c.part(lambda c: run(c, "score of a model", "Model", "reset_score", reset(c.tier)))


def sizes(c):
    def cases(which, back):
        fm = members("Layer::Fields")

        def f(tier):
            shapes = {"A": ((2, 3, 1), (4, 1, 1)), "B": ((5, 1, 2), (7, 2, 1))}
            for k, names in ((0, ["A"]), (0, ["A", "B"]), (1, ["A", "B"]), (1, ["A"]), (0, []), (0, [None]), (5, ["A", "B"])):
                st = Model().pointers(which, names)
                st.p[("arg", 1)] = k
                for n in names:
                    if not n:
                        continue
                    R = ("fields of", n)
                    st.p[("shared", region(n), members("Layer")["_shared_fields"][0])] = ("P", R, ZERO)
                    for nm, s in zip(("input", "output"), shapes[n]):
                        o = fm["_%s_shape" % nm][0]
                        st.p[("size", (R, o))] = 1
                        e = ("vec", ("p", R, P(o)))
                        st.p[("size", (e, 0))] = 3
                        for i, x in enumerate(s):
                            st.p[(("vec", ("p", e, ZERO)), i)] = x
                        st.p[(R, fm["_%s_size" % nm][0] // 8)] = prod(s)
                v = F(prod(shapes[names[k]][back])) if k < len(names) and names[k] else ZERO
                yield "%d layers, layer %d" % (len(names), k), st, {}, v
        return f
    c.part(lambda c: run(c, "size of a model", "Model", "input_size", cases("input_layers", 0)(c.tier), calls=CALLS))
    c.part(lambda c: run(c, "size of a model", "Model", "output_size", cases("output_layers", 1)(c.tier), calls=CALLS))


def C28(c):
    c.rule("a step sets the targets, runs every input layer and arc forward, then every loss and arc backward; a prediction runs every input layer and arc; an update reaches every layer; scores are means over the losses")
    c.part(step)
    c.part(predict)
    train(c)
    scores(c)
    sizes(c)
    return ["the lists of layers and arcs that the model runs over are those of its graph (C29)", "layers do not change the model that runs them"]
