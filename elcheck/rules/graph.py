"""The graph of the layers: which arcs each operation enters where, and what the lists of a graph hold afterwards.

The closed forms (kernel.py) of the operations of DLGraph are evaluated over graphs that a case describes: a few layers, arcs and losses.
The single graphs are a boundary (view "graph"): their arcs are sets of index pairs, their answers follow from these.  The single graph
itself is decided from the calls it makes on its map of sets."""
import random
from .. import ir
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres, F
from ..terms import *
from ..absint import first_targ

E = "EdgeLearning::"
THIS = ("this",)
GT = E + "Graph::"
NAMES = ("_forward_graph", "_training_forward_graph", "_backward_graph")
END = ((float("inf"), 0),)
_t = {}


def module():
    if "m" not in _t:
        _t["m"] = ir.view("graph")
    return _t["m"]


def members(cls):
    t = module().types.get(E + cls)
    if t is None:
        raise AnalysisBroken("no class " + cls)
    return {x[0]: (x[1], x[2]) for x in t["members"]}


def offs():
    m = members("DLGraph")
    for k in NAMES + ("_layers", "_loss_layers_idx", "_input_layers_idx", "_output_layers_idx"):
        if k not in m:
            raise AnalysisBroken("DLGraph without " + k)
    return {k: v[0] for k, v in m.items()}


def functions(name):
    if "fns" not in _t:
        t = {}
        for f in module().fns.values():
            if "{lambda" in f.name:
                continue
            q, ps = strip_templates(f.name)
            t.setdefault(q, []).append((tuple(ps), f))
        _t["fns"] = t
    return _t["fns"].get(E + "DLGraph::" + name, [])


def slots():
    m = module()
    out = {}
    for i, r in enumerate((m.vtable(E + "DenseLayer") or [])[2:]):
        if r and r.get("ref"):
            n = m.dem.get(r["ref"]) if isinstance(m.dem, dict) else m.dem(r["ref"])
            if n:
                out[8 * i] = strip_templates(n)[0].split("::")[-1]
    return out


# ---------------------------------------------------------------- the objects
def pointee(i, p):
    q = i.shared(p[0], p[1], ZERO)
    if q[1][0] not in ("layer", "null"):
        raise Unres("the layer behind %s" % show(q[1])[:60])
    return q[1]


def graph_at(i, p):
    g = i.__dict__.setdefault("g", {})
    if p not in g:
        x = i.params.get(("graph", p))
        if x is None:
            raise Unres("an unknown graph")
        g[p] = x
    return g[p]


def graph_put(i, p, edges, nodes):
    i.__dict__.setdefault("g", {})[p] = (frozenset(edges), nodes)


def pointers(i, v, key=None):
    """the layers in a vector of shared pointers"""
    r = i.vdata(v)
    return [pointee(i, (r, 16 * k)) for k in range(i.vsize(v, key))]


def shared_vector(i, e, env, key):
    """vectors of shared pointers, of arcs and of layer addresses"""
    T = first_targ(e.full) or ""
    name = e.callee.split("::")[-1]
    arcs = T.endswith("DLGraph::Arc")
    if not T.startswith("std::shared_ptr<") and not arcs and not T.endswith("*"):
        return i.vecop(e, env, key)
    ps = strip_templates(e.full)[1]
    v = i.vplace(e.args[0], env)
    r = i.vdata(v)
    if T.endswith("*"):
        if name == "vector" and not ps or name == "clear":
            return i.vset(v, key, [])
        if name == "push_back":
            return i.vset(v, key, i.vget(v, key) + [i.arg_value(e.args[1], env, key)])
        if name in ("reserve", "shrink_to_fit"):
            return
        raise Unres(e.full[:80])
    parts = (0, 16) if arcs else (0,)
    size = 16 * len(parts)

    def put(n, xs):
        i.vsz.setdefault(v, []).append((key, n + len(xs)))
        for k, x in enumerate(xs):
            for o, y in zip(parts, x):
                i.alias[(r, size * (n + k) + o)] = ("P", y, ZERO)

    def of(p):
        return [pointee(i, (p[0], p[1] + o)) for o in parts]
    if name in ("vector", "operator=", "assign"):
        if not ps:
            return put(0, [])
        if ps[0].startswith("std::vector"):
            w = i.vplace(e.args[1], env)
            return w == v or put(0, [of((i.vdata(w), size * k)) for k in range(i.vsize(w, key))])
        if ps[0].startswith("std::initializer_list"):
            b, o = i.vplace(e.args[1], env)
            return put(0, [of((b, o + size * k)) for k in range(i.int(i.ev(e.args[2], env)))])
        if ("iterator" in ps[0] or ps[0].endswith("*")) and len(ps) > 1 and ps[1] == ps[0]:
            (b, o), (b2, o2) = i.vplace(e.args[1], env), i.vplace(e.args[2], env)
            if b == b2 and o <= o2 and (o2 - o) % size == 0:
                return put(0, [of((b, x)) for x in range(o, o2, size)])
    if name in ("push_back", "emplace_back") and len(e.args) == 2:
        return put(i.vsize(v, key), [of(i.vplace(e.args[1], env))])
    if name == "clear":
        return put(0, [])
    if name in ("reserve", "shrink_to_fit"):
        return
    raise Unres(e.full[:80])


def copy_shared(i, e, env, key):
    d = i.vplace(e.args[0], env)
    if len(e.args) < 2 or "nullptr_t" in e.full:
        i.alias[d] = ("P", ("null",), ZERO)
        return
    i.alias[d] = ("P", pointee(i, i.vplace(e.args[1], env)), ZERO)


def virtual(i, e, env, key):
    """layer->clone()"""
    args = list(e.args)
    t = args.pop(0)
    t = t.atom() if isinstance(t, Poly) else t
    t = t[1] if isinstance(t, tuple) and t[:1] == ("p",) and t[2] == ZERO else t
    if not (isinstance(t, tuple) and t[:1] == ("ld",) and t[1][0] == "ld"):
        raise Unres("a call through a pointer")
    name = slots().get(int(i.ai.as_poly(t[2]).const() or 0))
    if name != "clone" or len(args) != 2:
        raise Unres("a call of %s" % name)
    q = i.ptr(i.ai.as_ptr(args[1]), env)
    if q[1][0] != "layer":
        raise Unres("clone of %s" % show(q[1])[:60])
    i.alias[i.vplace(args[0], env)] = ("P", ("layer", q[1][1] + "'"), ZERO)


def cast(i, e, env, key):
    i.alias[i.vplace(e.args[0], env)] = ("P", pointee(i, i.vplace(e.args[1], env)), ZERO)


# ---------------------------------------------------------------- a single graph
def new_graph(i, e, env, key):
    p, w = i.vplace(e.args[0], env), i.vplace(e.args[1], env)
    if "Graph<" in strip_templates(e.full)[1][0] or strip_templates(e.full)[1][0].startswith(E + "Graph"):
        s, n = graph_at(i, w)
        return graph_put(i, p, s, n)
    graph_put(i, p, (), w)


def assign_graph(i, e, env, key):
    p, w = i.vplace(e.args[0], env), i.vplace(e.args[1], env)
    s, n = graph_at(i, w)
    if graph_at(i, p)[1] != n:
        raise Unres("assignment between graphs of different nodes")
    graph_put(i, p, s, n)


def assign_edges(i, e, env, key):
    p, w = i.vplace(e.args[0], env), i.vplace(e.args[1], env)
    o = i.params[("edges offset",)]
    p, w = (p[0], p[1] - o), (w[0], w[1] - o)
    graph_put(i, p, graph_at(i, w)[0], graph_at(i, p)[1])


def add_arc(i, e, env, key):
    p = i.vplace(e.args[0], env)
    s, n = graph_at(i, p)
    have = pointers(i, n, key)
    xs = [pointee(i, i.vplace(a, env)) for a in e.args[1:3]]
    if any(x not in have for x in xs):
        raise Unres("an arc of a layer that is not in the graph")
    graph_put(i, p, s | {tuple(have.index(x) for x in xs)}, n)


def ask(i, e, env):
    s, n = graph_at(i, i.vplace(e.args[0], env))
    x = i.int(i.ev(e.args[1], env))
    return ONE if any((f if e.callee.endswith("successors") else t) == x for f, t in s) else ZERO


def asked(i, e, env, key):
    i.__dict__.setdefault("asked", {})[(id(e), tuple(sorted(env.items())))] = ask(i, e, env)


def answer(i, e, env):
    r = i.__dict__.get("asked", {}).get((id(e), tuple(sorted(env.items()))))
    return r if r is not None else ask(i, e, env)


def neighbours(i, e, env, key):
    v = i.vplace(e.args[0], env)
    s, n = graph_at(i, i.vplace(e.args[1], env))
    x = i.int(i.ev(e.args[2], env))
    i.__dict__.setdefault("asks", []).append(e.callee)
    if e.callee.endswith("successors"):
        r = sorted(t for f, t in s if f == x)
    else:
        r = sorted(f for f, t in s if t == x)
    i.__dict__.setdefault("sets", {}).setdefault(v, []).append((key, len(r)))
    for k, y in enumerate(r):
        i.write(("members of", v), k, key, True, P(y))


def matrix(i, e, env, key):
    v = i.vplace(e.args[0], env)
    s, n = graph_at(i, i.vplace(e.args[1], env))
    m = i.vsize(n, key)
    i.vset(v, key, [P(1 if divmod(k, m) in s else 0) for k in range(m * m)])


# ---------------------------------------------------------------- sets and searches
def set_size(i, v, key):
    for k, n in reversed(i.__dict__.get("sets", {}).get(v, ())):
        if k < key:
            return n
    raise Unres("an unknown set")


def when(i, e, env):
    from .util import ev_key
    try:
        return i.stamp(ev_key(i.ai, e), env)
    except KeyError:
        raise Unres("time of %s" % e.callee)


def set_begin(i, e, env):
    return ("P", ("members of", i.vplace(e.args[0], env)), ZERO)


def set_end(i, e, env):
    v = i.vplace(e.args[0], env)
    return ("P", ("members of", v), P(8 * set_size(i, v, when(i, e, env))))


def iterator(i, p, env, key):
    b, o = i.vplace(p, env)
    v = i.read(b, o // 8, key)
    if not (isinstance(v, tuple) and v[:1] == ("P",) and v[1][0] == "members of"):
        raise Unres("an iterator")
    return v


def deref(i, e, env):
    return iterator(i, e.args[0], env, when(i, e, env))


def advance(i, e, env, key):
    b, o = i.vplace(e.args[0], env)
    v = iterator(i, e.args[0], env, key)
    if len(strip_templates(e.full)[1]):
        raise Unres("a postfix increment")
    i.write(b, o // 8, key, True, ("P", v[1], v[2] + 8))


def same_iterator(i, e, env):
    t = when(i, e, env)
    ps = strip_templates(e.full)[1]
    if ps and ps[0].startswith("std::shared_ptr<"):
        a, b = [("null",) if x.startswith("std::nullptr") or x.startswith("decltype") else pointee(i, i.vplace(y, env)) for x, y in zip(ps, list(e.args[:2]) + [None])]
    else:
        a, b = [iterator(i, x, env, t) for x in e.args[:2]]
    return ONE if (a == b) == e.callee.endswith("==") else ZERO


def find(i, e, env):
    (b, o), (b2, o2) = i.vplace(e.args[0], env), i.vplace(e.args[1], env)
    key = when(i, e, env)
    pb, po = i.vplace(e.args[2], env)
    if b != b2 or o2 < o:
        raise Unres("a search between two places")
    T = strip_templates(e.full)[1][-1]
    if "shared_ptr<" in T:
        x = pointee(i, (pb, po))
        for k in range(o, o2, 16):
            if pointee(i, (b, k)) == x:
                return ("P", b, P(k))
    else:
        x = i.read(pb, po // 8, key)
        for k in range(o, o2, 8):
            y = i.read(b, k // 8, key)
            if isinstance(x, tuple) != isinstance(y, tuple) or not isinstance(x, tuple) and (x.const() is None or y.const() is None):
                raise Unres("a search among unknown values")
            if x == y:
                return ("P", b, P(k))
    return ("P", b2, P(o2))


EFFECTS = {"<indirect>": virtual, "std::shared_ptr::shared_ptr": copy_shared, "std::shared_ptr::operator=": copy_shared,
           "std::dynamic_pointer_cast": cast, "std::static_pointer_cast": cast,
           GT + "Graph": new_graph, GT + "operator=": assign_graph, "std::map::operator=": assign_edges, GT + "add_arc": add_arc,
           GT + "has_successors": asked, GT + "has_predecessors": asked, GT + "successors": neighbours, GT + "predecessors": neighbours,
           GT + "adjacent_matrix": matrix, "std::_Rb_tree_const_iterator::operator++": advance}
for _n in ("vector", "operator=", "assign", "push_back", "emplace_back", "clear", "reserve", "shrink_to_fit", "resize"):
    EFFECTS["std::vector::" + _n] = shared_vector
CALLS = {GT + "has_successors": answer, GT + "has_predecessors": answer, "std::set::begin": set_begin, "std::set::end": set_end,
         "std::_Rb_tree_const_iterator::operator*": deref, "std::operator!=": same_iterator, "std::operator==": same_iterator, "std::find": find}
_k = {}


def kern(c, f):
    if f.key not in _k:
        _k[f.key] = Kern(c.absint(Absint(c.fn(f))), CALLS, EFFECTS, dynamic=True)
    return _k[f.key]


# ---------------------------------------------------------------- cases
class G(object):
    """what a graph holds: layer names, arcs by index, losses"""

    def __init__(self, layers, f=(), t=None, b=(), loss=(), ins=None, outs=None):
        self.layers, self.f, self.b, self.loss = list(layers), frozenset(f), frozenset(b), list(loss)
        self.t = frozenset(t) if t is not None else self.f
        self.ins, self.outs = ins, outs
        if ins is None:
            self.ins, self.outs = self.ends()

    def ends(self):
        n = [x for x in range(len(self.layers)) if x not in self.loss]
        return [x for x in n if all(t != x for f, t in self.f)], [x for x in n if all(f != x for f, t in self.f)]

    def refreshed(self):
        return G(self.layers, self.f, self.t, self.b, self.loss)

    def with_(self, **kw):
        d = dict(layers=self.layers, f=self.f, t=self.t, b=self.b, loss=self.loss, ins=self.ins, outs=self.outs)
        d.update(kw)
        return G(**d)

    def text(self):
        return "layers %s, arcs %s, losses %s" % ("".join(self.layers), " ".join("%d-%d" % x for x in sorted(self.t)), self.loss)


def bind(p, g, R=THIS):
    o = offs()
    p[("edges offset",)] = members("Graph<std::shared_ptr<EdgeLearning::Layer> >")["_edges"][0] if E + "Graph<std::shared_ptr<EdgeLearning::Layer> >" in module().types else 0
    p[("size", (R, o["_layers"]))] = len(g.layers)
    d = ("vec", ("p", R, P(o["_layers"])))
    for k, n in enumerate(g.layers):
        p[("shared", d, 16 * k)] = ("P", ("layer", n), ZERO)
    for nm, xs in (("_loss_layers_idx", g.loss), ("_input_layers_idx", g.ins), ("_output_layers_idx", g.outs)):
        p[("size", (R, o[nm]))] = len(xs)
        for k, x in enumerate(xs):
            p[(("vec", ("p", R, P(o[nm]))), k)] = x
    for nm, xs in zip(NAMES, (g.f, g.t, g.b)):
        p[("graph", (R, o[nm]))] = (xs, (R, o["_layers"]))


def state(i, R=THIS):
    o = offs()

    def nums(nm):
        return [i.int(x) for x in i.vget((R, o[nm]), END)]
    gs = [graph_at(i, (R, o[nm])) for nm in NAMES]
    if any(n != (R, o["_layers"]) for s, n in gs):
        return "a graph over other layers than its own"
    ls = []
    for x in pointers(i, (R, o["_layers"])):
        ls.append(x[1] if x[0] == "layer" else "null")
    return G(ls, gs[0][0], gs[1][0], gs[2][0], nums("_loss_layers_idx"), nums("_input_layers_idx"), nums("_output_layers_idx"))


WORDS = {"layers": "the layers are %s instead of %s", "f": "the forward arcs are %s instead of %s", "t": "the training arcs are %s instead of %s",
         "b": "the backward arcs are %s instead of %s", "loss": "the loss layers are %s instead of %s", "ins": "the input layers are %s instead of %s",
         "outs": "the output layers are %s instead of %s"}


def diff(have, want):
    if isinstance(have, str):
        return have
    for k, w in WORDS.items():
        a, b = getattr(have, k), getattr(want, k)
        if a != b:
            return w % (sorted(a) if isinstance(a, frozenset) else a, sorted(b) if isinstance(b, frozenset) else b)
    return None


def check(c, rule, name, cases, params=None, what=None):
    """cases: (text, parameters {}, want, how): want is compared with how(inst, kern)"""
    fs = [x for x in functions(name) if params is None or params(x[0])]
    where = "DLGraph::" + name
    if len(fs) != 1:
        c.ob(rule, where + (" " + what if what else ""), None, "%d such functions" % len(fs))
        return
    f = fs[0][1]
    try:
        k = kern(c, f)
        und, n = {}, 0
        for text, p, want, how in cases:
            n += 1
            try:
                i = k.at(p)
                t = i.throws()
                if t is True:
                    bad = "an exception is thrown"
                else:
                    i.final()
                    bad = how(i, k, want)
            except Unres as x:
                und.setdefault(str(x), text)
                continue
            if bad:
                c.ob(rule, f.where(), False, "%s: %s" % (text, bad), construct=where)
                return
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, f.where(), None, str(x))
        return
    if und:
        c.ob(rule, f.where(), None, "%s (%s)" % sorted(und.items())[0])
    else:
        c.ob(rule, f.where(), True, "%d graphs" % n)


def after(i, k, want):
    return diff(state(i), want)


GRAPHS = [
    G("A"), G("ABC"), G("ABL", loss=[2]),
    G("ABCL", f=[(0, 1), (1, 2)], t=[(0, 1), (1, 2), (2, 3)], b=[(3, 2), (2, 1), (1, 0)], loss=[3]),
    G("LABC", f=[(1, 2), (1, 3), (2, 3)], t=[(1, 2), (1, 3), (2, 3), (3, 0)], b=[(0, 3), (3, 1), (3, 2), (2, 1)], loss=[0]),
    G("ALBMC", f=[(0, 2), (4, 2)], t=[(0, 2), (4, 2), (2, 1), (2, 3)], b=[(1, 2), (2, 4)], loss=[1, 3]),
    G("ABCDE", f=[(0, 2), (1, 2), (2, 3), (2, 4), (3, 4)], b=[(4, 3), (4, 2), (3, 2), (2, 1), (2, 0)], loss=[]),
]


def some(n, seed=30):
    """graphs of every kind: arcs among up to five layers, losses of any place behind some of them"""
    r, out = random.Random(seed), []
    while len(out) < n:
        m = r.randint(2, 6)
        loss = sorted(r.sample(range(m), r.randint(0, min(2, m - 1))))
        lay = [x for x in range(m) if x not in loss]
        order = lay[:]
        r.shuffle(order)
        es = [(a, b) for k, a in enumerate(order) for b in (order if r.random() < 0.15 else order[k + 1:]) if r.random() < 0.5]
        to = [(a, x) for x in loss for a in lay if r.random() < 0.6]
        back = [(b, a) for a, b in es + to if r.random() < 0.9]
        out.append(G([chr(65 + x) for x in range(m)], f=es, t=es + to, b=back, loss=loss))
    return out


GRAPHS += some(8)


def layer_at(p, k, n):
    p[("shared", ("arg", k), 0)] = ("P", ("layer", n), ZERO)


def layers_at(p, k, ns):
    p[("size", (("arg", k), 0))] = len(ns)
    for j, n in enumerate(ns):
        p[("shared", ("vec", ("p", ("arg", k), ZERO)), 16 * j)] = ("P", ("layer", n), ZERO)


LAYER = "std::shared_ptr<EdgeLearning::Layer>"
LOSS = "std::shared_ptr<EdgeLearning::LossLayer>"


def kind(p):
    if p.startswith("std::vector<"):
        return "many"
    return "loss" if p == LOSS else "one" if p == LAYER else p


def building(c):
    rule = "what adding to a graph changes"

    def node():
        for g in GRAPHS:
            for n in ["Z"] + g.layers:
                p = {}
                bind(p, g)
                layer_at(p, 1, n)
                yield "add %s to %s" % (n, g.text()), p, g if n in g.layers else g.with_(layers=g.layers + [n]).refreshed(), after
    c.part(lambda c: check(c, rule, "add_node", node()))

    def loss():
        for g in GRAPHS:
            p = {}
            bind(p, g)
            layer_at(p, 1, "Z")
            yield "add the loss Z to " + g.text(), p, g.with_(layers=g.layers + ["Z"], loss=g.loss + [len(g.layers)]).refreshed(), after
    c.part(lambda c: check(c, rule, "add_loss", loss()))

    def arcs(fwd, back, kinds):
        for g in GRAPHS:
            lay = [x for x in range(len(g.layers)) if x not in g.loss]
            for xs in ([lay[-1]], lay[:2], lay[::-1]):
                for y in (g.loss if "loss" in kinds else lay[:1] + lay[-1:]):
                    if "many" not in kinds and len(xs) > 1:
                        continue
                    p = {}
                    bind(p, g)
                    for k, x in enumerate(kinds):
                        if x == "many":
                            layers_at(p, k + 1, [g.layers[j] for j in xs])
                        else:
                            layer_at(p, k + 1, g.layers[y] if x == "loss" or k == 1 or "many" in kinds else g.layers[xs[0]])
                    if "many" in kinds and kinds[0] != "many":
                        es = {(y, x) for x in xs}
                        text = "%s to %s" % (g.layers[y], [g.layers[x] for x in xs])
                    else:
                        es = {(x, y) for x in xs}
                        text = "%s to %s" % ([g.layers[x] for x in xs], g.layers[y])
                    w = g
                    if fwd:
                        w = w.with_(t=w.t | es)
                        if "loss" not in kinds:
                            w = w.with_(f=w.f | es).refreshed()
                    if back:
                        w = w.with_(b=w.b | ({(y, x) for x, y in es} if back == "turned" else es))
                    yield "%s in %s" % (text, g.text()), p, w, after
    for name, fwd, back, ks in (
            ("add_edge", True, "turned", (("one", "one"), ("one", "loss"), ("many", "one"), ("many", "loss"), ("one", "many"))),
            ("add_arc_forward", True, None, (("one", "one"), ("one", "loss"), ("many", "one"), ("many", "loss"), ("one", "many"))),
            ("add_arc_backward", False, "as is", (("one", "one"), ("many", "one"), ("one", "many")))):
        for kk in ks:
            c.part(lambda c: check(c, rule, name, arcs(fwd, back, kk), lambda ps: tuple(map(kind, ps)) == kk, "(%s, %s)" % kk))


def copying(c):
    rule = "a copy of a graph has layers of its own and the same arcs"

    def cases(old):
        for g in GRAPHS:
            for mine in ([G("XYL", f=[(0, 1)], b=[(1, 0)], loss=[2]), G("P")] if old else [None]):
                p = {}
                if mine:
                    bind(p, mine)
                bind(p, g, ("arg", 1))

                def how(i, k, want):
                    d = diff(state(i), want)
                    return d or diff(state(i, ("arg", 1)), g)
                yield g.text(), p, g.with_(layers=[n + "'" for n in g.layers]).refreshed(), how
    c.part(lambda c: check(c, rule, "DLGraph", cases(False), lambda ps: len(ps) == 1))
    c.part(lambda c: check(c, rule, "operator=", cases(True)))


def vec_of(i, want, text):
    v = (("arg", 0), 0)
    n = i.vsize(v, END)
    have = [i.int(x) for x in i.vget(v, END)]
    return None if have == want else "%s %s instead of %s" % (text, have, want)


def ptrs_of(i, want):
    have = [x[1] if x[0] == "layer" else "null" for x in pointers(i, (("arg", 0), 0))]
    return None if have == want else "returns the layers %s instead of %s" % (have, want)


def questions(c):
    rule = "what a graph answers"

    def cases(f, how, index=None):
        for g in GRAPHS:
            for x in (range(len(g.layers)) if index is not None else (None,)):
                p = {}
                bind(p, g)
                if index is not None:
                    p[("arg", index)] = x
                yield "%s%s" % ("layer %d of " % x if x is not None else "", g.text()), p, f(g, x) if index is not None else f(g), how

    def number(i, k, want):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            if i.active(e.b, {}) is False:
                continue
            v = i.ev(e.args[0], {})
            if i.int(v) != want:
                return "returns %s instead of %s" % (i.int(v), want)

    def members_of(i, k, want):
        v = (("arg", 0), 0)
        n = set_size(i, v, END)
        have = [i.int(i.read(("members of", v), j, END)) for j in range(n)]
        return None if have == want else "returns the layers %s instead of %s" % (have, want)
    idx = lambda i, k, want: vec_of(i, want, "returns")
    ptr = lambda i, k, want: ptrs_of(i, want)
    for nm, w in (("training_forward", "t"), ("forward", "f"), ("backward", "b")):
        c.part(lambda c: check(c, rule, "has_" + nm, cases(lambda g, x: int(any(f == x for f, t in getattr(g, w))), number, 1)))
        c.part(lambda c: check(c, rule, "has_%s_predecessors" % nm, cases(lambda g, x: int(any(t == x for f, t in getattr(g, w))), number, 1)))
        c.part(lambda c: check(c, rule, nm, cases(lambda g, x: sorted(t for f, t in getattr(g, w) if f == x), members_of, 2)))
        c.part(lambda c: check(c, rule, nm + "_predecessors", cases(lambda g, x: sorted(f for f, t in getattr(g, w) if t == x), members_of, 2)))
        c.part(lambda c: check(c, rule, nm + "_adjacent_matrix",
                               cases(lambda g: [int((a, b) in getattr(g, w)) for a in range(len(g.layers)) for b in range(len(g.layers))], idx)))
    for nm in ("layers_idx", "training_forward_layers_idx", "backward_layers_idx"):
        c.part(lambda c: check(c, rule, nm, cases(lambda g: list(range(len(g.layers))), idx)))
    c.part(lambda c: check(c, rule, "forward_layers_idx", cases(lambda g: [x for x in range(len(g.layers)) if x not in g.loss], idx)))
    c.part(lambda c: check(c, rule, "loss_layers_idx", cases(lambda g: g.loss, idx)))
    for nm in ("training_forward_layers", "backward_layers"):
        c.part(lambda c: check(c, rule, nm, cases(lambda g: g.layers, ptr)))
    c.part(lambda c: check(c, rule, "forward_layers", cases(lambda g: [n for x, n in enumerate(g.layers) if x not in g.loss], ptr)))
    c.part(lambda c: check(c, rule, "input_layers", cases(lambda g: [g.layers[x] for x in g.ins], ptr)))
    c.part(lambda c: check(c, rule, "output_layers", cases(lambda g: [g.layers[x] for x in g.outs], ptr)))
    c.part(lambda c: check(c, rule, "loss_layers", cases(lambda g: [g.layers[x] for x in g.loss], ptr)))
    c.part(lambda c: check(c, rule, "size", cases(lambda g: len(g.layers), number)))

    def place(i, k, want):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            q = i.ptr(e.args[0], {})
            if (q[1], i.int(q[2])) != want:
                return "returns another list"
    for nm in ("layers", "input_layers_idx", "output_layers_idx"):
        c.part(lambda c: check(c, rule, nm, cases(lambda g: (THIS, offs()["_" + nm]), place)))

    def one(i, k, want):
        q = pointee(i, (("arg", 0), 0))
        return None if q == ("layer", want) else "returns %s instead of layer %s" % (show(q), want)
    for nm in ("layer", "operator[]"):
        c.part(lambda c: check(c, rule, nm, cases(lambda g, x: g.layers[x], one, 2)))

    def index():
        for g in GRAPHS:
            for x, n in list(enumerate(g.layers)) + [(-1, "Z")]:
                p = {}
                bind(p, g)
                p[("arg", 1)] = ("P", ("layer", n), ZERO)
                yield "%s in %s" % (n, g.text()), p, x, number
    c.part(lambda c: check(c, rule, "index_of", index()))


def reachable(es, start):
    seen, todo = set(start), list(start)
    while todo:
        f = todo.pop()
        for x, y in es:
            if x == f and y not in seen:
                seen.add(y)
                todo.append(y)
    return sorted((f, t) for f, t in es if f in seen)


RUNS = GRAPHS + [
    G("ABC", f=[(0, 1), (1, 2), (2, 1)], b=[(2, 1), (1, 0)], loss=[]),
    G("ABCDL", f=[(0, 1), (0, 2), (1, 3), (2, 3)], t=[(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], b=[(4, 3), (3, 1), (3, 2), (1, 0), (2, 0)], loss=[4]),
    G("ABL", f=[(0, 1), (1, 1)], t=[(0, 1), (1, 1), (1, 2)], b=[(2, 1), (1, 1), (1, 0)], loss=[2]),
    G("DCBAL", f=[(3, 2), (2, 1), (1, 0), (3, 0)], t=[(3, 2), (2, 1), (1, 0), (3, 0), (0, 4)], b=[(4, 0), (0, 1), (1, 2), (2, 3), (0, 3)], loss=[4]),
]


RUNS.append(G("ABCDEL", f=[(0, 1), (1, 2), (2, 3), (0, 3), (3, 4)], t=[(0, 1), (1, 2), (2, 3), (0, 3), (3, 4), (4, 5)],
              b=[(5, 4), (4, 3), (3, 2), (2, 1), (5, 1), (1, 0)], loss=[5]))
RUNS += some(40, 7)


def visits(c):
    rule = "a run takes every arc that can be reached once, from what was reached before"

    def cases(w, start):
        for g in RUNS:
            p = {}
            bind(p, g)
            yield g.text(), p, (g, reachable(getattr(g, w), getattr(g, start)), [g.layers[x] for x in getattr(g, start)]), how

    def how(i, k, want):
        g, arcs, have = want
        arcs = [(g.layers[f], g.layers[t]) for f, t in arcs]
        v = (("arg", 0), 0)
        r = i.vdata(v)
        got = []
        am = members("DLGraph::Arc")
        for j in range(i.vsize(v, END)):
            x = tuple(pointee(i, (r, 32 * j + am[m][0])) for m in ("from", "to"))
            got.append(tuple(y[1] if y[0] == "layer" else "null" for y in x))
        have = set(have)
        for f, t in got:
            if (f, t) not in arcs:
                return "the arc from %s to %s is none of the graph, or cannot be reached" % (f, t)
            if got.count((f, t)) > 1:
                return "the arc from %s to %s is taken twice" % (f, t)
            if f not in have:
                return "the arc from %s to %s is taken before %s was reached" % (f, t, f)
            have.add(t)
        for x in arcs:
            if x not in got:
                return "the arc from %s to %s is not taken" % x
    for name, w, start in (("training_forward_run", "t", "ins"), ("forward_run", "f", "ins"), ("backward_run", "b", "loss")):
        c.part(lambda c: check(c, rule, name, cases(w, start)))


# ---------------------------------------------------------------- the single graph, on its map of sets
def last(h, key):
    for k, x in reversed(h):
        if k < key:
            return x
    return None


def keys_of(i, m, key):
    x = last(i.__dict__.get("maps", {}).get(m, ()), key)
    if x is None:
        x = i.params.get(("map", m))
    if x is None:
        raise Unres("an unknown map")
    return x


def set_of(i, v, key):
    n = last(i.__dict__.get("sets", {}).get(v, ()), key)
    if n is None:
        x = i.params.get(("set", v))
        if x is None:
            raise Unres("an unknown set")
        return list(x)
    return [i.int(i.read(("members of", v), k, key)) for k in range(n)]


def set_put(i, v, key, xs):
    i.__dict__.setdefault("sets", {}).setdefault(v, []).append((key, len(xs)))
    for k, y in enumerate(xs):
        i.write(("members of", v), k, key, True, P(y))


def map_put(i, m, key, xs):
    i.__dict__.setdefault("maps", {}).setdefault(m, []).append((key, tuple(xs)))


def entry(m, k):
    return (("entry", m, k), 8)


def number_at(i, p, env, key):
    b, o = i.vplace(p, env)
    return i.int(i.read(b, o // 8, key))


def is_set(i, v):
    return v in i.__dict__.get("sets", {}) or ("set", v) in i.params


def map_new(i, e, env, key):
    m = i.vplace(e.args[0], env)
    if len(e.args) < 2:
        return map_put(i, m, key, ())
    w = i.vplace(e.args[1], env)
    ks = keys_of(i, w, key)
    if w == m:
        return
    for k in ks:
        set_put(i, entry(m, k), key, set_of(i, entry(w, k), key))
    map_put(i, m, key, ks)


def map_at_key(i, e, env, key):
    """operator[] makes an entry"""
    m = i.vplace(e.args[0], env)
    x, ks = number_at(i, e.args[1], env, key), keys_of(i, m, key)
    if x not in ks:
        set_put(i, entry(m, x), key, [])
        map_put(i, m, key, sorted(ks + (x,)))


def map_entry(i, e, env):
    t = when(i, e, env)
    m = i.vplace(e.args[0], env)
    x = number_at(i, e.args[1], env, t)
    if e.callee.endswith("::at") and x not in keys_of(i, m, t):
        raise Unres("no entry for %d" % x)
    r = entry(m, x)
    return ("P", r[0], P(r[1]))


def map_count(i, e, env):
    t = when(i, e, env)
    return ONE if number_at(i, e.args[1], env, t) in keys_of(i, i.vplace(e.args[0], env), t) else ZERO


def map_iter(i, e, env):
    t = when(i, e, env)
    m = i.vplace(e.args[0], env)
    ks = keys_of(i, m, t)
    if e.callee.endswith("find"):
        x = number_at(i, e.args[1], env, t)
        return ("P", ("map of", m, ks), P(ks.index(x) if x in ks else len(ks)))
    return ("P", ("map of", m, ks), P(0 if e.callee.endswith("begin") else len(ks)))


def map_empty(i, e, env):
    ks = keys_of(i, i.vplace(e.args[0], env), when(i, e, env))
    return P(len(ks)) if e.callee.endswith("size") else P(0 if ks else 1)


def gset_begin(i, e, env):
    v = i.vplace(e.args[0], env)
    xs = set_of(i, v, when(i, e, env))
    return ("P", ("members of", v), P(0 if e.callee.endswith("begin") else 8 * len(xs)))


def gset_find(i, e, env):
    t = when(i, e, env)
    v = i.vplace(e.args[0], env)
    xs, x = set_of(i, v, t), number_at(i, e.args[1], env, t)
    if e.callee.endswith("count"):
        return P(xs.count(x))
    return ("P", ("members of", v), P(8 * (xs.index(x) if x in xs else len(xs))))


def gset_empty(i, e, env):
    xs = set_of(i, i.vplace(e.args[0], env), when(i, e, env))
    return P(len(xs)) if e.callee.endswith("size") else P(0 if xs else 1)


def gset_new(i, e, env, key):
    v = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1]
    if ps and ps[0].startswith("std::initializer_list"):
        b, o = i.vplace(e.args[1], env)
        return set_put(i, v, key, sorted({i.int(i.read(b, o // 8 + j, key)) for j in range(i.int(i.ev(e.args[2], env)))}))
    if ps and not ps[0].startswith("std::set<"):
        raise Unres(e.full[:80])
    set_put(i, v, key, set_of(i, i.vplace(e.args[1], env), key) if ps else [])


def gset_erase(i, e, env, key):
    v = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1]
    xs = []
    if ps:
        if len(ps) != 1 or "iterator" in ps[0]:
            raise Unres(e.full[:80])
        x = number_at(i, e.args[1], env, key)
        xs = [y for y in set_of(i, v, key) if y != x]
    set_put(i, v, key, xs)


def map_erase(i, e, env, key):
    m = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1]
    ks = ()
    if ps:
        if len(ps) != 1 or "iterator" in ps[0]:
            raise Unres(e.full[:80])
        x = number_at(i, e.args[1], env, key)
        ks = tuple(y for y in keys_of(i, m, key) if y != x)
    map_put(i, m, key, ks)


def gset_insert(i, e, env, key):
    v = i.vplace(e.args[0], env)
    if len(e.args) != 2:
        raise Unres(e.full[:80])
    set_put(i, v, key, sorted(set(set_of(i, v, key) + [number_at(i, e.args[1], env, key)])))


def any_iterator(i, p, env, key):
    b, o = i.vplace(p, env)
    v = i.read(b, o // 8, key)
    if not (isinstance(v, tuple) and v[:1] == ("P",) and v[1][0] in ("members of", "map of")):
        raise Unres("an iterator")
    return v


def gderef(i, e, env):
    v = any_iterator(i, e.args[0], env, when(i, e, env))
    if v[1][0] == "map of":
        k = i.int(v[2])
        if not 0 <= k < len(v[1][2]):
            raise Unres("an iterator at the end")
        return ("P", ("entry", v[1][1], v[1][2][k]), ZERO)
    return v


def gadvance(i, e, env, key):
    b, o = i.vplace(e.args[0], env)
    v = any_iterator(i, e.args[0], env, key)
    if len(strip_templates(e.full)[1]):
        raise Unres("a postfix increment")
    i.write(b, o // 8, key, True, ("P", v[1], v[2] + (1 if v[1][0] == "map of" else 8)))


def gsame(i, e, env):
    t = when(i, e, env)
    a, b = [any_iterator(i, x, env, t) for x in e.args[:2]]
    if a[1] != b[1]:
        raise Unres("iterators of two containers")
    return ONE if (a == b) == e.callee.endswith("==") else ZERO


EFFECTS1 = {"std::shared_ptr::shared_ptr": copy_shared, "std::map::map": map_new, "std::map::operator=": map_new,
            "std::map::operator[]": map_at_key, "std::set::set": gset_new, "std::set::operator=": gset_new, "std::set::insert": gset_insert,
            "std::set::emplace": gset_insert, "std::set::erase": gset_erase, "std::set::clear": gset_erase, "std::map::erase": map_erase, "std::map::clear": map_erase,
            "std::_Rb_tree_const_iterator::operator++": gadvance, "std::_Rb_tree_iterator::operator++": gadvance}
for _n in ("vector", "operator=", "assign", "push_back", "emplace_back", "clear", "reserve", "shrink_to_fit", "resize"):
    EFFECTS1["std::vector::" + _n] = shared_vector
CALLS1 = {"std::map::count": map_count, "std::map::contains": map_count, "std::map::at": map_entry, "std::map::operator[]": map_entry,
          "std::map::empty": map_empty, "std::map::size": map_empty, "std::find": find, "std::operator!=": gsame, "std::operator==": gsame,
          "std::set::empty": gset_empty, "std::set::size": gset_empty, "std::set::find": gset_find, "std::set::count": gset_find}
for _n in ("begin", "end", "cbegin", "cend"):
    CALLS1["std::map::" + _n] = map_iter
    CALLS1["std::set::" + _n] = gset_begin
CALLS1["std::map::find"] = map_iter
for _n in ("_Rb_tree_const_iterator", "_Rb_tree_iterator"):
    for _o in ("operator*", "operator->"):
        CALLS1["std::%s::%s" % (_n, _o)] = gderef
NODES = ("member", "nodes")


def single(c):
    m = ir.view("graphs")
    rule = "a graph keeps the arcs that were entered"
    fns, tn = {}, None
    for f in m.fns.values():
        q, ps = strip_templates(f.name)
        if q.startswith(GT):
            fns.setdefault(q[len(GT):], []).append((tuple(ps), f))
    for t in m.types:
        if t.startswith(E + "Graph<"):
            tn = {x[0]: x[1] for x in m.types[t]["members"]}
    if not tn or "_edges" not in tn or "_nodes" not in tn:
        raise AnalysisBroken("no class Graph")
    eo, no = tn["_edges"], tn["_nodes"]

    def put(p, n, es, R=THIS, nodes=NODES):
        p[("ld", R, P(no), 8)] = ("P", nodes, ZERO)
        p[(R, no // 8)] = ("P", nodes, ZERO)
        p[("size", (nodes, 0))] = n
        for k in range(n):
            p[("shared", ("vec", ("p", nodes, ZERO)), 16 * k)] = ("P", ("layer", "ABCDEFGH"[k]), ZERO)
        ks = sorted({f for f, t in es})
        mp = (R, eo)
        p[("map", mp)] = tuple(ks)
        for k in ks:
            v = entry(mp, k)
            p[(v[0], 0)] = k
            xs = sorted(t for f, t in es if f == k)
            p[("set", v)] = xs
            for j, x in enumerate(xs):
                p[(("members of", v), j)] = x

    def arcs(i, R=THIS):
        mp = (R, eo)
        return sorted((k, x) for k in keys_of(i, mp, END) for x in set_of(i, entry(mp, k), END))
    SHAPES = [(1, ()), (2, ((0, 1),)), (3, ((0, 1), (0, 2), (1, 2))), (4, ((3, 1), (1, 0), (0, 3), (2, 2))), (4, ((0, 3), (1, 3), (2, 3)))]

    def go(name, cases, params=None):
        fs = [x for x in fns.get(name, ()) if params is None or params(x[0])]
        where = "Graph::" + name
        if len(fs) != 1:
            c.ob(rule, where, None, "%d such functions" % len(fs))
            return
        f = fs[0][1]
        try:
            k = Kern(c.absint(Absint(c.fn(f))), CALLS1, EFFECTS1, dynamic=True)
            und, n = {}, 0
            for text, p, how in cases:
                n += 1
                try:
                    i = k.at(p)
                    bad = how(i, k)
                except Unres as x:
                    und.setdefault(str(x), text)
                    continue
                if bad:
                    c.ob(rule, f.where(), False, "%s: %s" % (text, bad), construct=where)
                    return
        except (Unres, AnalysisBroken) as x:
            c.ob(rule, f.where(), None, str(x))
            return
        c.ob(rule, f.where(), None if und or not n else True, "%s (%s)" % sorted(und.items())[0] if und else "%d graphs" % n)

    def txt(n, es):
        return "%d nodes, arcs %s" % (n, " ".join("%d-%d" % x for x in es))

    def add():
        for n, es in SHAPES:
            for a in range(n + 1):
                for b in range(n + 1):
                    p = {}
                    put(p, n, es)
                    layer_at(p, 1, "ABCDEFGH"[a])
                    layer_at(p, 2, "ABCDEFGH"[b])

                    def how(i, k, a=a, b=b, n=n, es=es):
                        t = i.throws()
                        if a == n or b == n:
                            return None if t is True else "an arc of a node that is not in the graph is accepted"
                        if t is True:
                            return "an exception is thrown"
                        i.final()
                        have, want = arcs(i), sorted(set(es) | {(a, b)})
                        return None if have == want else "the arcs are %s instead of %s" % (have, want)
                    yield "%d-%d into %s" % (a, b, txt(n, es)), p, how
    c.part(lambda c: go("add_arc", add()))

    def ask(f, index, get):
        for n, es in SHAPES:
            for x in range(n):
                p = {}
                put(p, n, es)
                p[("arg", index)] = x

                def how(i, k, x=x, es=es):
                    if i.throws() is True:
                        return "an exception is thrown"
                    i.final()
                    have, want = get(i, k), f(x, es)
                    return None if have == want else "answers %s instead of %s" % (have, want)
                yield "node %d of %s" % (x, txt(n, es)), p, how

    def number(i, k):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            if i.active(e.b, {}) is not False:
                return i.int(i.ev(e.args[0], {}))

    def elems(i, k):
        return set_of(i, (("arg", 0), 0), END)
    c.part(lambda c: go("has_successors", ask(lambda x, es: int(any(f == x for f, t in es)), 1, number)))
    c.part(lambda c: go("has_predecessors", ask(lambda x, es: int(any(t == x for f, t in es)), 1, number)))
    c.part(lambda c: go("successors", ask(lambda x, es: sorted(t for f, t in es if f == x), 2, elems)))
    c.part(lambda c: go("predecessors", ask(lambda x, es: sorted(f for f, t in es if t == x), 2, elems)))

    def whole(f, get):
        for n, es in SHAPES:
            p = {}
            put(p, n, es)

            def how(i, k, n=n, es=es):
                if i.throws() is True:
                    return "an exception is thrown"
                i.final()
                have, want = get(i, k), f(n, es)
                return None if have == want else "answers %s instead of %s" % (have, want)
            yield txt(n, es), p, how
    c.part(lambda c: go("adjacent_matrix", whole(lambda n, es: [int((a, b) in es) for a in range(n) for b in range(n)],
                                                 lambda i, k: [i.int(x) for x in i.vget((("arg", 0), 0), END)])))

    def returned(i, k):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            q = i.ptr(e.args[0], {})
            return q[1], i.int(q[2])
    c.part(lambda c: go("nodes", whole(lambda n, es: (NODES, 0), returned)))
    c.part(lambda c: go("edges", whole(lambda n, es: (THIS, eo), returned)))

    def fresh(old):
        for n, es in SHAPES:
            p = {}
            put(p, n, es, ("arg", 1))
            if old:
                put(p, n, ((0, 0),))

            def how(i, k, es=es):
                if i.throws() is True:
                    return "an exception is thrown"
                fin = i.final()
                have, want = arcs(i), sorted(es)
                if have != want:
                    return "the arcs are %s instead of %s" % (have, want)
                if not old and fin.get(THIS, {}).get(no // 8) != ("P", NODES, ZERO):
                    return "the copy has other nodes"
            yield txt(n, es), p, how
    c.part(lambda c: go("Graph", fresh(False), lambda ps: "Graph<" in ps[0] or ps[0].startswith(E + "Graph")))
    c.part(lambda c: go("operator=", fresh(True)))

    def empty():
        p = {}

        def how(i, k):
            fin = i.final()
            if arcs(i):
                return "a new graph has arcs"
            if fin.get(THIS, {}).get(no // 8) != ("P", ("arg", 1), ZERO):
                return "a new graph has other nodes"
        yield "a new graph", p, how
    c.part(lambda c: go("Graph", empty(), lambda ps: ps[0].startswith("std::vector<")))


def check_graph(c):
    c.part(single)
    building(c)
    copying(c)
    questions(c)
    visits(c)


def C30(c):
    check_graph(c)
