"""What a model keeps of its graph: the lists it runs over are those of the graph as it is now.

A typestate analysis over every path of every function of Model.  The graph is a boundary (view "model"); each answer of the graph has a
version that changes when the graph is changed in a way that may change the answer, and each list of a model has the question and the
version it was last assigned from.  Wherever a function returns normally, every list must hold the current version of its own question."""
from .. import ir
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres
from ..terms import *
from .util import normal_blocks

E = "EdgeLearning::"
G = E + "DLGraph::"
LISTS = ("layers", "input_layers", "output_layers", "loss_layers", "training_forward_run", "forward_run", "backward_run")
ENDS = ("input_layers", "output_layers")
FORWARD = ENDS + ("training_forward_run", "forward_run")
# what each change of a graph may change in its answers
CHANGES = {"add_node": ("layers",), "add_loss": ("layers", "loss_layers"), "add_arc_backward": ("backward_run",),
           "add_arc_forward": FORWARD, "add_edge": FORWARD + ("backward_run",)}
# not declared const, but without effect on the graph
READS = {"layer", "operator[]", "index_of", "as", "size", "~DLGraph"}
LIMIT = 4000
_t = {}


def module():
    if "m" not in _t:
        _t["m"] = ir.view("model")
    return _t["m"]


def members(cls):
    t = module().types.get(E + cls)
    if t is None:
        raise AnalysisBroken("no class " + cls)
    return {x[0]: (x[1], x[2]) for x in t["members"]}


def state_offsets():
    """(offset of the graph in a Model, {list: offset})"""
    m, s = members("Model"), members("Model::State")
    gr = [k for k, (o, t) in s.items() if t == E + "DLGraph"]
    st = [k for k, (o, t) in m.items() if t == E + "Model::State"]
    if len(gr) != 1 or len(st) != 1:
        raise AnalysisBroken("a model without one graph")
    b = m[st[0]][0]
    return b + s[gr[0]][0], {k: b + s[k][0] for k in LISTS if k in s}


def functions():
    """[(function, name, parameters)] of Model and its friends"""
    out = []
    for f in module().fns.values():
        if "{lambda" in f.name:
            continue
        q, ps = strip_templates(f.name)
        if q.startswith(E + "Model::") and q.count("::") == 2 or q == E + "swap" and any("Model&" in p for p in ps):
            out.append((f, q[len(E):], list(ps)))
    return sorted(out, key=lambda x: x[0].name)


def models_of(f, q, ps):
    """(regions of the models a function works on, those of them that it may change and that live on afterwards)"""
    out, live = [], []
    member = q.startswith("Model::")
    if member:
        out.append(("this",))
        live.append(("this",))
    for k, p in enumerate(ps):
        r = ("arg", k + (1 if member else 0))
        if p in (E + "Model&", E + "Model&&", E + "Model", E + "Model const&"):
            out.append(r)
        if p in (E + "Model&", E + "Model&&"):
            live.append(r)
    return out, live


class Walk(object):
    def __init__(self, ai, goff, loff, ms, live, ctor):
        self.ai, self.goff, self.loff, self.ms, self.live = ai, goff, loff, ms, live
        self.lists = {}
        self.good = normal_blocks(ai)
        self.evs = {}
        for e in ai.events:
            self.evs.setdefault(e.b, []).append(e)
        for x in self.evs.values():
            x.sort(key=lambda e: e.ins.j)
        self.refs = {}         # results that refer to the list inside of a graph
        for e in ai.events:
            if e.kind == "call" and e.callee.startswith(G) and e.callee[len(G):] in LISTS and len(e.args) == 1 and e.res is not None:
                self.refs[self.key(e.res)] = (self.loc(e.args[0]), e.callee[len(G):])
        self.bad = {}
        self.und = set()
        s = {}
        for m in ms:
            for k in LISTS:
                init = ("never", m) if ctor and m == ("this",) else ("entry", m)
                s[("tok", (m, goff), k)] = init + (k,)
                if k in loff:
                    s[("list", (m, loff[k]))] = (k, init + (k,)) if not ctor or m != ("this",) else None
        self.start = s

    @staticmethod
    def key(r):
        if isinstance(r, Poly):
            r = r.atom()
        return r[1] if isinstance(r, tuple) and r[:1] == ("p",) else r

    def loc(self, p):
        try:
            p = self.ai.as_ptr(p)
        except Exception:
            return None
        o = p[2].const()
        return (p[1], int(o)) if o is not None else None

    def run(self):
        todo, seen, n = [(0, frozenset(self.start.items()))], set(), 0
        while todo:
            b, s = todo.pop()
            if (b, s) in seen or b not in self.good:
                continue
            seen.add((b, s))
            n += 1
            if n > LIMIT:
                raise Unres("too many paths")
            d = dict(s)
            for e in self.evs.get(b, ()):
                self.step(e, d)
            T = self.ai.fn.blocks[b][-1]
            if T.op == "ret":
                self.exit(d, b)
            t = frozenset(d.items())
            for x in dict.fromkeys(self.ai.fn.succ[b]):
                if (b, x) in self.ai.out_state:
                    todo.append((x, t))
        return n

    def exit(self, d, b):
        for m in self.live:
            for k, o in self.loff.items():
                v, t = d.get(("list", (m, o))), d.get(("tok", (m, self.goff), k))
                if v is None or v[1] is None or t is None:
                    self.und.add((m, k))
                elif v[0] != k:
                    self.bad[(m, k)] = "is the graph's %s" % v[0] if v[0] else "is left empty"
                elif v[1] != t:
                    self.bad[(m, k)] = "is not asked for again after the graph %s" % (t[3] if len(t) > 3 else "was changed") if t[0] != "never" else "is not asked for"

    def forget(self, d, region=None):
        for k in list(d):
            l = k[1]
            if region is None or l[0] == region:
                d[k] = None

    def value(self, p, d):
        r = self.refs.get(self.key(p))
        if r is not None:
            return (r[1], d.get(("tok", r[0], r[1]))) if r[0] is not None else None
        l = self.loc(p)
        return d.get(("list", l)) if l else None

    def step(self, e, d):
        if e.kind == "store":
            l = self.loc(e.args[0])
            if l is not None and ("tok", (l[0], self.goff), "layers") in d and l[1] >= self.goff:
                self.forget(d, l[0])
            return
        if e.kind in ("memcpy", "memset"):
            l = self.loc(e.args[0])
            if l is not None and l[0] in self.ms:
                self.forget(d, l[0])
            return
        if e.kind != "call":
            return
        name = e.callee.split("::")[-1]
        if e.callee.startswith(G):
            self.graph(e, name, d)
        elif e.callee.startswith("std::vector::"):
            l = self.loc(e.args[0]) if e.args else None
            if name in ("vector", "operator="):
                if len(e.args) >= 2:
                    v = self.value(e.args[1], d)
                    if l is None:
                        return self.forget(d)
                    d[("list", l)] = v
                    if "&&" in (strip_templates(e.full)[1] or [""])[0]:
                        s = self.loc(e.args[1])
                        if s is not None and s != l:
                            d[("list", s)] = ("", ())
                elif l is not None:
                    d[("list", l)] = ("", ())
            elif name == "swap" and len(e.args) == 2:
                s = self.loc(e.args[1])
                if s is None or l is None:
                    return self.forget(d)
                a, b = ("list", l), ("list", s)
                d[a], d[b] = d.get(b), d.get(a)
            elif not e.full.endswith(" const") and name not in ("begin", "end", "operator[]", "at", "front", "back", "data", "size", "empty", "~vector") and l is not None:
                d[("list", l)] = None
        elif not e.callee.startswith(("std::", "__", "llvm.")):
            for a in e.args:
                l = self.loc(a) if isinstance(a, tuple) or isinstance(a, Poly) else None
                if l is not None and ("list", l) in d or l is not None and l[0] in self.ms and l[1] in (0, self.goff) and not e.full.endswith(" const"):
                    self.forget(d, l[0])
        elif name == "swap" and len(e.args) == 2:
            for a in e.args:
                l = self.loc(a)
                if l is not None and (("list", l) in d or l[0] in self.ms and l[1] == self.goff):
                    self.forget(d, l[0])

    def graph(self, e, name, d):
        const = e.full.endswith(" const")
        if name in LISTS:
            if len(e.args) == 2:
                l, g = self.loc(e.args[0]), self.loc(e.args[1])
                if l is None:
                    return self.forget(d)
                d[("list", l)] = (name, d.get(("tok", g, name))) if g else None
            return
        if const or name in READS:
            return
        g = self.loc(e.args[0])
        if g is None:
            return self.forget(d)
        ps = strip_templates(e.full)[1] or []
        ks, new = LISTS, None
        if name in ("DLGraph", "operator="):
            if not any("&&" in p for p in ps):
                new = "was made anew"
        elif name in CHANGES:
            ks, new = CHANGES[name], "was changed by " + name
            if name in ("add_arc_forward", "add_edge") and any("LossLayer" in p for p in ps):
                ks = ("training_forward_run",) + (("backward_run",) if name == "add_edge" else ())
        for k in ks:
            d[("tok", g, k)] = ("at", e.b, e.ins.j, new) if new else None


def lists(c):
    rule = "the lists of a model are those of its graph"
    goff, loff = state_offsets()
    if len(loff) != len(LISTS):
        c.ob(rule, "Model::State", None, "lists of another kind")
    for f, q, ps in functions():
        ms, live = models_of(f, q, ps)
        if not live or q.endswith("::~Model"):
            continue
        a = c.absint(Absint(c.fn(f)))
        w = Walk(a, goff, loff, ms, live, q == "Model::Model")
        try:
            n = w.run()
        except Unres as x:
            c.ob(rule, f.where(), None, str(x), construct=f.name)
            continue
        for (m, k), t in sorted(w.bad.items(), key=str):
            who = "the model" if m == ("this",) else "the model in argument %s" % m[1]
            c.ob(rule, f.where(), False, "%s returns although the list %s of %s %s" % (q, k, who, t), construct="%s %s" % (f.name, k))
        if not w.bad:
            if w.und:
                c.ob(rule, f.where(), None, "%s of %s" % (sorted(w.und, key=str)[0][1], q), construct=f.name)
            else:
                c.ob(rule, f.where(), True, "%d states" % n, construct=f.name)


# ---------------------------------------------------------------- which arcs and layers are added
def copy_shared(i, e, env, key):
    d = i.vplace(e.args[0], env)
    if len(e.args) < 2:
        i.alias[d] = ("P", ("null",), ZERO)
        return
    s = i.vplace(e.args[1], env)
    q = i.shared(s[0], s[1], ZERO)
    i.alias[d] = ("P", q[1], q[2])


def new_shared(i, e, env, key):
    i.alias[i.vplace(e.args[0], env)] = ("P", ("the new layer",), ZERO)


def change(i, e, env, key):
    name = e.callee.split("::")[-1]
    g = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1] or []
    vals = []
    for a, p in zip(e.args[1:], ps):
        if not p.startswith("std::shared_ptr<"):
            raise Unres("%s with other arguments" % name)
        l = i.vplace(a, env)
        vals.append(i.shared(l[0], l[1], ZERO)[1])
    i.trace.append((g, name, ["LossLayer" in p for p in ps], vals))


def nothing(i, e, env, key):
    pass


EFFECTS = {"std::shared_ptr::shared_ptr": copy_shared, "std::shared_ptr::operator=": copy_shared, "std::make_shared": new_shared,
           "std::vector::operator=": nothing, "std::vector::vector": nothing}
EFFECTS.update({G + k: change for k in CHANGES})


def expand(trace, goff):
    """the single arcs and layers a sequence of changes adds"""
    out = set()
    for g, name, loss, vals in trace:
        if g != (("this",), goff):
            raise Unres("another graph")
        vals = ["layer %d" % (v[1][1]) if v[0] == "shared" and v[1][0] == "arg" else v[0] for v in vals]
        if name in ("add_node", "add_loss"):
            out.add((name, vals[0]))
            continue
        a, b = vals
        if name in ("add_arc_forward", "add_edge"):
            out.add(("training arc", a, b))
            if not any(loss):
                out.add(("forward arc", a, b))
        if name == "add_edge":
            out.add(("backward arc", b, a))
        if name == "add_arc_backward":
            out.add(("backward arc", a, b))
    return out


def say(x):
    return "%s from %s to %s" % x if len(x) == 3 else "%s of %s" % x


S1, S2 = "layer 1", "layer 2"
BACK, TRAIN, FRONT = ("backward arc", S2, S1), ("training arc", S1, S2), ("forward arc", S1, S2)


def arcs(c):
    rule = "the layers and arcs a call adds"
    goff, loff = state_offsets()
    for f, q, ps in functions():
        n = q.split("::")[-1]
        loss = any("LossLayer" in p for p in ps)
        if n == "create_back_arc":
            want = {BACK}
        elif n == "create_front_arc":
            want = {TRAIN} if loss else {TRAIN, FRONT}
        elif n == "create_edge":
            want = {BACK, TRAIN} if loss else {BACK, TRAIN, FRONT}
        elif n == "create_loss_edge":
            want = {BACK, TRAIN}
        elif n == "add_layer":
            want = {("add_node", "the new layer")}
        elif n == "add_loss":
            want = {("add_loss", "the new layer")}
        else:
            continue
        try:
            k = Kern(c.absint(Absint(c.fn(f))), {}, EFFECTS)
            i = k.at({}, None, {})
            if i.throws() is not False:
                raise Unres("may throw")
            i.final()
            got = expand(i.trace, goff)
        except (Unres, AnalysisBroken) as x:
            c.ob(rule, f.where(), None, str(x), construct=f.name)
            continue
        if got == want:
            c.ob(rule, f.where(), True, ", ".join(sorted(say(x) for x in got)), construct=f.name)
        else:
            d = sorted(["adds no " + say(x) for x in want - got] + ["adds a " + say(x) for x in got - want])
            c.ob(rule, f.where(), False, "%s %s" % (q, ", ".join(d)), construct=f.name)


def getters(c):
    rule = "a getter hands out its own list"
    goff, loff = state_offsets()
    for f, q, ps in functions():
        n = q.split("::")[-1]
        if n not in LISTS or ps or n not in loff:
            continue
        a = c.absint(Absint(c.fn(f)))
        w = Walk(a, goff, loff, [("this",)], [], False)
        ls = {w.loc(e.args[0]) for e in a.rets() if e.args}
        if None in ls or len(ls) != 1 or next(iter(ls))[0] != ("this",):
            c.ob(rule, f.where(), None, "its result", construct=f.name)
            continue
        o = ls.pop()[1]
        who = [k for k, x in loff.items() if x == o]
        c.ob(rule, f.where(), o == loff[n], "hands out %s" % (who[0] if who else "something else"), construct=f.name)


def C29(c):
    c.rule("wherever a function of Model returns, each of its seven lists was assigned from the graph's answer of that name after the last change that may affect the answer; each create_ and add_ call adds exactly its arcs and layers")
    c.part(lists)
    c.part(arcs)
    c.part(getters)
    return ["the answers of the graph are those of C30", "functions that end by an exception leave the lists unspecified"]
