"""Datasets: what the constructors keep, how the fields split the features, and what the operations over a whole dataset give.

The closed forms (kernel.py) of the members of Dataset are evaluated over shapes a case describes: every element is a symbol of its
own, sizes and index sets are small numbers.  Constructors are a boundary (view "dataset") for the other members and are decided on
their own; the joining of blocks is the one that C20 decides."""
import itertools
import random
from .. import ir
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres, F, differ, inv, fmax
from ..terms import *
from ..absint import first_targ
from fractions import Fraction
from .util import ev_key, loops_of

E = "EdgeLearning::"
D = "Dataset<double>"
THIS = ("this",)
END = ((float("inf"), 0),)
LAST = 1 << 20
FIELDS = ("_feature_size", "_sequence_size", "_dataset_size", "_feature_amount", "_sequence_amount")
WORDS = {"_feature_size": "the size of a feature", "_sequence_size": "the size of a sequence", "_dataset_size": "the number of elements",
         "_feature_amount": "the number of entries", "_sequence_amount": "the number of sequences"}
_t = {}


def module():
    if "m" not in _t:
        _t["m"] = ir.view("dataset")
    return _t["m"]


def offs():
    t = module().types.get(E + D)
    if t is None:
        raise AnalysisBroken("no class Dataset<double>")
    m = {x[0]: x[1] for x in t["members"]}
    for k in FIELDS + ("_data", "_labels_idx", "_input_idx"):
        if k not in m and k != "_dataset_size":
            raise AnalysisBroken("Dataset without " + k)
    return m


def functions(name):
    if "fns" not in _t:
        t = {}
        for f in module().fns.values():
            if "{lambda" not in f.name:
                q, ps = strip_templates(f.name)
                t.setdefault(q, []).append((tuple(ps), f))
        _t["fns"] = t
    return _t["fns"].get(E + "Dataset::" + name, [])


# ---------------------------------------------------------------- sets of small numbers; an iterator is named by the element it is at
def when(i, e, env):
    try:
        return i.stamp(ev_key(i.ai, e), env)
    except KeyError:
        raise Unres("time of %s" % e.callee)


def set_of(i, v, key):
    for k, xs in reversed(i.__dict__.setdefault("sets", {}).get(v, ())):
        if k < key:
            return xs
    x = i.params.get(("set", v))
    if x is None:
        raise Unres("an unknown set")
    return tuple(x)


def set_put(i, v, key, xs):
    i.__dict__.setdefault("sets", {}).setdefault(v, []).append((key, tuple(sorted(set(xs)))))


def at(v, x):
    return ("P", ("members of", v), P(8 * x))


def it_value(i, p, env, key):
    """(set, element) of an iterator: an object, or its value"""
    if isinstance(p, tuple) and p[:1] == ("p",) and p[1][:1] != ("ld",):
        q = i.ptr(p, env)
        if q[1][0] not in ("members of", "vec"):
            q = i.read(q[1], i.int(q[2]) // 8, key)
    else:
        q = i.ev(p, env) if not (isinstance(p, tuple) and p[:1] == ("p",)) else i.ptr(p, env)
    if not (isinstance(q, tuple) and q[:1] in (("P",), ("p",)) and q[1][0] == "members of"):
        raise Unres("an iterator")
    return q[1][1], i.int(q[2]) // 8


def number(i, p, env, key):
    b, o = i.vplace(p, env)
    if b[0] == "members of":
        return o // 8
    return i.int(i.read(b, o // 8, key))


def targ(e):
    return first_targ(e.full) or ""


def natural(e):
    if "unsigned long" not in e.full.split("(")[0]:
        raise Unres(e.full[:80])


def set_effect(i, e, env, key):
    natural(e)
    n = e.callee.split("::")[-1]
    v = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1]
    if n in ("set", "operator="):
        if not ps:
            return set_put(i, v, key, ())
        if ps[0].startswith("std::set<"):
            return set_put(i, v, key, set_of(i, i.vplace(e.args[1], env), key))
        if ps[0].startswith("std::initializer_list"):
            b, o = i.vplace(e.args[1], env)
            return set_put(i, v, key, [i.int(i.read(b, o // 8 + j, key)) for j in range(i.int(i.ev(e.args[2], env)))])
        if len(ps) > 1 and ps[0] == ps[1]:
            return set_put(i, v, key, [i.int(x) for x in span(i, e.args[1], e.args[2], env, key)])
    if n in ("insert", "emplace") and len(e.args) == 2 and not ps[0].startswith("std::initializer_list"):
        return set_put(i, v, key, set_of(i, v, key) + (number(i, e.args[1], env, key),))
    if n == "insert" and len(ps) == 2 and ps[0] == ps[1]:
        return set_put(i, v, key, set_of(i, v, key) + tuple(i.int(x) for x in span(i, e.args[1], e.args[2], env, key)))
    if n in ("insert", "emplace_hint") and len(e.args) == 3 and "iterator" in (ps + [""])[0]:
        return set_put(i, v, key, set_of(i, v, key) + (number(i, e.args[2], env, key),))
    if n == "clear":
        return set_put(i, v, key, ())
    if n == "erase" and len(e.args) == 3:
        gone = [i.int(x) for x in span(i, e.args[1], e.args[2], env, key)]
        return set_put(i, v, key, [y for y in set_of(i, v, key) if y not in gone])
    if n == "erase" and len(e.args) == 2:
        if "iterator" in ps[0]:
            w, x = it_value(i, e.args[1], env, key)
            if w != v or x == LAST:
                raise Unres("an iterator of another set")
        else:
            x = number(i, e.args[1], env, key)
        return set_put(i, v, key, [y for y in set_of(i, v, key) if y != x])
    raise Unres(e.full[:80])


def span(i, a, b, env, key):
    """the elements between two places, or two iterators of a set"""
    try:
        (v, x), (w, y) = it_value(i, a, env, key), it_value(i, b, env, key)
        if v == w:
            return [P(z) for z in set_of(i, v, key) if x <= z < y]
    except Unres:
        pass
    (p, o), (q, r) = i.vplace(a, env), i.vplace(b, env)
    if p == q and o % 8 == 0 and r % 8 == 0 and o <= r:
        return [i.read(p, j, key) for j in range(o // 8, r // 8)]
    raise Unres("a range between two places")


def set_query(i, e, env):
    natural(e)
    n = e.callee.split("::")[-1]
    t = when(i, e, env)
    v = i.vplace(e.args[0], env)
    xs = set_of(i, v, t)
    if n in ("begin", "cbegin"):
        return at(v, xs[0] if xs else LAST)
    if n in ("end", "cend"):
        return at(v, LAST)
    if n == "size":
        return P(len(xs))
    if n == "empty":
        return P(0 if xs else 1)
    ps = strip_templates(e.full)[1]
    if n == "erase" and "iterator" in ps[0]:
        a = it_value(i, e.args[-1], env, t)[1]
        return at(v, a if len(e.args) == 3 else next((y for y in xs if y > a), LAST))
    if n == "insert" and "iterator" in ps[0]:
        return at(v, number(i, e.args[2], env, t))
    x = number(i, e.args[1], env, t)
    if n == "find":
        return at(v, x if x in xs else LAST)
    if n in ("count", "contains"):
        return P(int(x in xs))
    if n == "upper_bound":
        return at(v, next((y for y in xs if y > x), LAST))
    if n == "lower_bound":
        return at(v, next((y for y in xs if y >= x), LAST))
    raise Unres(e.full[:80])


def deref(i, e, env):
    v, x = it_value(i, e.args[0], env, when(i, e, env))
    return at(v, x)


def advanced(i, v, x, key):
    return next((y for y in set_of(i, v, key) if y > x), LAST)


def advance(i, e, env, key):
    v, x = it_value(i, e.args[0], env, key)
    b, o = i.vplace(e.args[0], env)
    i.write(b, o // 8, key, True, at(v, advanced(i, v, x, key)))


def advance_result(i, e, env):
    if strip_templates(e.full)[1]:
        return at(*it_value(i, e.args[0], env, when(i, e, env)))
    b, o = i.vplace(e.args[0], env)
    return ("P", b, P(o))


def same(i, e, env):
    t = when(i, e, env)
    ps = strip_templates(e.full)[1]
    eq = e.callee.endswith("==")
    if ps and ps[0].startswith("std::set<"):
        a, b = [set_of(i, i.vplace(x, env), t) for x in e.args[:2]]
    elif ps and "iterator" in ps[0]:
        a, b = [it_value(i, x, env, t) for x in e.args[:2]]
    else:
        raise Unres(e.full[:80])
    return ONE if (a == b) == eq else ZERO


def find(i, e, env):
    t = when(i, e, env)
    x = number(i, e.args[2], env, t)
    v, a = it_value(i, e.args[0], env, t)
    w, b = it_value(i, e.args[1], env, t)
    if v != w:
        raise Unres("a search between two places")
    return at(v, x if x in set_of(i, v, t) and a <= x < b else b)


# ---------------------------------------------------------------- vectors: ranges of sets, insertion at the end
def vector_effect(i, e, env, key):
    n = e.callee.split("::")[-1]
    ps = strip_templates(e.full)[1]
    T = targ(e)
    if T not in ("double", "unsigned long"):
        raise Unres(e.full[:80])
    v = i.vplace(e.args[0], env)
    if n in ("vector", "assign") and len(ps) > 1 and ps[0] == ps[1] and ("iterator" in ps[0] or ps[0].endswith("*")):
        return i.vset(v, key, span(i, e.args[1], e.args[2], env, key))
    if n == "insert" and len(ps) == 3 and ps[1] == ps[2]:
        # after the place object come the range
        a = e.args[1:] if len(e.args) == 4 else e.args[2:]
        old = i.vget(v, key)
        b, o = i.vplace(a[0], env)
        if b != i.vdata(v) or o != 8 * len(old):
            if b == i.vdata(v) and 0 <= o <= 8 * len(old):
                return i.vset(v, key, old[:o // 8] + span(i, a[1], a[2], env, key) + old[o // 8:])
            raise Unres("an insertion")
        return i.vset(v, key, old + span(i, a[1], a[2], env, key))
    if n == "swap" and len(e.args) == 2:
        w = i.vplace(e.args[1], env)
        a, b = i.vget(v, key), i.vget(w, key)
        i.vset(v, key, b)
        return i.vset(w, key, a)
    return i.vecop(e, env, key)


# ---------------------------------------------------------------- a dataset as an object
class DS(object):
    """data: values; the sizes; the index sets"""

    def __init__(self, data, fs, ss, fa, sa, labels, ds=None):
        self.data, self.fs, self.ss, self.fa, self.sa = list(data), fs, ss, fa, sa
        self.ds = ds if ds is not None else len(self.data)
        self.labels = tuple(sorted(x for x in labels if x < fs))
        self.inputs = tuple(x for x in range(fs) if x not in self.labels)

    def field(self, k):
        return {"_feature_size": self.fs, "_sequence_size": self.ss, "_dataset_size": self.ds, "_feature_amount": self.fa, "_sequence_amount": self.sa}[k]

    def text(self):
        return "%d entries of %d in sequences of %d, labels %s" % (self.fa, self.fs, self.ss, list(self.labels))

    def row(self, r):
        return self.data[r * self.fs:(r + 1) * self.fs]


def from_vec(data, fs=1, ss=1, labels=()):
    n = len(data)
    fs = min(fs, n)
    ss = min(ss, n // max(fs, 1))
    sa = n // max(fs * ss, 1)
    ds = sa * fs * ss
    return DS(data[:ds], fs, ss, ds // max(fs, 1), ds // max(fs * ss, 1), labels)


def from_mat(rows, ss=1, labels=()):
    fs = min([len(r) for r in rows]) if rows else 0
    ss = min(ss, len(rows))
    sa = len(rows) // max(ss, 1)
    return DS([x for r in rows[:sa * ss] for x in r[:fs]], fs, ss, sa * ss, sa, labels)


def from_cub(mats, labels=()):
    if not mats:
        return DS([], 0, 0, 0, 0, labels)
    ss = min(len(m) for m in mats)
    fs = min([len(r) for m in mats for r in m] or [0])
    return DS([x for m in mats for r in m[:ss] for x in r[:fs]] if ss else [], fs, ss, len(mats) * ss, len(mats), labels)


def resequenced(d, s):
    ss = min(s, d.fa)
    sa = d.fa // max(ss, 1)
    return DS(d.data[:sa * ss * d.fs], d.fs, ss, sa * ss, sa, d.labels)


def bind(p, d, R=THIS, sym=None):
    o = offs()
    p[("size", (R, o["_data"]))] = len(d.data)
    r = ("vec", ("p", R, P(o["_data"])))
    for k, x in enumerate(d.data):
        p[(r, k)] = x
    for k in FIELDS:
        if k in o:
            p[(R, o[k] // 8)] = d.field(k)
    for k, xs in (("_labels_idx", d.labels), ("_input_idx", d.inputs)):
        p[("set", (R, o[k]))] = xs


def store(i, key, v, d):
    """the object at v becomes d"""
    o = offs()
    b, x = v
    i.vset((b, x + o["_data"]), key, d.data)
    for k in FIELDS:
        if k in o:
            i.write(b, (x + o[k]) // 8, key, True, P(d.field(k)))
    set_put(i, (b, x + o["_labels_idx"]), key, d.labels)
    set_put(i, (b, x + o["_input_idx"]), key, d.inputs)


def load(i, key, v):
    o = offs()
    b, x = v
    n = {k: i.int(i.read(b, (x + o[k]) // 8, key)) for k in FIELDS if k in o}
    d = DS(i.vget((b, x + o["_data"]), key), n["_feature_size"], n["_sequence_size"], n["_feature_amount"], n["_sequence_amount"], (), n.get("_dataset_size"))
    d.labels = set_of(i, (b, x + o["_labels_idx"]), key)
    d.inputs = set_of(i, (b, x + o["_input_idx"]), key)
    return d


def construct(i, e, env, key):
    v = i.vplace(e.args[0], env)
    ps = strip_templates(e.full)[1]
    if not ps:
        return store(i, key, v, DS([], 0, 0, 0, 0, ()))
    if ps[0].startswith(E + "Dataset<"):
        return store(i, key, v, load(i, key, i.vplace(e.args[1], env)))
    if ps[0].startswith("std::vector<double") and len(ps) == 4:
        return store(i, key, v, from_vec(i.vget(i.vplace(e.args[1], env), key), i.int(i.ev(e.args[2], env)), i.int(i.ev(e.args[3], env)),
                                         set_of(i, i.vplace(e.args[4], env), key)))
    raise Unres(e.full[:80])


def pair(i, e, env, key):
    b, o = i.vplace(e.args[0], env)
    m = {x[0]: x[1] for x in module().types[E + D + "::SplitDataset"]["members"]}
    for k, a in (("training_set", 1), ("testing_set", 2)):
        store(i, key, (b, o + m[k]), load(i, key, i.vplace(e.args[a], env)))


def permutation(i, e, env, key):
    v = i.vplace(e.args[0], env)
    a, b = i.int(i.ev(e.args[1], env)), i.int(i.ev(e.args[2], env))
    if b < a or b - a > 64:
        raise Unres("the numbers from %d to %d" % (a, b))
    xs = list(range(a, b))
    random.Random(i.params.get(("seed",), 1)).shuffle(xs)
    i.vset(v, key, [P(x) for x in xs])


def join(i, e, env, key):
    """the blocks one after the other along an axis (C20)"""
    db, do = i.vplace(e.args[0], env)
    src, shapes = [], []
    for p, s in ((1, 2), (3, 4)):
        b, o = i.vplace(e.args[p], env)
        sh = [i.int(x) for x in i.vget(i.vplace(e.args[s], env), key)]
        if len(sh) != 3:
            raise Unres("a shape")
        n = sh[0] * sh[1] * sh[2]
        src.append([i.read(b, o // 8 + k, key) for k in range(n)])
        shapes.append(sh)
    axis = i.int(i.ev(e.args[5], env))
    if axis > 2 or any(shapes[0][k] != shapes[1][k] for k in range(3) if k != axis):
        i.refused = True
        return
    for k, x in enumerate(joined(src[0], shapes[0], src[1], shapes[1], axis)):
        i.write(db, do // 8 + k, key, True, x)


def joined(a, s, b, t, axis):
    out = []
    r = list(s)
    r[axis] += t[axis]
    for x in itertools.product(*[range(n) for n in r]):
        y = list(x)
        if y[axis] < s[axis]:
            out.append(a[(y[0] * s[1] + y[1]) * s[2] + y[2]])
        else:
            y[axis] -= s[axis]
            out.append(b[(y[0] * t[1] + y[1]) * t[2] + y[2]])
    return out


def encoded(i, e, env, key):
    n = e.callee.split("::")[-1]
    enc = i.int(i.ev(e.args[2 if n != "encoding_feature_size" else 1], env))
    i.__dict__.setdefault("encodings", {})[n] = enc
    if n == "data_to_encoding":
        i.vset(i.vplace(e.args[0], env), key, i.params[("encoded",)])
    elif n == "encoding_labels_idx":
        set_put(i, i.vplace(e.args[0], env), key, i.params[("encoded labels",)])


def encoded_size(i, e, env):
    return P(i.params[("encoded size",)])


DP = E + "DatasetParser::"
EFFECTS = {E + "Dataset::Dataset": construct, E + "Dataset::SplitDataset::SplitDataset": pair, E + "DLMath::unique_rand_sequence": permutation,
           E + "DLMath::concatenate": join, "std::_Rb_tree_const_iterator::operator++": advance,
           DP + "data_to_encoding": encoded, DP + "encoding_labels_idx": encoded, DP + "encoding_feature_size": encoded}
for _n in ("set", "operator=", "insert", "emplace", "clear", "erase"):
    EFFECTS["std::set::" + _n] = set_effect
for _n in ("vector", "operator=", "assign", "push_back", "emplace_back", "clear", "reserve", "shrink_to_fit", "resize", "insert", "swap"):
    EFFECTS["std::vector::" + _n] = vector_effect
CALLS = {"std::operator!=": same, "std::operator==": same, "std::find": find, "std::_Rb_tree_const_iterator::operator++": advance_result,
         "std::_Rb_tree_const_iterator::operator*": deref, DP + "encoding_feature_size": encoded_size}
for _n in ("begin", "end", "cbegin", "cend", "size", "empty", "find", "count", "contains", "lower_bound", "upper_bound", "erase", "insert"):
    CALLS["std::set::" + _n] = set_query
_k = {}


def own(ai, I, st, name, full, args, t):
    """a question about a set has an answer of its own each time"""
    return ai.typed(("call", name, I.i), t)


MODELS = {n: own for n in CALLS if n.startswith(("std::set::", "std::_Rb_tree_const_iterator::operator*")) and n.split("::")[-1] not in ("erase", "insert", "emplace")}


def kern(c, f):
    if f.key not in _k:
        _k[f.key] = Kern(c.absint(Absint(c.fn(f), models=MODELS)), CALLS, EFFECTS, dynamic=True)
    return _k[f.key]


# ---------------------------------------------------------------- cases
def check(c, rule, name, cases, params=None, what=""):
    fs = [x for x in functions(name) if params is None or params(x[0])]
    where = "Dataset::" + name
    if len(fs) != 1:
        c.ob(rule, where + what, None, "%d such functions" % len(fs))
        return
    f = fs[0][1]
    try:
        k = kern(c, f)
        und, n = {}, 0
        for text, p, want, how in cases:
            n += 1
            try:
                bad = one(k, p, want, how)
            except Unres as x:
                und.setdefault(str(x), text)
                continue
            if bad:
                c.ob(rule, f.where(), False, "%s: %s" % (text, bad), construct=where)
                return
    except (Unres, AnalysisBroken) as x:
        c.ob(rule, f.where(), None, str(x))
        return
    if und or not n:
        c.ob(rule, f.where(), None, "%s (%s)" % sorted(und.items())[0] if und else "no case")
    else:
        c.ob(rule, f.where(), True, "%d cases" % n)


class Members(dict):
    """an element of a set is what its place says"""

    def __bool__(self):
        return True

    def get(self, b, d=None):
        return P if b[0] == "members of" else d


def zero_division(k, i):
    for e in k.ai.events:
        if e.kind == "div" and e.b in k.good and e.b in k.idx:
            for env in i.domain([L["header"] for L in loops_of(k.fn, e.b)], e.b, {}):
                if i.active(e.b, env) is True and i.int(i.ev(e.args[1], env)) == 0:
                    return "a division by zero"


def one(k, p, want, how):
    i = k.at(p, None, Members())
    if i.fail and "division" in str(i.fail):
        i.fail = None
        bad = zero_division(k, i)
        if bad:
            return bad
        raise Unres("a division")
    t = i.throws()
    if want is None:
        return None if t is True or getattr(i, "refused", False) else "accepted without an exception" if t is False else None
    if t is True:
        return "an exception is thrown"
    i.final()
    if getattr(i, "refused", False):
        return "an exception is thrown"
    for e in k.ai.events:
        if e.kind == "div" and e.b in k.good and e.b in k.idx:
            from .util import loops_of
            for env in i.domain([L["header"] for L in loops_of(k.fn, e.b)], e.b, {}):
                if i.active(e.b, env) is True and i.int(i.ev(e.args[1], env)) == 0:
                    return "a division by zero"
    bad = how(i, k, want)
    for b, x in i.reads:
        if b[0] == "vec" and b[1][1] in (THIS, ("arg", 1), ("arg", 2)):
            return bad or "element %d is read, which lies outside of the data" % x
    return bad


def values(have, want, text):
    if len(have) != len(want):
        return "%s holds %d elements instead of %d" % (text, len(have), len(want))
    for k, (a, b) in enumerate(zip(have, want)):
        b = b if isinstance(b, Poly) else F(b)
        if not isinstance(a, Poly):
            raise Unres(str(a)[:80])
        d = differ(a, b, special=False)
        if d:
            return "element %d of %s is %s" % (k, text, d)
    return None


def objects(have, want):
    o = offs()
    for k in FIELDS:
        if k in o and have.field(k) != want.field(k):
            return "%s is %d instead of %d" % (WORDS[k], have.field(k), want.field(k))
    for a, b, w in ((have.labels, want.labels, "labels"), (have.inputs, want.inputs, "inputs")):
        if a != b:
            return "the %s are %s instead of %s" % (w, list(a), list(b))
    return values(have.data, want.data, "the data")


def becomes(R, off=0):
    def how(i, k, want):
        return objects(load(i, END, (R, off)), want)
    return how


def X(n, tag="x"):
    return [P(("in", ("data", tag), j)) for j in range(n)]


RESULT = ("arg", 0)


def shapes(tier):
    """datasets of every kind, as the constructors leave them"""
    out = [from_vec([]), from_vec(X(3)), from_vec(X(6), 2, 1, (1,)), from_vec(X(12), 3, 2, (0,)), from_vec(X(12), 3, 2, (0, 2)), from_vec(X(12), 2, 3, (0, 1)),
           from_vec(X(15), 3, 2, (1,)), from_vec(X(8), 4, 1, (1, 2)), from_vec(X(10), 1, 3, (0,)), from_vec(X(16), 4, 2, (3,)), from_vec(X(24), 4, 3, (0, 3)),
           from_vec(X(5), 5, 1, ()), from_vec(X(20), 2, 2, ()), from_vec(X(6), 2, 0, (1,))]
    if tier != "quick":
        r = random.Random(31)
        for _ in range(40):
            fs = r.randint(1, 6)
            out.append(from_vec(X(r.randint(1, 40)), fs, r.randint(1, 4), r.sample(range(fs), r.randint(0, fs))))
    return out


def constructors(c):
    rule = "a dataset keeps the whole sequences that were given"

    def label_sets(fs):
        return [(), (0,), (fs,), (0, fs + 1), tuple(range(fs)), tuple(range(1, fs, 2))]

    def vec():
        for n in range(0, 9 if c.tier == "quick" else 14):
            for fs in range(0, 5):
                for ss in range(0, 4):
                    for labels in label_sets(fs)[:None if n in (4, 6) else 2]:
                        p = {("size", (("arg", 1), 0)): n, ("arg", 2): fs, ("arg", 3): ss, ("set", (("arg", 4), 0)): tuple(sorted(set(labels)))}
                        for k, x in enumerate(X(n)):
                            p[(("vec", ("p", ("arg", 1), ZERO)), k)] = x
                        yield "%d elements, features of %d, sequences of %d, labels %s" % (n, fs, ss, list(labels)), p, from_vec(X(n), fs, ss, labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "Dataset", vec(), lambda ps: len(ps) == 4, " (vector)"))

    def put_rows(p, R, off, rows):
        v = (R, off)
        p[("size", v)] = len(rows)
        d = ("vec", ("p", R, P(off)))
        for j, r in enumerate(rows):
            p[("size", (d, 24 * j))] = len(r)
            for k, x in enumerate(r):
                p[(("vec", ("p", d, P(24 * j))), k)] = x

    def cut(lens, tag="x"):
        xs, out = X(sum(lens), tag), []
        for n in lens:
            out.append(xs[:n])
            xs = xs[n:]
        return out

    def mat():
        for lens in ((), (2,), (2, 2), (3, 3, 3), (2, 2, 2, 2, 2), (3, 2, 4), (1, 2, 3, 2), (2, 0), (0, 0), (4, 3, 3, 4, 4, 5, 3)):
            for ss in range(0, 5):
                for labels in label_sets(min(lens) if lens else 0)[:None if ss == 2 else 2]:
                    rows = cut(lens)
                    p = {("arg", 2): ss, ("set", (("arg", 3), 0)): tuple(sorted(set(labels)))}
                    put_rows(p, ("arg", 1), 0, rows)
                    yield "rows of %s, sequences of %d, labels %s" % (list(lens), ss, list(labels)), p, from_mat(rows, ss, labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "Dataset", mat(), lambda ps: len(ps) == 3, " (matrix)"))

    def cub():
        for mats in ((), ((2, 2),), ((2, 2), (2, 2)), ((2, 2, 2), (2, 2)), ((3,), (3,), (3,)), ((3, 2), (2, 4)), ((2, 2), (2, 2, 1)), ((1, 1), ()), ((0, 0), (2, 2)), ((4, 4, 4), (4, 4, 4))):
            fs = min([n for m in mats for n in m] or [0])
            for labels in label_sets(fs):
                ms = [cut(m, "x%d" % j) for j, m in enumerate(mats)]
                p = {("set", (("arg", 2), 0)): tuple(sorted(set(labels))), ("size", (("arg", 1), 0)): len(ms)}
                for j, m in enumerate(ms):
                    put_rows(p, ("vec", ("p", ("arg", 1), ZERO)), 24 * j, m)
                yield "sequences %s, labels %s" % ([list(m) for m in mats], list(labels)), p, from_cub(ms, labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "Dataset", cub(), lambda ps: len(ps) == 2, " (cube)"))
    c.part(lambda c: check(c, rule, "Dataset", [("the empty dataset", {}, DS([], 0, 0, 0, 0, ()), becomes(THIS))], lambda ps: not ps, " ()"))

    def reseq():
        for d in shapes(c.tier):
            for s in range(0, 6):
                p = {("arg", 1): s}
                bind(p, d)
                yield "%s, now sequences of %d" % (d.text(), s), p, resequenced(d, s), becomes(THIS)
    c.part(lambda c: check(c, rule, "sequence_size", reseq(), lambda ps: len(ps) == 1))

    def relabel():
        for d in shapes(c.tier):
            for labels in label_sets(d.fs):
                p = {("set", (("arg", 1), 0)): tuple(sorted(set(labels)))}
                bind(p, d)
                yield "%s, now the labels %s" % (d.text(), list(labels)), p, DS(d.data, d.fs, d.ss, d.fa, d.sa, labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "label_idx", relabel(), lambda ps: len(ps) == 1))


def list_of(i, k, want):
    v = (RESULT, 0)
    i.vsize(v, END)
    return values(i.vget(v, END), want, "the result")


def fields(c):
    rule = "what a dataset hands out"

    def cases(f, how, index=None, arg=2):
        for d in shapes(c.tier):
            for x in (range((d.fa if index == "row" else d.sa) + 2) if index else (None,)):
                p = {}
                bind(p, d)
                if index:
                    p[("arg", arg)] = x
                yield (d.text() if x is None else "%d of %s" % (x, d.text())), p, f(d, x) if index else f(d), how

    def rows(cols):
        def f(d, r):
            return [d.row(r)[k] for k in cols(d)] if r < d.fa else []
        return f

    def seqs(cols):
        def f(d, s):
            return [d.row(s * d.ss + t)[k] for t in range(d.ss) for k in cols(d)] if s < d.sa else []
        return f
    every, ins, outs = lambda d: range(d.fs), lambda d: d.inputs, lambda d: d.labels
    for nm, w in (("entry", every), ("input", ins), ("label", outs)):
        c.part(lambda c: check(c, rule, nm, cases(rows(w), list_of, "row")))
    for nm, w in (("entry_seq", every), ("inputs_seq", ins), ("labels_seq", outs)):
        c.part(lambda c: check(c, rule, nm, cases(seqs(w), list_of, "seq")))
    for nm, w in (("input_idx", ins), ("label_idx", outs)):
        c.part(lambda c: check(c, rule, nm, cases(lambda d: [P(x) for x in w(d)], list_of), lambda ps: not ps))
    for nm, w in (("inputs", ins), ("labels", outs)):
        c.part(lambda c: check(c, rule, nm, cases(lambda d: from_vec([d.row(r)[k] for r in range(d.fa) for k in w(d)], len(w(d)), d.ss), becomes(RESULT))))

    def number_is(i, k, want):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            if i.active(e.b, {}) is False:
                continue
            v = i.int(i.ev(e.args[0], {}))
            if v != want:
                return "returns %s instead of %s" % (v, want)
    c.part(lambda c: check(c, rule, "size", cases(lambda d: d.fa, number_is)))
    c.part(lambda c: check(c, rule, "empty", cases(lambda d: int(not d.data), number_is)))

    def place(i, k, want):
        for e in [e for e in k.ai.rets() if e.b in k.good and e.args]:
            q = i.ptr(e.args[0], {})
            if (q[1], i.int(q[2])) != want:
                return "returns another field"
    for nm in ("feature_size", "sequence_size"):
        c.part(lambda c: check(c, rule, nm, cases(lambda d: (THIS, offs()["_" + nm]), place), lambda ps: not ps))


def parts(c):
    rule = "parts and joins of datasets"

    def sub(d, a, b):
        b = min(b, d.fa)
        return None if a > b else from_vec(d.data[a * d.fs:b * d.fs], d.fs, d.ss, d.labels)

    def between():
        for d in shapes(c.tier):
            for a in range(0, d.fa + 2):
                for b in range(0, d.fa + 3):
                    p = {("arg", 2): a, ("arg", 3): b}
                    bind(p, d)
                    yield "%d to %d of %s" % (a, b, d.text()), p, sub(d, a, b), becomes(RESULT)
    c.part(lambda c: check(c, rule, "subdata", between(), lambda ps: len(ps) == 2, " (from, to)"))
    PERC = (-1.0, 0.0, 0.25, 0.5, 0.75, 0.875, 1.0, 1.5)

    def floor(x):
        return int(x.numerator // x.denominator)

    def share(d, x):
        return floor(Fraction(min(max(x, 0.0), 1.0)) * d.fa)

    def first():
        for d in shapes(c.tier):
            for x in PERC:
                p = {("farg", 2): Fraction(x)}
                bind(p, d)
                yield "%s of %s" % (x, d.text()), p, sub(d, 0, share(d, x)), becomes(RESULT)
    c.part(lambda c: check(c, rule, "subdata", first(), lambda ps: len(ps) == 1, " (share)"))

    def split():
        m = {x[0]: x[1] for x in module().types[E + D + "::SplitDataset"]["members"]}

        def how(i, k, want):
            for n, w, nm in (("training_set", want[0], "training"), ("testing_set", want[1], "testing")):
                bad = objects(load(i, END, (RESULT, m[n])), w)
                if bad:
                    return "the %s set: %s" % (nm, bad)
        for d in shapes(c.tier):
            if not d.ss:
                continue
            for x in PERC:
                p = {("farg", 2): Fraction(x)}
                bind(p, d)
                n = floor(Fraction(min(max(x, 0.0), 1.0)) * d.fa / d.ss) * d.ss
                yield "split of %s at %s" % (d.text(), x), p, (sub(d, 0, n), sub(d, n, d.fa)), how
    c.part(lambda c: check(c, rule, "split", split()))

    def cat():
        ds = [(from_vec(X(12), 3, 2, (0,)), from_vec(X(6, "y"), 3, 2, (0,))), (from_vec(X(12), 3, 2, (0,)), from_vec(X(12, "y"), 3, 2, (0,))),
              (from_vec(X(12), 3, 2, (0,)), from_vec(X(12, "y"), 3, 2, (1,))), (from_vec(X(6), 3, 1, (0,)), from_vec(X(12, "y"), 3, 2, (0,))),
              (from_vec(X(12), 3, 2, (0,)), from_vec(X(6, "y"), 3, 1, (0,))),
              (from_vec(X(12), 3, 2, (0,)), from_vec(X(4, "y"), 1, 2, ())), (from_vec(X(8), 2, 2, (1,)), from_vec(X(4, "y"), 1, 2, (0,))),
              (from_vec([]), from_vec(X(4, "y"), 2, 1, (1,))), (from_vec(X(4), 2, 2, (1,)), from_vec([])), (from_vec(X(4), 1, 1), from_vec(X(5, "y"), 1, 1)),
              (from_vec(X(6), 2, 1, (1,)), from_vec(X(9, "y"), 3, 1, (1,))), (from_vec(X(8), 2, 1), from_vec(X(8, "y"), 2, 1))]
        for a, b in ds:
            for axis in range(4):
                p = {("arg", 3): axis}
                bind(p, a, ("arg", 1))
                bind(p, b, ("arg", 2))
                s, t = (a.sa, a.ss, a.fs), (b.sa, b.ss, b.fs)
                if not a.data:
                    want = b
                elif not b.data:
                    want = a
                elif axis > 2 or axis != 2 and a.labels != b.labels or any(s[k] != t[k] for k in range(3) if k != axis):
                    want = None
                else:
                    r = list(s)
                    r[axis] += t[axis]
                    want = from_vec(joined(a.data, s, b.data, t, axis), r[2], r[1], () if axis == 2 else a.labels)
                yield "%s and %s on axis %d" % (a.text(), b.text(), axis), p, want, becomes(RESULT)
    c.part(lambda c: check(c, rule, "concatenate", cat()))

    def parse():
        def how(i, k, want):
            x = i.__dict__.get("encodings", {})
            if any(v != i.params[("arg", 2)] for v in x.values()):
                return "the parser is asked for another encoding"
            return objects(load(i, END, (RESULT, 0)), want)
        for enc in (0, 1):
            for n, fs, ss, labels in ((12, 3, 1, (2,)), (12, 3, 2, (1, 2)), (20, 4, 3, (0,)), (0, 2, 1, ())):
                p = {("arg", 2): enc, ("arg", 3): ss, ("encoded",): X(n), ("encoded size",): fs, ("encoded labels",): labels}
                yield "encoding %d of %d elements" % (enc, n), p, from_vec(X(n), fs, ss, labels), how
    c.part(lambda c: check(c, rule, "parse", parse()))

    def pieces():
        m = {x[0]: x[1] for x in module().types[E + D + "::SplitDataset"]["members"]}

        def how(i, k, want):
            return objects(load(i, END, (THIS, m["training_set"])), want[0]) or objects(load(i, END, (THIS, m["testing_set"])), want[1])
        p = {}
        a, b = from_vec(X(12), 3, 2, (0,)), from_vec(X(4, "y"), 2, 1, (1,))
        bind(p, a, ("arg", 1))
        bind(p, b, ("arg", 2))
        yield "two datasets", p, (a, b), how
    c.part(lambda c: check(c, rule, "SplitDataset::SplitDataset", pieces()))


def whole(c):
    rule = "operations over a whole dataset"

    def shuffled():
        def how(i, k, want):
            d = load(i, END, (THIS, 0))
            rows = [tuple(d.row(r)) for r in range(d.fa)]
            bad = objects(DS([], d.fs, d.ss, d.fa, d.sa, (), d.ds), DS([], want.fs, want.ss, want.fa, want.sa, (), want.ds))
            if bad or d.labels != want.labels or d.inputs != want.inputs:
                return bad or "the labels change"
            if len(d.data) != len(want.data):
                return "the data hold %d elements instead of %d" % (len(d.data), len(want.data))
            for r in range(want.fa):
                x = tuple(want.row(r))
                if rows.count(x) != 1:
                    return "entry %d is found %d times afterwards" % (r, rows.count(x))
        for d in shapes(c.tier):
            for seed in (1, 2, 5):
                p = {("seed",): seed}
                bind(p, d)
                yield d.text(), p, d, how
    c.part(lambda c: check(c, rule, "shuffle", shuffled()))

    def given():
        lo, hi = P(("farg", 1)), P(("farg", 2))
        for d in shapes(c.tier):
            for idx in [()] + ([(0,), (d.fs - 1,), tuple(range(d.fs))[::-1]] if d.fs else []):
                p = {("size", (("arg", 3), 0)): len(idx)}
                for k, x in enumerate(idx):
                    p[(("vec", ("p", ("arg", 3), ZERO)), k)] = x
                bind(p, d)
                cols = idx or range(d.fs)
                data = [(x - lo) * inv(hi - lo) if k % d.fs in cols else x for k, x in enumerate(d.data)]
                for x, y in ((Fraction(1), Fraction(1)), (Fraction(-1), Fraction(3))):
                    q = dict(p)
                    q[("farg", 1)], q[("farg", 2)] = x, y
                    vals = [(z - F(x)) * inv(F(y - x)) if k % d.fs in cols else z for k, z in enumerate(d.data)] if x != y else []
                    yield "min %s, max %s, columns %s of %s" % (x, y, list(cols), d.text()), q, None if x == y else DS(vals, d.fs, d.ss, d.fa, d.sa, d.labels), becomes(THIS)
                yield "columns %s of %s" % (list(cols), d.text()), p, DS(data, d.fs, d.ss, d.fa, d.sa, d.labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "min_max_normalization", given(), lambda ps: len(ps) == 3, " (min, max, columns)"))

    def found():
        for d in shapes("quick"):
            if d.fa == 1 or d.fa > 6:
                continue
            p = {}
            bind(p, d)
            data = []
            for k, x in enumerate(d.data):
                col = d.data[k % d.fs::d.fs]
                hi, lo = fmax(col), -fmax([-y for y in col])
                data.append((x - lo) * inv(hi - lo))
            yield d.text(), p, DS(data, d.fs, d.ss, d.fa, d.sa, d.labels), becomes(THIS)
    c.part(lambda c: check(c, rule, "min_max_normalization", found(), lambda ps: not ps, " ()"))


def C31(c):
    constructors(c)
    fields(c)
    return ["elements are numbers of their own; sizes do not wrap"]


def C32(c):
    parts(c)
    whole(c)
    return ["constructors keep what C31 says", "DLMath::concatenate joins what C20 says", "unique_rand_sequence gives every index once", "real arithmetic; constant columns are not normalised"]
