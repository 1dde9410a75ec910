"""What a layer writes with dump is what load brings back.

Closed forms as in layers.py.  The JSON classes are a boundary: a JSON value is a tree that the calls of the two functions build and
ask, in program order; numbers in it are the symbols of the object that was dumped.  load is evaluated on the tree that dump has built,
in an object of another size."""
from ..absint import Absint
from ..ir import strip_templates, AnalysisBroken
from ..kernel import Kern, Unres, F, inv, fsel
from ..terms import *
from .kernels import prod
from .layers import State, THIS, S, E, run, method, members, slots, module, compare, fl, EFFECTS as LAYER_EFFECTS
from .params import dense_sizes, conv_sizes, rec_sizes, ff_sizes, shared, conv_out, pool_out, fields_shape, vec_at
from .model import Model, copy_shared, GETTERS
from .util import loops_of

J = E + "JsonItem::"


class Missing(Exception):
    """the JSON value does not have what it is asked for: an exception at run time"""


class Node(object):
    """a JSON value: nothing, a leaf, a list, a dictionary"""

    def __init__(self, kind="none", v=None):
        self.kind, self.v = kind, v

    def copy(self):
        v = self.v
        if self.kind == "list":
            v = [x.copy() for x in v]
        elif self.kind == "dict":
            v = {k: x.copy() for k, x in v.items()}
        return Node(self.kind, v)

    def set(self, n):
        n = n.copy()
        self.kind, self.v = n.kind, n.v

    def slot(self, k):
        """operator[] with a key"""
        if self.kind == "none":
            self.kind, self.v = "dict", {}
        if self.kind != "dict":
            raise Missing("a key of a value that is no dictionary")
        self.alike(k)
        return self.v.setdefault(k, Node())

    def alike(self, k):
        """a key that may have the same text as another one of which only the name is known"""
        if k not in self.v and any(x[0] != k[0] for x in self.v):
            raise Unres("the text of the key %s" % tname(k))

    def at(self, k):
        if isinstance(k, int):
            if self.kind != "list" or not 0 <= k < len(self.v):
                raise Missing("element %d of %s" % (k, self))
            return self.v[k]
        if self.kind == "dict":
            self.alike(k)
        if self.kind != "dict" or k not in self.v:
            raise Missing("key %s of %s" % (tname(k), self))
        return self.v[k]

    def append(self, n):
        if self.kind == "none":
            self.kind, self.v = "list", []
        if self.kind != "list":
            raise Missing("an element for a value that is no list")
        self.v.append(n.copy())

    def leaf(self):
        if self.kind != "leaf":
            raise Missing("the value of %s" % self)
        return self.v

    def __repr__(self):
        return {"none": "an empty value", "leaf": "a leaf", "list": "a list of %d" % len(self.v if self.kind == "list" else ()), "dict": "a dictionary"}[self.kind]


def tname(k):
    if k[0] == "str":
        return '"%s"' % k[1]
    if k[0] == "field":
        return "dump_fields[%d]" % k[1]
    return str(k[1])[:60]


# ---------------------------------------------------------------- texts
def text(i, p, env, key):
    """which text a string object holds"""
    b, o = i.vplace(p, env)
    if b[0] in ("field", "glob", "type") and o == 0:
        return ("type",) + b[1:] if b[0] == "glob" and "4TYPEB5cxx11E" in b[1] else b
    for k, v in reversed(getattr(i, "texts", {}).get((b, o), ())):
        if k < key:
            return v
    f = i.params.get(("text", b, o))
    if f is not None:
        return f
    raise Unres("the text in %s" % show(b)[:60])


def settext(i, v, key, x):
    if not hasattr(i, "texts"):
        i.texts = {}
    i.texts.setdefault(v, []).append((key, x))


def string(i, e, env, key):
    """constructors and assignments of std::string"""
    ps = strip_templates(e.full)[1]
    v = i.vplace(e.args[0], env)
    p0 = ps[0] if ps else ""
    if not ps:
        x = ("str", "")
    elif p0.startswith("char const*"):
        b, o = i.vplace(e.args[1], env)
        s = i.ai.mod.string(b[1]) if b[0] == "glob" else None
        if s is None or len([q for q in ps if "allocator" not in q]) != 1:
            raise Unres("a text")
        x = ("str", s[o:].split(b"\0")[0].decode("latin1"))
    elif "basic_string<" in p0 and p0.endswith("&") and (len(ps) == 1 or "allocator" in ps[1]):
        x = text(i, e.args[1], env, key)
    elif "allocator" in p0 and len(ps) == 1:
        x = ("str", "")
    else:
        raise Unres(e.full[:80])
    settext(i, v, key, x)


def field(i, e, env):
    """dump_fields.at(...)"""
    r = i.params.get(("fields",))
    b, o = i.place(i.ai.as_ptr(e.args[0]), env)
    if b[0] != "glob" or "dump_fields" not in b[1] or o:
        return None
    return result(i, e, env)


def field_effect(i, e, env, key):
    b, o = i.place(i.ai.as_ptr(e.args[0]), env)
    if b[0] != "glob" or "dump_fields" not in b[1] or o:
        raise Unres("an element of a map")
    kb, ko = i.vplace(e.args[1], env)
    n = i.read(kb, ko // 4, key)
    record(i, e, env, ("P", ("field", i.int(n)), ZERO))


# ---------------------------------------------------------------- JSON values
def at_env(i, e, env):
    return (e.ins.i,) + tuple(env.get(L["header"]) for L in loops_of(i.k.fn, e.b))


def record(i, e, env, v):
    if not hasattr(i, "results"):
        i.results = {}
    i.results[at_env(i, e, env)] = v


def result(i, e, env):
    v = getattr(i, "results", {}).get(at_env(i, e, env))
    if v is None:
        raise Unres("the result of " + e.callee)
    return v


def trees(i):
    if not hasattr(i, "jt"):
        i.jt = {}
    return i.jt


def node(i, p, env):
    b, o = i.vplace(p, env)
    t = trees(i)
    if (b, o) not in t:
        n = i.params.get(("json", b, o))
        if n is None:
            raise Unres("the JSON value in %s" % show(b)[:60])
        t[(b, o)] = n
    return t[(b, o)]


def name_of(i, n):
    t = trees(i)
    r = ("jsonref", len(t))
    t[(r, 0)] = n
    return ("P", r, ZERO)


def as_key(i, e, k, env, key):
    """the key or the index a method is called with"""
    p = strip_templates(e.full)[1][0]
    if "basic_string<" in p:
        return text(i, e.args[k], env, key)
    if p.startswith("char const*"):
        b, o = i.vplace(e.args[k], env)
        s = i.ai.mod.string(b[1]) if b[0] == "glob" else None
        if s is None:
            raise Unres("a key")
        return ("str", s[o:].split(b"\0")[0].decode("latin1"))
    return i.int(i.ev(e.args[k], env))


def construct(i, e, env, key):
    ps = strip_templates(e.full)[1]
    v = i.vplace(e.args[0], env)
    p = ps[0] if ps else ""
    if not ps:
        n = Node()
    elif p.startswith(("EdgeLearning::JsonItem", "EdgeLearning::JsonList", "EdgeLearning::JsonDict", "EdgeLearning::JsonObject", "EdgeLearning::JsonLeaf")):
        n = node(i, e.args[1], env).copy()
    elif "basic_string<" in p:
        n = Node("leaf", text(i, e.args[1], env, key))
    elif p.startswith("char const*"):
        n = Node("leaf", as_key(i, e, 1, env, key))
    elif p in ("double", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "bool"):
        n = Node("leaf", i.ev(e.args[1], env))
    else:
        raise Unres(e.full[:80])
    trees(i)[v] = n


def make_list(i, e, env, key):
    ps = strip_templates(e.full)[1]
    v = i.vplace(e.args[0], env)
    p = ps[0] if ps else ""
    if not ps:
        n = Node("list", [])
    elif p.startswith("EdgeLearning::JsonList"):
        n = node(i, e.args[1], env).copy()
    elif p.startswith("std::vector<") and p.split("<")[1].split(",")[0] in ("unsigned long", "double", "int", "long", "unsigned int"):
        n = Node("list", [Node("leaf", x) for x in i.vget(i.vplace(e.args[1], env), key)])
    else:
        raise Unres(e.full[:80])
    trees(i)[v] = n


def make_dict(i, e, env, key):
    if strip_templates(e.full)[1]:
        raise Unres(e.full[:80])
    trees(i)[i.vplace(e.args[0], env)] = Node("dict", {})


def assign(i, e, env, key):
    node(i, e.args[0], env).set(node(i, e.args[1], env))
    b, o = i.vplace(e.args[0], env)
    record(i, e, env, ("P", b, P(o)))


def subscript(i, e, env, key):
    k = as_key(i, e, 1, env, key)
    n = node(i, e.args[0], env)
    if e.callee.endswith("::at") or isinstance(k, int):
        n = asked(i, n, k)
    else:
        n = n.slot(k)
    record(i, e, env, name_of(i, n))


def asked(i, n, k):
    try:
        return n.at(k)
    except Missing as x:
        i.missing = getattr(i, "missing", None) or str(x)
        raise Unres("missing")


def append(i, e, env, key):
    node(i, e.args[0], env).append(node(i, e.args[1], env))


def number(i, n):
    try:
        v = n.leaf()
    except Missing as x:
        i.missing = getattr(i, "missing", None) or str(x)
        raise Unres("missing")
    if not isinstance(v, Poly):
        i.missing = getattr(i, "missing", None) or "a number out of a text"
        raise Unres("missing")
    return v


WHOLE = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long")


def typed(i, v, T):
    if T in WHOLE:
        c = v.const()
        if c is not None and int(c) == c and (c >= 0 or not T.startswith("unsigned")):
            return v
        raise Unres("a whole number from %s" % show(v)[:40])
    if T == "double":
        return v
    if T == "float":
        i.missing = "all digits: they are rounded to float"
        raise Unres("missing")
    raise Unres("as " + T)


def as_type(full):
    """T of JsonItem::as<T>() const"""
    a = full.index("::as<") + 5 if "::as<" in full else full.index("::as_vec<") + 9
    d, k = 1, a
    while d:
        d += {"<": 1, ">": -1}.get(full[k], 0)
        k += 1
    return full[a:k - 1]


def to_text(i, e, env, key, src, dst):
    try:
        v = node(i, src, env).leaf()
    except Missing as x:
        i.missing = getattr(i, "missing", None) or str(x)
        raise Unres("missing")
    if isinstance(v, Poly):
        raise Unres("a text out of a number")
    settext(i, i.vplace(dst, env), key, v)


def convert(i, e, env, key):
    """operator T, as<T>, as(T&)"""
    if e.callee.endswith("operator basic_string"):
        return to_text(i, e, env, key, e.args[1], e.args[0])
    name = e.callee[len(J):]
    ps = strip_templates(e.full)[1]
    T = as_type(e.full) if name == "as" else name[len("operator "):]
    if "basic_string" in T or T == "std::string" or T == "std":
        return to_text(i, e, env, key, *((e.args[0], e.args[1]) if ps else (e.args[1], e.args[0])))
    v = typed(i, number(i, node(i, e.args[0], env)), T)
    if ps:
        b, o = i.vplace(e.args[1], env)
        return i.write(b, o // (4 if T in ("int", "unsigned int") else 8), key, True, v)
    record(i, e, env, v)


def convert_vec(i, e, env, key):
    T = as_type(e.full)
    ps = strip_templates(e.full)[1]
    src, dst = (e.args[0], e.args[1]) if ps else (e.args[1], e.args[0])
    n = node(i, src, env)
    if n.kind != "list":
        i.missing = getattr(i, "missing", None) or "a list out of %s" % n
        raise Unres("missing")
    i.vset(i.vplace(dst, env), key, [typed(i, number(i, x), T) for x in n.v])


def size(i, e, env, key):
    n = node(i, e.args[0], env)
    if n.kind in ("none", "leaf"):
        i.missing = getattr(i, "missing", None) or "the size of %s" % n
        raise Unres("missing")
    record(i, e, env, P(len(n.v)))


def json_type(i, e, env, key):
    record(i, e, env, P(KINDS[node(i, e.args[0], env).kind]))


def shapes(i, e, env, key):
    """a shape put at the end of a list of shapes"""
    full = e.full
    if "vector<EdgeLearning::DLMath::Shape3d" not in full.split("::emplace_back")[0].split("::push_back")[0] and "Shape3d" not in full:
        return i.vecop(e, env, key)
    v = i.vplace(e.args[0], env)
    n = i.vsize(v, key)
    if e.callee.endswith("push_back"):
        xs = i.vget(i.vplace(e.args[1], env), key)
    else:
        xs = []
        for k, p in enumerate(strip_templates(full)[1]):
            if "JsonItem" in p:
                xs.append(typed(i, number(i, node(i, e.args[1 + k], env)), "unsigned long"))
            elif p.startswith("EdgeLearning::DLMath::Shape"):
                xs = i.vget(i.vplace(e.args[1 + k], env), key)
            elif p.startswith(("unsigned long", "int", "long")):
                b, o = i.vplace(e.args[1 + k], env)
                xs.append(i.read(b, o // (4 if p.startswith("int") else 8), key))
            else:
                raise Unres(full[:80])
    i.vsz.setdefault(v, []).append((key, n + 1))
    i.vset((i.vdata(v), 24 * n), key, xs)
    record(i, e, env, ("P", i.vdata(v), P(24 * n)))


def differs(i, e, env):
    """texts are compared"""
    if "basic_string" not in e.full:
        return None
    return result(i, e, env)


def differs_effect(i, e, env, key):
    if "basic_string" not in e.full:
        raise Unres(e.full[:60])
    ps = strip_templates(e.full)[1]
    a, b = (as_text(i, e, k, ps, env, key) for k in (0, 1))
    eq = a == b
    if not eq and not (a[0] == b[0] and a[0] in ("type", "str", "name")):
        raise Unres("a comparison of texts")
    record(i, e, env, P(int(eq == e.callee.endswith("operator=="))))


def as_text(i, e, k, ps, env, key):
    if k < len(ps) and ps[k].startswith("char const*"):
        b, o = i.vplace(e.args[k], env)
        s = i.ai.mod.string(b[1]) if b[0] == "glob" else None
        if s is None:
            raise Unres("a text")
        return ("str", s[o:].split(b"\0")[0].decode("latin1"))
    return text(i, e.args[k], env, key)


def compare_effect(i, e, env, key):
    a, b = text(i, e.args[0], env, key), as_text(i, e, 1, ["this"] + strip_templates(e.full)[1], env, key)
    if a != b and not (a[0] == b[0] and a[0] in ("type", "str", "name")):
        raise Unres("a comparison of texts")
    record(i, e, env, P(int(a != b)))


CONV = ["operator " + t for t in WHOLE + ("double", "float", "bool", "std::string", "std", "std::__cxx11::basic_string")]
EFFECTS = dict(LAYER_EFFECTS)
EFFECTS.update({
    J + "JsonItem": construct, E + "JsonList::JsonList": make_list, E + "JsonDict::JsonDict": make_dict, J + "operator=": assign, J + "operator[]": subscript, J + "at": subscript,
    J + "append": append, J + "as": convert, J + "as_vec": convert_vec, J + "size": size, J + "json_type": json_type, E + "JsonObject::json_type": json_type,
    "std::map::at": field_effect, "std::basic_string::basic_string": string, "std::basic_string::operator=": string, "std::basic_string::assign": string,
    "std::operator!=": differs_effect, "std::operator==": differs_effect, "std::basic_string::compare": compare_effect,
    "std::vector::emplace_back": shapes, "std::vector::push_back": shapes,
})
EFFECTS[J + "operator basic_string"] = convert
for _c in CONV:
    EFFECTS[J + _c] = convert
CALLS = {"std::map::at": field, "std::operator!=": differs, "std::operator==": differs, "std::basic_string::compare": result}
for _c in ["operator[]", "at", "operator=", "as", "size", "json_type"] + CONV:
    CALLS[J + _c] = result
CALLS["std::vector::emplace_back"] = result
CALLS[E + "JsonObject::json_type"] = result


def own(ai, I, st, name, full, args, t):
    """a question about a JSON value has an answer of its own each time"""
    if t == "void" or I.d.get("sret"):
        return NotImplemented
    return ai.typed(("call", name, I.i), t)


MODELS = {n: own for n in CALLS if n.startswith((J, E + "Json")) or n in ("std::map::at", "std::operator!=", "std::operator==", "std::basic_string::compare")}
_kern = {}


def kern(c, f, cls):
    if (f.key, cls) not in _kern:
        _kern[(f.key, cls)] = Kern(c.absint(Absint(c.fn(f), models=MODELS, cls=E + cls)), CALLS, EFFECTS, dynamic=True)
    return _kern[(f.key, cls)]


# ---------------------------------------------------------------- layers
def type_of(cls):
    """the text type() of a class answers with"""
    fs = method(cls, "type")
    if len(fs) != 1:
        raise Unres("type() of " + cls)
    rs = [e for e in Absint(fs[0][1]).rets()]
    r = rs[0].args[0] if len(rs) == 1 and rs[0].args else None
    if not (isinstance(r, tuple) and r[:1] == ("p",) and r[1][0] == "glob" and r[2] == ZERO):
        raise Unres("type() of " + cls)
    return ("type", r[1][1])


def source(cls):
    """an object whose numbers are symbols of its own"""
    st = State(cls)
    st.source = True
    return st


def el(m, x):
    return P(("sym", "%s[%d]" % (m, x)))


def name_place(st):
    return ("shared", THIS, st.off("_shared_fields")), members("Layer::Fields")["_name"][0]


def objects(tier):
    """(class, text, what the object holds, what else): sizes {member: elements}, numbers {member: value}, shapes {member: sides}, input and output shape"""
    for n, m in ((1, 1), (2, 3), (3, 1), (1, 2)):
        yield "DenseLayer", "%d inputs, %d outputs" % (n, m), fl(n), fl(m), dense_sizes(n, m), {}, {}
    for inp, k, f, s, p in (((3, 4, 1), (2, 1), 2, (1, 2), (0, 1)), ((4, 3, 2), (2, 3), 1, (2, 1), (1, 0)), ((2, 2, 3), (1, 2), 3, (1, 1), (0, 0))):
        out = conv_out(inp, k, f, s, p)
        yield ("ConvolutionalLayer", "input %dx%dx%d, kernel %dx%d, %d filters" % (inp + k + (f,)), inp, out, conv_sizes(inp, k, f, out),
               {"_n_filters": F(f)}, {"_kernel_shape": k, "_stride": s, "_padding": p})
    for cls in ("MaxPoolingLayer", "AveragePoolingLayer"):
        for inp, k, s in (((4, 6, 2), (2, 3), (1, 2)), ((5, 3, 1), (3, 1), (2, 1))):
            out = pool_out(inp, k, s)
            yield cls, "input %dx%dx%d, kernel %dx%d" % (inp + k), inp, out, ff_sizes(prod(inp), prod(out)), {}, {"_kernel_shape": k, "_stride": s}
    for cls in ("ReluLayer", "EluLayer", "SoftmaxLayer", "TanhLayer", "SigmoidLayer", "LinearLayer", "DropoutLayer"):
        for n in (1, 3):
            num = {"_alpha": S("alpha")} if "_alpha" in members(cls) else {}
            if cls == "DropoutLayer":
                p = S("p")
                for num in ({"_drop_probability": p, "_scale": fsel(("eq", p - 1), ONE, inv(ONE - p))}, {"_drop_probability": ONE, "_scale": ONE}):
                    yield cls, "%d neurons" % n, fl(n), fl(n), ff_sizes(n, n), num, {}
                continue
            yield cls, "%d neurons" % n, fl(n), fl(n), ff_sizes(n, n), num, {}
    for cls in ("MeanSquaredLossLayer", "CategoricalCrossEntropyLossLayer"):
        for n in (1, 3):
            yield cls, "%d inputs" % n, fl(n), fl(0), {"_gradients": n}, {"_loss_tolerance": S("tolerance")} if "_loss_tolerance" in members(cls) else {}, {}
    for n, h, m, t in ((1, 1, 1, 1), (2, 1, 3, 2), (1, 3, 2, 1), (3, 2, 1, 0)):
        for act in (0, 1):
            yield ("RecurrentLayer", "%d inputs, %d hidden, %d outputs, %d time steps" % (n, h, m, t), fl(n), fl(m), rec_sizes(n, h, m, t),
                   {"_hidden_size": F(h), "_time_steps": F(t), "_hidden_activation": F(act)}, {})


LEARNED = {"DenseLayer": ("_weights", "_biases"), "ConvolutionalLayer": ("_weights", "_biases"),
           "RecurrentLayer": ("_weights_i_to_h", "_weights_h_to_h", "_biases_to_h", "_weights_h_to_o", "_biases_to_o")}


def put(st, m, v):
    o, t = st.mem[m][0], st.mem[m][1]
    w = 4 if "HiddenActivation" in t else 8
    st.p[(THIS, o // w)] = v
    return (THIS, o // w)


def filled(cls, inp, out, sizes, nums, dims):
    st = State(cls).fields(inp, out)
    for m, n in sizes.items():
        st.vec(m, n, lambda x, m=m: el(m, x))
    for m, v in nums.items():
        put(st, m, v)
    for m, s in dims.items():
        st.shape(m, *s)
    R, o = name_place(st)
    st.p[("text", R, o)] = ("name", "the name of the object")
    sees_type(st, cls)
    return st


def sees_type(st, cls):
    t = type_of(cls)
    st.p[("object", THIS)] = (slots(cls), {"type": lambda i: ("P", t, ZERO)})


def dumped(c, cls, st):
    """the tree that dump builds"""
    fs = method(cls, "dump")
    if len(fs) != 1:
        raise Unres("%d functions dump of %s" % (len(fs), cls))
    k = kern(c, fs[0][1], cls)
    st2 = State(cls)
    st2.p = dict(st.p)
    i = k.at(shift(st.p), None, {shift_place(b): v for b, v in st.inputs.items()})
    if i.fail:
        raise Unres(getattr(i, "missing", None) or str(i.fail))
    n = trees(i).get((("arg", 0), 0))
    if n is None:
        raise Unres("the result of dump")
    return n.copy()


def shift(p):
    return p


def shift_place(b):
    return b


def round_trip(c):
    rule = "load of what dump has written"
    done = {}
    byclass = {}
    for o in objects(c.tier):
        byclass.setdefault(o[0], []).append(o)
    for cls in byclass:
        named(c, cls + "::load", lambda c, cls=cls: one_class(c, rule, cls, byclass[cls]))


def target(cls, o):
    """an object of the class with sizes of another one and numbers of its own"""
    _, _, inp, out, sizes, nums, dims = o
    st = State(cls).fields(inp, out)
    for m, n in sizes.items():
        st.vec(m, n, lambda x, m=m: P(("sym", "old %s[%d]" % (m, x))))
    for m, v in nums.items():
        put(st, m, S("old " + m) if v.const() is None or m not in ("_hidden_size", "_time_steps", "_n_filters", "_hidden_activation") else v)
    for m, s in dims.items():
        st.shape(m, *s)
    R, of = name_place(st)
    st.p[("text", R, of)] = ("name", "the old name")
    sees_type(st, cls)
    return st


def named(c, name, f):
    f.__name__ = name
    c.part(f)


KINDS = {"leaf": 0, "list": 1, "dict": 2, "none": 3}


def given(st, tree):
    """the argument of load"""
    st.p[("json", ("arg", 1), 0)] = tree
    st.p[("object", ("arg", 1))] = (slots("JsonItem"), {"json_type": lambda i: P(KINDS[tree.kind])})


def one_class(c, rule, cls, os):
    fs = method(cls, "load")
    where = "%s::load" % cls
    if len(fs) != 1:
        c.ob(rule, where, None, "%d such functions" % len(fs))
        return
    where = fs[0][1].where()
    k = kern(c, fs[0][1], cls)
    m = 0
    for x, o in enumerate(os):
        t = os[(x + 1) % len(os)]
        tree = dumped(c, cls, filled(*((cls,) + o[2:])))
        st = target(cls, t)
        given(st, tree)
        bad = loaded(c, k, cls, st, o)
        m += 1
        if bad:
            c.ob(rule, where, False, "%s, loaded into %s: %s" % (o[1], t[1], bad), construct="%s::load" % cls)
            return
    c.ob(rule, where, True, "%d objects, every element" % m, construct="%s::load" % cls)


# ---------------------------------------------------------------- models
def layer_call(i, e, env, key):
    """dump and load of a layer of a model"""
    r, dst = i.target(e, env), None
    if r is None and len(e.args) > 2:
        r, dst = i.target(Shifted(e), env), e.args[1]
    if r is None:
        raise Unres("a call of an unknown method")
    _, name, reg, args = r
    if name == "dump" and dst is not None:
        trees(i)[i.vplace(dst, env)] = Node("leaf", ("dump", reg[1]))
    elif name == "load" and len(args) == 1:
        i.trace.append((reg[1], node(i, args[0], env).copy()))
    elif name not in GETTERS:
        raise Unres("a call of " + str(name))


class Shifted(object):
    """the same call with the object it is made on as the first argument: the place for the result comes before it"""

    def __init__(self, e):
        self.callee, self.args, self.full, self.b, self.ins = e.callee, [e.args[0]] + list(e.args[2:]), e.full, e.b, e.ins


def written(i, e, env, key):
    if "Json" not in e.full:
        raise Unres(e.full[:80])
    i.trace.append(("stream", i.vplace(e.args[0], env), node(i, e.args[1], env).copy()))
    record(i, e, env, ("P",) + tuple(i.place(i.ai.as_ptr(e.args[0]), env)[:1]) + (ZERO,))


def read_json(i, e, env, key):
    if "Json" not in e.full:
        raise Unres(e.full[:80])
    t = i.params.get(("tree", i.vplace(e.args[0], env)))
    if t is None:
        raise Unres("what a stream holds")
    node(i, e.args[1], env).set(t)


MODEL_EFFECTS = dict(EFFECTS)
MODEL_EFFECTS.update({"<indirect>": layer_call, E + "operator<<": written, E + "operator>>": read_json, "std::shared_ptr::shared_ptr": copy_shared, "std::shared_ptr::operator=": copy_shared})


def of_model(c, f):
    if ("model", f.key) not in _kern:
        _kern[("model", f.key)] = Kern(c.absint(Absint(c.fn(f), models=MODELS)), CALLS, MODEL_EFFECTS, dynamic=True)
    return _kern[("model", f.key)]


def a_model(names, text):
    m = Model()
    m.pointers("layers", names)
    sh = m.mem["_shared_fields"]
    m.p[("text", ("shared", THIS, sh[0]), members("Model::Fields")["_name"][0])] = ("name", text)
    return m


def models(c):
    rule = "a model loads what a model has written"
    fs, gs = method("Model", "dump"), method("Model", "load")
    if len(fs) != 1 or len(gs) != 1:
        raise Unres("functions dump and load of Model")
    where = gs[0][1].where()
    for names in ([], ["a"], ["b", "a"], ["c", "a", "b", "d"]):
        m = a_model(names, "the name of the model")
        i = of_model(c, fs[0][1]).at(m.p, None, m.inputs)
        if i.fail:
            raise Unres(getattr(i, "missing", None) or str(i.fail))
        w = [x for x in i.trace if x[0] == "stream"]
        if len(w) != 1 or len(i.trace) != 1 or w[0][1] != (("arg", 1), 0):
            raise Unres("what Model::dump writes")
        m = a_model(names, "the old name")
        m.p[("tree", (("arg", 1), 0))] = w[0][2]
        i = of_model(c, gs[0][1]).at(m.p, None, m.inputs)
        bad = None
        if getattr(i, "missing", None):
            bad = "load asks for %s" % i.missing
        elif i.throws() is True:
            bad = "an exception is thrown"
        else:
            got = [(n, x.v if x.kind == "leaf" else str(x)) for n, x in i.trace]
            for n in names:
                if len([x for x in got if x[0] == n]) != 1:
                    bad = bad or "layer %s loads %d times" % (n, len([x for x in got if x[0] == n]))
            for n, x in got:
                if x != ("dump", n):
                    bad = bad or "layer %s loads %s" % (n, "the dump of layer " + x[1] if x[:1] == ("dump",) else str(x))
            b, o = ("shared", THIS, m.mem["_shared_fields"][0]), members("Model::Fields")["_name"][0]
            h = getattr(i, "texts", {}).get((b, o), ())
            if bad is None and (not h or h[-1][1] != ("name", "the name of the model")):
                bad = "the name is %s" % (tname(h[-1][1]) if h else "the old one")
        if bad:
            c.ob(rule, where, False, "a model of %d layers: %s" % (len(names), bad), construct="Model::load")
            return
    c.ob(rule, where, True, "models of 0 to 4 layers", construct="Model::load")


OTHER = {"ReluLayer": "LinearLayer"}


def refuse(c):
    """the dump of a layer of another class, or nothing at all, is refused"""
    rule = "load of something else"
    done = []
    for o in objects(c.tier):
        if o[0] not in done:
            done.append(o[0])
            named(c, o[0] + "::load", lambda c, o=o: refuses(c, rule, o[0], o))


def retyped(n, old, new):
    """the same tree with another type in it"""
    m = 0
    for k, x in n.v.items():
        if x.kind == "leaf" and x.v == old:
            x.v, m = new, m + 1
    if m != 1:
        raise Unres("%d types in a dump" % m)
    return n


def refuses(c, rule, cls, o):
    fs = method(cls, "load")
    where = fs[0][1].where()
    k = kern(c, fs[0][1], cls)
    other = type_of(OTHER.get(cls, "ReluLayer"))
    wrong = retyped(dumped(c, cls, filled(*((cls,) + o[2:]))), type_of(cls), other)
    for what, tree, name in (("the dump of a layer of another type", wrong, "the old name"), ("an empty value", Node(), "the old name"),
                             ("the dump of a layer of the same name and another type", wrong, "the name of the object")):
        st = target(cls, o)
        st.p[("text",) + name_place(st)] = ("name", name)
        given(st, tree)
        i = k.at(st.p, None, st.inputs)
        if getattr(i, "missing", None):
            continue
        t = i.throws()
        if t is False:
            c.ob(rule, where, False, "%s is loaded" % what, construct="%s::load" % cls)
            return
        if t is not True:
            raise Unres("whether %s is refused" % what)
    c.ob(rule, where, True, "another type, an empty value", construct="%s::load" % cls)


def loaded(c, k, cls, st, o, missing=True):
    _, _, inp, out, sizes, nums, dims = o
    i = k.at(st.p, None, st.inputs)
    if getattr(i, "missing", None):
        return "load asks for %s" % i.missing
    want, z = {}, {}
    for nm, s in (("input", inp), ("output", out)):
        R, v, e, r = fields_shape(st, nm)
        z[v], z[e] = 1, 3
        st.names[r] = "the %s shape" % nm
        want[r] = {x: F(y) for x, y in enumerate(s)}
    fm = members("Layer::Fields")
    st.names[R] = "the shared fields"
    want[R] = {fm["_input_size"][0] // 8: F(prod(inp)), fm["_output_size"][0] // 8: F(prod(out))}
    for m, n in sizes.items():
        z[shared(st, m)] = n
        st.names[st.data(m)] = m
        want[st.data(m)] = {x: el(m, x) if m in LEARNED.get(cls, ()) else None for x in range(n)}
    for m, s in dims.items():
        z[(THIS, st.off(m))] = len(s)
        r = ("vec", ("p", THIS, P(st.off(m))))
        st.names[r] = m
        want[r] = {x: F(y) for x, y in enumerate(s)}
    st.names[THIS] = "the object"
    want[THIS] = {}
    st.ignore = set()
    for m, v in nums.items():
        w = 4 if "HiddenActivation" in st.mem[m][1] else 8
        want[THIS][st.mem[m][0] // w] = v
        for y, g in i.cells.items():
            pass
    st.ignore = {(THIS, y) for y in range(4096) if y not in want[THIS]}
    t = i.throws()
    if t is True:
        return "an exception is thrown"
    bad = compare_state(i, k, st, want, z, nums)
    if bad:
        return bad
    R, of = name_place(st)
    h = getattr(i, "texts", {}).get((R, of), ())
    x = h[-1][1] if h else st.p[("text", R, of)]
    if x != ("name", "the name of the object"):
        return "the name is %s" % tname(x)
    return None


def compare_state(i, k, st, want, z, nums):
    names = {st.mem[m][0] // (4 if "HiddenActivation" in st.mem[m][1] else 8): m for m in nums}
    bad = compare(k, "", st, want, sizes=z)
    if bad and "of the object" in bad:
        for x, m in names.items():
            bad = bad.replace("element %d of the object" % x, m)
    return bad


TESTS = [round_trip, refuse, lambda c: named(c, "Model::load", models)]


def check(c):
    for f in TESTS:
        f(c)


def C33(c):
    c.rule("a layer loads what a layer of its class has dumped")
    check(c)
    return ["numbers pass through the JSON values unchanged"]
