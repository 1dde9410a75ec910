"""Abstract interpretation of code over the JSON class hierarchy: the dynamic
class of an object is part of the abstract state (one analysis per class), and
std::shared_ptr, std::map and dynamic casts have models over it."""
from .absint import Absint, vec_size, m_vec_index, MODELS, BOTTOM
from .terms import *
from .ir import strip_templates, strip_name

NS = "EdgeLearning::"
LEAF, LIST, DICT, ITEM, OBJ = (NS + "Json" + x for x in ("Leaf", "List", "Dict", "Item", "Object"))
NODE = 72      # bytes between consecutive abstract map nodes (key string + item)


def targ(full, name):
    """first template argument of function `name<...>` in a demangled name"""
    i = full.find(name + "<")
    if i < 0:
        return None
    i += len(name) + 1
    d, j = 1, i
    while j < len(full):
        c = full[j]
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
            if d == 0:
                break
        elif c == "," and d == 1:
            break
        j += 1
    return full[i:j].strip()


class Layout(object):
    """positions of the members, found by type"""

    def __init__(self, m):
        self.m = m

        def member(cls, pred):
            r = [o for n, o, ty, sz in m.types[cls]["members"] if pred(ty)]
            return r[0] if len(r) == 1 else None
        self.value = member(ITEM, lambda t: "shared_ptr" in t or t.endswith("Shared"))
        self.val = member(LEAF, lambda t: "basic_string" in t or t == "std::string")
        self.type = member(LEAF, lambda t: t.endswith("Type"))
        self.list = member(LIST, lambda t: "vector" in t)
        self.map = member(DICT, lambda t: "map<" in t)
        self.kind = member(OBJ, lambda t: t.endswith("JsonType"))
        self.content = {LEAF: self.val, LIST: self.list, DICT: self.map}


class KInt(Absint):
    def __init__(self, fn, lay, kinds=None, held=None, enum=None, facts=(), consts=None, init=None, objs=None, vstack=()):
        """kinds: dynamic class of bases; held: {pointer to JsonItem: held base or None};
        enum: {class: kind constant}"""
        self.lay = lay
        self.kinds = dict(kinds or {})
        self.enum = enum or {}
        self.news = {}
        init = dict(init or {})
        objs = dict(objs or {})
        for p, h in (held or {}).items():
            q = ("p", p, ZERO)
            objs[(p, lay.value)] = ("shp", ("p", h, ZERO) if h else NULL)
            if h and self.kinds.get(h) in self.enum:
                init.setdefault((p, lay.kind, 4), P(self.enum[self.kinds[h]]))
            elif not h and "none" in self.enum:
                init.setdefault((p, lay.kind, 4), P(self.enum["none"]))
        for b, k in self.kinds.items():
            if k in self.enum and (b, lay.kind, 4) not in init:
                init[(b, lay.kind, 4)] = P(self.enum[k])
        super().__init__(fn, consts=consts, init=init, facts=facts, objs=objs, models=KMODELS, vstack=vstack)

    # dynamic dispatch
    def kind_of(self, base):
        k = self.kinds.get(base)
        if k is None and base[0] == "new":
            k = self.news.get(base[1], (None,))[0]
        if k is None and base == ("this",) and self.fn.scope.startswith(NS + "Json"):
            # objects of the final classes
            if self.fn.scope != OBJ:
                k = self.fn.scope
        if k is None and base[0] in ("alloca",):
            k = self.region_type(base)
        if k is None and base[0] == "arg":
            t = self.region_type(base)
            if t in (LEAF, LIST, DICT, ITEM):
                k = t
        return k

    def vtarget(self, fp, args):
        if not (isinstance(fp, tuple) and fp[0] == "p" and fp[1][0] == "ld"):
            return None
        slot, vt = fp[1][2].const(), fp[1][1]
        if slot is None or not isinstance(vt, tuple):
            return None
        if vt[:1] == ("glob",) and str(vt[1]).startswith("_ZTV"):
            g = self.mod.globals.get(vt[1], {}).get("init")
            g = g[0] if isinstance(g, list) and g and isinstance(g[0], list) else None
            idx = slot // 8
        elif vt[:1] == ("ld",) and vt[2].const() == 0:
            g = self.mod.vtable(self.kind_of(vt[1]))
            idx = 2 + slot // 8
        else:
            return None
        if not g or idx >= len(g):
            return None
        x = g[idx]
        return self.mod.fns.get(x.get("ref")) if isinstance(x, dict) else None

    def vsummary(self, tgt, args, st):
        if tgt.loops or len(self.vstack) > 3 or tgt.key in self.vstack or len(args) != 1:
            return None
        p = self.as_ptr(args[0])
        if p[2].const() != 0:
            return None
        init = {(("this",),) + k[1:]: v for k, v in st.mem.items() if k[0] == p[1]}
        a = Absint(tgt, init=init, vstack=self.vstack + (tgt.key,))
        if any(e.kind in ("store", "memcpy", "memset", "call") for e in a.events):
            return None
        vs = {e.args[0] for e in a.rets() if e.args}
        return vs.pop() if len(vs) == 1 else None

    def shp(self, st, p):
        v = self.oget(st, p)
        if isinstance(v, tuple) and v[:1] == ("shp",):
            return v[1]
        return ("p", ("shpv", v), ZERO)

    def nonnull(self, q):
        if q == NULL:
            return FALSE
        if q[1][0] in ("held", "new", "copyof", "this", "arg", "alloca") or q[1] in self.kinds:
            return TRUE
        return neg(eq(q, NULL))

    def edge_facts(self, t, truth):
        return super().edge_facts(t, truth)

    def set_held(self, st, p, q):
        self.oset(st, p, ("shp", q))


def setshp(ai, st, p, q):
    ai.set_held(st, p, q)


def m_shp_bool(ai, I, st, name, full, args, t):
    return ai.nonnull(ai.shp(st, args[0]))


def m_shp_get(ai, I, st, name, full, args, t):
    return ai.shp(st, args[0])


def m_shp_ctor(ai, I, st, name, full, args, t):
    ps = strip_templates(full)[1]
    if len(args) == 1 or (ps and "nullptr" in ps[0]):
        setshp(ai, st, args[0], NULL)
        return BOTTOM
    if len(args) >= 2 and isinstance(args[1], tuple) and args[1][0] == "p":
        p0 = ps[0] if ps else ""
        if "shared_ptr" in p0:
            q = ai.shp(st, args[1])
            setshp(ai, st, args[0], q)
            if p0.endswith("&&"):
                setshp(ai, st, args[1], NULL)
            return BOTTOM
    return NotImplemented


def m_shp_assign(ai, I, st, name, full, args, t):
    ps = strip_templates(full)[1]
    if ps and "nullptr" in ps[0]:
        setshp(ai, st, args[0], NULL)
        return args[0]
    if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "p" and ps and "shared_ptr" in ps[0]:
        q = ai.shp(st, args[1])
        setshp(ai, st, args[0], q)
        if ps[0].endswith("&&") and args[0] != args[1]:
            setshp(ai, st, args[1], NULL)
        return args[0]
    return NotImplemented


def m_shp_reset(ai, I, st, name, full, args, t):
    if len(args) == 1:
        setshp(ai, st, args[0], NULL)
        return BOTTOM
    return NotImplemented


def m_shp_swap(ai, I, st, name, full, args, t):
    if len(args) == 2 and all(isinstance(a, tuple) and a[0] == "p" for a in args) and "shared_ptr" in full:
        a, b = ai.shp(st, args[0]), ai.shp(st, args[1])
        setshp(ai, st, args[0], b)
        setshp(ai, st, args[1], a)
        return BOTTOM
    return NotImplemented


def m_shp_cast(ai, I, st, name, full, args, t):
    if not I.d.get("sret") or len(args) != 2:
        return NotImplemented
    T = targ(full, name.split("::")[-1])
    T = T and T.replace("const", "").strip()
    q = ai.shp(st, args[1])
    r = cast(ai, q, T, name.startswith("std::dynamic"))
    setshp(ai, st, args[0], r)
    if (strip_templates(full)[1] or [""])[0].endswith("&&"):
        if r != NULL:
            setshp(ai, st, args[1], NULL)
    return BOTTOM


def derives(ai, k, T):
    while k:
        if k == T:
            return True
        bs = ai.mod.types.get(k, {}).get("bases", [])
        k = bs[0][0] if bs else None
    return False


def cast(ai, q, T, dynamic):
    if q == NULL or not dynamic:
        return q
    k = ai.kind_of(q[1])
    if k is None:
        return ("p", ("dyn", T, q), ZERO)
    return q if derives(ai, k, T) else NULL


def m_dyncast(ai, I, st, name, full, args, t):
    g = args[2]
    if not (isinstance(g, tuple) and g[1][0] == "glob"):
        return NotImplemented
    n = ai.mod.globals.get(g[1][1], {}).get("name") or ai.mod.dem(g[1][1])
    T = None
    for c in (LEAF, LIST, DICT, ITEM, OBJ):
        if n == "typeinfo for " + c or g[1][1] == "_ZTI" + "N12EdgeLearning%d%sE" % (len(c) - len(NS), c[len(NS):]):
            T = c
    if T is None:
        return NotImplemented
    return cast(ai, ai.as_ptr(args[0]), T, True)


def m_make_shared(ai, I, st, name, full, args, t):
    if not I.d.get("sret"):
        return NotImplemented
    T = targ(full, "make_shared") or ""
    T = T.replace("const", "").strip()
    b = ("new", I.i)
    ps = [x for x in (strip_templates(full)[1] or []) if x != "void"]
    src = args[1:]
    ai.news[I.i] = (T, tuple(src), tuple(ps))
    q = ("p", b, ZERO)
    lay = ai.lay
    for k in [k for k in st.mem if k[0] == b]:
        del st.mem[k]
    for k in [k for k in st.obj if k[0] == b]:
        del st.obj[k]
    if T in ai.enum:
        st.mem[(b, lay.kind, 4)] = P(ai.enum[T])
    off = lay.content.get(T)
    if off is not None:
        if not src:
            ai.oset(st, ("p", b, P(off)), ("vecn", ZERO, ("empty", I.i)) if T == LIST else ("empty", T))
        elif len(src) == 1 and isinstance(src[0], tuple) and src[0][0] == "p" and ps and T in ps[0]:
            ai.oset(st, ("p", b, P(off)), ai.oget(st, ("p", src[0][1], src[0][2] + off)))
            if T == LEAF and lay.type is not None:
                st.mem[(b, lay.type, 4)] = ai.load(st, ("p", src[0][1], src[0][2] + lay.type), 4, "i32", None)
    setshp(ai, st, args[0], q)
    return BOTTOM


def m_item_copy(ai, I, st, name, full, args, t):
    """copy of an item (the copy constructor has rules of its own)"""
    ps = strip_templates(full)[1]
    if len(args) != 2 or not ps or "JsonItem const&" not in ps[0]:
        return NotImplemented
    copy_item(ai, st, args[0], args[1])
    return args[0] if t == "ptr" else BOTTOM


def copy_item(ai, st, dst, src):
    lay = ai.lay
    q = ai.shp(st, ("p", src[1], src[2] + lay.value))
    known = q[1][0] != "shpv"
    if known and q != NULL:
        k = ai.kind_of(q[1])
        nb = ("copyof", q[1])
        if k:
            ai.kinds[nb] = k
        q = ("p", nb, ZERO)
        if k in ai.enum:
            st.mem[(nb, lay.kind, 4)] = P(ai.enum[k])
    elif not known:
        q = ("p", ("copyof", q[1]), ZERO)
    setshp(ai, st, ("p", dst[1], dst[2] + lay.value), q)
    c, d = src[2].const(), dst[2].const()
    if d is not None:
        if c is not None:
            v = ai.load(st, ("p", src[1], src[2] + lay.kind), 4, "i32", None)
        else:
            v = P(("ld", src[1], src[2] + lay.kind, 4))
        ai.kill(st, dst[1], d + lay.kind, d + lay.kind + 4)
        st.mem[(dst[1], d + lay.kind, 4)] = v
    st.obj[ai.okey(("p", dst[1], dst[2]))] = ("item", ai.oget(st, src))


# ------------------------------------------------------------------ containers
def m_map_count(ai, I, st, name, full, args, t):
    if "map" not in name:
        return NotImplemented
    r = ("has", ai.oget(st, args[0]), keyval(ai, st, args[1]))
    return P(("b2i", r)) if t != "i1" else r


def keyval(ai, st, p):
    if not (isinstance(p, tuple) and p[0] == "p"):
        return p
    if p[1][0] == "mapnode":
        return p[1][2]
    return ai.oget(st, p)


def m_map_at(ai, I, st, name, full, args, t):
    return ("p", ("mapnode", args[0], keyval(ai, st, args[1])), P(32))


def m_map_empty(ai, I, st, name, full, args, t):
    return eq(P(("pure", "std::map::size", ai.oget(st, args[0]))), ZERO)


def m_map_begin(ai, I, st, name, full, args, t):
    return ("p", ("it", args[0]), ZERO)


def m_map_end(ai, I, st, name, full, args, t):
    return ("p", ("it", args[0]), P(("pure", "std::map::size", ai.oget(st, args[0]))))


def m_map_find(ai, I, st, name, full, args, t):
    return ("p", ("itf", args[0], keyval(ai, st, args[1])), ZERO)


def m_map_bound(ai, I, st, name, full, args, t):
    return ("p", ("itb", args[0], keyval(ai, st, args[1]), name.split("::")[-1]), ZERO)


def itval(ai, st, p):
    v = ai.load(st, ai.as_ptr(p), 8, "ptr", None)
    if isinstance(v, Poly) and v.atom() and v.atom()[0] == "phi":
        v = ("p", v.atom(), ZERO)
    return v if isinstance(v, tuple) and v[0] == "p" else None


def m_it_eq(ai, I, st, name, full, args, t):
    ps = strip_templates(full)[1]
    if len(args) != 2:
        return NotImplemented
    if ps and "_Rb_tree" in ps[0]:
        a, b = itval(ai, st, args[0]), itval(ai, st, args[1])
        if a is None or b is None:
            return NotImplemented
        if a[1][0] == "itf" and b[1][0] == "it":
            r = neg(("has", ai.oget(st, a[1][1]), a[1][2])) if b == m_map_end(ai, I, st, "", "", [a[1][1]], "") else None
        elif b[1][0] == "itf" and a[1][0] == "it":
            r = neg(("has", ai.oget(st, b[1][1]), b[1][2])) if a == m_map_end(ai, I, st, "", "", [b[1][1]], "") else None
        elif "itb" in (a[1][0], b[1][0]) and "it" in (a[1][0], b[1][0]):
            x, y = (a, b) if a[1][0] == "itb" else (b, a)
            r = neg(("hasb",) + x[1][1:]) if y == m_map_end(ai, I, st, "", "", [x[1][1]], "") else None
        elif a[1] == b[1]:
            r = eq(a[2], b[2])
        else:
            r = None
        if r is None:
            return NotImplemented
        return neg(r) if name.endswith("!=") else r
    if ps and "shared_ptr" in ps[0]:
        a = ai.shp(st, args[0])
        if len(ps) > 1 and "nullptr" in ps[1]:
            r = neg(ai.nonnull(a))
        elif len(ps) > 1 and "shared_ptr" in ps[1]:
            r = eq(a, ai.shp(st, args[1]))
        else:
            return NotImplemented
        return neg(r) if name.endswith("!=") else r
    return NotImplemented


def m_it_deref(ai, I, st, name, full, args, t):
    v = itval(ai, st, args[0])
    if v is None:
        return NotImplemented
    if v[1][0] == "itf":
        return ("p", ("mapnode", v[1][1], v[1][2]), ZERO)
    if v[1][0] == "it":
        return ("p", ("node", v[1][1]), v[2] * NODE)
    if v[1][0] == "itb" and v[2] == ZERO:
        return ("p", ("bnode",) + v[1][1:], ZERO)
    return NotImplemented


def m_it_step(ai, I, st, name, full, args, t):
    v = itval(ai, st, args[0])
    if v is None or v[1][0] not in ("it", "phi"):
        return NotImplemented
    d = 1 if name.endswith("++") else -1
    p = ai.as_ptr(args[0])
    ai.store(st, p, 8, ("p", v[1], v[2] + d), I)
    ps = [x for x in (strip_templates(full)[1] or []) if x not in ("", "void")]
    return v if ps else args[0]


def m_os(ai, I, st, name, full, args, t):
    """insertion into an output stream returns the stream"""
    ps = strip_templates(full)[1]
    if t == "ptr" and args and isinstance(args[0], tuple) and (name.startswith("std::ostream::") or (ps and "ostream" in ps[0])):
        return args[0]
    if t == "ptr" and args and ps and "istream" in ps[0] and name.startswith("EdgeLearning"):
        for a in args:
            if isinstance(a, tuple) and a[0] == "p" and a[1][0] not in ("glob", "fn", "null"):
                ai.clobber(st, a, ("by", I.i))
        return args[0]
    return NotImplemented


def m_map_ctor(ai, I, st, name, full, args, t):
    ps = strip_templates(full)[1]
    if len(args) == 1:
        ai.oset(st, args[0], ("empty", DICT))
        return BOTTOM
    if len(args) == 2 and ps and "map<" in ps[0] and isinstance(args[1], tuple) and args[1][0] == "p":
        ai.oset(st, args[0], ai.oget(st, args[1]))
        return BOTTOM
    return NotImplemented


def m_map_assign(ai, I, st, name, full, args, t):
    ps = strip_templates(full)[1]
    if len(args) == 2 and ps and "map<" in ps[0] and isinstance(args[1], tuple) and args[1][0] == "p":
        ai.oset(st, args[0], ai.oget(st, args[1]))
        return args[0]
    return NotImplemented


def m_noop(ai, I, st, name, full, args, t):
    return BOTTOM


KMODELS = dict(MODELS)
for n in ("std::__shared_ptr::operator bool", "std::shared_ptr::operator bool"):
    KMODELS[n] = m_shp_bool
for n in ("std::__shared_ptr_access::operator*", "std::__shared_ptr_access::operator->", "std::__shared_ptr::get", "std::__shared_ptr_access::_M_get"):
    KMODELS[n] = m_shp_get
for n in ("std::shared_ptr::shared_ptr", "std::__shared_ptr::__shared_ptr"):
    KMODELS[n] = m_shp_ctor
for n in ("std::shared_ptr::operator=", "std::__shared_ptr::operator="):
    KMODELS[n] = m_shp_assign
for n in ("std::__shared_ptr::reset", "std::shared_ptr::reset"):
    KMODELS[n] = m_shp_reset
for n in ("std::__shared_ptr::swap", "std::shared_ptr::swap", "std::swap"):
    KMODELS[n] = m_shp_swap
for n in ("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast"):
    KMODELS[n] = m_shp_cast
for n in ("std::__shared_ptr::~__shared_ptr", "std::shared_ptr::~shared_ptr", "std::basic_string::~basic_string"):
    KMODELS[n] = m_noop
KMODELS["__dynamic_cast"] = m_dyncast
KMODELS["std::make_shared"] = m_make_shared
KMODELS["EdgeLearning::JsonItem::JsonItem"] = m_item_copy
KMODELS["EdgeLearning::JsonItem::operator="] = m_item_copy
KMODELS["std::map::map"] = m_map_ctor
KMODELS["std::map::operator="] = m_map_assign
KMODELS["std::map::count"] = m_map_count
KMODELS["std::map::contains"] = m_map_count
KMODELS["std::map::at"] = m_map_at
KMODELS["std::map::operator[]"] = m_map_at
KMODELS["std::map::empty"] = m_map_empty
KMODELS["std::map::begin"] = m_map_begin
KMODELS["std::map::cbegin"] = m_map_begin
KMODELS["std::map::end"] = m_map_end
KMODELS["std::map::cend"] = m_map_end
KMODELS["std::map::find"] = m_map_find
KMODELS["std::map::lower_bound"] = m_map_bound
KMODELS["std::map::upper_bound"] = m_map_bound
KMODELS["std::operator=="] = m_it_eq
KMODELS["std::operator!="] = m_it_eq
for n in ("std::_Rb_tree_const_iterator::", "std::_Rb_tree_iterator::"):
    KMODELS[n + "operator*"] = m_it_deref
    KMODELS[n + "operator->"] = m_it_deref
    KMODELS[n + "operator++"] = m_it_step
    KMODELS[n + "operator--"] = m_it_step
for n in ("std::operator<<", "EdgeLearning::operator<<", "std::ostream::operator<<", "std::ostream::put", "std::ostream::write",
          "EdgeLearning::operator>>"):
    KMODELS[n] = m_os
