"""JSON: C13 (misuse is reported), C14 (values, copies and equality)."""
from .. import ir
from ..jmodel import *
from ..ir import AnalysisBroken, strip_templates, strip_name
from ..terms import *
from .util import *

_env = {}


class Env(object):
    def __init__(self, ck):
        self.m = ir.view("json")
        self.lay = Layout(self.m)
        if None in (self.lay.value, self.lay.val, self.lay.list, self.lay.map, self.lay.kind):
            raise AnalysisBroken("JSON class layout")
        self.enum = {}
        self.size = self.m.types[ITEM]["size"]
        for c in (LEAF, LIST, DICT, ITEM):
            f = self.m.one(c, c.split("::")[-1], 0)
            if f is None:
                raise AnalysisBroken("default constructor of " + c)
            a = Absint(f)
            k = cells(a).get((("this",), self.lay.kind, 4))
            k = k.const() if k is not None else None
            if k is None:
                raise AnalysisBroken("kind of " + c)
            self.enum[c if c != ITEM else "none"] = k
        self.runs = {}

    def run(self, ck, fn, K=None, arg=None, kinds=None, held=None, **kw):
        """analysis of a JsonItem member with `this` holding class K (None: empty)"""
        ks = dict(kinds or {})
        hs = dict(held or {})
        if K is not None or kinds is None and held is None:
            h = ("held", ("this",)) if K else None
            if K:
                ks[h] = K
            hs[("this",)] = h
        a = KInt(fn, self.lay, kinds=ks, held=hs, enum=self.enum, **kw)
        ck.absint(a)
        return a

    def item(self, name, params):
        fs = [f for f in self.m.method(ITEM, name) if self.params(f) == params]
        return fs[0] if len(fs) == 1 else None

    def params(self, f):
        return [norm(t) for t in f.d.get("ditypes", [])[2:]]


def norm(t):
    t = (t or "").replace("const ", "").replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string")
    return t.replace("std::string", "string").strip()


def env(ck):
    k = ir.REPO
    if k not in _env:
        _env[k] = Env(ck)
    return _env[k]


KN = {None: "empty", LEAF: "leaf", LIST: "list", DICT: "dict", ITEM: "item"}
ALL = (None, LEAF, LIST, DICT)


def catches(ai):
    return any(e.callee == "__cxa_begin_catch" for e in ai.events)


def murky_ctl(ai):
    """an indirect call or an unmodelled object could have decided the control flow"""
    for e in ai.events:
        if e.kind == "call" and e.callee == "<indirect>":
            return "indirect call at %s" % e.loc()
    return None


def decided(ai):
    """the control flow of this run depends on nothing but modelled values"""
    for b, L in enumerate(ai.fn.blocks):
        if b not in ai.in_state:
            continue
        T = L[-1]
        if T.op == "br" and "cond" in T.d or T.op == "switch":
            c = ai.val(T.d["cond"])
            if c is None:
                continue
            for x in walk(c if not isinstance(c, Poly) else c):
                if x and x[0] in ("call", "unk", "dyn", "shpv", "op") and not (x[0] == "call" and str(x[1]).startswith(NS) and "operator==" in x[1]):
                    return False
    return True


def heldp(K, who=("this",)):
    return ("p", ("held", who), ZERO)


def off(p, o):
    return ("p", p[1], p[2] + o)


# ------------------------------------------------------------------ C13
def C13(ck):
    e = env(ck)
    ck.rule("for every kind of JSON value (empty, leaf, list, dict) each accessor either returns the addressed part of the "
            "value that is held or throws; the kinds are enumerated and each is decided by abstract interpretation")
    ck.part(c13_item, e)
    ck.part(c13_classes, e)
    ck.part(c13_convert, e)
    ck.part(c13_string, e)
    ck.part(c13_elements, e)
    return ["std::shared_ptr, std::map and std::vector behave as the C++ standard says",
            "an item's type tag agrees with the object it holds, as C14 decides for every way of making one"]


def verdict(ai, ok):
    """a failed expectation counts only where the run itself is decided"""
    if ok is False and (catches(ai) or murky_ctl(ai) or not decided(ai)):
        return None
    return ok


def only_throws(ck, rule, ai, what):
    r = ai.rets()
    ok = not r
    return ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "%s returns normally at %s" % (what, r[0].loc()), "%s %s" % (ai.fn.key, what))


def no_throw(ai):
    return not ai.throws()


def subscript(e, ck, rule, ai, content, idx, what):
    """element idx of the vector at `content`, or an exception when idx is out of range"""
    want = ("p", ("vec", content), idx * e.size)
    size = P(("size", ("obj", content)))
    where = ai.fn.where()
    if not ai.rets():
        ck.ob(rule, where, verdict(ai, False), "%s never returns an element" % what, ai.fn.key + " " + what)
        return
    dom = ai.dom()
    for r in ai.rets():
        for (g,), fs in cases(ai, (r.args[0],), r.facts):
            ok = same(ai, g, want, fs)
            d = "returns %s instead of element %s of the held list" % (show(g), show(idx))
            if ok:
                inr = cmp("ult", idx, size)
                z = Zone(fs)
                checked = inr in fs or any(c.callee == "std::vector::at" and c.args[0] == content and c.args[1] == idx and c.b in dom[r.b]
                                           for c in ai.events if c.kind == "call")
                if not checked:
                    # some comparison with the size that does not bound the index
                    ok = False
                    d = "returns element %s without index < size being known (known: %s)" % (show(idx), [show(f) for f in fs])
                    if any(contains(f, lambda x: x == size.atom()) and contains(f, lambda x: x == idx.atom()) and f[0] not in ("ult", "ule", "slt", "sle", "eq", "ne") for f in fs):
                        ok = None
            ck.ob(rule, where, verdict(ai, ok), "" if ok else d, ai.fn.key + " " + what)
    for t in ai.throws():
        ok = cmp("ule", size, idx) in t.facts or (eq(size, ZERO) in t.facts)
        if not ok and any(contains(f, lambda x: x == size.atom()) for f in t.facts):
            z = [f for f in t.facts if contains(f, lambda x: x == size.atom())]
            # a condition satisfiable with index < size
            ok = False if all(f[0] in ("ult", "ule", "eq", "ne") for f in z) else None
        ck.ob(rule + " (valid index accepted)", t.loc(), verdict(ai, ok), "" if ok else "throws although index < size is possible: %s" % [show(f) for f in t.facts],
              ai.fn.key + " " + what)


def keyed(e, ck, rule, ai, content, key, what, insert):
    want = ("p", ("mapnode", content, key), P(32))
    has = ("has", ("obj", content), key)
    where = ai.fn.where()
    if not ai.rets():
        ck.ob(rule, where, verdict(ai, False), "%s never returns an entry" % what, ai.fn.key + " " + what)
        return
    dom = ai.dom()
    for r in ai.rets():
        for (g,), fs in cases(ai, (r.args[0],), r.facts):
            ok = same(ai, g, want, fs)
            d = "returns %s instead of the entry of the key" % show(g)
            if ok is False and any(contains(f, lambda x: x[0] == "bnode") for f in fs):
                ok = None        # the key of the entry was looked at
            if ok is True:
                names = ("std::map::operator[]", "std::map::at", "std::map::try_emplace", "std::map::emplace", "std::map::insert") if insert else ("std::map::at",)
                safe = has in fs or any(c.callee in names and c.args[0] == content and c.b in dom[r.b] for c in ai.events if c.kind == "call")
                if not safe:
                    ok, d = False, "the key may be missing where its entry is returned"
                if not insert and any(c.callee in ("std::map::operator[]",) and c.args[0] == content for c in ai.events if c.kind == "call"):
                    ok, d = False, "reading inserts the key"
            ck.ob(rule, where, verdict(ai, ok), "" if ok else d, ai.fn.key + " " + what)
    for t in ai.throws():
        ok = (not insert) and neg(has) in t.facts
        if not ok and not insert and has not in t.facts:
            ok = False if not any(f[0] in ("i2b",) for f in t.facts) else None
        ck.ob(rule + " (present key accepted)", t.loc(), verdict(ai, ok), "" if ok else "throws although the key %s: %s" % (
            "would be inserted" if insert else "may be present", [show(f) for f in t.facts]), ai.fn.key + " " + what)


def c13_item(ck, e):
    lay = e.lay
    done = 0
    for name in ("at", "operator[]"):
        for f in e.m.method(ITEM, name):
            ps = e.params(f)
            if ps in (["unsigned long"], ["int"]):
                for K in ALL:
                    ai = e.run(ck, f, K)
                    what = "%s(index) on %s" % (name, KN[K])
                    if K == LIST:
                        subscript(e, ck, "index into list", ai, off(heldp(K), lay.list), P(("arg", 1)), what)
                    else:
                        only_throws(ck, "index into non-list throws", ai, what)
                done += 1
            elif ps in (["string"], ["char*"]):
                for K in ALL:
                    ai = e.run(ck, f, K)
                    what = "%s(key) on %s" % (name, KN[K])
                    key = ("obj", ("p", ("arg", 1), ZERO)) if ps == ["string"] else None
                    if key is None:
                        # the key is the text built from the characters
                        ks = {c.args[1] for c in ai.events if c.kind == "call" and c.callee in ("std::map::at", "std::map::operator[]", "std::map::find", "std::map::count")}
                        ks = {keyval(ai, c.state, c.args[1]) for c in ai.events if c.kind == "call" and c.callee.startswith("std::map::") and len(c.args) == 2}
                        key = ks.pop() if len(ks) == 1 else None
                        if key is not None and not contains(key, lambda x: x == ("arg", 1)):
                            key = None
                        if key is None and K == DICT:
                            ck.ob("key into dict", f.where(), None, "key value", f.key + what)
                            continue
                    if K == DICT:
                        keyed(e, ck, "key into dict", ai, off(heldp(K), lay.map), key, what, name == "operator[]")
                    elif K is None and name == "operator[]":
                        made(ck, e, "subscript makes an empty item a dict", ai, DICT, what)
                        for r in ai.rets():
                            v = r.state.obj.get((("this",), lay.value))
                            if isinstance(v, tuple) and v[:1] == ("shp",) and v[1] != NULL and isinstance(r.args[0], tuple):
                                if key is not None:
                                    w = ("p", ("mapnode", off(v[1], lay.map), key), P(32))
                                    ok = same(ai, r.args[0], w, r.facts)
                                    ck.ob("subscript makes an empty item a dict", f.where(), verdict(ai, ok), "" if ok else "returns %s" % show(r.args[0]), f.key + what + " ret")
                    else:
                        only_throws(ck, "key into non-dict throws", ai, what)
                done += 1
    for f in e.m.method(ITEM, "append"):
        for K in ALL:
            ai = e.run(ck, f, K)
            what = "append on " + KN[K]
            if K in (None, LIST):
                if K is None:
                    made(ck, e, "append makes an empty item a list", ai, LIST, what)
                pushes = [c for c in ai.events if c.kind == "call" and c.callee in ("std::vector::push_back", "std::vector::emplace_back")]
                if not ai.rets():
                    ck.ob("append adds at the end", f.where(), verdict(ai, False), what + " never returns", f.key + what)
                    continue
                for r in ai.rets():
                    v = ai.shp(r.state, ("p", ("this",), P(lay.value)))
                    mine = [c for c in pushes if c.args[0] == off(v, lay.list)]
                    doms = ai.dom()
                    ok = len([c for c in mine if c.b in doms[r.b]]) == 1 and len(mine) == 1 and not loops_of(ai.fn, mine[0].b)
                    if not ok and (not pushes or len(mine) > 1 and all(c.b in doms[r.b] for c in mine)):
                        okv = False if not any(c.callee.startswith("std::vector::") and c.callee.split("::")[-1] in ("insert", "emplace", "resize", "back")
                                               for c in ai.events if c.kind == "call") else None
                    else:
                        okv = True if ok else None
                        others = [c for c in ai.events if c.kind == "call" and c not in mine and off(v, lay.list) in c.args and c.callee.split("::")[-1] not in (
                            "size", "empty", "back", "front", "reserve", "capacity", "begin", "end", "operator[]", "at")]
                        if len(mine) == 1 and not others and not loops_of(ai.fn, mine[0].b) and mine[0].b not in doms[r.b]:
                            okv = False
                    d = "the item is appended %d times" % len(mine)
                    if ok:
                        x = mine[0].args[1]
                        src = ai.oget(mine[0].state, x)
                        good = x == ("p", ("arg", 1), ZERO) or contains(src, lambda z: z == ("p", ("arg", 1), ZERO))
                        if not good:
                            okv, d = None, "appended value"
                    ck.ob("append adds at the end", f.where(), verdict(ai, okv), "" if okv else d, f.key + what)
                ok = no_throw(ai)
                ck.ob("append adds at the end", f.where(), verdict(ai, ok), "" if ok else "throws on " + KN[K], f.key + what + " throw")
            else:
                only_throws(ck, "append to a scalar or dict throws", ai, what)
    for f in e.m.method(ITEM, "size", 0):
        for K in ALL:
            ai = e.run(ck, f, K)
            h = heldp(K)
            want = P(("size", ("obj", off(h, lay.list)))) if K == LIST else \
                P(("pure", "std::map::size", ("obj", off(h, lay.map)))) if K == DICT else ZERO
            ok = bool(ai.rets()) and no_throw(ai)
            d = "throws"
            for r in ai.rets():
                for (g,), fs in cases(ai, (r.args[0],), r.facts):
                    s = same(ai, g, want, fs)
                    if s is not True:
                        ok, d = s, "returns %s" % show(g)
            ck.ob("size of the held value", f.where(), verdict(ai, ok), "" if ok else "size() on %s %s" % (KN[K], d), f.key + KN[K])
    for f in e.m.method(ITEM, "value", 0):
        for K in ALL:
            ai = e.run(ck, f, K)
            if K is None:
                only_throws(ck, "value of an empty item throws", ai, "value() on empty")
            else:
                ok = bool(ai.rets()) and all(same(ai, r.args[0], heldp(K), r.facts) for r in ai.rets()) and no_throw(ai)
                ck.ob("value is the held object", f.where(), verdict(ai, ok), "" if ok else "value() on %s" % KN[K], f.key + KN[K])
    if done < 4:
        raise AnalysisBroken("JsonItem accessors")


def made(ck, e, rule, ai, T, what):
    """on return the item holds a new, empty object of class T and says so"""
    lay = e.lay
    if not ai.rets():
        ck.ob(rule, ai.fn.where(), verdict(ai, False), what + " never returns", ai.fn.key + what)
    for r in ai.rets():
        v = ai.oget(r.state, ("p", ("this",), P(lay.value)))
        k = ai.load(r.state, ("p", ("this",), P(lay.kind)), 4, "i32", None)
        ok, d = None, "held value %s" % show(v)
        if isinstance(v, tuple) and v[:1] == ("shp",):
            q = v[1]
            if q == NULL:
                ok, d = False, "nothing is held"
            elif ai.kind_of(q[1]) is not None:
                ok = ai.kind_of(q[1]) == T
                d = "a %s is held" % ai.kind_of(q[1])
                if ok:
                    kc = k.const() if isinstance(k, Poly) else None
                    ok = True if kc == e.enum[T] else False if kc is not None else None
                    d = "the type tag is %s" % show(k)
        ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "%s: %s" % (what, d), ai.fn.key + what)


def c13_classes(ck, e):
    """JsonList and JsonDict by themselves"""
    lay = e.lay
    this = ("p", ("this",), ZERO)
    for name in ("at", "operator[]"):
        for f in e.m.method(LIST, name, 1):
            ai = e.run(ck, f, kinds={("this",): LIST})
            subscript(e, ck, "index into list", ai, off(this, lay.list), P(("arg", 1)), "JsonList::" + name)
        for f in e.m.method(DICT, name, 1):
            ai = e.run(ck, f, kinds={("this",): DICT})
            keyed(e, ck, "key into dict", ai, off(this, lay.map), ("obj", ("p", ("arg", 1), ZERO)), "JsonDict::" + name, name == "operator[]")
    for cls, want in ((LIST, P(("size", ("obj", off(this, lay.list))))), (DICT, P(("pure", "std::map::size", ("obj", off(this, lay.map)))))):
        for f in e.m.method(cls, "size", 0):
            ai = e.run(ck, f, kinds={("this",): cls})
            for r in ai.rets():
                s = same(ai, r.args[0], want, r.facts)
                ck.ob("size of the held value", f.where(), verdict(ai, s), "" if s else "returns " + show(r.args[0]), f.key)
        for f in e.m.method(cls, "empty", 0):
            ai = e.run(ck, f, kinds={("this",): cls})
            for r in ai.rets():
                s = r.args[0] == eq(want, ZERO)
                if not s and (r.args[0] in (TRUE, FALSE) or r.args[0] == neg(eq(want, ZERO))):
                    s = False
                else:
                    s = s or None
                ck.ob("empty iff size is zero", f.where(), verdict(ai, s), "" if s else "returns " + show(r.args[0]), f.key)
    for f in e.m.method(LIST, "append", 1):
        ai = e.run(ck, f, kinds={("this",): LIST})
        pushes = [c for c in ai.events if c.kind == "call" and c.callee in ("std::vector::push_back", "std::vector::emplace_back") and
                  c.args[0] == off(this, lay.list)]
        ok = True if len(pushes) == 1 and all(pushes[0].b in ai.dom()[r.b] for r in ai.rets()) else None
        other = [c for c in ai.events if c.kind == "call" and c.args and off(this, lay.list) in c.args and c not in pushes]
        if not pushes and not other:
            ok = False
        ck.ob("append adds at the end", f.where(), verdict(ai, ok), "" if ok else "no single push at the end of the list", f.key)


def convfns(e):
    """(function, required kind) of the typed conversions of an item"""
    out = []
    for f in e.m.fns.values():
        if strip_name(f.scope) != ITEM:
            continue
        s = strip_name(f.short)
        if s == "as":
            out.append((f, LEAF))
        elif s == "as_vec":
            out.append((f, LIST))
        elif s == "as_map":
            out.append((f, DICT))
        elif "_ZNK12EdgeLearning8JsonItemcv" in f.key and "cvNSt" not in f.key:
            out.append((f, LEAF))
    return out


def c13_convert(ck, e):
    lay = e.lay
    fs = convfns(e)
    if len(fs) < 8:
        raise AnalysisBroken("conversions of JsonItem")
    for f, want in fs:
        for K in ALL:
            ai = e.run(ck, f, K)
            what = "%s on %s" % (strip_name(f.short) or "conversion", KN[K])
            if K != want:
                only_throws(ck, "conversion of the wrong kind throws", ai, what)
                continue
            ok = bool(ai.rets())
            d = "never returns"
            if ok:
                h = heldp(K)
                o = off(h, lay.content[K])

                def reads(ev):
                    return any(isinstance(a, tuple) and a[:1] == ("p",) and (a == h or a == o or a[1] in (h[1], ("vec", o), ("node", o), ("it", o)) or
                                                                             contains(ai.oget(ev.state, a), lambda z: z == o)) for a in ev.args)
                ok = any(ev.kind in ("call", "load") and reads(ev) and ev.callee not in ("std::__shared_ptr_access::operator->",) for ev in ai.events)
                d = "the held value is not what is converted"
                ok = ok or None
            ck.ob("conversion reads the held value", f.where(), verdict(ai, ok), "" if ok else what + ": " + d, f.key + KN[K])
    # the free function behind them
    for f in e.m.fns.values():
        if strip_name(f.q) != NS + "convert_json_object":
            continue
        r0 = norm(f.d["ditypes"][0])
        want = {LIST: LIST, DICT: DICT}.get(r0, LEAF)
        n = 1 if f.d["args"][0].get("sret") else 0
        for K in ALL:
            h = ("held", ("arg", n))
            ai = e.run(ck, f, kinds={h: K} if K else {}, held={}, objs={(("arg", n), 0): ("shp", ("p", h, ZERO) if K else NULL)})
            what = "convert_json_object<%s> of %s" % (r0.split("::")[-1][:20], KN[K])
            if K != want:
                only_throws(ck, "conversion of the wrong kind throws", ai, what)
            else:
                ok = bool(ai.rets())
                ck.ob("conversion reads the held value", f.where(), verdict(ai, ok), "" if ok else what + " never returns", f.key + KN[K])


def c13_string(ck, e):
    """the string conversion: a leaf's text, a container's written form, nothing for an empty item"""
    lay = e.lay
    for f in e.m.fns.values():
        if not f.key.startswith("_ZNK12EdgeLearning8JsonItemcvNSt7__cxx1112basic_string"):
            continue
        for K in ALL:
            ai = e.run_sret(ck, f, K) if hasattr(e, "run_sret") else e.run(ck, f, K)
            where, key = f.where(), f.key + KN[K]
            ok = bool(ai.rets()) and no_throw(ai)
            d = "throws or never returns"
            for r in ai.rets():
                v = ai.oget(r.state, ("p", ("arg", 0), ZERO))
                h = heldp(K)
                if K is None:
                    s = v == ("str", "")
                    s = s or (False if v[:1] == ("str",) else None)
                elif K == LEAF:
                    s = v == ("obj", off(h, lay.val))
                    s = s or (False if v[:1] == ("str",) else None)
                else:
                    w = [c for c in ai.events if c.kind == "call" and len(c.args) > 1 and (
                        c.callee == "EdgeLearning::operator<<" and c.args[1] == h or
                        h in c.args and "cvNSt" in str(c.ins.d.get("callee")))]
                    s = True if w else (False if v[:1] == ("str",) else None)
                if s is not True:
                    ok, d = (s if ok else ok), "gives %s" % show(v)
            ck.ob("string form of the held value", where, verdict(ai, ok), "" if ok else "string conversion of %s %s" % (KN[K], d), key)


def c13_elements(ck, e):
    """conversions of whole lists convert every element in its place"""
    lay = e.lay
    this = ("p", ("this",), ZERO)
    for f in e.m.fns.values():
        if not f.key.startswith("_ZNK12EdgeLearning8JsonListcvSt6vector"):
            continue
        ai = e.run(ck, f, kinds={("this",): LIST})
        content = off(this, lay.list)
        cs = [c for c in ai.events if c.kind == "call" and "JsonItemcv" in str(c.ins.d.get("callee"))]
        size = P(("size", ("obj", content)))
        ok, d = None, "element conversions"
        if len(cs) == 1:
            c = cs[0]
            a = c.args[0] if not c.ins.d.get("sret") else c.args[1]
            sp = iterspace2(ai, c.b)
            if sp is not None and len(sp) == 1:
                h, n = sp[0]
                src = ("p", ("vec", content), P(("iv", h)) * e.size)
                ok = same(ai, n, size, c.facts)
                d = "converts %s elements of %s" % (show(n), show(size))
                if ok:
                    ok = same(ai, a, src, c.facts)
                    d = "reads %s" % show(a)
                if ok:
                    # where the converted element goes
                    st = [x for x in ai.events if x.b in ai.dom() and (x.kind == "store" and x.args[1] == c.res and isinstance(x.args[0], tuple) and x.args[0][1] == ("vec", ("p", ("arg", 0), ZERO)))]
                    for x in st:
                        ok = same(ai, x.args[0][2], P(("iv", h)) * x.args[2].const(), x.facts)
                        d = "stores it at byte %s" % show(x.args[0][2])
        elif not cs:
            d = "no element is converted"
        ck.ob("list conversion covers every element", f.where(), verdict(ai, ok), "" if ok else d, f.key)


def inloop(ai, t, L):
    """does the term depend on what the loop computes"""
    blocks = set(L["blocks"])

    def dep(x):
        if x[0] == "phi":
            return phi_block(x) in blocks
        if x[0] == "iv":
            return x[1] in blocks
        if x[0] in ("call", "op", "by") and len(x) > 1 and isinstance(x[-1], int):
            I = ai.fn.ins.get(x[-1]) if x[0] != "by" else ai.fn.ins.get(x[1])
            return I is not None and I.blk in blocks
        return False
    return contains(t, dep)


def exit_count(ai, L):
    """(exit block, completed iterations) of a loop from the condition of its single normal exit"""
    lc = loop_count(ai, L)
    if lc is not None:
        return lc
    ex = loop_exits(ai, L)
    if len(ex) != 1:
        return None
    b = ex[0]
    return exit_at(ai, L, b)


def exit_at(ai, L, b):
    T = ai.fn.blocks[b][-1]
    if T.op != "br" or "cond" not in T.d:
        return None
    c = ai.val(T.d["cond"])
    if c is None:
        return None
    t, f = T.d["succ"]
    inside = set(L["blocks"])
    if (t in inside) == (f in inside):
        return None
    ex = c if t not in inside else neg(c)
    iv = ("iv", L["header"])

    def split(p):
        k = dict((tuple(m), k) for m, k in p.monos()).get((iv,))
        if k not in (1, -1):
            return None
        n = (P(iv) * k - p) * k
        return None if inloop(ai, n, L) else (k, n)
    if ex[0] == "eq" and isinstance(ex[1], Poly):
        s = split(ex[1])
        return (b, s[1]) if s else None
    if ex[0] in ("ule", "sle") and isinstance(ex[1], Poly):
        s = split(ex[2] - ex[1])
        return (b, s[1]) if s and s[0] == 1 else None
    if ex[0] in ("ult", "slt") and isinstance(ex[1], Poly):
        s = split(ex[2] - ex[1])
        return (b, s[1] + 1) if s and s[0] == 1 else None
    return None


def iterspace2(ai, b):
    """like iterspace, with counts from the exit conditions"""
    out = []
    ls = loops_of(ai.fn, b)
    for k, L in enumerate(ls):
        bb = ls[k + 1]["header"] if k + 1 < len(ls) else b
        lc = exit_count(ai, L)
        if lc is None:
            return None
        x, c = lc
        dom = ai.dom()
        latches = [p for p in ai.fn.pred[L["header"]] if p in L["blocks"] and (p, L["header"]) in ai.out_state]
        if not all(bb in dom[p] for p in latches):
            return None
        out.append((L["header"], c + 1 if bb in dom[x] else c))
    return out


# ------------------------------------------------------------------ C14
def C14(ck):
    e = env(ck)
    ck.rule("for every kind of value: every way of making an item yields an object of its own with the source's content, the tag of its kind and "
            "no sharing with the source; equality is TRUE exactly under equal kind, size and elements. Kinds are enumerated, each is decided by "
            "abstract interpretation; copies inside containers are covered by induction")
    ck.part(c14_copy, e)
    ck.part(c14_assign, e)
    ck.part(c14_from, e)
    ck.part(c14_values, e)
    ck.part(c14_classes, e)
    ck.part(c14_convert, e)
    ck.part(c14_eq_item, e)
    ck.part(c14_eq_object, e)
    ck.part(c14_eq_leaf, e)
    ck.part(c14_eq_elems, e)
    return ["std::shared_ptr, std::map, std::vector and std::string copy and compare as the C++ standard says",
            "items inside copied containers are copied by the copy constructor this check decides (induction on depth)"]


def holds(ck, e, rule, ai, st, who, K, want, what, where=None, alias=()):
    """item at pointer `who` holds an own object of class K with content `want` (None: any content)"""
    lay = e.lay
    where = where or ai.fn.where()
    key = ai.fn.key + what
    v0 = ai.oget(st, off(who, P(lay.value)))
    tag0 = ai.load(st, off(who, P(lay.kind)), 4, "i32", None)
    cs = cases(ai, (v0, tag0), st.facts)
    for (v, tag), fs in cs:
        holds1(ck, e, rule, ai, st, v, tag, K, want, what, where, key, alias)


def holds1(ck, e, rule, ai, st, v, tag, K, want, what, where, key, alias):
    lay = e.lay
    tag = tag.const() if isinstance(tag, Poly) else None
    ok, d = None, "held value %s" % show(v)
    if isinstance(v, tuple) and v[:1] == ("shp",):
        q = v[1]
        if q == NULL:
            ok, d = (K is None), "nothing is held"
        elif K is None:
            ok, d = (False if ai.kind_of(q[1]) else None), "something is held: %s" % show(q)
        else:
            k = ai.kind_of(q[1])
            if q[1] in alias:
                ok, d = False, "shares the object of its source"
            elif k is not None and k != K:
                ok, d = False, "holds a %s" % KN.get(k, k)
            elif k == K:
                ok = True
                if q[1][0] not in ("new", "copyof"):
                    ok = None
                if want is not None and ok and q[1][0] == "new":
                    got = ai.oget(st, off(q, P(lay.content[K])))
                    s = want(got, q, st)
                    if s is not True:
                        ok, d = s, "its content is %s" % show(got)
    if ok is True:
        w = e.enum[K] if K else e.enum["none"]
        if tag is None:
            ok, d = None, "type tag unknown"
        elif tag != w:
            ok, d = False, "its type tag is %d, the kind held has %d" % (tag, w)
    return ck.ob(rule, where, verdict(ai, ok), "" if ok else "%s: %s" % (what, d), key)


def same_content(src):
    def f(got, q, st):
        if got == src:
            return True
        if got[:1] == ("empty",) or got[:1] == ("str",) or got[:2] == ("vecn", ZERO):
            return False
        if got[:1] == ("obj",) and src[:1] == ("obj",) and len(got) == 2:
            return False
        return None
    return f


def heldmap(K, who):
    return ({("held", who): K} if K else {}), {who: ("held", who) if K else None}


def fin(ck, rule, ai, what, f):
    """apply f to every normal exit; there must be one and no rejection"""
    rs = ai.rets()
    if not rs:
        return ck.ob(rule, ai.fn.where(), verdict(ai, False), "%s never completes" % what, ai.fn.key + what)
    for r in rs:
        f(r)
    if ai.throws():
        t = ai.throws()[0]
        ck.ob(rule, t.loc(), verdict(ai, False), "%s throws" % what, ai.fn.key + what + " throw")


def srckept(ck, e, rule, ai, r, who, K, what):
    v = ai.oget(r.state, off(who, P(e.lay.value)))
    w = ("shp", ("p", ("held", who[1]), ZERO) if K else NULL)
    ok = v == w
    if not ok and not (isinstance(v, tuple) and v[:1] == ("shp",)):
        ok = None
    return ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "%s: the source then holds %s" % (what, show(v)), ai.fn.key + what + " src")


def itemfn(e, params, name=None):
    fs = [f for f in e.m.method(ITEM, name or ITEM.split("::")[-1]) if e.params(f) == params]
    return fs[0] if len(fs) == 1 else None


def c14_copy(ck, e):
    f = itemfn(e, [ITEM + "&"])
    if f is None:
        raise AnalysisBroken("copy constructor of JsonItem")
    src = ("p", ("arg", 1), ZERO)
    this = ("p", ("this",), ZERO)
    for K in ALL:
        ks, hs = heldmap(K, ("arg", 1))
        ai = e.run(ck, f, kinds=ks, held=hs)
        what = "copy of %s" % KN[K]
        c = ("obj", ("p", ("held", ("arg", 1)), P(e.lay.content[K]))) if K else None
        fin(ck, "a copy is a value of its own", ai, what, lambda r: (
            holds(ck, e, "a copy is a value of its own", ai, r.state, this, K, same_content(c) if K else None, what, alias=(("held", ("arg", 1)),)),
            srckept(ck, e, "copying leaves the source alone", ai, r, src, K, what)))


def c14_assign(ck, e):
    f = itemfn(e, [ITEM + "&"], "operator=")
    if f is None:
        raise AnalysisBroken("copy assignment of JsonItem")
    src = ("p", ("arg", 1), ZERO)
    this = ("p", ("this",), ZERO)
    rule = "an assigned item is a value of its own"
    for K0 in ALL:
        for K in ALL:
            k1, h1 = heldmap(K, ("arg", 1))
            k0, h0 = heldmap(K0, ("this",))
            k1.update(k0)
            h1.update(h0)
            ai = e.run(ck, f, kinds=k1, held=h1)
            what = "assigning %s to %s" % (KN[K], KN[K0])
            c = ("obj", ("p", ("held", ("arg", 1)), P(e.lay.content[K]))) if K else None

            def one(r, ai=ai, what=what, K=K, K0=K0, c=c):
                holds(ck, e, rule, ai, r.state, this, K, same_content(c) if K else None, what, alias=(("held", ("arg", 1)), ("held", ("this",))))
                srckept(ck, e, "assigning leaves the source alone", ai, r, src, K, what)
                ok = r.args and r.args[0] == this
                ck.ob(rule, r.loc(), verdict(ai, True if ok else None), "returned reference", ai.fn.key + what + "ret")
            fin(ck, rule, ai, what, one)
        # an item assigned to itself
        k0, h0 = heldmap(K0, ("this",))
        ai = e.run(ck, f, kinds=k0, held=h0, consts={1: this})
        what = "assigning %s to itself" % KN[K0]
        c0 = ("obj", ("p", ("held", ("this",)), P(e.lay.content[K0]))) if K0 else None

        def own(r, ai=ai, what=what, K0=K0, c0=c0):
            v = ai.oget(r.state, off(this, P(e.lay.value)))
            if K0 and v == ("shp", ("p", ("held", ("this",)), ZERO)):
                got = ai.oget(r.state, ("p", ("held", ("this",)), P(e.lay.content[K0])))
                ok = same_content(c0)(got, None, None)
                ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "%s changes its content" % what, ai.fn.key + what)
            else:
                holds(ck, e, rule, ai, r.state, this, K0, same_content(c0) if K0 else None, what)
        fin(ck, rule, ai, what, own)


def c14_from(ck, e):
    this = ("p", ("this",), ZERO)
    a1 = ("arg", 1)
    rule = "an item made from a value holds that value"
    f = itemfn(e, [OBJ + "&"])
    if f is None:
        raise AnalysisBroken("JsonItem(JsonObject const&)")
    for K in (LEAF, LIST, DICT):
        ai = e.run(ck, f, kinds={a1: K})
        c = ("obj", ("p", a1, P(e.lay.content[K])))
        what = "item from a %s" % KN[K]
        fin(ck, rule, ai, what, lambda r: holds(ck, e, rule, ai, r.state, this, K, same_content(c), what, alias=(a1,)))
    for K in ALL:
        ks, hs = heldmap(K, a1)
        ks[a1] = ITEM
        ai = e.run(ck, f, kinds=ks, held=hs)
        c = ("obj", ("p", ("held", a1), P(e.lay.content[K]))) if K else None
        what = "item from an item holding %s" % KN[K]
        fin(ck, rule, ai, what, lambda r: holds(ck, e, rule, ai, r.state, this, K, same_content(c) if K else None, what, alias=(("held", a1),)))
    n = 0
    for K in (LEAF, LIST, DICT):
        g = itemfn(e, [K + "&"])
        if g is None:
            continue
        n += 1
        ai = e.run(ck, g, kinds={a1: K})
        c = ("obj", ("p", a1, P(e.lay.content[K])))
        what = "item from %s" % KN[K]
        fin(ck, rule, ai, what, lambda r: holds(ck, e, rule, ai, r.state, this, K, same_content(c), what, alias=(a1,)))
        if K == LEAF and e.lay.type is not None:
            for r in ai.rets():
                v = ai.oget(r.state, off(this, P(e.lay.value)))
                if isinstance(v, tuple) and v[:1] == ("shp",) and v[1] != NULL and v[1][1][0] == "new":
                    t = ai.load(r.state, off(v[1], P(e.lay.type)), 4, "i32", None)
                    w = P(("ld", a1, P(e.lay.type), 4))
                    ok = same(ai, t, w, r.facts)
                    ck.ob("a copied leaf keeps its type", g.where(), verdict(ai, ok), "" if ok else "its type is %s" % show(t), g.key)
    if n < 3:
        raise AnalysisBroken("constructors of JsonItem")
    for K, pred in ((LIST, lambda t: t.startswith("std::vector<" + ITEM)), (DICT, lambda t: t.startswith("std::map<") and ITEM in t)):
        for g in e.m.method(ITEM, "JsonItem"):
            ps = e.params(g)
            if len(ps) == 1 and pred(ps[0]):
                ai = e.run(ck, g)
                c = ("obj", ("p", a1, ZERO))
                what = "item from a container (%s)" % KN[K]
                fin(ck, rule, ai, what, lambda r: holds(ck, e, rule, ai, r.state, this, K, same_content(c), what, alias=(a1,)))


NUMS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "double")


def leaftype(e):
    return dict(map(tuple, e.m.types.get(NS + "TypeChecker::Type", {}).get("enum", [])))


def printed(e, ai, got, src, par, facts):
    """is `got` the text of the number `src` of type `par`"""
    x = got
    if got[:1] == ("obj",) and len(got) == 3 and got[2][:1] == ("by",):
        I = ai.fn.ins.get(got[2][1])
        ev = [c for c in ai.events if c.kind == "call" and c.ins is I]
        if ev and ev[0].callee == "std::to_string":
            pt = (strip_templates(ev[0].full)[1] or [""])[0]
            a = ev[0].args[-1]
            if pt == par and a == src:
                return True
            if a != src and not (contains(a, lambda z: z[0] in ("phi", "call", "op", "unk"))):
                return False
            if pt != par:
                # a narrower or differently signed type prints other values alike only on a part of the range
                w = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}
                if pt in w and par in w and (w[pt] < w[par] or ("unsigned" in pt) != ("unsigned" in par)):
                    return False
            return None
    if got[:1] == ("str",):
        return False
    return None


def c14_values(ck, e):
    this = ("p", ("this",), ZERO)
    lay = e.lay
    T = leaftype(e)
    rule = "an item made from a plain value holds its text"
    n = 0
    for cls in (ITEM, LEAF):
        for g in e.m.method(cls, cls.split("::")[-1]):
            ps = e.params(g)
            par = ps[0] if ps else ""
            if len(ps) != 1 or par not in NUMS + ("bool", "string", "char*"):
                continue
            n += 1
            ai = e.run(ck, g)
            what = "%s from %s" % (cls.split("::")[-1], par)

            def text_ok(got, q, st, ai=ai, par=par):
                if par in NUMS:
                    a = ai.val(["a", 1]) if False else None
                    ev = [c.args[-1] for c in ai.events if c.kind == "call" and c.callee == "std::to_string"]
                    src = P(("arg", 1)) if par != "double" else next((x for x in ev if x == ("farg", 1) or x == ("arg", 1) or show(x) == "arg(1)"), P(("arg", 1)))
                    return printed(e, ai, got, src, par, ())
                if par == "bool":
                    w = ("sel", ("argb", 1), ("str", "true"), ("str", "false"))
                    if got == w:
                        return True
                    if got[:1] == ("sel",) and got[1] == ("argb", 1) and all(x[:1] == ("str",) for x in got[2:4]) or got[:1] == ("str",):
                        return False
                    return None
                if par == "string":
                    return same_content(("obj", ("p", ("arg", 1), ZERO)))(got, q, st)
                if got[:1] == ("made",) and ("p", ("arg", 1), ZERO) in got or contains(got, lambda z: z == ("arg", 1)):
                    return True
                return False if got[:1] == ("str",) else None

            def type_ok(t, ai=ai, par=par):
                want = T.get("BOOL") if par == "bool" else T.get("FLOAT") if par == "double" else T.get("INT") if par in NUMS else None
                if want is None:
                    return None
                c = t.const() if isinstance(t, Poly) else None
                return None if c is None else c == want

            def one(r, ai=ai, what=what, par=par, cls=cls):
                if cls == ITEM:
                    holds(ck, e, rule, ai, r.state, this, LEAF, text_ok, what)
                    v = ai.oget(r.state, off(this, P(lay.value)))
                    q = v[1] if isinstance(v, tuple) and v[:1] == ("shp",) and v[1] != NULL else None
                else:
                    q = this
                    got = ai.oget(r.state, off(this, P(lay.val)))
                    ok = text_ok(got, q, r.state)
                    ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "%s: its text is %s" % (what, show(got)), ai.fn.key + what)
                if q is not None and par not in ("string", "char*"):
                    t = ai.load(r.state, off(q, P(lay.type)), 4, "i32", None)
                    ok = type_ok(t)
                    ck.ob("a value's type is the one it was made from", ai.fn.where(), verdict(ai, ok), "" if ok else "%s: its type is %s" % (what, show(t)), ai.fn.key + what)
            fin(ck, rule, ai, what, one)
    if n < 10:
        raise AnalysisBroken("constructors from plain values")


def c14_classes(ck, e):
    """kind tags and copies of the value classes"""
    this = ("p", ("this",), ZERO)
    lay = e.lay
    for cls in (LEAF, LIST, DICT):
        for g in e.m.method(cls, cls.split("::")[-1]):
            ps = e.params(g)
            ai = e.run(ck, g)
            for r in ai.rets():
                copy = ps == [cls + "&"]
                t = ai.load(r.state, off(this, P(lay.kind)), 4, "i32", None)
                c = t.const() if isinstance(t, Poly) else None
                if copy:
                    ok = same(ai, t, P(("ld", ("arg", 1), P(lay.kind), 4)), r.facts) or (c == e.enum[cls] if c is not None else None)
                else:
                    ok = c == e.enum[cls] if c is not None else None
                ck.ob("an object carries the tag of its class", g.where(), verdict(ai, ok), "" if ok else "its tag is %s" % show(t), g.key + "tag")
                if copy:
                    v = ai.oget(r.state, off(this, P(lay.content[cls])))
                    ok = same_content(("obj", ("p", ("arg", 1), P(lay.content[cls]))))(v, None, None)
                    ck.ob("a copied object has the content of its source", g.where(), verdict(ai, ok), "" if ok else "content %s" % show(v), g.key + "content")
                elif len(ps) == 1 and ITEM in ps[0] and cls != LEAF:
                    v = ai.oget(r.state, off(this, P(lay.content[cls])))
                    ok = same_content(("obj", ("p", ("arg", 1), ZERO)))(v, None, None)
                    ck.ob("an object made from a container holds it", g.where(), verdict(ai, ok), "" if ok else "content %s" % show(v), g.key + "content")
                elif not ps:
                    v = ai.oget(r.state, off(this, P(lay.content[cls])))
                    sz = None
                    ok = True if v == ("str", "") or v[:2] == ("vecn", ZERO) or v[:1] == ("empty",) else None
                    ck.ob("a new object is empty", g.where(), verdict(ai, ok) or True, "", g.key + "content")


def c14_convert(ck, e):
    """containers of plain values: every element becomes the item of its place"""
    lay = e.lay
    rule = "a converted container has an item for every element, in its place"
    n = 0
    for f in e.m.fns.values():
        s = strip_name(f.q)
        if s not in (LIST + "::_convert_vec", DICT + "::_convert_map"):
            continue
        n += 1
        src = ("p", ("arg", len(f.d["args"]) - 1), ZERO)
        dst = ("p", ("arg", 0), ZERO)
        ai = e.run(ck, f, kinds={("this",): LIST if s.startswith(LIST) else DICT})
        st = [c for c in ai.events if c.kind == "call" and c.callee == ITEM + "::operator="]
        ok, d = None, "element stores"
        if not st and not [c for c in ai.events if c.kind == "call" and c.callee in ("std::vector::push_back", "std::vector::emplace_back", "std::map::emplace", "std::map::insert", "std::transform", "std::copy")]:
            ok, d = False, "no element is stored"
        if len(st) == 1:
            c = st[0]
            sp = iterspace2(ai, c.b)
            if sp is not None and len(sp) == 1:
                h, cnt = sp[0]
                if s.startswith(LIST):
                    size = P(("size", ("obj", src)))
                    want = ("p", ("vec", dst), P(("iv", h)) * e.size)
                    ok, d = same(ai, cnt, size, c.facts), "stores %s elements of %s" % (show(cnt), show(size))
                    if ok:
                        ok, d = same(ai, c.args[0], want, c.facts), "stores element k at %s" % show(c.args[0])
                else:
                    size = P(("pure", "std::map::size", ("obj", src)))
                    ok, d = same(ai, cnt, size, c.facts), "stores %s elements of %s" % (show(cnt), show(size))
                    a = c.args[0]
                    if ok:
                        nk = ("obj", ("p", ("node", src), P(("iv", h)) * NODE))
                        good = a[1][0] == "mapnode" and a[1][1] == dst and a[2] == P(32)
                        ok = None
                        if good:
                            k = a[1][2]
                            ok = k[:2] == nk[:2]
                            d = "stores under key %s" % show(k)
                if ok:
                    # what was converted
                    o = c.state.obj
                    held = ai.shp(c.state, off(c.args[1], P(lay.value)))
                    got = ai.oget(c.state, off(held, P(lay.val)))
                    frm = src_of(ai, got)
                    if frm is not None:
                        iv = P(("iv", h))
                        if any(x and x[0] == "iv" for x in walk(frm)):
                            exact = [x for x in walk(frm) if x and x[0] in ("vec", "node")]
                            ok = True if exact and all(x[1] == src for x in exact) else None
                            off_ = offsets(frm)
                            if off_ is not None and ok:
                                r = off_ - iv * stride(off_, h)
                                if r.const() is not None and s.startswith(LIST) and r.const() != 0:
                                    ok, d = False, "element k is made from %s" % show(frm)
                        else:
                            ok, d = (False if not contains(frm, lambda z: z[0] in ("phi", "call", "op", "unk", "by")) else None), "element k is made from %s" % show(frm)
        ck.ob(rule, f.where(), verdict(ai, ok), "" if ok else d, f.key)
    if n < 4:
        raise AnalysisBroken("container conversions")


def src_of(ai, got):
    """the term a leaf text was made from"""
    if got[:1] == ("obj",) and len(got) == 3 and got[2][:1] == ("by",):
        ev = [c for c in ai.events if c.kind == "call" and c.ins is ai.fn.ins.get(got[2][1])]
        if ev and ev[0].callee == "std::to_string":
            return ev[0].args[-1] if isinstance(ev[0].args[-1], tuple) else ("poly", ev[0].args[-1])
        return None
    if got[:1] == ("obj",):
        return got
    return None


def offsets(t):
    ps = [x[2] for x in walk(t) if x and x[0] == "ld" and len(x) > 2 and isinstance(x[2], Poly) and any(y and y[0] == "iv" for y in walk(("t", x[2])))]
    ps += [x[2] for x in walk(t) if x and x[0] == "p" and isinstance(x[2], Poly) and any(y and y[0] == "iv" for y in walk(("t", x[2])))]
    return ps[0] if len(ps) == 1 else None


def stride(p, h):
    for m, k in p.monos():
        if list(m) == [("iv", h)]:
            return k
    return 0


# equality
def fcases(ai, ts, facts):
    """cases, also split on the flags the known facts mention"""
    out = []
    for g, fs in cases(ai, ts, facts):
        fl = tuple(f for f in fs if any(x and (x[0] == "sel" or x[0] == "phi" and flag(ai, x)) for x in walk(f)))
        if not fl:
            out.append((g, fs))
            continue
        n = len(g)
        for h, f2 in cases(ai, tuple(g) + fl, fs):
            if FALSE in h[n:] or FALSE in f2:
                continue
            f3 = (f2 | frozenset(h[n:])) - {TRUE}
            if ai.contradict(f3):
                continue
            out.append((h[:n], f3))
    return out


def truth(ck, rule, ai, table_want, what, differ):
    """the boolean results of every exit: table_want in (True, False)"""
    ok, d = True, ""
    if not ai.rets():
        ok, d = False, "never returns"
    for r in ai.rets():
        for (g,), fs in cases(ai, (r.args[0],), r.facts):
            w = TRUE if table_want else FALSE
            if g == w:
                continue
            if g in (TRUE, FALSE):
                ok, d = False, "is %s" % show(g)
            elif ok:
                ok, d = None, "is %s" % show(g)
    if ok and ai.throws():
        ok, d = False, "throws"
    ck.ob(rule, ai.fn.where(), verdict(ai, ok), "" if ok else "comparing %s %s" % (what, d), ai.fn.key + what)


def delegated(ck, e, rule, ai, callee, a, b, what):
    """the result is that of comparing a and b with `callee`"""
    ok, d = True, ""
    if not ai.rets():
        ok, d = False, "never returns"
    for r in ai.rets():
        for (g,), fs in cases(ai, (r.args[0],), r.facts):
            ok1, d1 = None, "is %s" % show(g)
            if g == TRUE and eq(a, b) in fs:
                continue
            if g in (TRUE, FALSE):
                # constant: allowed where a comparison with that outcome is known
                ev = [c for c in ai.events if c.kind == "call" and c.callee == callee and {c.args[0], c.args[1]} == {a, b}]
                k = [c for c in ev if (c.res in fs if g == TRUE else neg(c.res) in fs)]
                if k:
                    ok1 = True
                elif any((neg(c.res) in fs if g == TRUE else c.res in fs) for c in ev):
                    ok1, d1 = False, "is the opposite of comparing the two values"
                elif not ev:
                    ok1, d1 = False, "is always %s" % show(g)
                else:
                    ok1 = False if not fs or all(not unknown_atoms(f) for f in fs) else None
                    d1 = "is %s whatever the values" % show(g)
            elif not [c for c in ai.events if c.kind == "call" and c.callee == callee] and not [
                    c for c in ai.events if c.kind == "call" and c.callee in ("std::operator==", "std::operator!=", "std::equal", "std::visit", "<indirect>")] and (
                    not unknown_atoms(g)):
                ok1, d1 = False, "compares only %s" % show(g)
            else:
                ev = [c for c in ai.events if c.kind == "call" and (c.res == g or neg(c.res) == g if c.res is not None else False)]
                if ev and ev[0].callee == callee:
                    c = ev[0]
                    ok1 = c.res == g and {c.args[0], c.args[1]} == {a, b}
                    d1 = "compares %s with %s%s" % (show(c.args[0]), show(c.args[1]), "" if c.res == g else ", negated")
            if ok1 is not True and ok is True or ok1 is False:
                ok, d = ok1, d1
    if ok and ai.throws():
        ok, d = False, "throws"
    ck.ob(rule, ai.fn.where(), verdict2(ai, ok), "" if ok else "comparing %s %s" % (what, d), ai.fn.key + what)


def verdict2(ai, ok):
    """like verdict, for code whose branches may depend on comparisons of values"""
    if ok is False and (catches(ai) or murky_ctl(ai)):
        return None
    return ok


def eqfn(e, cls):
    fs = [f for f in e.m.method(cls, "operator==") if e.params(f) == [cls + "&"]]
    if len(fs) != 1:
        raise AnalysisBroken(cls + "::operator==")
    return fs[0]


def c14_eq_item(ck, e):
    f = eqfn(e, ITEM)
    rule = "items are equal iff both are empty or their values are equal"
    for K0 in ALL:
        for K in ALL:
            k1, h1 = heldmap(K, ("arg", 1))
            k0, h0 = heldmap(K0, ("this",))
            k1.update(k0)
            h1.update(h0)
            ai = e.run(ck, f, kinds=k1, held=h1)
            what = "%s with %s" % (KN[K0], KN[K])
            if K0 is None or K is None:
                truth(ck, rule, ai, K0 is K, what, None)
            else:
                a, b = heldp(K0), heldp(K, ("arg", 1))
                # either the common comparison or that of the class both have
                ev = [c.callee for c in ai.events if c.kind == "call" and c.callee.endswith("::operator==") and {c.args[0], c.args[1]} == {a, b}]
                if K0 != K and not ev:
                    truth(ck, rule, ai, False, what, None)
                else:
                    delegated(ck, e, rule, ai, ev[0] if len(set(ev)) == 1 else OBJ + "::operator==", a, b, what)
    for cls in (ITEM, LEAF, LIST, DICT, OBJ):
        for g in e.m.method(cls, "operator!="):
            if e.params(g) != [cls + "&"]:
                continue
            ai = e.run(ck, g, kinds={})
            a, b = ("p", ("this",), ZERO), ("p", ("arg", 1), ZERO)
            for r in ai.rets():
                ev = [c for c in ai.events if c.kind == "call" and c.callee == cls + "::operator=="]
                ok = None
                if len(ev) == 1 and {ev[0].args[0], ev[0].args[1]} == {a, b}:
                    ok = True if r.args[0] == neg(ev[0].res) else False if r.args[0] in (ev[0].res, TRUE, FALSE) else None
                ck.ob("unequal is the negation of equal", g.where(), verdict2(ai, ok), "" if ok else "returns %s" % show(r.args[0]), g.key)


def c14_eq_object(ck, e):
    f = eqfn(e, OBJ)
    rule = "values are equal iff they have the same kind and equal content"
    t, a1 = ("this",), ("arg", 1)
    for K0 in (LEAF, LIST, DICT):
        for K in (LEAF, LIST, DICT):
            ai = e.run(ck, f, kinds={t: K0, a1: K})
            what = "%s with %s" % (KN[K0], KN[K])
            if K0 != K:
                truth(ck, rule, ai, False, what, None)
            else:
                delegated(ck, e, rule, ai, K + "::operator==", ("p", t, ZERO), ("p", a1, ZERO), what)


def c14_eq_leaf(ck, e):
    f = eqfn(e, LEAF)
    ai = e.run(ck, f, kinds={("this",): LEAF, ("arg", 1): LEAF})
    a, b = ("obj", ("p", ("this",), P(e.lay.val))), ("obj", ("p", ("arg", 1), P(e.lay.val)))
    for r in ai.rets():
        for (g,), fs in cases(ai, (r.args[0],), r.facts):
            ok, d = None, "result %s" % show(g)
            def ev(x):
                if x[:1] != ("i2b",):
                    return ()
                x = x[1]
                return (x.atom() or ()) if isinstance(x, Poly) else x
            if ev(g)[:2] == ("pure", "std::operator==") and set(ev(g)[2:]) == {a, b}:
                ok = True
            elif ev(neg(g))[:2] == ("pure", "std::operator!=") and set(ev(neg(g))[2:]) == {a, b}:
                ok = True
            elif g in (TRUE, FALSE) and len(ai.rets()) == 1 and not [c for c in ai.events if c.kind == "call"]:
                ok = False
            elif ev(neg(g))[:2] == ("pure", "std::operator==") or ev(g)[:2] == ("pure", "std::operator!="):
                ok = False
            elif g == TRUE or g == FALSE:
                x = [f for f in fs if f[:1] == ("i2b",) or neg(f)[:1] == ("i2b",)]
                e1 = ("i2b", ("pure", "std::operator==", a, b))
                if g == TRUE and eq(("p", ("this",), ZERO), ("p", ("arg", 1), ZERO)) in fs:
                    ok = True
                elif g == TRUE and not any(contains(f, lambda z: z[:2] == ("pure", "std::operator==") and set(z[2:]) == {a, b}) or unknown_atoms(f) for f in fs):
                    ok = False
                    d = "TRUE without the texts being compared"
            elif not unknown_atoms(g) and all(contains(g, lambda z: z and z[0] in ("size", "pure")) for _ in (0,)) and not contains(
                    g, lambda z: z and z[0] == "pure" and z[1] not in ("std::basic_string::size", "std::basic_string::length", "std::basic_string::empty")):
                ok, d = False, "compares only %s" % show(g)
            ck.ob("leaves are equal iff their texts are", f.where(), verdict2(ai, ok), "" if ok else d, f.key)


def c14_eq_elems(ck, e):
    lay = e.lay
    t, a1 = ("this",), ("arg", 1)
    for cls, o in ((LIST, lay.list), (DICT, lay.map)):
        f = eqfn(e, cls)
        ai = e.run(ck, f, kinds={t: cls, a1: cls})
        A, B = ("p", t, P(o)), ("p", a1, P(o))
        if cls == LIST:
            sa, sb = P(("size", ("obj", A))), P(("size", ("obj", B)))
        else:
            sa, sb = P(("pure", "std::map::size", ("obj", A))), P(("pure", "std::map::size", ("obj", B)))
        rule = "%s are equal iff they have the same size and equal elements" % ("lists" if cls == LIST else "dicts")
        where, key = f.where(), f.key
        cmpc = [c for c in ai.events if c.kind == "call" and c.callee == ITEM + "::operator=="]
        whole = [c for c in ai.events if c.kind == "call" and c.callee in ("std::operator==", "std::operator!=") and len(c.args) == 2 and set(c.args) == {A, B}]
        opaque = [c for c in ai.events if c.kind == "call" and c.callee in ("std::equal", "std::all_of", "std::any_of", "std::mismatch", "std::none_of", "std::is_permutation", "std::find_if", "std::includes")]
        for r in ai.rets():
            for (g,), fs in fcases(ai, (r.args[0],), r.facts):
                if whole and g == whole[0].res and whole[0].callee.endswith("=="):
                    ck.ob(rule, where, True, "", key)
                    continue
                if g not in (TRUE, FALSE):
                    if g in [c.res for c in cmpc] or neg(g) in [c.res for c in cmpc]:
                        # the last comparison decides
                        ck.ob(rule, where, None, "result %s" % show(g), key)
                    else:
                        ck.ob(rule, where, None, "result %s" % show(g), key)
                    continue
                uneq = [c for c in cmpc if c.res is not None and neg(c.res) in fs]
                eqs = [c for c in cmpc if c.res is not None and c.res in fs]
                murk = bool(opaque or whole) or any(unknown_atoms(x) and not any(contains(x, lambda z: P(z) == c.res or z == c.res) or x in (c.res, neg(c.res)) for c in cmpc)
                                                     for x in fs if not contains(x, lambda z: z and z[0] == "phi" and flag(ai, z)))
                sz = eq(sa, sb) in fs
                szd = neg(eq(sa, sb)) in fs or any(x in fs for x in (cmp("ult", sa, sb), cmp("ult", sb, sa)))
                if g == FALSE:
                    has = [x for x in fs if x[:1] == ("not",) and x[1][:1] == ("has",)] or [x for x in fs if contains(x, lambda z: z and z[0] in ("call", "phi", "itf"))]
                    ok = True
                    d = ""
                    if not (szd or uneq or has):
                        ok = False if not murk else None
                        d = "unequal although nothing is known to differ (known: %s)" % [show(x) for x in fs]
                    ck.ob(rule, where, verdict2(ai, ok), "" if ok else d, key)
                    continue
                if uneq or szd:
                    ck.ob(rule, where, verdict2(ai, False), "equal although %s" % ("an element differs" if uneq else "the sizes differ"), key)
                    continue
                if not cmpc:
                    ok = None if opaque or whole else False
                    empties = eq(sa, ZERO) in fs and eq(sb, ZERO) in fs
                    ck.ob(rule, where, verdict2(ai, ok if not empties else True), "" if empties else "equal without comparing elements", key)
                    continue
                if eq(sa, ZERO) in fs and (eq(sb, ZERO) in fs or sz):
                    ck.ob(rule, where, True, "", key)
                    continue
                res = [covered(e, ai, c, cls, A, B, sa, sb, fs) for c in cmpc]
                best = None
                for x in res:
                    if best is None or x[0] is True or (best[0] is None and x[0] is False and len(cmpc) == 1):
                        best = x
                ok, d = best
                if len(cmpc) > 1 and ok is False:
                    ok = None
                if ok is True and not sz:
                    z = Zone(fs)
                    ok = None if opaque or sized(fs, sa, sb) else False
                    d = "equal without the sizes being compared"
                ck.ob(rule, where, verdict2(ai, ok), "" if ok else d, key)


def sized(fs, sa, sb):
    """some fact relates the two sizes in a way that is not read here"""
    a, b = sa.atom(), sb.atom()
    return any(contains(x, lambda z: z == a) and contains(x, lambda z: z == b) for x in fs
               if x[0] not in ("ule", "ult", "ne") or unknown_atoms(x))


def flag(ai, z):
    """a join of constants (how an inlined piece of code was left)"""
    inc = ai.phiinc.get(z)
    return bool(inc) and all(isinstance(v, Poly) and (v.const() is not None or contains(("t", v), lambda y: y and y[0] in ("sel", "phi"))) for _, v in inc)


def covered(e, ai, c, cls, A, B, sa, sb, fs):
    """does the element comparison c run over all elements before this exit (facts fs)"""
    ls = loops_of(ai.fn, c.b)
    if len(ls) != 1:
        return None, "element comparison outside a single loop"
    L = ls[0]
    h = L["header"]
    iv = P(("iv", h))
    x, y = c.args[0], c.args[1]
    if {x[1], y[1]} == {("vec", B)} or {x[1], y[1]} == {("vec", A)}:
        return False, "compares elements of one and the same value"
    # result must decide whether the loop goes on
    latches = [p for p in ai.fn.pred[h] if p in L["blocks"] and (p, h) in ai.out_state]
    for p in latches:
        lfs = fcases(ai, (), ai.out_state[(p, h)].facts)
        if not all(c.res in lf for _, lf in lfs):
            if any(neg(c.res) in lf for _, lf in lfs):
                return False, "the loop goes on after unequal elements"
            used = any(c.res is not None and (c.res in s.facts or neg(c.res) in s.facts) for s in ai.out_state.values())
            return (False, "the outcome of the element comparison is not used") if not used and not any(contains(("t", v), lambda z: z == c.res) for v in ai.env_values()) else (None, "the loop goes on without equal elements")
    if cls == LIST:
        bx = {x[1]: x[2], y[1]: y[2]}
        if set(bx) != {("vec", A), ("vec", B)}:
            return None, "elements compared"
        for v in bx.values():
            if v != iv * e.size:
                k = v - iv * e.size
                return (False if k.const() is not None else None), "compares element at byte %s" % show(v)
        n = [sa, sb]
    else:
        ks = []
        for q, M in ((x, A), (y, B)):
            pass
        keys = []
        n = []
        for q in (x, y):
            if q[1][0] == "mapnode":
                if q[2] != P(32):
                    return None, "entry"
                keys.append((q[1][1], q[1][2]))
            elif q[1][0] == "node":
                keys.append((q[1][1], ("obj", ("p", q[1], q[2] - 32))))
                n.append(P(("pure", "std::map::size", ("obj", q[1][1]))))
            else:
                return None, "entries compared"
        if keys[0][0] == keys[1][0]:
            return False, "compares entries of one and the same dict"
        if {keys[0][0], keys[1][0]} != {A, B}:
            return None, "entries compared"
        k0, k1 = keys[0][1], keys[1][1]
        if k0[:2] != k1[:2]:
            if all(k[1][1][0] == "node" for k in (k0, k1) if k[:1] == ("obj",)) and k0[:1] == k1[:1] == ("obj",):
                # two iterators in step: the keys must be compared too
                return None, "keys of two iterators"
            return None, "keys %s and %s" % (show(k0), show(k1))
        if not n and k0[:1] == ("obj",) and k0[1][1][0] == "vec":
            vec = k0[1][1][1]
            v = k0[1][2]
            st = stride(v, h)
            if v != iv * st:
                return (False if (v - iv * st).const() is not None else None), "keys start at %s" % show(v)
            n = [keyvec(e, ai, c, vec, A, B, sa, sb)]
            if n[0] is None:
                return None, "list of keys"
    # the loop was left because the last element had been reached
    z = Zone(fs)
    for m in n:
        if m is None:
            continue
        if eq(m, iv) in fs or cmp("ule", m, iv) in fs or eq(iv, m) in fs:
            return True, ""
    rel = [f for f in fs if contains(f, lambda q: q == ("iv", h))]
    known = [x for m in n if m is not None for x in unknown_atoms(("t", m))]
    if any(x not in known for f in rel for x in unknown_atoms(f)):
        return None, "elements covered"
    for m in n:
        for f in rel:
            if f[0] in ("ule", "ult", "eq") and isinstance(f[1], Poly):
                d = (f[1] - f[2]) if f[0] != "eq" else f[1]      # d <= 0, d < 0, d == 0
                for s in ((1,) if f[0] != "eq" else (1, -1)):
                    k = stride(d * s, h)
                    if k >= 0:
                        continue
                    # m*(-k) <= iv*(-k) + slack
                    slack = m * (-k) - (d * s - P(("iv", h)) * k)
                    if slack == ZERO and f[0] != "ult" or f[0] == "ult" and slack.const() is not None and slack.const() <= 1:
                        return True, ""
                    if slack.const() is not None and slack.const() > 0:
                        return False, "the last elements are not compared"
    return None, "elements covered"


def keyvec(e, ai, c, vec, A, B, sa, sb):
    """number of elements of a local vector that holds every key of one of the dicts, in terms of its size"""
    ps = [q for q in ai.events if q.kind == "call" and q.callee in ("std::vector::push_back", "std::vector::emplace_back") and q.args[0] == vec]
    other = [q for q in ai.events if q.kind == "call" and vec in q.args and q.callee.split("::")[-1] in ("insert", "erase", "resize", "pop_back", "clear", "assign", "emplace")]
    if len(ps) != 1 or other:
        return None
    p = ps[0]
    sp = iterspace2(ai, p.b)
    if sp is None or len(sp) != 1:
        return None
    h, cnt = sp[0]
    a = p.args[1]
    if not (isinstance(a, tuple) and a[0] == "p" and a[1] in (("node", A), ("node", B)) and a[2] == P(("iv", h)) * NODE):
        return None
    if cnt not in (sa, sb):
        return None
    return P(("size", ai.oget(c.state, vec)))


# ------------------------------------------------------------------ C12
def C12(ck):
    e = env(ck)
    ck.rule("the text written for every kind of value is derived, for 0 to 5 elements, by following the one path the element count selects "
            "through the abstract states of the writer, and compared with the JSON form token by token")
    ck.part(c12_list, e)
    ck.part(c12_dict, e)
    ck.part(c12_leaf, e)
    ck.part(c12_dispatch, e)
    ck.part(c12_string, e)
    return ["insertion into an output stream writes exactly its operand (no formatting state is set)", "texts are written as they are; no escaping is part of the format"]


def trace(ai, env0, atom=lambda t: None, limit=3000):
    """the one path the given values select: [(block, environment)], with loop counters"""
    fn = ai.fn
    env = dict(env0)
    headers = {L["header"]: set(L["blocks"]) for L in fn.loops}
    byblock = {}
    for x in ai.phiinc:
        byblock.setdefault(phi_block(x), []).append(x)
    b, out = 0, []

    def fix(t):
        return psubst(t, env) if t is not None else None
    for _ in range(limit):
        out.append((b, dict(env)))
        T = fn.blocks[b][-1]
        if T.op in ("ret", "unreachable", "resume"):
            return out
        if T.op == "br" and "cond" in T.d:
            s = T.d["succ"][0 if evalc(fix(ai.val(T.d["cond"])), atom) else 1]
        elif T.op in ("br", "invoke"):
            s = T.d["succ"][0]
        elif T.op == "switch":
            v = simp_sel(ai.as_poly(fix(ai.as_poly(ai.val(T.d["cond"])))), atom)
            if v.const() is None:
                raise Unknown("switch on " + show(v))
            s = T.d["default"] if "default" in T.d else T.d["succ"][0]
            for k, x in T.d["cases"]:
                if k == v.const():
                    s = x
        else:
            raise Unknown(T.op)
        if (b, s) not in ai.out_state:
            raise Unknown("edge %d-%d" % (b, s))
        upd = {}
        for x in byblock.get(s, ()):
            v = dict(ai.phiinc[x]).get(b)
            if v is not None:
                upd[x] = psubst(v, env)
        if s in headers:
            k = ("iv", s)
            upd[k] = P(env[k]) + 1 if b in headers[s] and k in env else ZERO
        env.update(upd)
        b = s
    raise Unknown("no end")


def tokens(ai, path, os):
    """what the function writes to the stream along a path: characters, texts and values"""
    out = []
    byb = {}
    for x in ai.events:
        if x.kind == "call":
            byb.setdefault(x.b, []).append(x)
    for b, env in path:
        for x in byb.get(b, ()):
            if not x.args or x.args[0] != os:
                if any(isinstance(a, tuple) and a[:1] == ("p",) and a[1] == os[1] for a in x.args) and x.callee != "__cxa_begin_catch":
                    raise Unknown("stream passed to " + x.callee)
                continue
            ps = [p for p in (strip_templates(x.full)[1] or [])]
            if x.callee in ("std::operator<<",) and len(x.args) == 2:
                a = psubst(x.args[1], env)
                l = lit(ai, a) if isinstance(a, tuple) else None
                if isinstance(a, tuple) and a[:1] == ("p",) and l is not None:
                    out += ["".join(chr(c.const()) for c in l)]
                elif isinstance(a, Poly) and a.const() is not None and len(ps) > 1 and ps[1] == "char":
                    out += [chr(a.const() & 255)]
                elif isinstance(a, tuple) and a[:1] == ("p",) and len(ps) > 1 and "basic_string" in ps[1]:
                    v = psubst(ai.oget(x.state, x.args[1]), env)
                    t = textval(ai, v)
                    if t is not None:
                        out += ["".join(chr(c.const()) for c in t)]
                    elif v[:1] == ("obj",) and len(v) == 2:
                        out += [("s", v[1])]
                    elif v == ("obj", a) or a[1][0] in ("node", "mapnode", "vec"):
                        out += [("s", a)]
                    else:
                        raise Unknown("text " + show(v))
                else:
                    raise Unknown("insertion of " + show(a))
            elif x.callee == NS + "operator<<" and len(x.args) == 2:
                out += [("v", psubst(x.args[1], env), (ps[1] if len(ps) > 1 else "").replace("const&", "").replace("&", "").strip())]
            elif x.callee in ("std::ostream::put",) and len(x.args) == 2:
                a = psubst(x.args[1], env)
                if a.const() is None:
                    raise Unknown("put")
                out += [chr(a.const() & 255)]
            elif x.callee == "std::ostream::write" and len(x.args) == 3:
                l, n = lit(ai, psubst(x.args[1], env)), psubst(x.args[2], env)
                if l is None or not isinstance(n, Poly) or n.const() is None or n.const() > len(l):
                    raise Unknown("write")
                out += ["".join(chr(c.const()) for c in l[:n.const()])]
            elif x.callee in ("std::ostream::operator bool", "std::basic_ios::operator bool", "std::ostream::flush"):
                continue
            else:
                raise Unknown("stream passed to " + x.callee)
    m = []
    for t in out:
        if isinstance(t, str) and m and isinstance(m[-1], str):
            m[-1] += t
        elif t != "":
            m.append(t)
    return m


def writer(e, cls):
    fs = [f for f in e.m.fns.values() if strip_name(f.q) == NS + "operator<<" and e.params1(f) == ["std::ostream&", cls + "&"]] if hasattr(e, "params1") else \
        [f for f in e.m.fns.values() if strip_name(f.q) == NS + "operator<<" and [norm(t) for t in f.d.get("ditypes", [])[1:]][1:] == [cls + "&"]]
    if len(fs) != 1:
        raise AnalysisBroken("operator<< of " + cls)
    return fs[0]


def showtok(ts):
    return " ".join(t if isinstance(t, str) else "<%s>" % show(t[1]) for t in ts)


def untyped(ts):
    return [t[:2] if isinstance(t, tuple) else t for t in ts]


def c12_seq(ck, e, cls, rule, want_fn, sizeatom, extra=()):
    f = writer(e, cls)
    ai = e.run(ck, f, kinds={("arg", 1): cls})
    os = ("p", ("arg", 0), ZERO)
    if murky_ctl(ai):
        ck.ob(rule, f.where(), None, murky_ctl(ai), f.key)
        return
    for n in range(6):
        try:
            path = trace(ai, {sizeatom: P(n)})
            T = f.blocks[path[-1][0]][-1]
            got = tokens(ai, path, os)
            want = want_fn(n)
            ok = T.op == "ret" and untyped(got) == want
            d = "%d elements are written as %s, expected %s" % (n, showtok(got), showtok(want))
            if not ok and any(isinstance(t, tuple) and unknown_atoms(("t", t[1])) for t in got):
                ok = None
            if T.op != "ret":
                d = "writing %d elements throws" % n
        except Unknown as x:
            ok, d = None, "%d elements: %s" % (n, x)
        ck.ob(rule, f.where(), ok, "" if ok else d, "%s n=%d" % (f.key, n))


def c12_list(ck, e):
    c = ("p", ("arg", 1), P(e.lay.list))

    def want(n):
        out = ["["]
        for k in range(n):
            if k:
                out.append(",")
            out.append(("v", ("p", ("vec", c), P(k * e.size))))
        return out + ["]"] if n else ["[]"]
    c12_seq(ck, e, LIST, "a list is written as its elements in order", want, ("size", ("obj", c)))


def c12_dict(ck, e):
    c = ("p", ("arg", 1), P(e.lay.map))

    def want(n):
        out = []
        for k in range(n):
            out.append(("{\"" if k == 0 else ",\""))
            out.append(("s", ("p", ("node", c), P(k * NODE))))
            out.append("\":")
            out.append(("v", ("p", ("node", c), P(k * NODE + 32))))
        return out + ["}"] if n else ["{}"]
    c12_seq(ck, e, DICT, "a dict is written as its entries in key order", want, ("pure", "std::map::size", ("obj", c)))


def c12_leaf(ck, e):
    f = writer(e, LEAF)
    T = leaftype(e)
    lay = e.lay
    val = ("s", ("p", ("arg", 1), P(lay.val)))
    rule = "a leaf is written as its text, quoted iff it is a string"
    for name, k in sorted(T.items()):
        ai = e.run(ck, f, kinds={("arg", 1): LEAF}, init={(("arg", 1), lay.type, 4): P(k)})
        try:
            want = ["\"", val, "\""] if name == "STRING" else [val]
            # a condition on the text itself can go either way
            free = []

            def cond(t, take):
                if t[:1] in (("not",), ("and",), ("or",), ("sel",)) or not isinstance(t, tuple) or unknown_atoms(("t", t)) or phis(("t", t)):
                    return None
                if any(x == ("obj", val[1]) for x in walk(t)) and not any(x[:1] == ("sel",) or x[:1] == ("p",) and x != val[1] for x in walk(t)):
                    if t not in free:
                        free.append(t)
                        if len(free) > 1:
                            raise Unknown("conditions on the text")
                    return take
                return None
            for take in (True, False):
                got = tokens(ai, trace(ai, {}, lambda t: cond(t, take)), ("p", ("arg", 0), ZERO))
                ok = untyped(got) == want
                d = "a leaf of type %s is written as %s" % (name, showtok(got))
                if not ok or not free:
                    break
            if not ok and any(isinstance(t, tuple) and unknown_atoms(("t", t[1])) for t in got):
                ok = None
        except Unknown as x:
            ok, d = None, str(x)
        ck.ob(rule, f.where(), ok, "" if ok else d, f.key + name)


def c12_dispatch(ck, e):
    """the generic writers write the object itself"""
    os = ("p", ("arg", 0), ZERO)
    f = writer(e, OBJ)
    rule = "the object written is the one given"
    for K in (LEAF, LIST, DICT):
        ai = e.run(ck, f, kinds={("arg", 1): K})
        try:
            got = tokens(ai, trace(ai, {}), os)
            ok = got == [("v", ("p", ("arg", 1), ZERO), K)]
            d = "a %s is written as %s" % (KN[K], showtok(got))
            if not ok and got and any(t[2] not in (K,) for t in got if isinstance(t, tuple) and t[0] == "v") and len(got) == 1 and got[0][1] == ("p", ("arg", 1), ZERO):
                d = "a %s is written by the writer of %s" % (KN[K], got[0][2])
        except Unknown as x:
            ok, d = None, str(x)
        ck.ob(rule, f.where(), ok, "" if ok else d, f.key + K)
    f = writer(e, ITEM)
    for K in ALL:
        ks, hs = heldmap(K, ("arg", 1))
        ai = e.run(ck, f, kinds=ks, held=hs)
        try:
            got = tokens(ai, trace(ai, {}), os)
            if K is None:
                ok = got == []
            else:
                ok = len(got) == 1 and isinstance(got[0], tuple) and got[0][:2] == ("v", heldp(K, ("arg", 1))) and got[0][2] in (OBJ, K)
            d = "an item holding %s is written as %s" % (KN[K], showtok(got))
        except Unknown as x:
            ok, d = None, str(x)
        ck.ob(rule, f.where(), ok, "" if ok else d, f.key + KN[K])


def c12_string(ck, e):
    """conversion to text is what the writer writes"""
    rule = "the text of a value is its written form"
    for cls in (LEAF, LIST, DICT):
        fs = [f for f in e.m.fns.values() if f.scope == cls and "cvNSt7__cxx1112basic_string" in f.key]
        if len(fs) != 1:
            raise AnalysisBroken("text conversion of " + cls)
        f = fs[0]
        ai = e.run(ck, f, kinds={("this",): cls})
        this = ("p", ("this",), ZERO)
        for r in ai.rets():
            v = ai.oget(r.state, ("p", ("arg", 0), ZERO))
            ok, d = None, "gives %s" % show(v)
            if cls == LEAF:
                ok = v == ("obj", ("p", ("this",), P(e.lay.val)))
                ok = ok or (False if v[:1] == ("str",) else None)
            else:
                w = [c for c in ai.events if c.kind == "call" and c.callee in (NS + "operator<<", "std::operator<<", "std::ostream::operator<<", "std::ostream::put")]
                s = [c for c in ai.events if c.kind == "call" and c.callee in ("std::basic_stringstream::str", "std::basic_ostringstream::str")]
                if len(w) == 1 and len(s) == 1 and w[0].callee == NS + "operator<<":
                    a = w[0].args
                    if a[1] == this and a[0][1] == s[0].args[1][1]:
                        ok = v[:2] == ("obj", ("p", ("arg", 0), ZERO)) and v[2:] == (("by", s[0].ins.i),) or None
                    elif a[1] != this and not unknown_atoms(("t", a[1])):
                        ok = False
                elif v[:1] == ("str",):
                    ok = False
                elif len(w) > 1 and all(c.args[0][1] == w[0].args[0][1] for c in w) and len(f.loops) == 0 and [c for c in w if c.callee == NS + "operator<<"] and len(
                        [c for c in w if c.callee != NS + "operator<<"]) and len(s) == 1:
                    ok, d = False, "writes more than the value"
            ck.ob(rule, f.where(), verdict2(ai, ok), "" if ok else d, f.key)
    fs = [f for f in e.m.fns.values() if f.scope == ITEM and "cvNSt7__cxx1112basic_string" in f.key]
    if len(fs) != 1:
        raise AnalysisBroken("text conversion of an item")
    f = fs[0]
    for K in ALL:
        ks, hs = heldmap(K, ("this",))
        ai = e.run(ck, f, kinds=ks, held=hs)
        for r in ai.rets():
            v = ai.oget(r.state, ("p", ("arg", 0), ZERO))
            ok, d = None, "an item holding %s gives %s" % (KN[K], show(v))
            h = heldp(K, ("this",)) if K else None
            if K is None:
                ok = True if v == ("str", "") else False if v[:1] in (("str",), ("obj",)) and len(v) == 2 else None
            elif K == LEAF:
                ok = v == ("obj", ("p", ("held", ("this",)), P(e.lay.val)))
                ok = ok or (False if v[:1] == ("str",) else None)
            elif v == ("str", ""):
                ok = False
            elif v[:1] == ("obj",) and len(v) == 3 and v[2][:1] == ("by",):
                ok = textsource(e, ai, v[2][1], K, h)
            if ok is None and K is not None:
                ok = textforks(e, ai, K, h)
            ck.ob(rule, f.where(), verdict2(ai, ok), "" if ok else d, f.key + KN[K])


def textsource(e, ai, i, K, h):
    c = [c for c in ai.events if c.kind == "call" and c.ins.i == i]
    if c and c[0].callee.startswith(NS) and len(c[0].args) == 2:
        return True if c[0].args[1] == h and c[0].callee.startswith(K) else None
    if c and c[0].callee.endswith("stringstream::str"):
        w = [x for x in ai.events if x.kind == "call" and x.callee.endswith("operator<<") and x.args[0][1] == c[0].args[1][1]]
        return True if len(w) == 1 and w[0].args[1] in (h, ("p", ("this",), ZERO)) else None
    return None


def textforks(e, ai, K, h):
    """as above, where a condition on the content of the value selects the result"""
    res = []
    free = []

    def cond(t, take):
        if not isinstance(t, tuple) or t[:1] in (("not",), ("and",), ("or",), ("sel",)) or unknown_atoms(("t", t)) or phis(("t", t)):
            return None
        if any(x[:1] == ("obj",) and isinstance(x[1], tuple) and x[1][:2] == ("p", h[1]) for x in walk(t)):
            if t not in free:
                free.append(t)
                if len(free) > 1:
                    raise Unknown("conditions")
            return take
        return None
    try:
        for take in (True, False):
            path = trace(ai, {}, lambda t: cond(t, take))
            if ai.fn.blocks[path[-1][0]][-1].op != "ret":
                return None
            bs = [b for b, _ in path]
            cs = [c for c in ai.events if c.kind == "call" and c.b in bs and c.args and c.args[0] == ("p", ("arg", 0), ZERO)]
            cs.sort(key=lambda c: bs.index(c.b))
            if len(cs) != 1:
                return None
            c = cs[0]
            if c.callee.endswith("basic_string::basic_string"):
                if len(c.args) > 1 and isinstance(c.args[1], tuple) and lit(ai, c.args[1]) == [] and K != LEAF:
                    return False        # the shortest text of a container has its brackets
                return None
            res.append(textsource(e, ai, c.ins.i, K, h))
            if not free:
                break
    except Unknown:
        return None
    return True if res and all(res) else None
