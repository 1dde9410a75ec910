"""MNIST / CIFAR readers."""
from .. import ir
from ..absint import Absint
from ..terms import *
from .util import *

E = "EdgeLearning::"
CONS = ["clang 18 front end and the LLVM passes used for normalisation are faithful to the C++ semantics",
        "library functions behave as their documented summaries (file streams, vectors, strings)"]


# ------------------------------------------------------------------ helpers
def ctor(m, cls):
    return need(m.one(cls, cls.split("::")[-1].split("<")[0]), cls + " constructor")


def path_args(f):
    return [i for i, t in enumerate(f.arg_ditypes()) if t and "filesystem" in t and "path" in t]


def unresolved(facts):
    """True when some fact speaks about a file byte at a position that is not known"""
    for f in facts:
        for t in walk(f):
            if t and t[0] == "fbyte" and (t[2].const() is None):
                return True
            if t and t[0] in ("phi",):
                return True
    return False


def has_unk_reads(ai):
    for e in ai.calls("std::istream::read", "std::istream::seekg"):
        v = ai_strm(ai, e)
        if v is None or contains(v[2], lambda t: t[0] in ("phi", "unkpos", "pos", "iv")):
            return True
    return False


def ai_strm(ai, e):
    v = e.state.obj.get(ai.okey(e.args[0]))
    return v if isinstance(v, tuple) and v and v[0] == "strm" else None


def origin_of(arg):
    return ("file", ("obj", ("p", ("arg", arg), ZERO)))


def opened_ok(ai, facts, origin):
    """a fact that implies that the stream on `origin` was opened"""
    for f in facts:
        pos = f
        if f[0] == "not":
            g = f[1]
            if g[0] == "i2b":
                at = g[1].atom()
                if at and at[0] == "sp" and at[1] == "fail" and at[3][0] == "strm" and at[3][1] == origin:
                    return True
        if f[0] == "i2b":
            at = f[1].atom()
            if at and at[0] == "sp" and at[1] in ("good", "is_open") and at[3][0] == "strm" and at[3][1] == origin:
                return True
    return False


# ------------------------------------------------------------------ C01
def C01(ck):
    ck.rule("must-facts over file bytes at every normal exit of the constructor, with a typestate of each stream's position "
            "and byte-order composition of the words read")
    m = ir.view("parser")
    f = ctor(m, E + "Mnist")
    ai = run(ck, f)
    ps = path_args(f)
    if len(ps) != 2:
        ck.ob("roles", f.where(), None, "constructor does not take two paths")
        return CONS
    img, lab = origin_of(ps[0]), origin_of(ps[1])
    exits = ai.rets()
    need(exits, "normal exit of the MNIST constructor")
    vague = has_unk_reads(ai)
    valid = {
        "image magic number is 0x00000803": eq(be32(img, 0), P(0x803)),
        "label magic number is 0x00000801": eq(be32(lab, 0), P(0x801)),
        "both files declare the same number of records": eq(be32(img, 4), be32(lab, 4)),
        "image rows are 28": eq(be32(img, 8), P(28)),
        "image columns are 28": eq(be32(img, 12), P(28)),
    }
    for e in exits:
        und = None if (vague or unresolved(e.facts)) else False
        for text, t in valid.items():
            ok = implied_eq(e.facts, t)
            ck.ob("accepted file satisfies: " + text, f.where(), True if ok else und,
                  "" if ok else "the constructor can complete without having established that " + text, text)
        for nm, o in (("image", img), ("label", lab)):
            ok = opened_ok(ai, e.facts, o)
            ck.ob("accepted %s file was opened" % nm, f.where(), True if ok else und,
                  "" if ok else "the constructor can complete although the %s file could not be opened" % nm, nm)
    # the advertised size is the validated record count
    g = getter(ck, m, E + "Mnist", "size")
    for ts in g:
        for t in ts:
            for e in exits:
                sub = {}
                ok = None
                if isinstance(t, Poly):
                    for a in t.atoms():
                        if a[0] == "ld" and a[1] == ("this",) and a[2].const() is not None:
                            v = ai.load(e.state, ("p", ("this",), a[2]), a[3], "i32", None)
                            sub[a] = v
                    s = subst(t, sub)
                    ok = s in (be32(img, 4), be32(lab, 4))
                    if not ok and not sized_wrong(s, img, lab) and (vague or contains(s, lambda x: x[0] in ("phi", "by", "obj"))):
                        ok = None
                ck.ob("size() is the declared record count", f.where(), ok,
                      "" if ok else "after construction size() evaluates to %s" % show(subst(t, sub) if ok is False else t), "size")
    # no valid pair is turned away: every edge towards rejection only
    # tests one of the conditions above (or the stream state)
    good = normal_blocks(ai)
    red = reducer(list(valid.values()))
    for b in f.rpo():
        T = f.blocks[b][-1]
        if T.op != "br" or "cond" not in T.d or b not in good or b not in ai.in_state:
            continue
        for s, truth in zip(T.d["succ"], (True, False)):
            if s in good or (b, s) not in ai.out_state:
                continue
            c = ai.val(T.d["cond"])
            c = c if truth else neg(c)
            for lit in disjuncts(ai, c):
                about = any(x and x[0] == "fbyte" for x in walk(lit))
                if not about or unresolved([lit]):
                    continue
                # a literal that no valid pair satisfies may be rejected
                ok = verdict(lit, red) is False
                ck.ob("only an invalid pair is rejected", T.loc(), ok,
                      "" if ok else "construction is refused under %s, which valid files may satisfy" % show(lit), "reject@" + show(lit))
    return CONS


def sized_wrong(s, img, lab):
    """the size is a closed form in the bytes of the declared counts that
    folds to something else for some count"""
    for n in (0, 1, 60000, 0x10001, 0x01020304, 0x00ffffff, 0x7fffffff, 0xffffffff):
        env = {("fbyte", o, P(4 + i)): (n >> (24 - 8 * i)) & 255 for o in (img, lab) for i in range(4)}
        try:
            if evalp(s, env) != n:
                return True
        except NotConst:
            return False
    return False


def disjuncts(ai, c):
    if c[0] == "or":
        return disjuncts(ai, c[1]) + disjuncts(ai, c[2])
    if c[0] == "phi":
        inc = ai.phiinc.get(c) or []
        out = []
        for p, v in inc:
            if v == TRUE:
                # the branch condition that set it is a conjunct tested separately
                T = ai.fn.blocks[p][-1]
                continue
            if v not in (None, FALSE):
                out += disjuncts(ai, v)
        return out or [c]
    return [c]


# ------------------------------------------------------------------ C02
def config_states(ck, m):
    """the scalar configurations a CIFAR object may be in after construction:
    list of (label, dataset argument, fine names given, cells)"""
    f = ctor(m, E + "Cifar")
    ty = f.arg_ditypes()
    ds = [i for i, t in enumerate(ty) if t and t.endswith("CifarDataset")]
    orr = [i for i, t in enumerate(ty) if t and t.endswith("CifarShapeOrder")]
    need(ds, "CIFAR dataset parameter")
    need(orr, "CIFAR order parameter")
    base = Absint(f)
    empt = sorted({e.res for e in base.calls("std::filesystem::path::empty") if e.res is not None}, key=repr)
    last = path_args(f)[-1]
    empt = [t for t in empt if contains(t, lambda x: x == ("arg", last))]
    out = []
    for dv in (0, 1):
        for ov in (0, 1):
            for fine in (False, True):
                fs = [neg(t) if fine else t for t in empt]
                ai = run(ck, f, consts={ds[0]: P(dv), orr[0]: P(ov)}, facts=fs)
                out.append((dv, ov, fine, cells(ai), ai))
    return f, out


def scalar(cs):
    return {k: v for k, v in cs.items() if isinstance(v, Poly) and v.const() is not None}


def reads_of(ai):
    return [e for e in ai.calls("std::istream::read")]


def read_info(ai, e):
    v = ai_strm(ai, e)
    if v is None:
        v = ("strm", ("obj", e.args[0]), P(("pos", ("obj", e.args[0]))), (), ())
    return v[1], v[2], ai.as_poly(e.args[2]), ai.as_ptr(e.args[1])


def pos_decided(p):
    return not contains(p, lambda t: t[0] in ("phi", "unkpos", "iv", "ign", "endpos", "call", "op"))


def stream_origin(ai, stream, default=None):
    return ("obj", stream)


def check_record(ck, name, f, ai, stream, want_pos, n, vec, what, config=""):
    """the vector `vec` of the returned object holds bytes want_pos.. of the stream"""
    rule = "%s reads its record" % what
    o = ("obj", stream)
    try:
        seq = sequence(ai, vec)
    except Unknown as x:
        ck.ob(rule, f.where(), None, "content not determined: %s" % x, name + config)
        return
    if len(seq) != n:
        ck.ob(rule, f.where(), False, "%s the result holds %d values, expected %d" % (config, len(seq), n), name + config)
        return
    facts = frozenset.intersection(*[e.facts for e in ai.rets()]) if ai.rets() else frozenset()
    ok, det = True, ""
    done = {}
    for k, t in enumerate(seq):
        at = t.atom() if isinstance(t, Poly) else None
        # one comparison per distinct displacement
        key = at[1:2] + (at[2] - k,) if at and at[0] == "fbyte" else (k, t)
        if key in done:
            continue
        why = []
        r = same(ai, t, P(("fbyte", o, want_pos + k)), facts, why)
        done[key] = r
        if r is not True and ok is not False:
            ok = r
            det = "%s value %d is %s, expected byte %s of %s" % (config, k, why[0] if why else show(t), show(want_pos + k), ai.field(stream))
        if len(done) > 64:
            break
    e = ([x for x in reads_of(ai)] or [None])[0]
    ck.ob(rule, e.loc() if e else f.where(), ok, det, name + config)


def stream_fields(m, cls):
    t = m.types[cls]
    return [(n, o) for n, o, ty, sz in t["members"] if "basic_ifstream" in ty or ty.endswith("ifstream")]


def this_off(o):
    return ("p", ("this",), P(o))


def C02(ck):
    ck.rule("the canonical offset polynomial of the only seek before each read, its length, source stream and destination, "
            "for each reachable configuration")
    m = ir.view("parser")
    # --- MNIST: which stream belongs to which path
    f = ctor(m, E + "Mnist")
    ai = run(ck, f)
    ps = path_args(f)
    owner = {}
    for e in ai.rets():
        for (b, o), v in e.state.obj.items():
            if b == ("this",) and v[0] == "strm":
                for k, p in zip(("image", "label"), ps):
                    if v[1] == origin_of(p):
                        owner[k] = o
    need(len(owner) == 2 or None, "image and label streams of the MNIST reader")
    size = getter(ck, m, E + "Mnist", "size")[0][0]
    spec = {
        "image": (16, 784, E + "MnistImage"),
        "label": (8, 1, E + "MnistLabel"),
    }
    for k, (hdr, n, item) in spec.items():
        g = need(m.one(E + "Mnist", k, 1), "Mnist::" + k)
        a = run(ck, g)
        iarg = [i for i, t in enumerate(g.arg_ditypes()) if t == "unsigned long"]
        if len(iarg) != 1 or not g.d["args"][0].get("sret"):
            ck.ob("record access", g.where(), None, "unexpected signature", k)
            continue
        i = P(("arg", iarg[0]))
        rec = urem(i, size)
        doff = getter_off(ck, m, item, "data")
        dest = ("p", ("arg", 0), P(doff)) if k == "label" else ("p", ("vec", ("p", ("arg", 0), P(doff))), ZERO)
        if k == "image":
            check_record(ck, "mnist." + k, g, a, this_off(owner[k]), P(hdr) + rec * n, n, ("p", ("arg", 0), P(doff)), "MNIST " + k)
            vec_ok(ck, g, a, ("p", ("arg", 0), P(doff)), 784)
        else:
            for e in a.rets():
                v = a.load(e.state, dest, 1, "i8", None)
                judge(ck, "MNIST label reads its record", g.where(), a, v, P(("fbyte", ("obj", this_off(owner[k])), P(hdr) + rec * n)),
                      e.facts, "mnist." + k)
        idx_ok(ck, m, g, a, item, rec, "mnist." + k)
    # --- operator[] pairs image and label of the same record
    pair_ok(ck, m, E + "Mnist", E + "MnistItem", owner, size)
    # --- CIFAR
    fc, cfgs = config_states(ck, m)
    bs = stream_fields(m, E + "Cifar")
    if len(bs) != 1:
        ck.ob("record access", fc.where(), None, "batch stream not identified", "cifar")
        return CONS
    stream = this_off(bs[0][1])
    for dv, ov, fine, cs, cai in cfgs:
        L = 2 if (dv == 1 and fine) else 1
        conf = "[CIFAR-%s%s, %s]" % ("100" if dv else "10", "" if fine or not dv else " without fine names", "row-col-chn" if ov else "chn-row-col")
        if dv == 1 and not fine:
            conf2 = "(treated as CIFAR-10)"
        for k in ("image", "label"):
            g = need(m.one(E + "Cifar", k, 1), "Cifar::" + k)
            a = run(ck, g, init=scalar(cs))
            iarg = [x for x, t in enumerate(g.arg_ditypes()) if t == "unsigned long"]
            i = P(("arg", iarg[0]))
            rec = urem(i, P(10000))
            item = E + ("CifarImage" if k == "image" else "CifarLabel")
            if k == "image":
                doff = image_member(m, item)
                if doff is None:
                    ck.ob("record access", g.where(), None, "image member not identified", k)
                    continue
                check_record(ck, "cifar.image", g, a, stream, rec * (3072 + L) + L, 3072, ("p", ("arg", 0), P(doff)), "CIFAR image", conf)
                vec_ok(ck, g, a, ("p", ("arg", 0), P(doff)), 3072)
            else:
                label_reads(ck, m, g, a, stream, rec * (3072 + L), L, item, conf)
            idx_ok(ck, m, g, a, item, rec, "cifar." + k + conf)
    pair_cifar(ck, m, cfgs, stream)
    return CONS


def image_member(m, item):
    t = m.types[item]
    v = [o for n, o, ty, sz in t["members"] if "vector" in ty]
    return v[0] if len(v) == 1 else None


def judge(ck, rule, where, a, got, want, facts, construct, pre=""):
    why = []
    r = same(a, got, want, facts, why)
    if r is False and any(x[0] in ("by", "made", "ld") for w in [got] for x in walk(w) if x and x[0] == "ld" and len(x) > 4):
        r = None
    ck.ob(rule, where, r, "" if r else "%s is %s, expected %s" % (pre or "value", why[0] if why else show(got), show(want)), construct)
    return r


def label_reads(ck, m, g, a, stream, pos, L, item, conf):
    coarse = getter_off(ck, m, item, "coarse_label")
    fine = getter_off(ck, m, item, "fine_label")
    want = {0: coarse} if L == 1 else {0: coarse, 1: fine}
    for e in a.rets():
        for k, off in want.items():
            if off is None:
                ck.ob("CIFAR label reads its record", g.where(), None, "getter not identified", "label%d%s" % (k, conf))
                continue
            v = a.load(e.state, ("p", ("arg", 0), P(off)), 1, "i8", None)
            judge(ck, "CIFAR label reads its record", g.where(), a, v, P(("fbyte", ("obj", stream), pos + k)), e.facts,
                  "label%d%s" % (k, conf), "%s %s label" % (conf, ("coarse", "fine")[k]))


def idx_ok(ck, m, g, a, item, rec, name):
    off = getter_off(ck, m, item, "idx")
    if off is None:
        ck.ob("record carries its index", g.where(), None, "idx getter not identified", name)
        return
    for e in a.rets():
        v = a.load(e.state, ("p", ("arg", 0), P(off)), 8, "i64", None)
        judge(ck, "record carries its index", g.where(), a, v, rec, e.facts, name, "idx()")


def vec_ok(ck, g, a, vec, n):
    for e in a.rets():
        s = vec_size_of(a, e.state, vec)
        c = s.const() if s is not None else None
        ck.ob("record has its full length", g.where(), None if c is None else c == n,
              "" if c == n else "holds %s values instead of %d" % (show(s) if s is not None else "?", n), "len")


def vec_size_of(a, st, vec):
    from ..absint import vec_size
    return vec_size(a, st, vec)


def pair_ok(ck, m, cls, item, owner, size):
    g = need(m.one(cls, "operator[]", 1), cls + "::operator[]")
    a = run(ck, g)
    iarg = [x for x, t in enumerate(g.arg_ditypes()) if t == "unsigned long"]
    rec = urem(P(("arg", iarg[0])), size)
    item_ok(ck, m, g, a, item, this_off(owner["image"]), P(16) + rec * 784, 784, [(E + "MnistLabel", "data", this_off(owner["label"]), P(8) + rec)],
            "mnist", E + "MnistImage")


def item_ok(ck, m, g, a, item, istr, ipos, n, labels, name, icls):
    """the pair returned by operator[]: image bytes and label bytes of one record"""
    mem = {nm: o for nm, o, ty, sz in m.types[item]["members"]}
    io = [o for nm, o, ty, sz in m.types[item]["members"] if ty == icls or icls.endswith("::" + ty)]
    if len(io) != 1:
        ck.ob("item pairs image and label of one record", g.where(), None, "layout", name)
        return
    vo = image_member(m, icls)
    check_record(ck, name, g, a, istr, ipos, n, ("p", ("arg", 0), P(io[0] + vo)), name + " item image")
    for lcls, getr, lstr, lpos in labels:
        lo = [o for nm, o, ty, sz in m.types[item]["members"] if ty == lcls or lcls.endswith("::" + ty)]
        off = getter_off(ck, m, lcls, getr)
        if len(lo) != 1 or off is None:
            ck.ob("item pairs image and label of one record", g.where(), None, "layout", name)
            continue
        for e in a.rets():
            v = a.load(e.state, ("p", ("arg", 0), P(lo[0] + off)), 1, "i8", None)
            judge(ck, "item pairs image and label of one record", g.where(), a, v, P(("fbyte", ("obj", lstr), lpos)), e.facts,
                  name + getr, "item label")


def pair_cifar(ck, m, cfgs, stream):
    g = need(m.one(E + "Cifar", "operator[]", 1), "Cifar::operator[]")
    iarg = [x for x, t in enumerate(g.arg_ditypes()) if t == "unsigned long"]
    rec = urem(P(("arg", iarg[0])), P(10000))
    for dv, ov, fine, cs, cai in cfgs:
        L = 2 if (dv == 1 and fine) else 1
        a = run(ck, g, init=scalar(cs))
        base = rec * (3072 + L)
        labs = [(E + "CifarLabel", "coarse_label", stream, base)]
        if L == 2:
            labs.append((E + "CifarLabel", "fine_label", stream, base + 1))
        item_ok(ck, m, g, a, E + "CifarItem", stream, base + L, 3072, labs, "cifar%d%d%d" % (dv, ov, fine), E + "CifarImage")


# ------------------------------------------------------------------ C03
def set_content(ai, s):
    """elements of a std::set<integer> built by this function"""
    out = None
    for e in ai.events:
        if e.kind != "call" or s not in e.args or e.b not in normal_blocks(ai):
            continue
        if e.args[0] != s or not e.callee.startswith("std::set::"):
            raise Unknown("passed to " + e.callee)
        mth = e.callee.split("::")[-1]
        if mth in ("~set", "size", "begin", "end", "empty"):
            continue
        if loops_of(ai.fn, e.b) or not all(e.b in ai.dom()[r.b] for r in ai.rets()):
            raise Unknown("conditional content")
        ps = ir_params(e)
        if mth == "set":
            if len(e.args) == 1 or ps[0].startswith("std::allocator"):
                out = []
            elif ps[0].startswith("std::initializer_list"):
                n = ai.as_poly(e.args[2]).const()
                out = [ai.load(e.state, ("p", e.args[1][1], e.args[1][2] + 8 * k), 8, "i64", None) for k in range(n)]
            else:
                raise Unknown("set constructor")
        elif mth in ("insert", "emplace") and len(ps) == 1 and "unsigned long" in ps[0]:
            out = (out or []) + [ai.load(e.state, e.args[1], 8, "i64", None)]
        else:
            raise Unknown(e.callee)
    if out is None:
        raise Unknown("never built")
    return out


def tuple_content(ai, t):
    for e in ai.events:
        if e.kind == "call" and e.args and e.args[0] == t and e.callee == "std::tuple::tuple" and all(e.b in ai.dom()[r.b] for r in ai.rets()):
            return [ai.load(e.state, x, 8, "i64", None) if isinstance(x, tuple) else x for x in e.args[1:]]
    # stored in place (elements are laid out in reverse order)
    for e in ai.rets():
        cs = {k[1]: v for k, v in e.state.mem.items() if k[0] == t[1]}
        if cs:
            return [cs[o] for o in sorted(cs, reverse=True)]
    raise Unknown("shape")


def single(ck, rule, f, a, want, construct):
    """the (integer) result of a getter on every normal exit"""
    for e in a.rets():
        got = e.args[0] if e.args else None
        if not isinstance(got, Poly):
            ck.ob(rule, f.where(), None, "result not an integer term", construct)
            continue
        judge(ck, rule, f.where(), a, got, want, e.facts, construct, construct)


def shape_rules(ck, m, cls, init, dims, nfeat, conf=""):
    nm = cls.split("::")[-1]
    rule = "%s reports its shape" % nm
    f = need(m.one(cls, "shape", 0), nm + "::shape")
    a = run(ck, f, init=init)
    try:
        t = tuple_content(a, ("p", ("arg", 0), ZERO))
        if any(not isinstance(x, Poly) or x.const() is None for x in t):
            ck.ob(rule, f.where(), None, "shape not constant", "shape" + conf)
        else:
            got = tuple(x.const() for x in t)
            ck.ob(rule, f.where(), got == dims, "" if got == dims else "shape() is %s, the records are %s" % (got, dims), "shape" + conf)
    except Unknown as x:
        ck.ob(rule, f.where(), None, str(x), "shape" + conf)
    for g, v in (("side", dims[1]), ("height", dims[1]), ("width", dims[1]), ("channels", min(dims))):
        fs = m.method(cls, g, 0)
        for f in fs:
            single(ck, rule, f, run(ck, f, init=init), P(v), g)
    f = need(m.one(cls, "feature_size", 0), nm + "::feature_size")
    single(ck, "%s declares its feature count" % nm, f, run(ck, f, init=init), P(nfeat), "feature_size" + conf)
    f = need(m.one(cls, "labels_idx", 0), nm + "::labels_idx")
    a = run(ck, f, init=init)
    rule = "%s declares its label position" % nm
    try:
        s = set_content(a, ("p", ("arg", 0), ZERO))
        if any(unknown_atoms(x) for x in s):
            ck.ob(rule, f.where(), None, "position not determined", "labels_idx" + conf)
        else:
            ok = s == [P(nfeat - 1)]
            ck.ob(rule, f.where(), ok, "" if ok else "labels_idx() is {%s}, the label is value %d" % (", ".join(show(x) for x in s), nfeat - 1),
                  "labels_idx" + conf)
    except Unknown as x:
        ck.ob(rule, f.where(), None, str(x), "labels_idx" + conf)


def entry_rule(ck, m, cls, init, want, rule, conf, objs=None, name="entry", nparams=1):
    f = need(m.one(cls, name, nparams), cls + "::" + name)
    a = run(ck, f, init=init, objs=objs)
    idx = [x for x, t in enumerate(f.arg_ditypes()) if t == "unsigned long"]
    try:
        s = sequence(a, ("p", ("arg", 0), ZERO))
    except Unknown as x:
        ck.ob(rule, f.where(), None, "content not determined: %s" % x, name + conf)
        return
    w = want(P(("arg", idx[0])) if idx else None)
    if len(s) != len(w):
        ck.ob(rule, f.where(), False, "%s %s() holds %d values, expected %d" % (conf, name, len(s), len(w)), name + conf)
        return
    ok, det = True, ""
    facts = frozenset.intersection(*[e.facts for e in a.rets()])
    bad = 0
    for k, (x, y) in enumerate(zip(s, w)):
        y = y if isinstance(y, tuple) else (y,)
        if x in y:
            continue
        bad += 1
        if bad > 40:
            break
        why = []
        r = same(a, x, y[0], facts, why)
        if r is not True and ok is not False:
            ok, det = r, "%s value %d is %s, expected %s" % (conf, k, why[0] if why else show(x), show(y[0]))
    ck.ob(rule, f.where(), ok, det, name + conf)


def num(t):
    """a byte widened to the numeric type: both signedness spellings are the same value"""
    return (("uitofp", t, "double"), ("sitofp", t, "double"))


def perm_rcc():
    """destination order row, column, channel -> source index channel, row, column"""
    return [1024 * c + 32 * r + x for r in range(32) for x in range(32) for c in range(3)]


def C03(ck):
    ck.rule("the exact sequence of terms a numeric entry consists of (ordered container writes over constant iteration spaces), "
            "compared with the declared layout for each configuration")
    m = ir.view("parser")
    f = ctor(m, E + "Mnist")
    ai = run(ck, f)
    ps = path_args(f)
    owner = {}
    for e in ai.rets():
        for (b, o), v in e.state.obj.items():
            if b == ("this",) and v[0] == "strm":
                for k, p in zip(("image", "label"), ps):
                    if v[1] == origin_of(p):
                        owner[k] = o
    need(len(owner) == 2 or None, "image and label streams of the MNIST reader")
    size = getter(ck, m, E + "Mnist", "size")[0][0]

    def mn(i):
        r = urem(i, size)
        im_, lb = ("obj", this_off(owner["image"])), ("obj", this_off(owner["label"]))
        return [num(P(("fbyte", im_, P(16 + k) + r * 784))) for k in range(784)] + [num(P(("fbyte", lb, P(8) + r)))]
    entry_rule(ck, m, E + "Mnist", None, mn, "MNIST entry is the image followed by its label", "")
    shape_rules(ck, m, E + "Mnist", None, (28, 28), 785)
    g = need(m.one(E + "Mnist", "entries_amount", 0), "Mnist::entries_amount")
    single(ck, "entries are the records", g, run(ck, g), size, "mnist.entries_amount")
    fc, cfgs = config_states(ck, m)
    bs = stream_fields(m, E + "Cifar")
    if len(bs) != 1:
        ck.ob("record access", fc.where(), None, "batch stream not identified", "cifar")
        return CONS
    so = ("obj", this_off(bs[0][1]))
    perm = perm_rcc()
    for dv, ov, fine, cs, cai in cfgs:
        L = 2 if (dv == 1 and fine) else 1
        conf = "[CIFAR-%s%s, %s]" % ("100" if dv else "10", "" if fine or not dv else " without fine names", "row-col-chn" if ov else "chn-row-col")
        init = scalar(cs)

        def ci(i):
            r = urem(i, P(10000)) * (3072 + L)
            o = perm if ov else range(3072)
            return [num(P(("fbyte", so, r + L + k))) for k in o] + [num(P(("fbyte", so, r + (L - 1))))]
        entry_rule(ck, m, E + "Cifar", init, ci, "CIFAR entry is the image in the requested order followed by its label", conf)
        shape_rules(ck, m, E + "Cifar", init, (32, 32, 3) if ov else (3, 32, 32), 3073, conf)
    g = need(m.one(E + "Cifar", "entries_amount", 0), "Cifar::entries_amount")
    gs = getter(ck, m, E + "Cifar", "size")[0][0]
    single(ck, "entries are the records", g, run(ck, g), gs, "cifar.entries_amount")
    # the image object on its own
    icls = E + "CifarImage"
    vo = image_member(m, icls)
    oo = [o for n, o, ty, sz in m.types[icls]["members"] if ty.endswith("CifarShapeOrder")]
    if vo is not None and len(oo) == 1:
        src = ("vec", this_off(vo))
        for ov in (0, 1):
            perm2 = perm if ov else list(range(3072))
            entry_rule(ck, m, icls, {(("this",), oo[0], 4): P(ov)}, lambda i: [P(("ld", src, P(k), 1)) for k in perm2],
                       "an image is delivered in the requested order", " [%s]" % ("row-col-chn" if ov else "chn-row-col"),
                       objs={(("this",), vo): ("vecn", P(3072), ("img",))}, name="data", nparams=0)
    return CONS


# ------------------------------------------------------------------ C04
def no_fail_fact(facts, stream, read):
    """a fact saying that `stream` had not failed at some point after `read`"""
    for f in facts:
        g, pos = (f[1], False) if f[0] == "not" else (f, True)
        if g[0] != "i2b":
            continue
        at = g[1].atom()
        if not at or at[0] != "sp" or at[2] != stream or at[3][0] != "strm":
            continue
        if read.ins.i not in at[3][3]:
            continue
        if (at[1] == "fail" and not pos) or (at[1] == "good" and pos):
            return True
    return False


RECOVER = ("std::basic_ios::clear", "std::basic_ifstream::open", "std::basic_ifstream::close", "std::basic_ifstream::operator=",
           "std::basic_ifstream::swap")


def complete_fact(a, facts, stream, read):
    """a fact saying that `read`, or a later one on the same uncleared stream, delivered all its
    bytes (gcount compared with the request)"""
    for f in facts:
        g = f[1] if f[0] == "not" else f
        for x in walk(g):
            if len(x) > 2 and x[0] == "pure" and x[1] == "std::istream::gcount" and isinstance(x[2], tuple) and x[2] and \
                    x[2][0] == "strm" and x[2][4][0] == "read" and read.ins.i in x[2][3]:
                for e in reads_of(a):
                    if e.ins.i == x[2][4][1] and e.args[0] == stream:
                        n = a.as_poly(e.args[2])
                        if n.const() and any(fact_true([f], t) for t in (eq(P(x), n), neg(cmp("slt", P(x), n)), neg(cmp("ult", P(x), n)))):
                            return True
    return False


ORDER = {"none": 0, "checked": 1, "unchecked": 2, "lost": 3}


def read_state(a, e):
    """forward dataflow: what is known about one read at each normal exit.
    unchecked = it may have failed and nobody looked; lost = the failed state was
    reset before anybody looked."""
    stream = e.args[0]
    by = {}
    for x in a.events:
        if x.kind == "call" and x.args and x.args[0] == stream:
            if x.ins.i == e.ins.i:
                by.setdefault(x.b, {})[x.ins.j] = "read"
            elif x.callee in RECOVER:
                by.setdefault(x.b, {})[x.ins.j] = "reset"
            elif x.callee == "std::istream::read" and x.args[1] == e.args[1]:
                by.setdefault(x.b, {})[x.ins.j] = "again"
    st = {0: "none"}
    work = [0]
    exits = {}
    while work:
        b = work.pop()
        s = st[b]
        for j in sorted(by.get(b, {})):
            k = by[b][j]
            s = "unchecked" if k == "read" else "lost" if k == "reset" and s == "unchecked" else "none" if k == "again" and s == "lost" else s
        exits[b] = s
        for t in a.fn.succ[b]:
            o = a.out_state.get((b, t))
            if o is None:
                continue
            s2 = s
            if s == "unchecked" and (no_fail_fact(o.facts, stream, e) or complete_fact(a, o.facts, stream, e)):
                s2 = "checked"
            if t not in st or ORDER[s2] > ORDER[st[t]]:
                st[t] = s2
                work.append(t)
    return exits


def zerotest(a, x):
    """the number of bytes delivered is only ever compared with zero, which
    tells nothing about the rest of a longer request"""
    if any(e.args[2].const() in (None, 0, 1) if isinstance(e.args[2], Poly) else True for e in reads_of(a)):
        return False
    us = [i for b in a.fn.blocks for i in b if any(o == x.ins.i for o in i.d.get("o", ())) or any(y == x.ins.i for p in i.d.get("in", ()) for y in p)]
    return bool(us) and all(i.op == "icmp" and i.d["pred"] in ("eq", "ne") and ["c", 0, 64] in i.d["o"] for i in us)


def reads_checked(ck, name, g, a, needclear=True):
    rs = reads_of(a)
    if not rs:
        ck.ob("a short read is reported", g.where(), None, "no read recognised", name)
        return
    good = normal_blocks(a)
    counted = [x for x in a.events if x.kind == "call" and x.callee == "std::istream::gcount" and not zerotest(a, x)]
    for e in rs:
        if e.b not in good:
            continue
        ex = read_state(a, e)
        for r in a.rets():
            s = ex.get(r.b, "none")
            if s == "unchecked":
                ok = True if no_fail_fact(r.facts, e.args[0], e) else None if counted or loops_of(a.fn, e.b) else False
            else:
                ok = s != "lost"
            if not ok and excmask(a, e):
                ok = None
            ck.ob("a short read is reported", e.loc(), ok,
                  "" if ok else "%s can complete normally although the read of %s at this point failed" % (name, a.field(e.args[0])),
                  name + "@" + a.field(e.args[0]))
        if not needclear:
            continue
        rec = [x for x in a.events if x.kind == "call" and x.callee in RECOVER and x.args and x.args[0] == e.args[0]]
        pos = [x for x in rec if x.b in a.dom()[e.b] and (x.b != e.b or x.ins.j < e.ins.j)]
        # a failed stream does not move: the reset has to come before the positioning
        seeks = [x for x in a.events if x.kind == "call" and x.callee == "std::istream::seekg" and x.args and x.args[0] == e.args[0]
                 and x.b in a.dom()[e.b] and (x.b != e.b or x.ins.j < e.ins.j)]
        before = [x for x in rec if any(x.b in a.dom()[k.b] and (x.b != k.b or x.ins.j < k.ins.j) for k in seeks)]
        if not rec:
            okc = False
        elif seeks and not before and all(any(k.b in a.dom()[x.b] and (k.b != x.b or k.ins.j < x.ins.j) for k in seeks) for x in rec):
            okc = False
        elif seeks and not before:
            okc = None
        elif pos:
            okc = True
        else:
            okc = None
        ck.ob("an earlier failure does not poison later reads", e.loc(), okc,
              "" if okc else "%s reads %s without resetting the state an earlier short read leaves behind" % (name, a.field(e.args[0])),
              name + "@" + a.field(e.args[0]))


def excmask(a, e):
    return any(x.callee == "std::basic_ios::exceptions" for x in a.events if x.kind == "call")


def C04(ck):
    ck.rule("typestate of each input stream: at every normal exit a not-failed fact must hold for every read that reached it, and a "
            "state reset must dominate every positioned read")
    m = ir.view("parser")
    for cls in ("Mnist", "Cifar"):
        cfg = [None]
        if cls == "Cifar":
            cfg = [scalar(c[3]) for c in config_states(ck, m)[1]]
        for name in ("image", "label", "operator[]", "entry"):
            f = need(m.one(E + cls, name, 1), cls + "::" + name)
            for init in cfg:
                reads_checked(ck, "%s::%s" % (cls, name), f, run(ck, f, init=init))
    f = ctor(m, E + "Mnist")
    reads_checked(ck, "Mnist header", f, run(ck, f), needclear=False)
    return CONS


# ------------------------------------------------------------------ C05
def pixels(ai, t, vec):
    """element indices of the image vector a glyph term depends on"""
    out = []
    for x in walk(t):
        if x and x[0] == "ld" and x[1] == ("vec", vec):
            c = x[2].const()
            if c is None:
                raise Unknown("pixel index")
            out.append(c)
    return out


def palette_size(ai, base):
    """glyphs available in the table a glyph is loaded from"""
    if base[0] == "glob":
        b = ai.mod.string(base[1])
        return len(b.split(b"\0")[0]) if b is not None else None
    for e in ai.events:
        if e.kind == "memcpy" and e.args[0] == ("p", base, ZERO) and e.args[1][1][0] == "glob":
            b = ai.mod.string(e.args[1][1][1])
            if b is not None:
                return len(b[:ai.as_poly(e.args[2]).const()].split(b"\0")[0])
    return None


def glyph_cells(t):
    """(base, index) of the innermost table load a character comes from"""
    a = t.atom() if isinstance(t, Poly) else None
    if a and a[0] in ("sx8", "trunc"):
        return glyph_cells(a[-1])
    if a and a[0] == "ld" and a[3] == 1:
        return a[1], a[2]
    return None


def C05(ck):
    ck.rule("ordered character terms of the rendering; interval of every table index; sign and sum of the linear coefficients that "
            "map brightness to a glyph")
    m = ir.view("parser")
    for cls, side, planes in ((E + "MnistImage", 28, 1), (E + "CifarImage", 32, 3)):
        nm = cls.split("::")[-1]
        fs = m.method(cls, "operator basic_string")
        need(fs, nm + " text conversion")
        f = fs[0]
        a = run(ck, f)
        vec = this_off(image_member(m, cls))
        # conversions and table indices, wherever they occur
        for e in a.events:
            if e.kind == "fp2int":
                r = frange(a, e.args[0])
                lim = {"i8": (0, 256), "i16": (0, 65536), "i32": (-2 ** 31, 2 ** 32), "i64": (-2 ** 63, 2 ** 64)}.get(e.callee, None)
                if r is None or lim is None:
                    ok = None
                else:
                    ok = lim[0] - 1 < r[0] and r[1] < lim[1]
                ck.ob("brightness conversions stay in range", e.loc(), ok,
                      "" if ok else "value in [%s, %s] converted to %s" % (r[0] if r else "?", r[1] if r else "?", e.callee), nm)
            if e.kind == "load" and e.args[0][1] != ("vec", vec) and e.args[0][1][0] in ("glob", "alloca") and e.args[1].const() == 1 and \
                    e.args[0][2].const() is None:
                n = palette_size(a, e.args[0][1])
                r = irange(a, e.args[0][2])
                ok = None if n is None or r is None else (0 <= r[0] and r[1] < n)
                ck.ob("every glyph index is inside the palette", e.loc(), ok,
                      "" if ok else "index in [%s, %s] of a palette of %s glyphs" % (r[0] if r else "?", r[1] if r else "?", n), nm)
        # brightness -> glyph is non-decreasing, and uses each colour with a positive share
        for e in a.events:
            if e.kind != "fp2int":
                continue
            lf = flinear(e.args[0])
            if lf is None:
                ck.ob("glyphs are ordered by brightness", e.loc(), None, "not linear", nm)
                continue
            co = {k: v for k, v in lf.items() if k is not None}
            ld = [k for k in co if isinstance(k, Poly) and (k.atom() or ("",))[0] == "ld" and k.atom()[1] == ("vec", vec)]
            if ld and planes == 3:
                offs = sorted({(k.atom()[2] - subst(k.atom()[2], {})).const() or 0 for k in ld})
                base = min((k.atom()[2] for k in ld), key=lambda p: evalz(p))
                dist = sorted(evalz(k.atom()[2]) - evalz(base) for k in ld)
                s = sum(co.values())
                ok = dist == [0, 1024, 2048] and all(co[k] > 0 for k in ld) and (abs(s - 1.0) < 0.02 or e.callee != "i8")
                ck.ob("brightness combines the three colour planes of one pixel", e.loc(), ok,
                      "" if ok else "weights %s at plane offsets %s" % ([round(v, 4) for v in co.values()], dist), nm)
            ok = all(v > 0 for v in co.values()) and bool(co)
            ck.ob("glyphs are ordered by brightness", e.loc(), ok, "" if ok else "weights %s" % list(co.values()), nm)
        # layout
        rule = "the rendering shows every pixel once, row by row"
        try:
            t = text(a, ("p", ("arg", 0), ZERO))
            rows, cur = [], []
            for ch in t:
                if ch == P(10):
                    rows.append(cur)
                    cur = []
                else:
                    cur.append(ch)
            rows.append(cur)
            rows = [r for r in rows if r]
            ok, det = True, ""
            if len(rows) != side:
                ok, det = False, "%d lines for %d pixel rows" % (len(rows), side)
            for y, r in enumerate(rows):
                if not ok:
                    break
                seq = []
                for ch in r:
                    px = sorted(set(pixels(a, ch, vec)))
                    if not px:
                        raise Unknown("glyph without a pixel")
                    if not seq or seq[-1] != px:
                        seq.append(px)
                want = [[side * y + x + side * side * p for p in range(planes)] for x in range(side)]
                if seq != want:
                    ok = False
                    k = next((i for i in range(min(len(seq), len(want))) if seq[i] != want[i]), 0)
                    det = "line %d shows pixels %s where %s belong" % (y, seq[k] if k < len(seq) else "-", want[k])
            ck.ob(rule, f.where(), ok, det, nm)
        except Unknown as x:
            ck.ob(rule, f.where(), None, "text not determined: %s" % x, nm)
    # labels render as their decimal value
    return CONS


def evalz(p):
    """value of a polynomial with every unknown at zero"""
    for mono, k in p.monos():
        if not mono:
            return k
    return 0
