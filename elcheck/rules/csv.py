"""Type inference, CSV rows, fields, iterators and conversions."""
from .. import ir
from ..lang import Lang, Unsupported, explore, ALL, char_at
from ..terms import *
from .util import *

E = "EdgeLearning::"
CONS = ["clang 18 front end and the LLVM passes used for normalisation are faithful to the C++ semantics",
        "library functions behave as their documented summaries (streams, getline, vectors, strings, regular expressions)"]

# ------------------------------------------------------------------ C06
BOOL = r"true|false"
INT = r"[-+]?(0|[1-9][0-9]*)"
FLOAT = r"[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?"


def spec_langs():
    return [Lang(literal=b""), Lang(BOOL), Lang(INT), Lang(FLOAT)]


def spec_type(v, T):
    return T["NONE"] if v[0] else T["BOOL"] if v[1] else T["INT"] if v[2] else T["FLOAT"] if v[3] else T["STRING"]


_pats = {}


def regex_patterns(m):
    """pattern text of every namespace-scope regular expression"""
    if m.vname + str(id(m)) in _pats:
        return _pats[m.vname + str(id(m))]
    out = {}
    for k, f in m.fns.items():
        if k.startswith("__cxx_global_var_init"):
            ai = run(None, f)
            for e in ai.calls("std::basic_regex::basic_regex"):
                out[e.args[0]] = pattern_of(m, e)
    _pats[m.vname + str(id(m))] = out
    return out


def pattern_of(m, e):
    ps = ir_params(e)
    if len(e.args) != 3 or not ps[0].startswith("char const*"):
        return None
    p, fl = e.args[1], e.args[2]
    flags = P(fl).const() if isinstance(fl, Poly) else None
    if flags is None or flags & ~(1 | 16 | 32 | 2 | 4 | 8) or not isinstance(p, tuple) or p[1][0] != "glob":
        return None
    b = m.string(p[1][1])
    return None if b is None else (b.split(b"\0")[0].decode("latin1"), bool(flags & 1))


def regex_lang(m, ai, ptr, search=False):
    own = [e for e in ai.calls("std::basic_regex::basic_regex") if e.args[0] == ptr]
    pat = None
    if len(own) == 1:
        pat = pattern_of(m, own[0])
    elif not own:
        pat = regex_patterns(m).get(ptr)
    if pat is None:
        raise Unknown("pattern of " + show(ptr))
    try:
        return Lang(pat[0], icase=pat[1], search=search)
    except (Unsupported, ValueError, IndexError, KeyError) as x:
        raise Unknown("pattern %r: %s" % (pat, x))


def string_tests(m, ai):
    """[(truth term, subject value, language)] of every test applied to text"""
    out = []
    for e in ai.events:
        if e.kind != "call" or e.res is None:
            continue
        if e.callee in ("std::regex_match", "std::regex_search") and len(e.args) == 3:
            if P(e.args[2]).const() != 0:
                raise Unknown("match flags")
            ps = ir_params(e)
            if not ps[0].startswith("std::"):
                raise Unknown("regex_match over " + ps[0])
            out.append((e.res, ai.oget(e.state, e.args[0]), regex_lang(m, ai, e.args[1], e.callee.endswith("search")), e))
        elif e.callee == "std::basic_string::empty":
            out.append((e.res, ai.oget(e.state, e.args[0]), Lang(literal=b""), e))
        elif e.callee == "std::operator==" and isinstance(e.args[1], tuple) and e.args[1][:1] == ("p",) and e.args[1][1][0] == "glob":
            b = m.string(e.args[1][1][1])
            if b is not None:
                out.append((e.res, ai.oget(e.state, e.args[0]), Lang(literal=b.split(b"\0")[0]), e))
    return out


class Need(Exception):
    pass


PEEKS = ("size", "length", "empty", "operator[]", "at", "front", "back", "find", "find_first_of", "find_first_not_of", "compare", "c_str",
         "data", "begin", "end")


def char_pos(ai, a, subject):
    """position of the character of the subject that a one-byte load denotes"""
    while a is not None and a[0] in ("sx8", "zx8", "sext", "zext", "trunc") and isinstance(a[-1], Poly):
        a = a[-1].atom()
    if not a or a[0] != "ld" or a[3] != 1 or P(a[2]).const() is None:
        return None
    src = a[1]
    for e in ai.events:
        if e.kind == "call" and e.callee.startswith("std::basic_string::") and isinstance(e.res, tuple) and \
                (e.res[1] if e.res[0] == "p" else e.res) == src and ai.oget(e.state, e.args[0]) == subject:
            n = e.callee.split("::")[-1]
            k = P(a[2]).const()
            if n in ("front", "begin", "data", "c_str"):
                return k
            if n == "back":
                return -1 if k == 0 else None
            if n in ("operator[]", "at"):
                i = P(e.args[1]).const()
                return None if i is None or k else i
    return None


def term_lang(ai, t, subject):
    """the texts for which a comparison of the subject's length, or of one of
    its characters, holds"""
    if t[0] not in ("eq", "ne", "ult", "ule", "slt", "sle"):
        return None
    atoms = {a for x in t[1:] if isinstance(x, Poly) for a in x.atoms()}
    if len(atoms) != 1:
        return None
    a = atoms.pop()
    if a in (("size", subject), ("pure", "std::basic_string::size", subject), ("pure", "std::basic_string::length", subject)):
        top = 1 + max(abs(k) for x in t[1:] for _, k in x.c)
        if top > 200:
            return None
        try:
            good = [n for n in range(top + 1) if evalb(t, {a: n})]
        except NotConst:
            return None
        alt = [("rep", ("set", ALL), n, n) for n in good if n < top]
        if top in good:
            alt.append(("rep", ("set", ALL), top, None))
        return Lang(ast=("alt", alt)) if alt else Lang(ast=("set", frozenset()))
    k = char_pos(ai, a, subject)
    if k is None:
        return None
    try:
        cs = [c for c in range(256) if evalb(t, {a: c - 256 if c > 127 and a[0] in ("sx8", "sext") else c})]
    except NotConst:
        return None
    return char_at(k, cs)


def table(m, ai, subject, spec, start, stop, value, T, expect):
    """compare the outcome the code selects with `expect` for every reachable
    combination of memberships: (True/False/None, detail, combinations, states)"""
    tests = [t[:3] for t in string_tests(m, ai) if t[1] == subject]
    while True:
        try:
            return table1(m, ai, subject, spec, start, stop, value, T, expect, tests)
        except Need as x:
            if len(tests) > 24:
                raise Unknown("too many tests")
            tests.append((x.args[0], subject, x.args[1]))


def table1(m, ai, subject, spec, start, stop, value, T, expect, tests):
    langs = spec + [t[2] for t in tests]
    try:
        combos, n = explore(langs)
    except Unsupported as x:
        raise Unknown(str(x))
    bad = None
    for vec, wit in sorted(combos.items(), key=lambda kv: (len(kv[1]), kv[1])):
        want = expect(vec)
        truth = {}
        for (res, _, _), bit in zip(tests, vec[len(spec):]):
            truth[res] = bit
            if neg(res) != res:
                truth[neg(res)] = not bit

        def atom(t):
            if t in truth:
                return truth[t]
            if t[0] == "eq" and isinstance(t[1], Poly):
                for s in (1, -1):
                    if P(("size", subject)) * s == t[1] or P(("pure", "std::basic_string::size", subject)) * s == t[1]:
                        return vec[0]
            lang = term_lang(ai, t, subject)
            if lang is not None:
                raise Need(t, lang)
            return None
        b, env = follow(ai, atom, start=start, stop=stop)
        got = value(b, env, atom)
        if got is None:
            raise Unknown("outcome at block %d" % b)
        if got != want:
            inv = {v: k for k, v in T.items()}
            bad = "text %r is classified %s, expected %s" % (wit, inv.get(got, got), inv.get(want, want))
            break
    return (bad is None), bad or "", len(combos), n


def enum(m, name):
    return dict(m.types[name]["enum"])


def ret_value(ai):
    def value(b, env, atom):
        T = ai.fn.blocks[b][-1]
        if T.op != "ret":
            return "no result"
        t = ai.val(T.d["o"][0])
        if isinstance(t, Poly):
            p = simp_sel(psubst(t, env), atom)
            c = p.const()
            return c
        return evalc(psubst(t, env), atom)
    return value


def sgn32(c):
    return c - (1 << 32) if c is not None and c >= 1 << 31 else c


def classify_sites(m, ai, ty_members=None):
    """(subject, sink event, start block) for values selected by text tests"""
    out = []
    tests = string_tests(m, ai)
    subj = []
    for t in tests:
        if t[1] not in subj:
            subj.append(t[1])
    for s in subj:
        mine = [t for t in tests if t[1] == s]
        key = lambda e: (lorder(ai).get(e.b, 1 << 30), e.ins.j)
        first = min((t[3] for t in mine), key=key)
        inner = [L["header"] for L in loops_of(ai.fn, first.b)]
        for e in ai.events:
            if e.kind == "call" and e.callee.startswith("std::basic_string::") and e.callee.split("::")[-1] in PEEKS and e.args and \
                    key(e) < key(first) and [L["header"] for L in loops_of(ai.fn, e.b)] == inner and ai.oget(e.state, e.args[0]) == s:
                first = e
        out.append((s, first))
    return out


def C06(ck):
    ck.rule("decision table of the classifier: for every reachable combination of memberships in the regular languages it tests, "
            "the path its branches select must deliver the type the grammar assigns")
    m = ir.view("parser")
    T = enum(m, E + "TypeChecker::Type")
    spec = spec_langs()
    spec_exp = lambda v: spec_type(v, T)
    states = 0

    def decide(f, ai, subject, start, stop, value, expect, what, construct):
        nonlocal states
        try:
            ok, det, nc, ns = table(m, ai, subject, spec, start, stop, value, T, expect)
            states += ns
        except Unknown as x:
            ok, det = None, str(x)
        ck.ob(what, f.where(), ok, det, construct)

    string_arg = lambda f: [i for i, t in enumerate(f.arg_ditypes()) if t and "basic_string" in t and not t.startswith("std::vector") and
                            not t.startswith("const std::vector")]

    # single strings: value returned
    for cls, name in (("TypeChecker", "parse"), ("TypeChecker", "operator()")):
        for f in m.method(E + cls, name):
            sa = string_arg(f)
            if len(sa) != 1 or len(f.arg_ditypes()) - (name == "operator()") != 1 or "<" in f.q.split("::")[-1]:
                continue
            ai = run(ck, f)
            subject = ("obj", ("p", ("arg", sa[0]), ZERO))
            rv = ret_value(ai)
            decide(f, ai, subject, 0, None, lambda b, e, a, rv=rv: sgn32(rv(b, e, a)) if not isinstance(rv(b, e, a), (str, bool)) else rv(b, e, a),
                   spec_exp, "text is classified by the grammar", f.q)
    for name, t in (("is_float", "FLOAT"), ("is_bool", "BOOL"), ("is_int", "INT"), ("is_string", "STRING")):
        for f in m.method(E + "TypeChecker", name):
            ai = run(ck, f)
            sa = string_arg(f)
            if len(sa) != 1:
                continue
            subject = ("obj", ("p", ("arg", sa[0]), ZERO))
            rv = ret_value(ai)
            decide(f, ai, subject, 0, None, lambda b, e, a, rv=rv: (None if rv(b, e, a) is None else bool(rv(b, e, a))),
                   lambda v, t=t: spec_type(v, T) == T[t], "the predicate agrees with the classification", f.q)
    # lists of strings: element k of the result classifies element k
    for cls, name in (("TypeChecker", "parse"), ("TypeChecker", "operator()")):
        for f in m.method(E + cls, name):
            at = f.arg_ditypes()
            va = [i for i, t in enumerate(at) if t and t.startswith("const std::vector<std::__cxx11::basic_string")]
            if len(va) != 1:
                continue
            ai = run(ck, f)
            src = ("p", ("arg", va[0]), ZERO)
            elementwise(ck, m, f, ai, src, T, decide, spec_exp)
    # columns inferred from a line
    for f in m.method(E + "CSVRow", "CSVRow") + m.method(E + "CSV", "CSV"):
        at = f.arg_ditypes()
        if len(at) < 4:
            continue
        ai = run(ck, f)
        for e in ai.calls("std::vector::push_back"):
            if "TypeChecker::Type" not in e.full or not loops_of(f, e.b):
                continue
            h = loops_of(f, e.b)[-1]["header"]
            ptr = e.args[1]
            cell = ai.load(e.state, ptr, 4, "i32", None) if isinstance(ptr, tuple) else None
            for s, first in classify_sites(m, ai):
                if not loops_of(f, first.b) or loops_of(f, first.b)[-1]["header"] != h:
                    continue
                what = "column types are inferred from the fields of the line"
                if s[0] == "fline":
                    line = line_of(ai, s[1])
                    n = nl_index(s)
                    iv = ("iv", h)
                    ok = None if n is None else n == P(iv)
                    ck.ob("column k takes the type of field k", e.loc(), ok,
                          "" if ok else "pass %s of the loop reads field %s" % (show(P(iv)), show(n) if n is not None else "?"),
                          "%s@%s" % (f.q, len(at)))
                    check_sep(ck, m, f, ai, s, e)
                if isinstance(cell, Poly):
                    decide(f, ai, s, first.b, lambda b, env, x=e.b: b == x,
                           lambda b, env, a, cell=cell: sgn32(simp_sel(psubst(cell, env), a).const()), spec_exp, what, "%s@%d" % (f.q, len(at)))
    # a field declared AUTO takes the inferred type, any other keeps its own
    f = need([x for x in m.method(E + "CSVField", "CSVField") if len(x.arg_ditypes()) == 4], "CSVField constructor")[0]
    ta = [i for i, t in enumerate(f.arg_ditypes()) if t and "TypeChecker::Type" in t]
    sa = string_arg(f)
    if len(ta) == 1 and len(sa) == 1:
        base = ("arg", ta[0])
        for nm, v in sorted(T.items()):
            ai = run(ck, f, init={(base, 0, 4): P(v)})
            subject = ("obj", ("p", ("arg", sa[0]), ZERO))

            def value(b, env, atom, ai=ai):
                r = [x for x in ai.rets() if x.b == b]
                if not r:
                    return None
                t = ai.load(r[0].state, ("p", base, ZERO), 4, "i32", None)
                return sgn32(simp_sel(psubst(t, env), atom).const())
            decide(f, ai, subject, 0, None, value, (spec_exp if nm == "AUTO" else (lambda vec, v=v: v)),
                   "a field keeps its declared type and infers it when undeclared", nm)
    ck.note("joint automaton states explored: %d" % states)
    return CONS


def line_of(ai, origin):
    return origin[1] if isinstance(origin, tuple) and origin[0] == "text" else None


def nl_index(s):
    """the field number of a ("fline", origin, pos, delim) value counted from the start of the text"""
    pos = P(s[2])
    if pos.const() == 0:
        return ZERO
    a = pos.atom()
    if a and a[0] == "nl" and a[1] == s[1] and a[3] == s[3] and P(a[2]).const() == 0:
        return P(a[4])
    return None


def check_sep(ck, m, f, ai, s, e):
    at = f.arg_ditypes()
    seps = [i for i, t in enumerate(at) if t == "char"]
    if len(seps) == 1 and s[3] is not None:
        d = P(s[3])
        ok = d == P(("arg", seps[0]))
        if not ok and unknown_atoms(d):
            ok = None
        ck.ob("fields are split at the separator", e.loc(), ok, "" if ok else "split at %s" % show(d), "%s@%d" % (f.q, len(at)))


def elementwise(ck, m, f, ai, src, T, decide, expect):
    sret = ("p", ("arg", 0), ZERO)
    sinks = [e for e in ai.events if e.kind == "store" and isinstance(e.args[0], tuple) and e.args[0][1] == ("vec", sret)]
    pushes = [e for e in ai.calls("std::vector::push_back", "std::vector::emplace_back") if e.args[0] == sret]
    for e in sinks + pushes:
        if e.kind == "store":
            cell, idx = e.args[1], e.args[0][2]
        else:
            p = e.args[1]
            cell = ai.load(e.state, p, 4, "i32", None) if isinstance(p, tuple) and p[0] == "p" else p
            idx = None
        for s, first in classify_sites(m, ai):
            if s[0] != "obj" or s[1][0] != "p" or s[1][1] != ("vec", src):
                continue
            L = loops_of(f, e.b)
            if idx is not None:
                ok = P(s[1][2]) == P(idx) * 8
                if not ok and (unknown_atoms(idx) or unknown_atoms(P(s[1][2]))):
                    ok = None
                ck.ob("element k of the result classifies element k", e.loc(), ok,
                      "" if ok else "element at byte %s classifies the text at byte %s" % (show(idx), show(s[1][2])), f.q)
            decide(f, ai, s, first.b, lambda b, env, x=e.b: b == x,
                   lambda b, env, a, cell=cell: sgn32(simp_sel(psubst(P(cell), env), a).const()), expect,
                   "text is classified by the grammar", f.q)
            if L:
                h = L[-1]["header"]
                n = P(("size", ("obj", src)))
                good = None
                for r in ai.rets():
                    if cmp("ule", n, P(("iv", h))) in r.facts:
                        good = True
                    else:
                        for fct in r.facts:
                            if fct[0] in ("ule", "ult") and contains(fct, lambda z: z == ("iv", h)) and not unknown_atoms(fct):
                                good = False if good is None else good
                ck.ob("every element is classified", f.where(), good, "" if good else "the loop does not run to the number of elements", f.q)


# ------------------------------------------------------------------ C07
STR = "basic_string<"
NUM = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double"}


def elem_type(t):
    """type a conversion delivers: number, bool, string or None"""
    t = (t or "").replace("const", "").replace("&", "").strip()
    if t in NUM or t == "bool":
        return t
    if t.startswith("std::") and STR in t and not t.startswith(("std::vector", "std::map")):
        return "string"
    return None


SIZES = {"int": 4, "unsigned int": 4, "float": 4, "bool": 1, "double": 8, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8}


def bool_atoms(m, ai, s):
    """truth of the tests of a boolean text for the two texts that mean true"""
    tests = [t for t in string_tests(m, ai) if t[1] == s]
    langs = [Lang(r"true|1")] + [t[2] for t in tests]
    combos, n = explore(langs)
    return tests, combos


def conv_value(ck, m, ai, f, ty, s, place, rule, construct):
    """the value delivered is the conversion of the text s"""
    for e in ai.rets():
        if place[0] == "ref":
            v = ai.oget(e.state, place[1]) if ty == "string" else \
                ai.load(e.state, place[1], SIZES[ty], {"float": "f32", "double": "f64"}.get(ty, "i%d" % (8 * SIZES[ty])), None)
        else:
            v = e.args[0] if e.args else None
        ok, why = conv_eq(m, ai, ty, s, v, e)
        ck.ob(rule, e.loc(), ok, why, construct)


def conv_eq(m, ai, ty, s, v, e=None, span=None):
    if ty == "string":
        ok = v == s
        if not ok and unknown_atoms(v):
            ok = None
        return ok, "" if ok else "delivers %s instead of %s" % (show(v), show(s))
    if ty == "bool":
        try:
            tests, combos = bool_atoms(m, ai, s)
            for vec, wit in sorted(combos.items(), key=lambda kv: (len(kv[1]), kv[1])):
                truth = {}
                for (res, _, _, _), bit in zip(tests, vec[1:]):
                    truth[res] = bit
                    truth[neg(res)] = not bit
                if span:
                    b, env = follow(ai, lambda t: truth.get(t), start=span[0], stop=lambda b, env: b == span[1])
                    if b != span[1]:
                        raise Unknown("the write is not reached")
                else:
                    b, env = follow(ai, lambda t: truth.get(t))
                x = psubst(v, env)
                if isinstance(x, Poly):
                    g = simp_sel(x, lambda t: truth.get(t)).const()
                    if g is None:
                        return None, "value " + show(x)
                    g = bool(g & 1)
                else:
                    g = evalc(x, lambda t: truth.get(t))
                if g != vec[0]:
                    return False, "text %r converts to %s" % (wit, g)
            return True, ""
        except (Unknown, Unsupported) as x:
            return None, str(x)
    want = ("parsed", ty, ("text", s), ZERO)
    got = v.atom() if isinstance(v, Poly) else v
    if got == want:
        return True, ""
    if v is None or unknown_atoms(v) or (isinstance(got, tuple) and got[:1] in (("ld",),) and got[1][0] != "alloca"):
        return None, "value " + show(v)
    return False, "delivers %s, not the number the text denotes" % show(v)


def stream_state(op, fail, rest):
    """(fail, eof, what is left) after the operations that followed the extraction"""
    if op[0] == "extract":
        return fail, rest == "", rest
    if op[0] not in ("get", "peek", "ws", "chr"):
        raise Unknown("stream operation " + str(op[0]))
    fl, eof, left = stream_state(op[2], fail, rest)
    if fl:
        return fl, eof, left
    if eof:
        # nothing can be extracted any more; looking is not an extraction
        if op[0] == "ws":
            raise Unknown("ws at the end of the text")
        return True, eof, left
    if op[0] == "peek":
        return fl, not left, left
    if op[0] == "ws":
        left = left.lstrip(" ")
        return fl, not left, left
    if op[0] == "chr":
        left = left.lstrip(" ")
    if not left:
        return True, True, left
    return fl, eof, left[1:]


def conv_status(ck, m, ai, f, ty, s, rule, construct):
    """the returned flag: the text was a complete representation"""
    e0 = ai.rets()
    want_true = ty in ("string", "bool")
    for e in e0:
        v = e.args[0] if e.args else None
        if want_true:
            ok = True if v in (TRUE, ONE) else (False if v in (FALSE, ZERO) else None)
            ck.ob(rule, e.loc(), ok, "" if ok else "reports " + show(v), construct)
            continue
        bad, ok = "", True
        try:
            # classes of the text after the number: nothing, other characters, blanks
            for fail, rest in ((False, ""), (False, "x"), (False, "xx"), (False, " "), (False, " x"), (False, "  "), (True, ""), (True, "x")):
                def state(v):
                    if v[1] != ("text", s):
                        raise Unknown("state of another stream")
                    return stream_state(v[4], fail, rest)

                def atom(t):
                    if t[0] == "i2b" and isinstance(t[1], Poly) and t[1].atom() and t[1].atom()[0] == "sp":
                        x = t[1].atom()
                        fl, eof, _ = state(x[3])
                        k = x[1]
                        if k in ("fail", "eof"):
                            return fl if k == "fail" else eof
                        if k == "good":
                            return not fl and not eof
                        raise Unknown("stream predicate " + k)
                    if t[0] == "eq" and len(t) == 2 and isinstance(t[1], Poly):
                        m = [x for x in walk(t) if x and x[0] == "chr"]
                        if len(m) == 1:
                            c = dict(t[1].c).get((), 0)
                            k = (t[1] - c)
                            if k == P(m[0]) or k == P(m[0]) * -1:
                                c = -c if k == P(m[0]) else c
                                fl, eof, left = state(m[0][1])
                                ch = -1 if fl or eof or not left else ord(left[0])
                                if ch == ord("x") and c not in (-1, 32):
                                    raise Unknown("character test")
                                return ch == c
                    return None
                b, env = follow(ai, atom)
                x = psubst(ai.val(ai.fn.blocks[b][-1].d["o"][0]), env)
                g = bool(simp_sel(x, atom).const()) if isinstance(x, Poly) else evalc(x, atom)
                if g != (not fail and rest == ""):
                    ok = False
                    bad = "reports %s when extraction %s and %s" % (g, "fails" if fail else "succeeds", "%r follows" % rest if rest else "the text is used up")
        except (Unknown, AttributeError) as x:
            ok, bad = None, str(x)
        ck.ob(rule, e.loc(), ok, bad, construct)


def C07(ck):
    ck.rule("the value and the status a conversion delivers are derived symbolically from the text; no result cell may be read or "
            "handed to an extraction before it is written, and every constructor leaves no scalar member unwritten")
    m = ir.view("parser")
    ck.part(c07_conversions, m)
    ck.part(c07_totext, m)
    ck.part(c07_indeterminate, m)
    ck.part(c07_ctors, m)
    return CONS


def c07_conversions(ck, m):
    n = 0
    for cls, name in (("TypeChecker", "parse"), ("TypeChecker", "operator()")):
        for f in m.method(E + cls, name):
            at = f.arg_ditypes()
            if len(at) < 2 or not at[-1].endswith("&") or at[-1].startswith("const"):
                continue
            ty = elem_type(at[-1])
            if ty is None or elem_type(at[-2]) != "string":
                continue
            ai = run(ck, f)
            s = ("obj", ("p", ("arg", len(at) - 2), ZERO))
            conv_value(ck, m, ai, f, ty, s, ("ref", ("p", ("arg", len(at) - 1), ZERO)), "a text converts to the value it denotes", "%s<%s>" % (name, ty))
            conv_status(ck, m, ai, f, ty, s, "success means the whole text was used", "%s<%s>" % (name, ty))
            n += 1
    # fields
    fm = m.types[E + "CSVField"]["members"]
    so = [o for nme, o, t, sz in fm if elem_type(t) == "string"]
    if len(so) == 1:
        s = ("obj", ("p", ("this",), P(so[0])))
        for f in m.method(E + "CSVField", "as"):
            at = f.arg_ditypes()
            if at[-1].endswith("&") and not at[0].endswith("&"):
                ty = elem_type(at[-1])
                place = ("ref", ("p", ("arg", len(at) - 1), ZERO))
            elif at[0].endswith("&"):
                ty = elem_type(at[0])
                place = ("ref", ("p", ("arg", 0), ZERO))
            else:
                ty = elem_type(f.d["ditypes"][0])
                place = ("ret",)
            if ty is None:
                continue
            ai = run(ck, f)
            conv_value(ck, m, ai, f, ty, s, place, "a field converts to the value its text denotes", "CSVField::as<%s>/%d" % (ty, len(at)))
            n += 1
    need([1] * n, "conversions")


def c07_totext(ck, m):
    for f in m.method(E + "TypeChecker", "operator()"):
        at = f.arg_ditypes()
        if len(at) != 3 or elem_type(at[0]) != "string" or not at[0].endswith("&") or at[1].endswith("&"):
            continue
        ty = elem_type(at[2])
        if ty is None or ty == "string":
            continue
        ai = run(ck, f)
        text_of(ck, m, ai, f, ty, ("p", ("arg", 0), ZERO), ("argb", 2) if ty == "bool" else P(("arg", 2)) if ty not in ("float", "double") else ("farg", 2), "operator()<%s>" % ty)


def text_of(ck, m, ai, f, ty, sret, v, construct):
    rule = "a value is written as the text that denotes it"
    for e in ai.rets():
        if ty != "bool":
            cs = [x for x in ai.calls("std::to_string") if x.args[0] == sret]
            if len(cs) != 1:
                ck.ob(rule, e.loc(), None, "%d text conversions" % len(cs), construct)
                continue
            g = cs[0].args[1]
            ok = g == v or show(g) == show(v)
            if not ok and unknown_atoms(g):
                ok = None
            ck.ob(rule, cs[0].loc(), ok, "" if ok else "writes %s" % show(g), construct)
        else:
            try:
                for bit, want in ((True, b"true"), (False, b"false")):
                    def atom(t):
                        if t == v:
                            return bit
                        if neg(t) == v:
                            return not bit
                        return None
                    got = None
                    for x in ai.calls("std::basic_string::basic_string"):
                        if x.args[0] != sret or len(x.args) < 2:
                            continue
                        b, env = follow(ai, atom)
                        p = psubst(x.args[1], env)
                        if isinstance(p, tuple) and p[:1] == ("p",) and p[1][0] == "sel":
                            p = p[1]
                        if isinstance(p, tuple) and p[:1] == ("p",) and p[1][0] == "glob":
                            got = m.string(p[1][1])
                        elif isinstance(p, tuple) and p[:1] == ("sel",):
                            q = p[2] if evalc(p[1], atom) else p[3]
                            got = m.string(q[1][1])
                    got = got.split(b"\0")[0] if got else None
                    ck.ob(rule, f.where(), None if got is None else got == want, "" if got == want else "%s is written %r" % (bit, got), construct)
            except (Unknown, TypeError, IndexError) as x:
                ck.ob(rule, f.where(), None, str(x), construct)


SCALARP = ("bool", "char", "signed char", "unsigned char", "short", "unsigned short") + tuple(NUM)


def maybe_unwritten(ai, v, base, seen=None):
    """does the joined value include the state before any write to the variable"""
    seen = set() if seen is None else seen
    for x in walk(v):
        if x and x[0] == "ld" and x[1] == base and len(x) == 4:
            return True
        if x and x in ai.phiinc and x not in seen:
            seen.add(x)
            if any(maybe_unwritten(ai, w, base, seen) for _, w in ai.phiinc[x]):
                return True
    return False


def c07_indeterminate(ck, m, scope=("CSV", "CSVRow", "CSVField", "CSVIterator", "TypeChecker", "JsonLeaf", "JsonItem", "JsonList", "JsonDict", "Parser")):
    rule = "no indeterminate value is delivered"
    nx = 0
    for k, f in sorted(m.fns.items()):
        if not any(f.q.startswith(E + c + "::") for c in scope) and f.q.split("::")[-1].split("<")[0] not in ("convert", "convert_json_object"):
            continue
        try:
            ai = run(ck, f)
        except Exception:
            ck.ob(rule, f.where(), None, "not analysed", f.q)
            continue
        bad = None
        for e in ai.events:
            if e.kind == "call" and e.callee in ("std::istream::operator>>", "std::operator>>") and len(e.args) > 1:
                p = e.args[1]
                ps = ir_params(e)
                ty = ps[-1].replace("&", "").strip() if ps else ""
                if isinstance(p, tuple) and p[:1] == ("p",) and p[1][0] == "alloca" and ty in SIZES:
                    nx += 1
                    c = p[2].const()
                    cell = [v for kk, v in e.state.mem.items() if kk[0] == p[1] and kk[1] <= c < kk[1] + kk[2]] if c is not None else [ZERO]
                    if (not cell or all(maybe_unwritten(ai, v, p[1]) for v in cell)) and \
                            not any(x.kind in ("memset", "memcpy") and x.args[0][1] == p[1] for x in ai.events):
                        # an extraction that fails before it starts leaves the cell alone
                        bad = (e, "extraction into a variable that may stay unwritten")
            ts = []
            if e.kind == "store":
                ts = [e.args[1]]
            elif e.kind == "ret":
                ts = [a for a in e.args if a is not None]
            for t in ts:
                for x in walk(t) if not isinstance(t, str) else ():
                    if x and (x[0] == "undef" or (x[0] == "ld" and x[1][0] == "alloca" and len(x) == 4 and x[2].const() is not None
                                                  and not any(y.kind in ("memset", "memcpy") and y.args[0][1] == x[1] for y in ai.events))):
                        bad = (e, "delivers a variable that was never written")
        ck.ob(rule, bad[0].loc() if bad else f.where(), bad is None, bad[1] if bad else "", f.q)
    ck.note("extractions into local variables: %d" % nx)


def c07_ctors(ck, m, classes=("CSV", "CSVRow", "CSVField", "CSVIterator", "JsonLeaf", "JsonObject", "JsonItem", "JsonList", "JsonDict", "Json")):
    rule = "constructors write every scalar member"
    for c in classes:
        t = m.types.get(E + c)
        if not t:
            continue
        for f in m.method(E + c, c):
            ai = run(ck, f)
            miss = None
            for nme, off, ty, size in t["members"]:
                base = ty.replace("const ", "").strip()
                scalar = base in SCALARP or base.endswith(("*", "&")) or bool(m.types.get(base, {}).get("enum"))
                if not scalar:
                    continue
                for e in ai.rets():
                    hit = any(k[0] == ("this",) and k[1] <= off < k[1] + k[2] for k in e.state.mem)
                    ver = any(k[0] == ("this",) and v for k, v in e.state.ver.items())
                    if not hit and not ver:
                        miss = (e, nme)
            ck.ob(rule, miss[0].loc() if miss else f.where(), miss is None, "member %s keeps an indeterminate value" % miss[1] if miss else "",
                  f.q + "/%d" % len(f.arg_ditypes()))
# ------------------------------------------------------------------ C08
class Lay(object):
    """member offsets found by type and by getter, not by name"""

    def __init__(self, ck, m):
        mem = lambda c: m.types[E + c]["members"]
        by = lambda c, p: [o for n, o, t, s in mem(c) if p(t)]
        one = lambda l, w: need(l if len(l) == 1 else None, w)[0]
        isstr = lambda t: elem_type(t) == "string"
        self.r_line = one(by("CSVRow", isstr), "line of CSVRow")
        self.r_sep = one(by("CSVRow", lambda t: t == "char"), "separator of CSVRow")
        self.r_idx = need(getter_off(ck, m, E + "CSVRow", "idx"), "CSVRow::idx")
        self.r_cols = need(getter_off(ck, m, E + "CSVRow", "size"), "CSVRow::size")
        self.r_types = one(by("CSVRow", lambda t: t.startswith("std::vector<") and t.endswith("&")), "types of CSVRow")
        self.f_text = one(by("CSVField", isstr), "text of CSVField")
        self.f_type = one(by("CSVField", lambda t: t.endswith("&") and "Type" in t), "type of CSVField")
        self.f_idx = need(getter_off(ck, m, E + "CSVField", "idx"), "CSVField::idx")
        self.c_fn = one(by("CSV", isstr), "path of CSV")
        self.c_types = one(by("CSV", lambda t: t.startswith("std::vector<")), "types of CSV")
        self.c_sep = one(by("CSV", lambda t: t == "char"), "separator of CSV")
        self.c_cols = need(getter_off(ck, m, E + "CSV", "cols_size"), "CSV::cols_size")
        self.c_rows = need(getter_off(ck, m, E + "CSV", "rows_size"), "CSV::rows_size")
        self.c_head = need(getter_off(ck, m, E + "CSV", "header"), "CSV::header")
        rows = by("CSV", lambda t: t == E + "CSVRow")
        self.c_cache = one([o for o in rows if o != self.c_head], "cached row of CSV")
        self.c_labels = one(by("CSV", lambda t: t.startswith("std::set<")), "label columns of CSV")
        self.i_row = one(by("CSVIterator", lambda t: t == E + "CSVRow"), "row of CSVIterator")
        self.i_req = one(by("CSVIterator", lambda t: t == "unsigned long"), "requested index of CSVIterator")
        self.i_fn = one(by("CSVIterator", isstr), "path of CSVIterator")
        self.i_strm = one(by("CSVIterator", lambda t: "basic_ifstream" in t), "stream of CSVIterator")


_lay = {}


def layout(ck, m):
    if id(m) not in _lay:
        _lay[id(m)] = Lay(ck, m)
    return _lay[id(m)]


TH = ("this",)


def pthis(o):
    return ("p", TH, P(o))


def ldt(o, n=8):
    return P(("ld", TH, P(o), n))


def fline(origin, k, delim=P(10)):
    from ..absint import nlpos
    return ("fline", origin, nlpos(origin, ZERO, delim, k), delim)


def obj_at(ai, st, base, off):
    return ai.oget(st, ("p", base, P(off)))


def cell(ai, st, base, off, size=8):
    return ai.load(st, ("p", base, P(off)), size, "ptr" if False else "i%d" % (8 * size), None)


def ob_same(ck, rule, ai, e, got, want, construct, facts=None):
    why = []
    ok = same(ai, got, want, e.state.facts if facts is None else facts, why, at=e.b)
    ck.ob(rule, e.loc(), ok, "" if ok else "delivers %s, expected %s" % ("; ".join(why)[:200] or show(got)[:200], show(want)[:200]), construct)
    return ok


def ptr_same(got, want):
    if got == want:
        return True
    if isinstance(got, tuple) and got[:1] == ("p",) and not unknown_atoms(got):
        return False
    return None


def dom_facts(ai, e):
    """facts established on every way to e, including those of finished loops"""
    fs = set(e.state.facts)
    dom = ai.dom()[e.b]
    for (p, s), st in ai.out_state.items():
        if s in dom and len([q for q in ai.fn.pred[s] if (q, s) in ai.out_state]) == 1:
            fs |= st.facts
    return frozenset(fs)


def sp_of(t, kind):
    """the stream state behind a predicate term such as fail(stream)"""
    neg_ = False
    if isinstance(t, tuple) and t and t[0] == "not":
        neg_, t = True, t[1]
    if isinstance(t, tuple) and t and t[0] == "i2b" and isinstance(t[1], Poly) and t[1].atom() and t[1].atom()[0] == "sp" and t[1].atom()[1] == kind:
        return neg_, t[1].atom()[3]
    return None


def C08(ck):
    ck.rule("the text a row or field carries is derived as (file, line number, field number); it must be the one the index names, for the "
            "cached row by induction over all member functions")
    m = ir.view("parser")
    for part in (c08_field, c08_row_ctor, c08_row_copy, c08_csv_ctor, c08_index, c08_invariant, c08_types):
        ck.part(part, m)
    return CONS


def c08_field(ck, m):
    Y = layout(ck, m)
    f = need(m.one(E + "CSVRow", "operator[]"), "CSVRow::operator[]")
    ai = run(ck, f)
    idx = P(("arg", 2))
    sep, cols = ldt(Y.r_sep, 1), ldt(Y.r_cols)
    org = ("text", ("obj", pthis(Y.r_line)))
    res = ("arg", 0)
    for e in ai.rets():
        fs = e.state.facts
        ob_same(ck, "a field is the text between its separators", ai, e, obj_at(ai, e.state, res, Y.f_text), fline(org, idx, sep), f.q)
        ob_same(ck, "a field carries its column number", ai, e, cell(ai, e.state, res, Y.f_idx), idx, f.q)
        got = cell(ai, e.state, res, Y.f_type)
        if isinstance(got, tuple) and got[:1] == ("p",) and got[1][0] == "vec":
            ok = same(ai, got[2], idx * 4, fs)
            ck.ob("a field refers to the type of its column", e.loc(), ok, "" if ok else "type at %s" % show(got), f.q)
        inb = False
        for c in fs:
            if c == cmp("ult", idx, cols):
                inb = True
        z = Zone(fs)
        ok = inb or z.le0(idx - cols + 1)
        ck.ob("a column number beyond the row is an error", e.loc(), ok if ok or not unknown_atoms(tuple(fs)) else None,
              "" if ok else "returns without establishing that the column exists", f.q)
        okf = any(sp_of(c, "fail") and sp_of(c, "fail")[0] and sp_of(c, "fail")[1][1] == org for c in dom_facts(ai, e))
        if not okf and any(sp_of(c, "fail") and sp_of(c, "fail")[0] and sp_of(c, "fail")[1][1] == org for st in ai.out_state.values() for c in st.facts):
            okf = loop_checked(ai, e, org)
        ck.ob("a missing field is an error", e.loc(), okf, "" if okf else "returns without testing that the field could be read", f.q)
    for e in ai.throws():
        fs = dom_facts(ai, e)
        ok = Zone(fs).le0(cols - idx) or any(sp_of(c, "fail") and not sp_of(c, "fail")[0] for c in fs)
        ck.ob("a present field is not turned away", e.loc(), ok if ok or not unknown_atoms(tuple(fs)) else None,
              "" if ok else "throws although the column may exist", f.q)


def loop_checked(ai, e, org):
    """every pass over a loop that reads pieces of org ends in a successful read"""
    reads = [x for x in ai.calls("std::getline") if ai.oget(x.state, x.args[0])[1:2] == (org,)]
    for x in reads:
        L = loops_of(ai.fn, x.b)
        if not L:
            return None
        for p in ai.fn.pred[L[-1]["header"]]:
            st = ai.out_state.get((p, L[-1]["header"]))
            if p in L[-1]["blocks"] and st is not None:
                if not any(sp_of(c, "fail") and sp_of(c, "fail")[0] and sp_of(c, "fail")[1][1] == org for c in st.facts):
                    return None
    return True if reads else None


def c08_row_ctor(ck, m):
    Y = layout(ck, m)
    for f in m.method(E + "CSVRow", "CSVRow"):
        at = f.arg_ditypes()
        if len(at) not in (5, 6):
            continue
        ai = run(ck, f)
        cname = "CSVRow/%d" % len(at)
        nums = [i for i, t in enumerate(at) if t == "unsigned long"]
        s = [i for i, t in enumerate(at) if elem_type(t) == "string"]
        v = [i for i, t in enumerate(at) if t and t.startswith("std::vector<") and t.endswith("&")]
        c = [i for i, t in enumerate(at) if t == "char"]
        if not (len(s) == len(v) == len(c) == 1) or len(nums) != len(at) - 4:
            continue
        line = ("obj", ("p", ("arg", s[0]), ZERO))
        for e in ai.rets():
            ob_same(ck, "a row keeps its line", ai, e, obj_at(ai, e.state, TH, Y.r_line), line, cname)
            ob_same(ck, "a row keeps its number", ai, e, cell(ai, e.state, TH, Y.r_idx), P(("arg", nums[0])), cname)
            ob_same(ck, "a row keeps its separator", ai, e, cell(ai, e.state, TH, Y.r_sep, 1), P(("arg", c[0])), cname)
            got = cell(ai, e.state, TH, Y.r_types)
            ok = ptr_same(got, ("p", ("arg", v[0]), ZERO))
            ck.ob("a row refers to the given types", e.loc(), ok, "" if ok else show(got), cname)
            got = cell(ai, e.state, TH, Y.r_cols)
            if len(nums) == 2:
                ob_same(ck, "a row keeps its number of columns", ai, e, got, P(("arg", nums[1])), cname)
            else:
                count_rule(ck, ai, e, got, line, P(("arg", c[0])), cname)


def count_rule(ck, ai, e, got, line, sep, construct):
    rule = "the number of columns is one more than the number of separators"
    for x in ai.calls("std::count"):
        if x.res is None or not contains(got, lambda z: P(z) == x.res if isinstance(z, tuple) and z and z[0] == "call" else False):
            continue
        rs = []
        for a in x.args[:2]:
            at = a.atom() if isinstance(a, Poly) else a
            if isinstance(at, tuple) and at[0] == "p" and isinstance(at[1], tuple) and at[1] and at[1][0] == "pure":
                at = at[1]
            if isinstance(at, tuple) and at[0] == "pure" and at[1].split("::")[-1] in ("begin", "end", "cbegin", "cend"):
                rs.append((at[1].split("::")[-1].replace("c", ""), ai.oget(x.state, at[2])))
        if len(rs) != 2 or rs[0][0] != "begin" or rs[1][0] != "end":
            ck.ob(rule, x.loc(), None, "range of the count", construct)
            return
        ok = rs[0][1] == line and rs[1][1] == line
        v = ai.load(x.state, x.args[2], 1, "i8", None)
        oks = v == sep
        okn = got == x.res + 1
        if not (ok and oks) and (unknown_atoms(rs[0][1]) or unknown_atoms(v)):
            ck.ob(rule, x.loc(), None, "range %s" % show(rs[0][1]), construct)
            return
        ck.ob(rule, x.loc(), ok and oks and okn, "" if ok and oks and okn else
              "counts %s in %s, columns are %s" % (show(v), show(rs[0][1])[:80], show(got)), construct)
        return
    ck.ob(rule, e.loc(), None, "no count: " + show(got)[:120], construct)


def c08_row_copy(ck, m):
    Y = layout(ck, m)
    mem = m.types[E + "CSVRow"]["members"]
    for f in m.method(E + "CSVRow", "CSVRow") + m.method(E + "CSVRow", "operator="):
        at = f.arg_ditypes()
        if len(at) != 2 or not (at[1] or "").startswith("const EdgeLearning::CSVRow&"):
            continue
        ai = run(ck, f)
        src = ("arg", 1)
        for e in ai.rets():
            for off, nm, sz in ((Y.r_idx, "number", 8), (Y.r_cols, "number of columns", 8), (Y.r_sep, "separator", 1)):
                got = cell(ai, e.state, TH, off, sz)
                ob_same(ck, "a copied row keeps the " + nm, ai, e, got, P(("ld", src, P(off), sz)), f.q)
            got = obj_at(ai, e.state, TH, Y.r_line)
            ob_same(ck, "a copied row keeps the line", ai, e, got, ("obj", ("p", src, P(Y.r_line))), f.q)
            got = cell(ai, e.state, TH, Y.r_types)
            if f.short != "operator=":
                want = ("p", ("ld", src, P(Y.r_types), 8), ZERO)
                ok = ptr_same(got, want)
                ck.ob("a copied row refers to the same types", e.loc(), ok, "" if ok else show(got), f.q)
    for name in ("operator==", "operator!="):
        for f in m.method(E + "CSVRow", name):
            ai = run(ck, f)
            for e in ai.rets():
                a, b = ("obj", pthis(Y.r_line)), ("obj", ("p", ("arg", 1), P(Y.r_line)))
                v = e.args[0]
                txt = show(v)
                names = [x for x in walk(v) if x and x[0] == "pure" and x[1] in ("std::operator==", "std::operator!=")]
                ok = None
                if not names and not unknown_atoms(v):
                    ok = False
                if len(names) == 1:
                    x = names[0]
                    argsok = {x[2], x[3]} == {a, b}
                    pos = (x[1] == "std::operator==") == (name == "operator==")
                    negd = v == neg(("i2b", P(x)))
                    plain = v == ("i2b", P(x))
                    ok = argsok and ((pos and plain) or (not pos and negd)) if (negd or plain) else None
                ck.ob("rows are equal exactly when their lines are", e.loc(), ok, "" if ok else txt[:200], f.q)


def file_of(base, off):
    return ("file", ("obj", ("p", base, P(off))))


def c08_csv_ctor(ck, m):
    Y = layout(ck, m)
    for f in m.method(E + "CSV", "CSV"):
        at = f.arg_ditypes()
        if len(at) != 5:
            continue
        ai = run(ck, f)
        fo = ("file", ("obj", ("p", ("arg", 1), ZERO)))
        sep = P(("arg", 3))
        for e in ai.rets():
            q = f.q
            ob_same(ck, "the header is the first line", ai, e, obj_at(ai, e.state, TH, Y.c_head + Y.r_line), fline(fo, ZERO), q)
            ob_same(ck, "the header has number 0", ai, e, cell(ai, e.state, TH, Y.c_head + Y.r_idx), ZERO, q)
            n = cell(ai, e.state, TH, Y.c_cache + Y.r_idx)
            ob_same(ck, "the cached row is the line its number names", ai, e, obj_at(ai, e.state, TH, Y.c_cache + Y.r_line), fline(fo, n), q)
            cols = cell(ai, e.state, TH, Y.c_cols)
            count_rule(ck, ai, e, cols, fline(fo, ZERO), sep, q)
            for base, nm in ((Y.c_head, "header"), (Y.c_cache, "cached row")):
                ob_same(ck, "the %s has every column" % nm, ai, e, cell(ai, e.state, TH, base + Y.r_cols), cols, q)
                ob_same(ck, "the %s has the separator of the file" % nm, ai, e, cell(ai, e.state, TH, base + Y.r_sep, 1), sep, q)
                got = cell(ai, e.state, TH, base + Y.r_types)
                ok = ptr_same(got, pthis(Y.c_types))
                ck.ob("the %s refers to the types of the file" % nm, e.loc(), ok, "" if ok else show(got), q)
            ob_same(ck, "the separator is kept", ai, e, cell(ai, e.state, TH, Y.c_sep, 1), sep, q)
            ob_same(ck, "the path is kept", ai, e, obj_at(ai, e.state, TH, Y.c_fn), ("obj", ("p", ("arg", 1), ZERO)), q)
            rows_rule(ck, ai, e, cell(ai, e.state, TH, Y.c_rows), fo, q)
            lab = obj_at(ai, e.state, TH, Y.c_labels)
            cc = [x for x in ai.calls("std::set::set", "std::set::operator=") if x.args[0] == pthis(Y.c_labels)]
            if len(cc) == 1 and len(cc[0].args) > 1:
                ok = cc[0].args[1] == ("p", ("arg", 4), ZERO)
                ck.ob("the label columns are kept", cc[0].loc(), ok, "" if ok else show(cc[0].args[1]), q)


def rows_rule(ck, ai, e, got, fo, construct):
    """got lines could be read, and the next one could not"""
    from ..absint import nlpos
    rule = "the number of rows is the number of lines"
    if not isinstance(got, Poly) or [x for x in unknown_atoms(got)]:
        at = got.atom() if isinstance(got, Poly) else None
        if at is None or at not in ai.phiinc:
            ck.ob(rule, e.loc(), None, show(got)[:200], construct)
            return
    hit = None
    seen = 0
    for t in dom_facts(ai, e):
        s = sp_of(t, "fail")
        if s and not s[0] and s[1][1] == fo and s[1][4][0] == "getline":
            seen += 1
            if P(s[1][2]) == nlpos(fo, ZERO, P(10), got + 1):
                hit = True
    if hit:
        ck.ob(rule, e.loc(), True, "", construct)
        return
    # other ways to end: the loop must stop at the first line that cannot be read
    if seen:
        ck.ob(rule, e.loc(), False, "counts %s when reading ends" % show(got)[:120], construct)
    else:
        # reading until the end is reached does not tell whether the last read delivered a line
        eof = [sp_of(t, "eof")[1] for t in dom_facts(ai, e) if sp_of(t, "eof") and not sp_of(t, "eof")[0] and sp_of(t, "eof")[1][1] == fo]
        eof += [sp_of(t, "good")[1] for t in dom_facts(ai, e) if sp_of(t, "good") and sp_of(t, "good")[0] and sp_of(t, "good")[1][1] == fo]
        ok = False if any(P(s[2]) == nlpos(fo, ZERO, P(10), got) for s in eof) else None
        ck.ob(rule, e.loc(), ok, "the count ends when the end of the file is reached, whether or not the last read delivered a line"
              if ok is False else "no failed read ends the count", construct)


def csv_objs(Y):
    """induction hypothesis: the cached line is the one its number names"""
    fo = file_of(TH, Y.c_fn)
    return {(TH, Y.c_cache + Y.r_line): fline(fo, ldt(Y.c_cache + Y.r_idx)), (TH, Y.c_head + Y.r_line): fline(fo, ZERO)}


def csv_init(Y):
    d = {}
    for b in (Y.c_head, Y.c_cache):
        d[(TH, b + Y.r_cols, 8)] = ldt(Y.c_cols)
        d[(TH, b + Y.r_sep, 1)] = ldt(Y.c_sep, 1)
        d[(TH, b + Y.r_types, 8)] = pthis(Y.c_types)
    d[(TH, Y.c_head + Y.r_idx, 8)] = ZERO
    return d


def c08_index(ck, m):
    Y = layout(ck, m)
    f = need(m.one(E + "CSV", "operator[]"), "CSV::operator[]")
    ai = run(ck, f, objs=csv_objs(Y), init=csv_init(Y))
    skip_rule(ck, ai, f.q)
    fo = file_of(TH, Y.c_fn)
    rows = ldt(Y.c_rows)
    k = P(("urem", P(("arg", 2)), rows))
    res = ("arg", 0)
    for e in ai.rets():
        ob_same(ck, "row i is line i, modulo the number of rows", ai, e, obj_at(ai, e.state, res, Y.r_line), fline(fo, k), f.q)
        ob_same(ck, "a row carries its number", ai, e, cell(ai, e.state, res, Y.r_idx), k, f.q)
        ob_same(ck, "a row has every column", ai, e, cell(ai, e.state, res, Y.r_cols), ldt(Y.c_cols), f.q)
        ob_same(ck, "a row has the separator of the file", ai, e, cell(ai, e.state, res, Y.r_sep, 1), ldt(Y.c_sep, 1), f.q)
        got = cell(ai, e.state, res, Y.r_types)
        ok = ptr_same(got, pthis(Y.c_types))
        ck.ob("a row refers to the types of its file", e.loc(), ok, "" if ok else show(got), f.q)
        z = cmp("ne", rows, ZERO) in e.state.facts or cmp("ult", ZERO, rows) in e.state.facts
        ck.ob("an empty file has no row", e.loc(), z or None, "", f.q)
    for e in ai.throws():
        fs = dom_facts(ai, e)
        ok = cmp("eq", rows, ZERO) in fs
        ck.ob("a present row is not turned away", e.loc(), ok if ok or not unknown_atoms(tuple(fs)) else None, "" if ok else "throws although there are rows", f.q)
    divs = [e for e in ai.events if e.kind == "div" and e.args[1] == rows]
    for e in divs:
        ok = cmp("ne", rows, ZERO) in e.state.facts or cmp("ult", ZERO, rows) in e.state.facts
        ck.ob("no division by the number of rows of an empty file", e.loc(), ok, "" if ok else "divides by zero for an empty file", f.q)


def c08_invariant(ck, m):
    """every member function keeps the cached line and its number together"""
    Y = layout(ck, m)
    fo = file_of(TH, Y.c_fn)
    for k, f in sorted(m.fns.items()):
        at = f.arg_ditypes()
        if strip_cls(f) != E + "CSV" or f.short.startswith(("CSV", "~")) or (E + "CSV*") not in at[:2]:
            continue
        if f.short == "operator=":
            continue
        try:
            ai = run(ck, f, objs=csv_objs(Y), init=csv_init(Y))
        except Exception as x:
            ck.ob("the cached row stays the line its number names", f.where(), None, str(x)[:100], f.q)
            continue
        for e in ai.rets():
            ob_same(ck, "the cached row stays the line its number names", ai, e, obj_at(ai, e.state, TH, Y.c_cache + Y.r_line),
                    fline(fo, cell(ai, e.state, TH, Y.c_cache + Y.r_idx)), f.q + "|" + at[0][:40])
            ob_same(ck, "the header stays the first line", ai, e, obj_at(ai, e.state, TH, Y.c_head + Y.r_line), fline(fo, ZERO), f.q + "|" + at[0][:40])
            for off, sz, nm in ((Y.c_rows, 8, "number of rows"), (Y.c_cols, 8, "number of columns"), (Y.c_sep, 1, "separator")):
                ob_same(ck, "the %s does not change" % nm, ai, e, cell(ai, e.state, TH, off, sz), ldt(off, sz), f.q + "|" + at[0][:40])


def strip_cls(f):
    from ..ir import strip_name
    return strip_name(f.scope)


def c08_types(ck, m):
    """declared types are replaced only when they are incomplete"""
    Y = layout(ck, m)
    for f in m.method(E + "CSVRow", "CSVRow"):
        at = f.arg_ditypes()
        if len(at) != 6:
            continue
        ai = run(ck, f)
        v = [i for i, t in enumerate(at) if t and t.startswith("std::vector<") and t.endswith("&")]
        nums = [i for i, t in enumerate(at) if t == "unsigned long"]
        if len(v) != 1 or len(nums) != 2:
            continue
        tv = ("p", ("arg", v[0]), ZERO)
        size = P(("size", ("obj", tv)))
        cols = P(("arg", nums[1]))
        finds = [x for x in ai.calls("std::find")]
        if len(finds) != 1:
            ck.ob("declared types are replaced only when incomplete", f.where(), None, "no search for AUTO", f.q)
            continue
        auto = enum(m, E + "TypeChecker::Type")["AUTO"]
        needle = ai.load(finds[0].state, finds[0].args[2], 4, "i32", None)
        end = ("p", ("vec", tv), size * 4)
        res = finds[0].res
        ok, bad = True, ""
        try:
            for has in (False, True):
                for nsize in range(4):
                    for ncols in range(4):
                        zero, eqc = nsize == 0, nsize == ncols

                        def atom(t):
                            if t[0] in ("eq", "ne", "ult", "ule", "slt", "sle"):
                                try:
                                    return evalb(t, {size.atom(): nsize, cols.atom(): ncols})
                                except (NotConst, KeyError):
                                    pass
                            if contains(t, lambda z: z and z[0] == "call" and "std::find" in z):
                                r = {"peq": not has, "eq": not has, "pne": has, "ne": has}.get(t[0])
                                if r is not None:
                                    return r
                            return None
                        writes = set(e.b for e in ai.calls("std::vector::operator=", "std::vector::clear", "std::vector::resize", "std::vector::assign")
                                     if e.args and e.args[0] == tv)
                        hitw = []
                        follow(ai, atom, stop=lambda b, env: (b in writes and (hitw.append(b) or True)))
                        if bool(hitw) != (has or zero or not eqc):
                            ok = False
                            bad = bad or "types are %s when %s" % ("replaced" if hitw else "kept", ", ".join(
                                ["some is AUTO" if has else "none is AUTO", "the list is empty" if zero else "the list is not empty",
                                 "there is one per column" if eqc else "their number is wrong"]))
        except Unknown as x:
            ok, bad = None, str(x)
        ck.ob("declared types are replaced only when incomplete", f.where(), ok if needle == P(auto) or needle == P(auto % (1 << 32)) else None, bad, f.q)


# ------------------------------------------------------------------ C09
class Comp(object):
    """one way a vector is filled: element k in iteration k of a loop"""
    __slots__ = ("ev", "h", "L", "kind", "size", "k")


def skip_rule(ck, ai, q):
    """a bounded skip with a delimiter leaves the rest of a longer line behind"""
    for e in ai.calls("std::istream::ignore"):
        n = ai.as_poly(e.args[1]).const() if len(e.args) > 1 else 1
        d = ai.as_poly(e.args[2]).const() if len(e.args) > 2 else -1
        if n is not None and d == 10 and n < (1 << 62):
            more = any(x.kind == "call" and x.callee.endswith("::gcount") for x in ai.events)
            ck.ob("lines are skipped whole", e.loc(), None if more else False, "skips at most %d characters of a line" % n, q)
        elif n is not None and d == 10:
            ck.ob("lines are skipped whole", e.loc(), True, "", q)


VREAD = ("size", "begin", "end", "data", "empty", "reserve", "capacity", "operator[]", "at", "~vector", "~_Bvector_base", "cbegin", "cend", "front",
         "back", "shrink_to_fit", "max_size")


def fillings(ai, vec, before=None):
    """(size set before the filling or None, [Comp]); raises Unknown"""
    good = normal_blocks(ai)
    idx = lorder(ai)
    base = ("vec", vec)
    bitrefs = {}
    size = ZERO
    comps = []
    evs = sorted([e for e in ai.events if e.b in good and e.b in idx], key=lambda e: (idx[e.b], e.ins.j))
    for e in evs:
        if before is not None and (idx[e.b], e.ins.j) >= (idx[before.b], before.ins.j):
            continue
        if e.kind == "call" and e.args and e.args[0] == vec and e.callee.startswith(("std::vector::", "std::_Bvector_base")):
            mth = e.callee.split("::")[-1]
            if mth in VREAD:
                continue
            L = loops_of(ai.fn, e.b)
            if before is not None:
                L = [x for x in L if before.b not in x["blocks"]]
            ps = ir_params(e)
            if mth == "vector" and not L:
                if len(e.args) == 1 or (ps and ps[0].startswith("std::allocator")):
                    size = ZERO
                elif ps and ps[0] == "unsigned long":
                    size = e.args[1]
                else:
                    raise Unknown("built from " + str(ps))
            elif mth == "resize" and not L:
                size = e.args[1]
            elif mth in ("push_back", "emplace_back", "insert") and len(L) == 1:
                c = Comp()
                c.ev, c.h, c.L, c.kind, c.size = e, L[0]["header"], L[0], mth, size
                c.k = P(("iv", c.h))
                comps.append(c)
            else:
                raise Unknown(mth)
        elif e.kind in ("store", "memcpy", "memset") or (e.kind == "call" and e.callee.split("::")[-1] in ("operator=", "assign", "swap")):
            a = e.args[0] if e.args else None
            if e.kind == "call" and e.callee == "std::_Bit_reference::operator=":
                c0 = [v for kk, v in e.state.mem.items() if kk[0] == a[1] and kk[1] == a[2].const()]
                at_ = c0[0] if c0 else None
                if isinstance(at_, tuple) and at_[:1] == ("p",):
                    at_ = at_[1]
                if isinstance(at_, tuple) and at_[:1] == ("v",):
                    at_ = at_[1]
                if isinstance(at_, Poly):
                    at_ = at_.atom()
                if isinstance(at_, tuple) and at_[:1] == ("ev",) and isinstance(at_[1], tuple) and at_[1][:2] == ("pure", "std::vector::operator[]"):
                    pv = at_[1]
                    if pv[2] == ai.oget(e.state, vec):
                        L = [x for x in loops_of(ai.fn, e.b) if before is None or before.b not in x["blocks"]]
                        if len(L) != 1:
                            raise Unknown("nested bit write")
                        c = Comp()
                        c.ev, c.h, c.L, c.kind, c.size, c.k = e, L[0]["header"], L[0], "bit", size, pv[3]
                        comps.append(c)
                continue
            if not (isinstance(a, tuple) and a[:1] == ("p",) and a[1] == base):
                continue
            L = [x for x in loops_of(ai.fn, e.b) if before is None or before.b not in x["blocks"]]
            if len(L) != 1 or e.kind in ("memcpy", "memset"):
                raise Unknown("write in %d loops" % len(L))
            c = Comp()
            c.ev, c.h, c.L, c.kind, c.size, c.k = e, L[0]["header"], L[0], "store" if e.kind == "store" else "assign", size, a[2]
            comps.append(c)
        elif e.kind == "call" and vec in e.args[1:] and e.args[0] != vec and not e.callee.startswith(("std::allocator", "std::__new_alloc", "std::vector")):
            raise Unknown("passed to " + e.callee)
    return size, comps


def fill_rule(ck, ai, vec, n, rule, construct, check, before=None, esize=None, failok=None, need_end=True, grow=None):
    """the vector ends up with n elements, element k being accepted by check(comp, k)"""
    try:
        size, comps = fillings(ai, vec, before)
    except Unknown as x:
        ck.ob(rule, ai.fn.where(), None, str(x), construct)
        return
    if len(comps) != 1:
        ck.ob(rule, ai.fn.where(), None if comps or not (isinstance(n, Poly)) else None, "%d fillings" % len(comps), construct)
        return
    c = comps[0]
    e = c.ev
    iv = P(("iv", c.h))
    fs = dom_facts(ai, e)
    z = Zone(fs)
    if c.kind in ("store", "assign", "bit"):
        ok = same(ai, size, n, fs, at=e.b)
        ck.ob("a vector has one element per item", e.loc(), ok, "" if ok else "is given %s elements, expected %s" % (show(size)[:120], show(n)[:120]), construct)
        k = c.k if c.kind == "bit" else P(("udiv", c.k, P(esize))) if (c.k.const() is not None) else None
        if k is None:
            parts = [(m_, q) for m_, q in c.k.monos()]
            if any(q % esize for _, q in parts):
                ck.ob(rule, e.loc(), None, "offset " + show(c.k), construct)
                return
            k = ZERO
            for m_, q in parts:
                t = P(q // esize)
                for a in m_:
                    t = t * P(a)
                k = k + t
    else:
        if grow is None and size != ZERO:
            ok = size.const() is None
            ck.ob("a vector has one element per item", e.loc(), False if isinstance(size, Poly) and not unknown_atoms(size) else None,
                  "elements are appended to %s others" % show(size)[:80], construct)
        k = iv
    # one write per iteration
    dom = ai.dom()
    lat = [p for p in ai.fn.pred[c.h] if p in c.L["blocks"] and (p, c.h) in ai.out_state]
    every = all(e.b in dom[p] for p in lat)
    ck.ob("no item is left out", e.loc(), every or (False if c.kind in ("push_back", "emplace_back") else None), "" if every else "conditional write", construct)
    inb = z.le0(k - n + 1)
    ck.ob("no item beyond the last is written", e.loc(), inb or None, "" if inb else "%s < %s not established" % (show(k)[:80], show(n)[:80]), construct)
    off = same(ai, k, iv, fs, at=e.b)
    inside = set(c.L["blocks"])
    good = normal_blocks(ai)
    for b in c.L["blocks"]:
        for s in ai.fn.succ[b]:
            o = ai.out_state.get((b, s))
            if s in inside or s not in good or o is None:
                continue
            zz = Zone(o.facts)
            done = iv if b not in dom[lat[0]] or e.b not in dom[b] else iv + 1
            ok = zz.le0(n - done)
            if not ok and failok is not None:
                ok = any(sp_of(t, "fail") and not sp_of(t, "fail")[0] and failok(sp_of(t, "fail")[1]) for t in o.facts)
            if not ok:
                early = zz.le0(done - n + 1) and not unknown_atoms(n)
                bound = [t for t in o.facts if contains(t, lambda q: q == ("iv", c.h))]
                ok = False if bound and not unknown_atoms(tuple(bound)) and not unknown_atoms(n) and all(t[0] in ("ule", "ult", "sle", "slt", "eq") for t in bound) else None
                if early and not any(contains(t, lambda q: q and q[0] in ("sp", "call", "phi", "ev")) for t in o.facts
                                     if not (sp_of(t, "fail") and sp_of(t, "fail")[0])):
                    ok = False
            ck.ob("every item is converted", ai.fn.where() if ok else "%s" % e.loc(), ok, "" if ok else
                  "stops when %s, of %s items" % ("; ".join(show(t)[:80] for t in o.facts if contains(t, lambda q: q == ("iv", c.h))), show(n)[:80]), construct)
    check(c, k)


def fresh_rule(ck, ai, q):
    """text is not carried over from an earlier successful read"""
    for e in ai.calls("std::getline"):
        s = ai.oget(e.state, e.args[1])
        fresh = s == ("str", "") or (isinstance(s, tuple) and s[:1] == ("str",) and s[1] in ("", b""))
        tested = any(contains(t, lambda z: z and z[0] == "strm" and z[4] == ("getline", e.ins.i))
                     for st in ai.out_state.values() for t in st.facts)
        ok = fresh or tested
        if not ok:
            old = [x for x in walk(s) if x and x[0] in ("fline", "phi")] if isinstance(s, tuple) else []
            ok = False if old else None
        ck.ob("a field that cannot be read is not filled with an earlier one", e.loc(), ok,
              "" if ok else "the read is not tested and its target still holds earlier text", q)


def reader_block(ai, c, s):
    """block of the read that delivers the text s inside the loop of c"""
    for e in ai.calls("std::getline"):
        if e.b in c.L["blocks"]:
            return e.b
    return c.h


def elem_rule(ck, m, ai, ty, c, s, rule, construct):
    """the element written by c is the conversion of text s"""
    e = c.ev
    if c.kind in ("store",):
        v = e.args[1]
    elif c.kind == "bit":
        v = e.args[1]
    elif c.kind == "assign":
        v = ai.oget(e.state, e.args[1])
    else:
        v = e.args[1]
        if isinstance(v, tuple) and v[:1] == ("p",):
            v = ai.oget(e.state, v) if ty == "string" else \
                ai.load(e.state, v, SIZES[ty], {"float": "f32", "double": "f64"}.get(ty, "i%d" % (8 * SIZES[ty])), None)
    why = ""
    if ty == "string":
        ok = same(ai, v, s, dom_facts(ai, e), at=e.b)
        why = "delivers %s instead of %s" % (show(v)[:200], show(s)[:200])
    elif ty == "bool":
        ok, why = conv_eq(m, ai, ty, s, v, e, span=(reader_block(ai, c, s), e.b))
    else:
        want = ("parsed", ty, ("text", s), ZERO)
        got = v.atom() if isinstance(v, Poly) else v
        ok = same(ai, got, want, dom_facts(ai, e), at=e.b)
        why = "delivers %s instead of %s" % (show(got)[:240], show(want)[:240])
    ck.ob(rule, e.loc(), ok, "" if ok else why, construct)


def vec_elem(t):
    """element type of std::vector<X ...> in a spelled type"""
    from ..absint import first_targ
    t = t.strip()
    if not t.startswith("std::vector<"):
        return None
    d, i0 = 0, len("std::vector<")
    for i in range(i0, len(t)):
        if t[i] == "<":
            d += 1
        elif t[i] == ">":
            d -= 1
        if (t[i] == "," and d == 0) or d < 0:
            return t[i0:i].strip()
    return None


def row_conv(ck, m, ai, Y, ty, vec, line, sep, cols, construct, before=None):
    org = ("text", line)
    if ty == "string":
        es = 32
    elif ty == "bool":
        es = 1
    else:
        es = SIZES[ty]
    fill_rule(ck, ai, vec, cols, "element k of a converted row is field k", construct,
              lambda c, k: elem_rule(ck, m, ai, ty, c, fline(org, k, sep), "element k of a converted row is field k", construct), before=before, esize=es)


def C09(ck):
    ck.rule("the elements of converted rows and files are derived as conversions of (file, line, field); iterators by induction over their operations")
    m = ir.view("parser")
    for part in (c09_row, c09_file, c09_iter_ctor, c09_iter_deref, c09_iter_moves, c09_range, c09_dataset, c09_types):
        ck.part(part, m)
    return CONS


def c09_row(ck, m):
    Y = layout(ck, m)
    n = 0
    for k, f in sorted(m.fns.items()):
        if strip_cls(f) != E + "CSVRow":
            continue
        at = f.arg_ditypes()
        el = vec_elem(at[0] or "")
        if el is None or len(at) != 2 or "CSVRow" not in (at[1] or ""):
            continue
        ty = elem_type(el)
        ai = run(ck, f)
        q = "CSVRow to vector of %s|%s" % (ty or el, f.short.split("<")[0].split(" ")[0])
        res = ("p", ("arg", 0), ZERO)
        line, sep, cols = ("obj", pthis(Y.r_line)), ldt(Y.r_sep, 1), ldt(Y.r_cols)
        n += 1
        fresh_rule(ck, ai, q)
        if ty in SIZES or ty == "string":
            row_conv(ck, m, ai, Y, ty, res, line, sep, cols, q)
        elif el == E + "CSVField":
            def chk(c, kk):
                e = c.ev
                p = e.args[1]
                if c.kind not in ("push_back", "emplace_back") or not (isinstance(p, tuple) and p[:1] == ("p",)) or p[2] != ZERO:
                    ck.ob("field k of a row", e.loc(), None, c.kind, q)
                    return
                ob_same(ck, "field k of a row carries its text", ai, e, obj_at(ai, e.state, p[1], Y.f_text), fline(("text", line), kk, sep), q)
                ob_same(ck, "field k of a row carries its column", ai, e, cell(ai, e.state, p[1], Y.f_idx), kk, q)
                got = ai.load(e.state, ("p", p[1], P(Y.f_type)), 8, "ptr", None)
                if isinstance(got, tuple) and got[:1] == ("p",) and got[1][0] == "vec":
                    ok = same(ai, got[2], kk * 4, e.state.facts, at=e.b)
                    ck.ob("field k of a row refers to the type of its column", e.loc(), ok, "" if ok else show(got), q)
            fill_rule(ck, ai, res, cols, "field k of a row", q, chk)
    ck.note("row conversions analysed: %d" % n)


def c09_file(ck, m):
    Y = layout(ck, m)
    n = 0
    fo = file_of(TH, Y.c_fn)
    rows, cols, sep = ldt(Y.c_rows), ldt(Y.c_cols), ldt(Y.c_sep, 1)
    fok = lambda v: v[1] == fo
    for key, f in sorted(m.fns.items()):
        if strip_cls(f) != E + "CSV":
            continue
        at = f.arg_ditypes()
        el = vec_elem(at[0] or "")
        if el is None or len(at) != 2 or "CSV*" not in (at[1] or ""):
            continue
        ai = run(ck, f)
        ty = elem_type(el)
        inner = vec_elem(el)
        q = "CSV to vector of %s|%s" % (ty or (elem_type(inner) + " rows" if inner else el), f.short.split("<")[0].split(" ")[0])
        res = ("p", ("arg", 0), ZERO)
        n += 1
        fresh_rule(ck, ai, q)
        skip_rule(ck, ai, q)
        if ty == "string":
            fill_rule(ck, ai, res, rows, "element k of a converted file is line k", q,
                      lambda c, k: elem_rule(ck, m, ai, "string", c, fline(fo, k), "element k of a converted file is line k", q), esize=32, failok=fok)
        elif el == E + "CSVRow":
            def chk(c, kk):
                e = c.ev
                p = e.args[1]
                if c.kind not in ("push_back", "emplace_back") or not (isinstance(p, tuple) and p[:1] == ("p",)) or p[2] != ZERO:
                    ck.ob("element k of a converted file is row k", e.loc(), None, c.kind, q)
                    return
                ob_same(ck, "element k of a converted file is row k", ai, e, obj_at(ai, e.state, p[1], Y.r_line), fline(fo, kk), q)
                ob_same(ck, "row k of a converted file carries its number", ai, e, cell(ai, e.state, p[1], Y.r_idx), kk, q)
                ob_same(ck, "row k of a converted file has every column", ai, e, cell(ai, e.state, p[1], Y.r_cols), cols, q)
                ob_same(ck, "row k of a converted file has the separator of the file", ai, e, cell(ai, e.state, p[1], Y.r_sep, 1), sep, q)
                got = ai.load(e.state, ("p", p[1], P(Y.r_types)), 8, "ptr", None)
                ok = ptr_same(got, pthis(Y.c_types))
                ck.ob("row k of a converted file refers to the types of the file", e.loc(), ok, "" if ok else show(got), q)
            fill_rule(ck, ai, res, rows, "element k of a converted file is row k", q, chk, failok=fok)
        elif inner is not None and (elem_type(inner) in SIZES or elem_type(inner) == "string"):
            ity = elem_type(inner)

            def chk2(c, kk):
                e = c.ev
                src = e.args[1]
                if c.kind not in ("assign", "push_back", "emplace_back") or not (isinstance(src, tuple) and src[:1] == ("p",)):
                    ck.ob("element k of a converted file is row k", e.loc(), None, c.kind, q)
                    return
                row_conv(ck, m, ai, Y, ity, src, fline(fo, kk), sep, cols, q, before=e)
            fill_rule(ck, ai, res, rows, "element k of a converted file is row k", q, chk2, esize=40 if ity == "bool" else 24, failok=fok)
        elif ty in SIZES:
            def chk3(c, kk):
                e = c.ev
                r = "a flattened file is its rows in order"
                if c.kind != "insert" or len(e.args) != 4:
                    ck.ob(r, e.loc(), None, c.kind, q)
                    return
                by = {}
                for x in ai.events:
                    if x.kind == "call" and x.res is not None and x.callee.split("::")[-1] in ("begin", "end", "cbegin", "cend") and x.args:
                        by.setdefault(x.callee.split("::")[-1].replace("c", ""), []).append((x.res, x.args[0]))
                fnd = lambda w, v: [a for r_, a in by.get(w, ()) if r_ == v]
                pos = fnd("end", e.args[1])
                src = fnd("begin", e.args[2])
                end = fnd("end", e.args[3])
                atend = res in pos
                if not atend and res in fnd("begin", e.args[1]):
                    ck.ob(r, e.loc(), False, "rows are inserted before the earlier ones", q)
                    return
                both = [v for v in src if v in end]
                if not atend or not both:
                    ck.ob(r, e.loc(), None, "insertion of %s" % show(e.args[2])[:100], q)
                    return
                row_conv(ck, m, ai, Y, ty, both[0], fline(fo, kk), sep, cols, q, before=e)
            fill_rule(ck, ai, res, rows, "a flattened file is its rows in order", q, chk3, failok=fok)
    ck.note("file conversions analysed: %d" % n)


def it_inv(Y, base=TH, fnobj=None):
    from ..absint import nlpos
    ri = Y.i_row
    fo = file_of(TH, Y.i_fn)
    idx = ldt(ri + Y.r_idx)
    return fo, {(TH, Y.i_strm): ("strm", fo, nlpos(fo, ZERO, P(10), idx + 1), (), ("x",)), (TH, ri + Y.r_line): fline(fo, idx)}


def it_state(ck, ai, e, Y, base, fo, idx, q, prefix):
    """line, number and stream position of an iterator belong together"""
    from ..absint import nlpos
    ri = Y.i_row
    ob_same(ck, prefix + ": the line is the one its number names", ai, e, obj_at(ai, e.state, base, ri + Y.r_line), fline(fo, idx), q)
    st = obj_at(ai, e.state, base, Y.i_strm)
    if isinstance(st, tuple) and st[:1] == ("strm",):
        ok = st[1] == fo
        ck.ob(prefix + ": the stream is the one of the file", e.loc(), ok if ok or not unknown_atoms(st[1]) else None, "" if ok else show(st[1]), q)
        ob_same(ck, prefix + ": the stream stands after the current line", ai, e, P(st[2]), nlpos(fo, ZERO, P(10), idx + 1), q)
    else:
        ck.ob(prefix + ": the stream stands after the current line", e.loc(), None, show(st)[:100], q)


def c09_iter_ctor(ck, m):
    Y = layout(ck, m)
    ri = Y.i_row
    for f in m.method(E + "CSVIterator", "CSVIterator"):
        at = f.arg_ditypes()
        ai = run(ck, f)
        q = "CSVIterator/%d" % len(at)
        if len(at) == 6:
            s = [i for i, t in enumerate(at) if elem_type(t) == "string"]
            v = [i for i, t in enumerate(at) if t and t.startswith("std::vector<") and t.endswith("&")]
            c = [i for i, t in enumerate(at) if t == "char"]
            nums = [i for i, t in enumerate(at) if t == "unsigned long"]
            if not (len(s) == len(v) == len(c) == 1 and len(nums) == 2):
                continue
            fn = ("obj", ("p", ("arg", s[0]), ZERO))
            req, cols, sep = P(("arg", nums[0])), P(("arg", nums[1])), P(("arg", c[0]))
            types = ("p", ("arg", v[0]), ZERO)
        elif len(at) == 2 and "CSVIterator&" in (at[1] or ""):
            o = ("arg", 1)
            fn = ("obj", ("p", o, P(Y.i_fn)))
            req, cols, sep = P(("ld", o, P(Y.i_req), 8)), P(("ld", o, P(ri + Y.r_cols), 8)), P(("ld", o, P(ri + Y.r_sep), 1))
            types = ("p", ("ld", o, P(ri + Y.r_types), 8), ZERO)
        else:
            continue
        fo = ("file", fn)
        for e in ai.rets():
            ob_same(ck, "an iterator names the requested row", ai, e, cell(ai, e.state, TH, Y.i_req), req, q)
            ob_same(ck, "an iterator keeps the path", ai, e, obj_at(ai, e.state, TH, Y.i_fn), fn, q)
            it_state(ck, ai, e, Y, TH, fo, cell(ai, e.state, TH, ri + Y.r_idx), q, "a new iterator")
            ob_same(ck, "the row of an iterator has every column", ai, e, cell(ai, e.state, TH, ri + Y.r_cols), cols, q)
            ob_same(ck, "the row of an iterator has the separator of the file", ai, e, cell(ai, e.state, TH, ri + Y.r_sep, 1), sep, q)
            got = cell(ai, e.state, TH, ri + Y.r_types)
            ok = ptr_same(got, types)
            ck.ob("the row of an iterator refers to the given types", e.loc(), ok, "" if ok else show(got), q)


def c09_iter_deref(ck, m):
    Y = layout(ck, m)
    ri = Y.i_row
    fo, objs = it_inv(Y)
    for nm in ("operator*", "operator->"):
        for f in need(m.method(E + "CSVIterator", nm), "CSVIterator::" + nm):
            ai = run(ck, f, objs=objs)
            skip_rule(ck, ai, f.q)
            req = ldt(Y.i_req)
            for e in ai.rets():
                v = e.args[0] if e.args else None
                ok = ptr_same(v, pthis(ri))
                ck.ob("an iterator delivers its row", e.loc(), ok, "" if ok else show(v), f.q)
                ob_same(ck, "the row delivered is the one requested", ai, e, obj_at(ai, e.state, TH, ri + Y.r_line), fline(fo, req), f.q)
                ob_same(ck, "the row delivered carries its number", ai, e, cell(ai, e.state, TH, ri + Y.r_idx), req, f.q)
                ob_same(ck, "access does not move an iterator", ai, e, cell(ai, e.state, TH, Y.i_req), req, f.q)
                it_state(ck, ai, e, Y, TH, fo, cell(ai, e.state, TH, ri + Y.r_idx), f.q, "after access")
            for e in ai.calls("std::istream::seekg"):
                st = ai.oget(e.state, e.args[0])
                ok = isinstance(st, tuple) and st[:1] == ("strm",) and st[4][0] in ("clear", "start", "open")
                ck.ob("the stream state is reset before repositioning", e.loc(), ok, "" if ok else "a stream that reached the end ignores the move", f.q)


def c09_iter_moves(ck, m):
    Y = layout(ck, m)
    ri = Y.i_row
    fo, objs = it_inv(Y)
    req = ldt(Y.i_req)
    for nm, d in (("operator++", 1), ("operator--", -1)):
        for f in need(m.method(E + "CSVIterator", nm), "CSVIterator::" + nm):
            ai = run(ck, f, objs=objs)
            at = f.arg_ditypes()
            post = len(at) > 1
            q = f.q + ("(int)" if post else "")
            for e in ai.rets():
                ob_same(ck, "a step moves an iterator by one row", ai, e, cell(ai, e.state, TH, Y.i_req), req + d, q)
                it_state(ck, ai, e, Y, TH, fo, cell(ai, e.state, TH, ri + Y.r_idx), q, "after a step")
                if post:
                    ob_same(ck, "a postfix step delivers the position before it", ai, e, cell(ai, e.state, ("arg", 0), Y.i_req), req, q)
                    it_state(ck, ai, e, Y, ("arg", 0), fo, cell(ai, e.state, ("arg", 0), ri + Y.r_idx), q, "the copy of a postfix step")
                else:
                    ok = ptr_same(e.args[0] if e.args else None, ("p", TH, ZERO))
                    ck.ob("a prefix step delivers the iterator itself", e.loc(), ok, "", q)
    other = P(("ld", ("arg", 1), P(Y.i_req), 8))
    for nm in ("operator==", "operator!="):
        for f in need(m.method(E + "CSVIterator", nm), "CSVIterator::" + nm):
            ai = run(ck, f)
            for e in ai.rets():
                want = cmp("eq" if nm == "operator==" else "ne", req, other)
                v = e.args[0]
                ok = v == want
                if not ok and unknown_atoms(v):
                    ok = None
                ck.ob("iterators are equal exactly when they name the same row", e.loc(), ok, "" if ok else show(v), f.q)


def c09_range(ck, m):
    Y = layout(ck, m)
    ri = Y.i_row
    rows = ldt(Y.c_rows)
    A = ("arg", 0)
    for nm in ("begin", "end"):
        for f in need(m.method(E + "CSV", nm), "CSV::" + nm):
            ai = run(ck, f)
            for e in ai.rets():
                got = cell(ai, e.state, A, Y.i_req)
                ok, bad = True, ""
                for n in (0, 1, 2, 3, 7, 150):
                    w = 1 if nm == "begin" else max(n, 1)
                    vals = []
                    try:
                        for (g,), fs in cases(ai, (got,), e.state.facts):
                            env = {rows.atom(): n}
                            feas = True
                            for t in fs:
                                try:
                                    if not evalb(t, env):
                                        feas = False
                                except (NotConst, KeyError):
                                    pass
                            if feas:
                                vals.append(evalp(g, env))
                    except (NotConst, KeyError):
                        ok, bad = None, show(got)
                        break
                    if any(v != w for v in vals):
                        ok, bad = False, "names row %s of a file of %d rows" % (vals, n)
                        break
                ck.ob("the range of rows runs from the first after the header to the last", e.loc(), ok, bad, f.q)
                ob_same(ck, "an iterator of a file reads the file", ai, e, obj_at(ai, e.state, A, Y.i_fn), ("obj", pthis(Y.c_fn)), f.q)
                ob_same(ck, "an iterator of a file has every column", ai, e, cell(ai, e.state, A, ri + Y.r_cols), ldt(Y.c_cols), f.q)
                ob_same(ck, "an iterator of a file has its separator", ai, e, cell(ai, e.state, A, ri + Y.r_sep, 1), ldt(Y.c_sep, 1), f.q)
                got = cell(ai, e.state, A, ri + Y.r_types)
                ok = ptr_same(got, pthis(Y.c_types))
                ck.ob("an iterator of a file refers to its types", e.loc(), ok, "" if ok else show(got), f.q)


def c09_dataset(ck, m):
    Y = layout(ck, m)
    rows, cols, sep = ldt(Y.c_rows), ldt(Y.c_cols), ldt(Y.c_sep, 1)
    fo = file_of(TH, Y.c_fn)
    for f in need(m.method(E + "CSV", "entry"), "CSV::entry"):
        ai = run(ck, f, objs=csv_objs(Y), init=csv_init(Y))
        vec = ("p", ("arg", 0), ZERO)
        row_conv(ck, m, ai, Y, "double", vec, fline(fo, P(("urem", P(("arg", 2)) + 1, rows))), sep, cols, f.q)
        fresh_rule(ck, ai, f.q)
        skip_rule(ck, ai, f.q)
    for f in need(m.method(E + "CSV", "entries_amount"), "CSV::entries_amount"):
        ai = run(ck, f)
        for n in (0, 1, 2, 3, 9, 1000):
            got, ok, bad = None, None, ""
            try:
                b, env = follow(ai, lambda t: evalb(t, {rows.atom(): n}))
                for e in ai.rets():
                    if e.b == b:
                        got = evalp(simp_sel(psubst(ai.as_poly(e.args[0]), env), lambda t: evalb(t, {rows.atom(): n})), {rows.atom(): n}) % (1 << 64)
                ok = got == max(n - 1, 0)
                bad = "" if ok else "%s entries for %d rows" % (got, n)
            except (Unknown, NotConst, KeyError) as x:
                bad = str(x)
            ck.ob("every row but the header is an entry", f.where(), ok, bad, f.q)
    for f in need(m.method(E + "CSV", "feature_size"), "CSV::feature_size"):
        ai = run(ck, f)
        for e in ai.rets():
            ob_same(ck, "every column is a feature", ai, e, e.args[0], cols, f.q)
    for f in need(m.method(E + "CSV", "labels_idx"), "CSV::labels_idx"):
        ai = run(ck, f)
        cp = [x for x in ai.calls("std::set::set") if x.args and x.args[0] == ("p", ("arg", 0), ZERO)]
        ok = len(cp) == 1 and len(cp[0].args) > 1 and cp[0].args[1] == pthis(Y.c_labels)
        bad = len(cp) == 1 and len(cp[0].args) == 1
        ck.ob("the label columns are the declared ones", f.where(), ok or (False if bad else None), "", f.q)


def c09_types(ck, m):
    """missing types are inferred from the first row after the header"""
    Y = layout(ck, m)
    for f in m.method(E + "CSV", "CSV"):
        if len(f.arg_ditypes()) != 5:
            continue
        ai = run(ck, f)
        fo = ("file", ("obj", ("p", ("arg", 1), ZERO)))
        idx = lorder(ai)
        good = normal_blocks(ai)
        ps = sorted([e for e in ai.calls("std::vector::push_back") if e.args[0] == pthis(Y.c_types) and e.b in good], key=lambda e: idx[e.b])
        rule = "missing types are inferred from the first row"
        if not ps:
            ck.ob(rule, f.where(), None, "no inference", f.q)
            continue
        L = loops_of(ai.fn, ps[0].b)
        reads = [e for e in ai.calls("std::getline") if L and e.b in L[-1]["blocks"]]
        if len(reads) != 1:
            ck.ob(rule, ps[0].loc(), None, "reads", f.q)
            continue
        st = ai.oget(reads[0].state, reads[0].args[0])
        org = st[1] if isinstance(st, tuple) and len(st) > 1 else None
        want = ("text", fline(fo, P(1)))
        ok = org == want
        ck.ob(rule, ps[0].loc(), ok if ok or (org is not None and not unknown_atoms(org)) else None, "" if ok else "from %s" % show(org)[:120], f.q)
        d = reads[0].args[2] if len(reads[0].args) > 2 else P(10)
        ob_same(ck, "missing types are inferred field by field", ai, reads[0], P(d), P(("arg", 3)), f.q)


# ------------------------------------------------------------------ C10
def C10(ck):
    ck.rule("what a constructor, assignment or accessor leaves behind in an object or result never points into storage that ends with the call; "
            "copies of files own the types their rows refer to")
    m = ir.view("parser")
    for part in (c10_escape, c10_copy, c10_assign):
        ck.part(part, m)
    return CONS


def outer_base(b):
    """storage that outlives the call"""
    if b in (TH,) or (b[:1] == ("arg",) and len(b) == 2):
        return True
    return b[:1] in (("ld",), ("glob",))


def roots(ai, v, seen=None):
    """the objects a pointer may point into"""
    seen = set() if seen is None else seen
    if not (isinstance(v, tuple) and v[:1] == ("p",) and isinstance(v[1], tuple) and v[1]):
        return set()
    b = v[1]
    if b in seen:
        return set()
    seen.add(b)
    if b[0] == "vec":
        return roots(ai, b[1], seen)
    if b in ai.phiinc:
        out = set()
        for _, x in ai.phiinc[b]:
            out |= roots(ai, x, seen)
        return out
    return {b}


def c10_escape(ck, m):
    rule = "nothing kept outlives what it refers to"
    n = 0
    for k, f in sorted(m.fns.items()):
        if not f.q.startswith(E):
            continue
        try:
            ai = run(ck, f)
        except Exception as x:
            ck.ob(rule, f.where(), None, "not analysed", f.q)
            continue
        at = f.arg_ditypes()
        byval = {i for i, t in enumerate(at) if t and i != f.this_index() and f.d["args"][i]["t"] == "ptr" and not t.endswith(("&", "*")) and
                 (t.startswith(("std::basic_string", "std::__cxx11::basic_string", "std::vector<", "std::map<", "std::set<", "std::shared_ptr<",
                                "std::function<")) or (t.startswith(E) and m.types.get(t, {}).get("size", 0) > 16))}
        bad = None
        for e in ai.rets():
            for (b, off, sz), v in e.state.mem.items():
                if not outer_base(b) or (b[:1] == ("arg",) and b[1] in byval):
                    continue
                for r in roots(ai, v):
                    if r[0] == "alloca" or (r[0] == "arg" and len(r) == 2 and r[1] in byval):
                        bad = (e, "%s+%s keeps the address of %s" % (show(b), off, show(r)))
            v = e.args[0] if e.args else None
            if any(r[0] == "alloca" for r in roots(ai, v)):
                bad = (e, "returns the address of a local")
        n += 1
        ck.ob(rule, bad[0].loc() if bad else f.where(), bad is None, bad[1] if bad else "", f.q + "/%d" % len(at))
    ck.note("functions scanned for escaping addresses: %d" % n)


def csv_members(Y):
    return [(Y.c_rows, 8, "number of rows"), (Y.c_cols, 8, "number of columns"), (Y.c_sep, 1, "separator"),
            (Y.c_head + Y.r_idx, 8, "number of the header"), (Y.c_cache + Y.r_idx, 8, "number of the cached row"),
            (Y.c_head + Y.r_cols, 8, "columns of the header"), (Y.c_cache + Y.r_cols, 8, "columns of the cached row"),
            (Y.c_head + Y.r_sep, 1, "separator of the header"), (Y.c_cache + Y.r_sep, 1, "separator of the cached row")]


def src_inv(Y):
    """what holds of the file object copied from"""
    o = ("arg", 1)
    ld1 = lambda off, n=8: P(("ld", o, P(off), n))
    d = {}
    for b in (Y.c_head, Y.c_cache):
        d[(o, b + Y.r_cols, 8)] = ld1(Y.c_cols)
        d[(o, b + Y.r_sep, 1)] = ld1(Y.c_sep, 1)
        d[(o, b + Y.r_types, 8)] = ("p", o, P(Y.c_types))
    d[(o, Y.c_head + Y.r_idx, 8)] = ZERO
    return d


def c10_copy(ck, m):
    Y = layout(ck, m)
    o = ("arg", 1)
    ref = "a copied file owns the types its rows refer to"
    found = 0
    for f in m.method(E + "CSV", "CSV"):
        at = f.arg_ditypes()
        if len(at) != 2 or "CSV&" not in (at[1] or ""):
            continue
        found += 1
        ini = src_inv(Y)
        ai = run(ck, f, init=ini)
        for e in ai.rets():
            for b, nm in ((Y.c_head, "header"), (Y.c_cache, "cached row")):
                got = cell(ai, e.state, TH, b + Y.r_types)
                ok = ptr_same(got, pthis(Y.c_types))
                ck.ob(ref, e.loc(), ok, "" if ok else "the %s refers to %s" % (nm, show(got)), f.q)
            copied(ck, m, Y, ai, e, o, ini, f.q)
    if not found:
        # the compiler's memberwise copy leaves the rows of the copy with the types of the original
        t = m.types[E + "CSV"]
        ck.ob(ref, "source/parser/csv.hpp", False if any(f.short == "CSV" for f in m.method(E + "CSV", "CSV")) else None,
              "no copy constructor: the rows of a copy refer to the types of the original", E + "CSV")


def copied(ck, m, Y, ai, e, o, ini, q):
    for off, sz, nm in csv_members(Y):
        got = cell(ai, e.state, TH, off, sz)
        want = ini.get((o, off, sz), P(("ld", o, P(off), sz)))
        ob_same(ck, "a copied file keeps the " + nm, ai, e, got, want, q)
    for off, nm in ((Y.c_fn, "path"), (Y.c_head + Y.r_line, "header"), (Y.c_cache + Y.r_line, "cached row")):
        ob_same(ck, "a copied file keeps the " + nm, ai, e, obj_at(ai, e.state, TH, off), ("obj", ("p", o, P(off))), q)
    for off, nm, cl in ((Y.c_types, "types", "std::vector"), (Y.c_labels, "label columns", "std::set")):
        cs = [x for x in ai.calls(cl + "::" + cl.split("::")[1], cl + "::operator=") if x.args and x.args[0] == pthis(off)]
        src = ("p", o, P(off))
        ok = any(len(x.args) > 1 and x.args[1] == src for x in cs)
        if not ok:
            ok = False if cs and all(len(x.args) == 1 or not unknown_atoms(("t",) + tuple(a for a in x.args[1:] if not isinstance(a, str))) for x in cs) else None
        ck.ob("a copied file keeps the " + nm, e.loc(), ok, "" if ok else "not copied", q)


def c10_assign(ck, m):
    Y = layout(ck, m)
    o = ("arg", 1)
    for f in m.method(E + "CSV", "operator="):
        at = f.arg_ditypes()
        if len(at) != 2 or "CSV&" not in (at[1] or ""):
            continue
        ini = src_inv(Y)
        ini2 = dict(csv_init(Y))
        ini2.update(ini)
        ai = run(ck, f, init=ini2)
        for e in ai.rets():
            for b, nm in ((Y.c_head, "header"), (Y.c_cache, "cached row")):
                got = cell(ai, e.state, TH, b + Y.r_types)
                ok = ptr_same(got, pthis(Y.c_types))
                ck.ob("an assigned file owns the types its rows refer to", e.loc(), ok, "" if ok else "the %s refers to %s" % (nm, show(got)), f.q)
            copied(ck, m, Y, ai, e, o, ini, f.q)
