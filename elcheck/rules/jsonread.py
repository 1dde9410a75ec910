"""C11: reading JSON text.  Each reader is analysed as a product of its control flow graph with the grammar of its input (tstate)."""
from .. import ir
from ..ir import AnalysisBroken, strip_name
from ..jmodel import *
from ..tstate import *
from ..tstate import I as N
from .json import env, leaftype, KN

CLS = {"list": LIST, "dict": DICT, "leaf": LEAF}
ANYBAD = [ch("]"), ch("}"), ch(","), ch("\""), ch(":"), Token("another character", char=ord("x")), EOF]


def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, tuple) and s[0] == "rest" and out and isinstance(out[-1], tuple) and out[-1] == ("first", s[1]):
            out[-1] = s[1]
        else:
            out.append(s)
    return tuple(out)


def seglen(segs):
    n = N(0)
    for s in segs:
        n = lin_add(n, Product.length(s))
    return n


def show(segs):
    if segs is None or segs == TOP:
        return "?"
    return "".join(s.name if not isinstance(s, tuple) else s[0] + " of " + s[1].name for s in segs) or "nothing"


class Hooks(object):
    LEAST = {}

    def least(self, s):
        return self.LEAST.get(s, 0)

    def init(self, P, e):
        pass

    def stored(self, P, e, p, v):
        return v

    def isfree(self, P, e, p):
        return False

    def texted(self, P, e, p):
        pass

    def tracked(self, P, e, a):
        return any(k[1:3] == (a[1], a[2]) or k[1] == a[1] for k in e.prop if len(k) == 3)

    def free(self, P, e, r):
        """the condition is a property of the input that the grammar leaves open"""
        if isinstance(r, int):
            X = P.fn.ins[r]
            if X.op in ("call", "invoke") and "regex_match" in (P.name(X) or ""):
                return True
            if X.op in ("call", "invoke") and P.name(X) == "std::basic_string::empty":
                t = self.text(e, P.val(e, X.d["args"][0]))
                return t is not None and len(t) == 1
        return False

    def reads(self, P, X):
        """class read by a nested reader call"""
        if P.name(X) != NS + "operator>>":
            return None
        d = P.m.dem(X.callee())
        for c in (ITEM, LIST, DICT, LEAF, OBJ):
            if d.endswith(c + "&)"):
                return c
        return None

    # ---- strings and pointers
    def text(self, e, p):
        v = e.mem.get((p[1], p[2]), TOP) if p[0] == "p" else TOP
        return v[1] if v[0] == "text" else None

    def put(self, e, p, segs):
        if p[0] == "p":
            if segs is None:
                e.mem.pop((p[1], p[2]), None)
            else:
                e.mem[(p[1], p[2])] = ("text", norm(segs))

    def find(self, P, e, segs, cs):
        n = N(0)
        for s in segs:
            b = s[1] if isinstance(s, tuple) else s
            if b.char is not None and not isinstance(s, tuple):
                if chr(b.char) in cs:
                    return n
            elif b.text:
                for c in cs:
                    if c not in b.without:
                        if isinstance(s, tuple):
                            return TOP
                        P.fork_contains(e, s, c)
            else:
                return TOP
            n = lin_add(n, Product.length(s))
        return NPOS

    def prefix(self, segs, n):
        if n == NPOS:
            return segs
        out = []
        for s in segs:
            if n == N(0):
                return tuple(out)
            n = lin_add(n, Product.length(s), -1)
            if n[0] != "i" or n[1] < 0 or any(k < 0 for _, k in n[2]):
                return None
            out.append(s)
        return tuple(out)

    def lits(self, P, a):
        if a[0] == "p" and a[1][0] == "g":
            b = P.m.string(a[1][1])
            if b is not None:
                return b[a[2]:].split(b"\0")[0].decode("latin1")
        return None

    def call(self, P, e, X, name, args):
        if name is None:
            return None
        n = name.split("::")[-1]
        if name.startswith("std::basic_string::") and args and args[0][0] == "p":
            me = args[0]
            t = self.text(e, me)
            if n == "basic_string":
                src = args[1] if len(args) > 1 else None
                if src is None:
                    self.put(e, me, ())
                elif len(args) == 2 and src[0] == "p" and src[1][0] != "g":
                    self.put(e, me, self.text(e, src))
                else:
                    l = self.lits(P, src)
                    self.put(e, me, tuple(Token("'%s'" % c, char=ord(c)) for c in l) if l is not None else None)
                return TOP
            if n == "~basic_string":
                self.put(e, me, None)
                return TOP
            if n in ("operator=", "assign"):
                src = args[1]
                if src[0] == "p" and src[1][0] != "g" and len(args) == 2:
                    self.put(e, me, self.text(e, src))
                elif self.lits(P, src) == "":
                    self.put(e, me, ())
                else:
                    self.put(e, me, None)
                return me
            if n == "clear":
                self.put(e, me, ())
                return TOP
            if n == "swap" and len(args) == 2 and args[1][0] == "p":
                u = self.text(e, args[1])
                self.put(e, args[1], t)
                self.put(e, me, u)
                return TOP
            if n in ("size", "length"):
                return seglen(t) if t is not None else TOP
            if n == "empty":
                if t is None:
                    return TOP
                r = P.cmp("eq", seglen(t), N(0))
                return TOP if r is None else N(1 if r else 0)
            if n in ("find", "find_first_of") and t is not None and (len(args) < 3 or args[2] == N(0)):
                cs = None
                if args[1][0] == "i" and not args[1][2]:
                    cs = chr(args[1][1] & 255)
                elif self.lits(P, args[1]) and (n == "find_first_of" or len(self.lits(P, args[1])) == 1):
                    cs = self.lits(P, args[1])
                return self.find(P, e, t, cs) if cs else TOP
            if n == "substr" and len(args) == 4:
                u = self.text(e, args[1])
                self.put(e, me, self.prefix(u, args[3]) if u is not None and args[2] == N(0) else None)
                return TOP
            if n == "erase" and t is not None and len(args) == 3 and args[2] == NPOS:
                self.put(e, me, self.prefix(t, args[1]))
                return me
            if n == "resize" and t is not None and len(args) == 2:
                self.put(e, me, self.prefix(t, args[1]))
                return TOP
            if n in ("push_back", "operator+=") and len(args) == 2:
                if args[1][0] == "i" and not args[1][2] and t is not None:
                    self.put(e, me, t + (Token("'%s'" % chr(args[1][1] & 255), char=args[1][1] & 255),))
                elif args[1][0] == "p" and self.text(e, args[1]) is not None and t is not None:
                    self.put(e, me, t + self.text(e, args[1]))
                else:
                    self.put(e, me, None)
                return me if n == "operator+=" else TOP
            if n in ("begin", "end", "cbegin", "cend", "c_str", "data", "front", "back", "operator[]", "at", "find_last_of", "rfind", "compare", "find", "find_first_of",
                     "find_first_not_of", "capacity"):
                return TOP
            return None
        if name == "std::regex_match" or name.startswith(NS + "TypeChecker::"):
            for a in args:
                t = self.text(e, a)
                if t is not None:
                    old = e.prop.get(("typed",))
                    e.prop[("typed",)] = t if old in (None, t) else "several"
            return TOP
        if name in ("std::make_shared",) and args:
            k = [c for c in (LIST, DICT, LEAF, ITEM) if "std::make_shared<" + c + ">" in P.m.dem(X.callee()) or "std::make_shared<" + c + "," in P.m.dem(X.callee())]
            if len(k) == 1 and args[0][0] == "p":
                e.mem[(args[0][1], args[0][2])] = ("p", ("new", X.i, k[0]), 0)
                return TOP
            return None
        if name.startswith("std::__shared_ptr") and args and (args[0] == FREE or self.isfree(P, e, args[0])) and X.d.get("t") != "void":
            return FREE
        if name in ("std::vector::size", "std::vector::empty", "std::map::size", "std::map::empty", "std::basic_string::size", "std::basic_string::empty") and args[0] == FREE:
            return FREE
        if name.startswith("std::__shared_ptr_access::operator") or name in ("std::__shared_ptr::get",) or name.startswith("std::__shared_ptr_access::get"):
            return e.mem.get((args[0][1], args[0][2]), TOP) if args[0][0] == "p" else TOP
        if name in ("std::shared_ptr::operator=", "std::shared_ptr::shared_ptr", "std::__shared_ptr::operator=", "std::__shared_ptr::__shared_ptr", "std::__shared_ptr::swap",
                    "std::shared_ptr::swap") and args[0][0] == "p":
            v = ("null",)
            if len(args) > 1:
                v = e.mem.get((args[1][1], args[1][2]), TOP) if args[1][0] == "p" else TOP
            e.mem.pop((args[0][1], args[0][2]), None)
            if v != TOP:
                e.mem[(args[0][1], args[0][2])] = v
            if name.endswith("swap"):
                return None
            return args[0]
        if name in ("std::shared_ptr::~shared_ptr", "std::__shared_ptr::~__shared_ptr"):
            return TOP
        if name == "std::__shared_ptr::operator bool" and args[0][0] == "p":
            v = e.mem.get((args[0][1], args[0][2]), TOP)
            return N(0) if v == ("null",) else N(1) if v[0] == "p" else TOP
        if name in ("std::forward", "std::move", "std::addressof"):
            return args[0]
        if name == "std::min" and len(args) == 2 and all(a[0] == "p" for a in args):
            a, b = (e.mem.get((x[1], x[2]), TOP) for x in args)
            r = P.cmp("ult", b, a)
            return TOP if r is None else args[1] if r else args[0]
        if name.startswith("std::runtime_error::") or name in ("__cxa_allocate_exception", "__cxa_free_exception") or name.startswith("std::logic_error") or name.startswith("llvm."):
            return TOP
        return None


def itk(p):
    return ("item", p[1], p[2])


class Seq(Hooks):
    """reader of a list or dict; prop: ("item", cell) -> V (read, not stored yet) or S (stored); ("cont", cell) -> old or clean"""

    def __init__(self, off, isdict, size):
        self.off, self.isdict, self.size = off, isdict, size
        self.cont = ("p", ("arg", 1), off)

    def init(self, P, e):
        e.prop[("cont", ("arg", 1), self.off)] = "old"

    def isbad(self, e):
        return e.q == "BAD"

    def reader(self, P, e, X, args):
        dst = args[1]
        if e.eof or e.fail:
            e.fail = True
            return ("throws",)
        t = P.fetch(e, 0)
        if t is EOF:
            e.eof = e.fail = True
            return ("throws",)
        if isinstance(t, tuple):
            raise Bad("a value is read from its second character on")
        if t.value is None:
            if self.isbad(e):
                return ("either", STREAM)
            raise Bad("a value is read where %s stands" % t.name)
        f = P.fetch(e, 1)
        if dst[0] != "p":
            raise Lost("a value is read into an unknown place")
        if e.prop.get(itk(dst)) == "V":
            raise Bad("the value read before is not kept")
        P.eat(e)
        if f is EOF:
            e.eof = True
        elif f.char == ord(","):
            P.eat(e)
        if dst[1][0] == "elem":
            if e.prop.get(itk(dst)) == "S":
                raise Bad("the value stored before is overwritten")
            e.prop[itk(dst)] = "S"
            return STREAM
        if any(v == "V" for k, v in e.prop.items() if k[0] == "item"):
            raise Lost("values are collected")
        e.prop[itk(dst)] = "V"
        for k in [k for k in e.mem if k[0] == dst[1] and dst[2] <= k[1] < dst[2] + self.size]:
            del e.mem[k]
        e.prop.pop(("freed",), None)
        return STREAM

    def take(self, e, src):
        """a value is stored"""
        if src[0] != "p":
            raise Lost("an unknown value is stored")
        st = e.prop.get(itk(src))
        if st == "V":
            e.prop[itk(src)] = "S"
            return
        if self.isbad(e):
            return
        if st == "S":
            raise Bad("a value is stored twice")
        raise Bad("a value that was not read is stored")

    def opened(self, e, k):
        if ("open", k) in e.prop and e.prop.get(("item", ("elem", k), 0)) != "S" and not self.isbad(e):
            raise Bad("an element that holds no value is added")

    def keyof(self, e, p):
        t = self.text(e, p)
        if t is None:
            raise Lost("unknown key")
        if not self.isbad(e) and [getattr(s, "name", s) for s in norm(t)] != ["key"]:
            raise Bad("the key stored is %s" % show(norm(t)))

    def call(self, P, e, X, name, args):
        c = self.reads(P, X)
        if c is not None:
            if args[0] != STREAM or c not in (ITEM,):
                raise Lost("nested reader")
            return self.reader(P, e, X, args)
        if name and name.startswith("std::vector::") and args and args[0][0] == "p" or name and name.startswith("std::map::") and args and args[0][0] == "p":
            n = name.split("::")[-1]
            k = ("cont", args[0][1], args[0][2])
            if n in ("vector", "map") and len(args) == 1:
                e.prop[k] = "clean"
                return TOP
            if n == "clear":
                if e.prop.pop(("into", k), None) and not self.isbad(e):
                    raise Bad("the values read are dropped")
                e.prop[k] = "clean"
                return TOP
            if n in ("~vector", "~map"):
                e.prop.pop(k, None)
                return TOP
            if n == "empty" and e.prop.get(k) == "clean":
                return N(0 if ("into", k) in e.prop else 1)
            if n in ("size", "empty", "reserve", "capacity", "begin", "end", "cbegin", "cend", "count", "find"):
                return TOP
            if n in ("operator=", "swap") and len(args) == 2:
                o = ("cont", args[1][1], args[1][2])
                if o not in e.prop:
                    raise Lost("unknown container")
                a, b = e.prop.get(k), e.prop[o]
                if any(x == "S" and kk[1][0] == "elem" for kk, x in e.prop.items()):
                    pass
                e.prop[k] = b
                if n == "swap":
                    e.prop[o] = a
                # what the container assigned from holds has moved here
                w = e.prop.pop(("into", o), None)
                if w:
                    e.prop[("into", k)] = w
                return args[0] if n == "operator=" else TOP
            if name.startswith("std::vector::") and n in ("push_back", "emplace_back") and len(args) == 2:
                self.take(e, args[1])
                e.prop[("into", k)] = True
                return ("p", ("elem", k), 0)
            if name == "std::vector::emplace_back" and len(args) == 1:
                self.opened(e, k)
                e.prop[("into", k)] = True
                e.prop.pop(("item", ("elem", k), 0), None)
                e.prop[("open", k)] = True
                return ("p", ("elem", k), 0)
            if name == "std::vector::back":
                return ("p", ("elem", k), 0)
            if name in ("std::map::operator[]", "std::map::at"):
                self.keyof(e, args[1])
                e.prop[("into", k)] = True
                e.prop.pop(("item", ("elem", k), 0), None)
                return ("p", ("elem", k), 0)
            if name in ("std::map::emplace", "std::map::insert_or_assign", "std::map::try_emplace") and len(args) >= 3:
                a = args[-2:]
                self.keyof(e, a[0])
                self.take(e, a[1])
                e.prop[("into", k)] = True
                return TOP
            return None
        if name in (ITEM + "::operator=", ITEM + "::JsonItem") and len(args) == 2 and all(a[0] == "p" for a in args):
            if args[0][1][0] == "elem":
                self.take(e, args[1])
            else:
                st = e.prop.get(itk(args[1]))
                if st == "V":
                    e.prop[itk(args[0])] = "V"
                    e.prop[itk(args[1])] = "S"
                elif st is None:
                    e.prop.pop(itk(args[0]), None)
                else:
                    raise Lost("copies of values")
            return args[0]
        return Hooks.call(self, P, e, X, name, args)

    def isfree(self, P, e, p):
        """inside the value read last, while that is not stored yet"""
        return p[0] == "p" and any(k[0] == "item" and v == "V" and k[1] == p[1] and k[2] <= p[2] < k[2] + self.size for k, v in e.prop.items())


V = Token("value", value="any", first_not=",]}:")
KEY = Token("key", text=True, without="\"")
X = Token("another character", char=ord("x"))


def follow(close):
    return [(ch(","), "END"), (ch("]"), "END"), (ch("}"), "END"), (EOF, "END")]


LISTG = {
    "0": [(ch("["), "1"), (ch("{"), "BAD"), (X, "BAD"), (EOF, "BAD")],
    "1": [(ch("]"), "F"), (V, "2"), (ch("}"), "BAD"), (EOF, "BAD")],
    "2": [(ch(","), "3"), (ch("]"), "F"), (ch("}"), "BAD"), (EOF, "BAD")],
    "3": [(V, "2"), (EOF, "BAD"), (ch("}"), "BAD")],
    "F": follow("]"),
    "END": [("beyond what follows the list", "END")],
    "BAD": [(t, "BAD") for t in ANYBAD],
}
DICTG = {
    "0": [(ch("{"), "1"), (ch("["), "BAD"), (X, "BAD"), (EOF, "BAD")],
    "1": [(ch("}"), "F"), (ch("\""), "K"), (ch("]"), "BAD"), (X, "BAD"), (EOF, "BAD")],
    "K": [(KEY, "Q")],
    "Q": [(ch("\""), "C"), (EOF, "BAD")],
    "C": [(ch(":"), "V"), (X, "BAD"), (ch("}"), "BAD"), (ch(","), "BAD"), (EOF, "BAD")],
    "V": [(V, "2"), (EOF, "BAD")],
    "2": [(ch(","), "3"), (ch("}"), "F"), (ch("]"), "BAD"), (EOF, "BAD")],
    "3": [(ch("\""), "K"), (X, "BAD"), (ch("]"), "BAD"), (EOF, "BAD")],
    "F": follow("}"),
    "END": [("beyond what follows the dict", "END")],
    "BAD": [(t, "BAD") for t in ANYBAD],
}


def reader(e, cls):
    fs = [f for f in e.m.fns.values() if strip_name(f.q) == NS + "operator>>" and (f.d.get("ditypes") or [""])[-1] == cls + "&"]
    if len(fs) != 1:
        raise AnalysisBroken("operator>> of " + cls)
    return fs[0]


def words(e):
    return " ".join(t.name if not isinstance(t, tuple) else t[0] + " of " + t[1].name for t in e.past) or "nothing"


def judge(ck, f, P, rules, check):
    """rules: (accept, reject, content, end)"""
    acc, rej, con, end = rules
    viol = {r: [] for r in rules}
    und = {r: [] for r in rules}
    for murky, text, e, Xi in P.bad:
        (und if murky else viol)[con].append("after %s %s at %s" % (words(e), text, Xi.loc()))
    n = {"throw": 0, "ret": 0}
    for kind, e, Xi in P.exits:
        n[kind] += 1
        dst = und if e.murky else viol
        if kind == "throw":
            if e.q != "BAD":
                dst[acc].append("well-formed text is refused after %s" % words(e))
        elif e.q == "BAD":
            dst[rej].append("malformed text is accepted: %s" % words(e))
        else:
            for rule, d in check(e, Xi):
                (und[con] if rule == "?" else dst[rule]).append("%s after %s" % (d, words(e)))
    for k in P.stuck[:3]:
        (und if k[8] else viol)[end].append("the reader never ends after %s" % (" ".join(t.name if not isinstance(t, tuple) else t[1].name for t in k[3]) or "nothing"))
    for r in rules:
        ok = False if viol[r] else None if und[r] or P.lost else True
        d = (viol[r] or und[r] or P.lost or [""])[0]
        ck.ob(r, f.where(), ok, "" if ok else d, f.key + r)
    ck.note("%s: %d states, %d transitions, %d returns, %d throws" % (f.q + str(f.line), P.states, P.trans, n["ret"], n["throw"]))
    return n


def c11_seq(ck, e, cls):
    f = reader(e, cls)
    isd = cls == DICT
    what = "dict" if isd else "list"
    off = e.lay.map if isd else e.lay.list
    H = Seq(off, isd, e.size)
    P = Product(f, DICTG if isd else LISTG, "0", H)
    ck.fn(f)
    rules = ("a well-formed %s is read to its end" % what, "a malformed %s is reported" % what, "a %s read holds its elements, each once" % what, "reading a %s ends" % what)
    k = ("cont", ("arg", 1), off)
    close = "}" if isd else "]"

    def check(x, Xi):
        if x.q not in ("F", "END"):
            yield rules[0], "the reader returns before the end"
            return
        fol = None
        if x.q == "END":
            if x.ahead:
                fol = x.ahead[0]
            elif x.past and x.past[-1].char == ord(","):
                fol = "eaten"
            elif x.past and x.past[-1].char != ord(close):
                yield rules[0], "the text after the %s is consumed" % what
                return
        rest = list(x.ahead)
        if x.q == "END" and fol != "eaten" and rest and getattr(rest[0], "char", None) == ord(","):
            yield rules[0], "the comma after the %s is not consumed" % what
        elif x.q == "F" and not x.ahead:
            yield rules[0], "the comma that may follow the %s is not consumed" % what
        if len([t for t in rest if t is not EOF]) > 1 or any(isinstance(t, tuple) for t in rest):
            yield rules[0], "the end of the %s is not consumed" % what
        if x.fail:
            yield rules[0], "the stream is left failed"
        if [v for kk, v in x.prop.items() if kk[0] == "item" and v == "V"]:
            yield rules[2], "a value read is left out"
        if ("open", k) in x.prop and x.prop.get(("item", ("elem", k), 0)) != "S":
            yield rules[2], "an element that holds no value is added"
        if x.prop.get(k) != "clean":
            yield rules[2], "what the %s held before remains" % what
        into = [kk[1] for kk in x.prop if kk[0] == "into"]
        if any(z != k for z in into):
            yield rules[2], "the values are stored elsewhere"
    judge(ck, f, P, rules, check)
    return P


class ItemR(Hooks):
    KIND = {LIST: ("list",), DICT: ("dict",), LEAF: ("text", "word")}

    def __init__(self, off, old):
        self.off, self.old = off, old

    def init(self, P, e):
        e.mem[(("arg", 1), self.off)] = ("p", ("old",), 0) if self.old else ("null",)

    def call(self, P, e, X, name, args):
        c = self.reads(P, X)
        if c is None or args[0] != STREAM:
            return Hooks.call(self, P, e, X, name, args)
        dst = args[1]
        if c not in self.KIND:
            raise Lost("nested reader of %s" % c)
        if e.eof or e.fail:
            e.fail = True
            return ("throws",)
        t = P.fetch(e, 0)
        if t is EOF:
            e.eof = e.fail = True
            return ("throws",)
        if isinstance(t, tuple):
            raise Bad("a value is read from its second character on")
        if t.value is None:
            raise Bad("the reader of %s starts behind the value" % KN[c])
        f = P.fetch(e, 1)
        if t.value not in self.KIND[c]:
            if c == LEAF:
                raise Bad("a %s is read as a leaf" % t.value)
            return ("throws",)
        if dst[0] != "p" or dst[1][0] != "new" or dst[2] != 0:
            raise Lost("a value is read into an unknown place")
        P.eat(e)
        if f is EOF:
            e.eof = True
        elif f.char == ord(","):
            P.eat(e)
        e.prop[itk(dst)] = t.value
        return STREAM


def itemgrammar():
    vs = [Token("a list", value="list", first="["), Token("a dict", value="dict", first="{"), Token("a text", value="text", first="\""),
          Token("a bare value", value="word", first_not=",]}[{\":")]
    return {"0": [(v, "F") for v in vs] + [(EOF, "BAD")], "F": follow(""), "END": [("beyond the value", "END")], "BAD": [(EOF, "BAD")]}


def c11_item(ck, e):
    f = reader(e, ITEM)
    rules = ("every kind of value is read by its reader", "an item with no value is reported", "an item read holds the value", "reading an item ends")
    ck.fn(f)

    def check(x, Xi):
        v = x.mem.get((("arg", 1), e.lay.value), TOP)
        kind = x.mem.get((("arg", 1), e.lay.kind), TOP)
        if x.fail:
            yield rules[0], "the stream is left failed"
        if x.ahead and (isinstance(x.ahead[0], tuple) or x.ahead[0].value is not None or x.ahead[0].char == ord(",")):
            yield rules[0], "the value is not consumed"
            return
        if v == TOP or v[0] != "p" or v[1][0] != "new":
            if v == ("null",):
                yield rules[2], "the item is left empty"
            elif v == ("p", ("old",), 0):
                yield rules[2], "the item keeps what it held before"
            else:
                yield "?", "what the item holds"
            return
        got = x.prop.get(itk(v))
        if got is None:
            yield rules[2], "the item holds an object that was not read"
            return
        if kind == TOP:
            yield rules[2], "the kind of the item is not set"
        elif kind != N(e.enum[v[1][2]]):
            yield rules[2], "the kind of the item is not that of the %s read" % got
    for old in (False, True):
        P = Product(f, itemgrammar(), "0", ItemR(e.lay.value, old))
        judge(ck, f, P, rules, check)


LEAFG = {
    "0": [(ch("\""), "s"), (Token("bare text", text=True, without=",]}", least=1, first_not="\",[]{}"), "b"), (EOF, "BAD")],
    "s": [(Token("string", text=True, without="\""), "q")],
    "q": [(ch("\""), "F"), (EOF, "BAD")],
    "b": [(ch(","), "END"), (EOF, "END"), (ch("]"), "r"), (ch("}"), "r")],
    "r": [(Token("rest", text=True, without=","), "re")],
    "re": [(ch(","), "END"), (EOF, "END")],
    "F": follow(""),
    "END": [("beyond the value", "END")],
    "BAD": [(EOF, "BAD")],
}


class LeafR(Hooks):
    LEAST = {"bare text": 1}


def c11_leaf(ck, e):
    f = reader(e, LEAF)
    rules = ("a leaf is read to its end", "an unterminated leaf is reported", "a leaf read holds its text and type", "reading a leaf ends")
    P = Product(f, LEAFG, "0", LeafR())
    ck.fn(f)
    STR = leaftype(e)["STRING"]

    def check(x, Xi):
        t = x.mem.get((("arg", 1), e.lay.val), TOP)
        ty = x.mem.get((("arg", 1), e.lay.type), TOP)
        names = [p.name if not isinstance(p, tuple) else "part" for p in x.past]
        quoted = "string" in names
        if x.fail:
            yield rules[0], "the stream is left failed"
        # what has been consumed
        want = ["'\"'", "string", "'\"'"] if quoted else ["bare text"]
        rest = [a for a in x.ahead if a is not EOF]
        if names[:len(want)] != want:
            yield rules[0], "the position is wrong"
            return
        extra = names[len(want):]
        if extra == ["','"]:
            pass
        elif extra:
            yield rules[0], "text behind the value is consumed"
            return
        elif rest and getattr(rest[0], "char", None) == ord(","):
            yield rules[0], "the comma behind the value is not consumed"
        elif not x.ahead and x.q in ("F", "b"):
            yield rules[0], "the comma that may follow is not consumed"
        body = "string" if quoted else "bare text"
        if t == TOP or t[0] != "text":
            yield "?", "the text"
        elif [getattr(s, "name", s) for s in norm(t[1])] != [body]:
            yield rules[2], "the leaf holds %s" % show(norm(t[1]))
        if quoted:
            if ty == TOP:
                yield rules[2] if ("typed",) not in x.prop else "?", "the type of a string is not set"
            elif ty[0] == "i" and ty != N(STR):
                yield rules[2], "a quoted text is not a string"
        else:
            td = x.prop.get(("typed",))
            if td is None:
                yield "?", "how the type is found"
            elif td == "several" or [getattr(s, "name", s) for s in norm(td)] != [body]:
                yield rules[2], "the type is derived from %s" % (td if td == "several" else show(norm(td)))
    judge(ck, f, P, rules, check)


def C11(ck):
    e = env(ck)
    ck.rule("each reader is analysed together with the grammar of its input: every reachable combination of program point, stream position and token class is explored; "
            "well-formed input must be read to its end and kept completely, malformed input must end in an exception, and every state must reach an end")
    ck.part(c11_seq, e, LIST)
    ck.part(c11_seq, e, DICT)
    ck.part(c11_item, e)
    ck.part(c11_leaf, e)
    return ["nested values obey the property (induction over the nesting depth)", "positions of the input stream can be sought"]
