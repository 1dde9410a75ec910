"""Typestate analysis of the text readers: the product of a reader's control flow graph with a grammar of its input.

The input is never text: it is the language of an automaton over token classes (bracket, key, value, string, end of file, ...).
A state of the product is (block, live values, tracked cells, what was consumed, grammar state, stream flags); the analysis explores
all reachable states to a fixpoint, following both ways where a condition is not decided by the state.  A state reached through an
undecided condition is marked: what is found behind it never becomes a violation."""
from .ir import strip_templates

TOP = ("top",)
FREE = ("free",)        # depends on nothing but the value last read, which may be any value
NPOS = ("npos",)
ARG0 = ("arg", 0)
STREAM = ("p", ("arg", 0), 0)


def I(c, *sym):
    """integer: constant plus lengths of text tokens; the length of token X is the symbol X"""
    return ("i", c, tuple(sorted(sym)))


def lin_add(a, b, k=1):
    if a[0] != "i" or b[0] != "i":
        return TOP
    d = {}
    for s, n in a[2]:
        d[s] = d.get(s, 0) + n
    for s, n in b[2]:
        d[s] = d.get(s, 0) + k * n
    return ("i", a[1] + k * b[1], tuple(sorted((s, n) for s, n in d.items() if n)))


class Lost(Exception):
    pass


class Bad(Exception):
    """a definite violation on this path"""


class Fork(Exception):
    def __init__(self, envs):
        self.envs = envs


class Token(object):
    """char: its code (None: not a single character); text: a text that contains none of `without`, with at least `least` characters whose
    first is not one of `first_not`; value: kind of a nested JSON value"""

    def __init__(self, name, char=None, text=False, without="", least=0, value=None, first=None, first_not="", empty=False):
        self.name, self.char, self.text, self.without, self.least, self.value = name, char, text, without, least, value
        self.first, self.first_not, self.empty = first, first_not, empty


    _v = {}

    def variant(self, key, **kw):
        """the same token with more known about it"""
        k = (self, key)
        if k not in Token._v:
            d = dict(name=self.name, char=self.char, text=self.text, without=self.without, least=self.least, value=self.value, first=self.first, first_not=self.first_not)
            d.update(kw)
            Token._v[k] = Token(**d)
        return Token._v[k]

    def lacking(self, c):
        return self.variant("lacks" + c, without=self.without + c)

    def parts(self, c):
        """a text that contains c: the part before the first c, c, and the part after it"""
        a = self.variant("before" + c, name=self.name + " before " + c, without=self.without + c, least=0)
        b = self.variant("after" + c, name=self.name + " after " + c, least=0, first_not="")
        m = self.variant("the" + c, name="'%s'" % c, char=ord(c), text=False, least=0, first_not="")
        return (a, m, b)

    def filled(self):
        return self.variant("filled", least=1)

    def void(self):
        return self.variant("void", without="".join(map(chr, range(256))), empty=True)


EOF = Token("end of input")


def ch(c):
    return Token("'%s'" % c, char=ord(c))


class Env(object):
    __slots__ = ("b", "i", "regs", "mem", "past", "ahead", "q", "eof", "fail", "murky", "prev", "prop")

    def copy(self):
        e = Env()
        e.b, e.i, e.prev = self.b, self.i, self.prev
        e.regs, e.mem, e.prop = dict(self.regs), dict(self.mem), dict(self.prop)
        e.past, e.ahead, e.q = self.past, self.ahead, self.q
        e.eof, e.fail, e.murky = self.eof, self.fail, self.murky
        return e


class Product(object):
    """grammar: {state: [(Token, next state)]}; hooks: object with call(P, env, I, name, args) returning the value, or None when not its business"""

    def __init__(self, fn, grammar, start, hooks, limit=6000):
        self.fn, self.g, self.hooks = fn, grammar, hooks
        self.m = fn.mod
        self.lost = []
        self.bad = []          # (murky, text, env, where)
        self.exits = []        # (kind, env, instr)
        self.states = 0
        self.trans = 0
        self._live()
        e = Env()
        e.b, e.i, e.prev = 0, 0, None
        e.regs, e.mem, e.prop = {}, {}, {}
        e.past, e.ahead, e.q = (), (), start
        e.eof = e.fail = e.murky = False
        hooks.init(self, e)
        self.word = {}
        seen = {}
        k0 = self.key(e)
        seen[k0] = set()
        self.parent = {k0: None}
        work = [(k0, e)]
        pred = {}
        ends = set()
        while work:
            k, e = work.pop()
            self.states += 1
            if self.states > limit:
                self.lost.append("more than %d states" % limit)
                break
            outs, ended = self.block(e)
            if ended:
                ends.add(k)
            for n in outs:
                self.trans += 1
                kn = self.key(n)
                pred.setdefault(kn, set()).add(k)
                if kn not in seen:
                    seen[kn] = True
                    work.append((kn, n))
        # states that reach no end
        self.stuck = []
        if not self.lost:
            ok = set(ends)
            st = list(ends)
            while st:
                x = st.pop()
                for y in pred.get(x, ()):
                    if y not in ok:
                        ok.add(y)
                        st.append(y)
            self.stuck = [k for k in seen if k not in ok]

    # ---- liveness of registers at block entry
    def _live(self):
        fn = self.fn
        n = len(fn.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = {}

        def ops(d):
            out = []

            def w(x):
                if isinstance(x, bool):
                    return
                if isinstance(x, int):
                    out.append(x)
                elif isinstance(x, (list, tuple)) and x:
                    if x[0] == "ge":
                        w(x[1])
                    elif x[0] == "agg":
                        for y in x[1]:
                            w(y)
            for k in ("o", "args"):
                for x in d.get(k, []):
                    w(x)
            for k in ("base", "cond"):
                if k in d:
                    w(d[k])
            for v in d.get("var", []):
                w(v[0])
            return out
        for b, L in enumerate(fn.blocks):
            for X in L:
                if X.op == "phi":
                    for v, p in X.d["in"]:
                        if isinstance(v, int):
                            phiuse.setdefault(p, set()).add(v)
                else:
                    for r in ops(X.d):
                        if r not in dfn[b]:
                            use[b].add(r)
                dfn[b].add(X.i)
        live = [set(u) for u in use]
        ch_ = True
        while ch_:
            ch_ = False
            for b in range(n - 1, -1, -1):
                o = set(phiuse.get(b, ()))
                for s in fn.succ[b]:
                    o |= live[s]
                v = use[b] | (o - dfn[b])
                if v != live[b]:
                    live[b] = v
                    ch_ = True
        # the values of the block's own phis are known on entry
        self.live = [v | {X.i for X in fn.blocks[b] if X.op == "phi"} for b, v in enumerate(live)]

    def key(self, e):
        live = self.live[e.b]
        e.regs = {k: v for k, v in e.regs.items() if k in live}
        return (e.b, frozenset(e.regs.items()), frozenset(e.mem.items()), e.past, e.ahead, e.q, e.eof, e.fail, e.murky, frozenset(e.prop.items()))

    # ---- values
    def val(self, e, r):
        if isinstance(r, int):
            return e.regs.get(r, TOP)
        k = r[0]
        if k == "a":
            return ("p", ("arg", r[1]), 0)
        if k == "c":
            return NPOS if r[2] == 64 and r[1] == -1 else I(r[1] & 1 if r[2] == 1 else r[1])
        if k == "n":
            return ("null",)
        if k in ("g", "fn"):
            return ("p", ("g", r[1]), 0)
        if k == "ge":
            b = self.val(e, r[1])
            return ("p", b[1], b[2] + r[2]) if b[0] == "p" else TOP
        return TOP

    # ---- the input
    def options(self, e):
        if e.ahead:
            return None
        ts = self.g[e.q]
        if len(ts) == 1:
            e.ahead = (ts[0][0],)
            e.q = ts[0][1]
            return None
        out = []
        for t, q in ts:
            n = e.copy()
            n.ahead, n.q = (t,), q
            out.append(n)
        return out

    def tok(self, e):
        o = self.options(e)
        if o is not None:
            raise Fork(o)
        t = e.ahead[0]
        if isinstance(t, str):
            raise Lost(t)
        return t

    # ---- case distinctions on a text
    def refine(self, e, t, new):
        """the state in which the text t is the given sequence"""
        n = e.copy()

        def seq(ts):
            out = []
            for x in ts:
                if isinstance(x, tuple) and x[1] is t:
                    if len(new) != 1:
                        raise Lost("part of a divided text")
                    out.append((x[0], new[0]))
                elif x is t:
                    out += new
                else:
                    out.append(x)
            return tuple(out)

        def num(v):
            if v and v[0] == "i" and len(new) > 1 or v and v[0] == "i" and new and new[0].empty:
                d = dict(v[2])
                k = d.pop(t.name, 0)
                if k:
                    r = ("i", v[1], tuple(sorted(d.items())))
                    for x in new:
                        r = lin_add(r, Product.length(x), k)
                    return r
            if v and v[0] == "text":
                return ("text", seq(v[1]))
            return v
        n.past, n.ahead = seq(n.past), seq(n.ahead)
        n.mem = {k: num(v) for k, v in n.mem.items()}
        n.regs = {k: num(v) for k, v in n.regs.items()}
        n.prop = {k: seq(v) if k == ("typed",) and isinstance(v, tuple) else v for k, v in n.prop.items()}
        return n

    def fork_contains(self, e, t, c):
        raise Fork([self.refine(e, t, (t.lacking(c),)), self.refine(e, t, t.parts(c))])

    def fork_empty(self, e, t):
        raise Fork([self.refine(e, t, (t.filled(),)), self.refine(e, t, (t.void(),))])

    def eat(self, e):
        t = e.ahead[0]
        e.ahead = e.ahead[1:]
        e.past = (e.past + (t,))[-2 if e.q == "BAD" and not e.ahead else -6:]

    def firstch(self, t):
        if t.char is not None:
            return I(t.char)
        if t.first is not None:
            return I(ord(t.first))
        return ("ch", t.first_not)

    def split(self, e):
        """the first character of a text or value token is read on its own"""
        t = e.ahead[0]
        e.ahead = (("rest", t),) + e.ahead[1:]
        e.past = (e.past + (("first", t),))[-6:]

    def read1(self, e):
        """None at the end"""
        if e.eof or e.fail:
            e.fail = True
            return None
        if e.ahead and isinstance(e.ahead[0], tuple):
            raise Lost("reading on inside a text")
        t = self.tok(e)
        while t.empty:
            self.eat(e)
            t = self.tok(e)
        if t is EOF:
            e.eof = e.fail = True
            return None
        if t.text and not t.least:
            self.fork_empty(e, t)
        v = self.firstch(t)
        if t.char is not None:
            self.eat(e)
        else:
            self.split(e)
        return v

    def peek(self, e):
        if e.eof or e.fail:
            e.fail = True
            return I(-1)
        if e.ahead and isinstance(e.ahead[0], tuple):
            raise Lost("peek inside a text")
        t, k = self.tok(e), 0
        while t.empty:
            k += 1
            t = self.fetch(e, k)
        if t is EOF:
            e.eof = True
            return I(-1)
        if t.text and not t.least:
            self.fork_empty(e, t)
        return self.firstch(t)

    @staticmethod
    def length(t):
        if isinstance(t, tuple):
            if t[0] not in ("first", "rest"):
                raise Lost("inside a text")
            return I(1) if t[0] == "first" else I(-1, (t[1].name, 1))
        if t.empty:
            return I(0)
        if t.char is not None:
            return I(1)
        return I(0, (t.name, 1))

    def back(self, e, n):
        """seek back by n"""
        e.eof = False
        if e.fail:
            return
        z = I(0)
        while n != z:
            if not e.past:
                raise Lost("seek before what is known")
            t = e.past[-1]
            if not isinstance(t, tuple) and t.text and not t.empty and t.name not in dict(n[2]):
                if any(k < 0 for _, k in n[2]):
                    raise Lost("seek into the middle of a token")
                if not t.least:
                    self.fork_empty(e, t)
                if n[2]:
                    raise Lost("seek into the middle of a token")
                e.past = e.past[:-1] + (("head", t),)
                e.ahead = (("tail", t),) + e.ahead
                return
            n = lin_add(n, self.length(t), -1)
            if n[0] != "i" or n[1] < 0 or any(k < 0 for _, k in n[2]):
                raise Lost("seek into the middle of a token")
            e.past = e.past[:-1]
            if isinstance(t, tuple) and t[0] == "first" and e.ahead and e.ahead[0] == ("rest", t[1]):
                e.ahead = (t[1],) + e.ahead[1:]
            elif isinstance(t, tuple):
                raise Lost("seek into the middle of a token")
            else:
                e.ahead = (t,) + e.ahead

    def until(self, e, delim):
        """tokens up to the delimiter, which is consumed; (segments, found)"""
        segs = []
        if e.eof or e.fail:
            e.fail = True
            return None, False
        while True:
            # the whole token sequence is fetched before anything is consumed, so that a fork restarts the instruction
            t = self.fetch(e, len(segs), delim if len(segs) > 1 and e.q == "BAD" else None)
            if t is EOF:
                e.eof = True
                if not segs:
                    e.fail = True
                break
            base = t[1] if isinstance(t, tuple) else t
            if base.char is not None:
                segs.append(t)
                if base.char == delim:
                    break
            elif base.text:
                if isinstance(t, tuple) and t[0] != "rest":
                    raise Lost("inside a text")
                if chr(delim) not in base.without:
                    if isinstance(t, tuple):
                        raise Lost("a text may contain the delimiter")
                    self.fork_contains(e, t, chr(delim))
                segs.append(t)
            else:
                raise Lost("a nested value may contain the delimiter")
            if len(segs) > 12:
                raise Lost("no end in sight")
        out = []
        found = False
        for s in segs:
            self.eat(e)
            if not isinstance(s, tuple) and s.char == delim:
                found = True
            else:
                out.append(s)
        return tuple(out), found

    def fetch(self, e, n, only=None):
        while len(e.ahead) <= n:
            ts = self.g[e.q]
            if only and len(ts) > 2:
                # malformed input of any length: representatives of what can follow
                ts = [x for x in ts if x[0] is EOF or x[0].char == only]
            if len(ts) == 1:
                e.ahead, e.q = e.ahead + (ts[0][0],), ts[0][1]
            else:
                out = []
                for t, q in ts:
                    c = e.copy()
                    c.ahead, c.q = e.ahead + (t,), q
                    out.append(c)
                raise Fork(out)
        t = e.ahead[n]
        if isinstance(t, str):
            raise Lost(t)
        return t

    # ---- transfer
    def block(self, e0):
        outs, ended = [], False
        work = [e0.copy()]
        fn = self.fn
        while work:
            e = work.pop()
            L = fn.blocks[e.b]
            try:
                done = False
                while e.i < len(L):
                    X = L[e.i]
                    try:
                        r = self.instr(e, X)
                    except Fork as f:
                        # the instruction is repeated in every case
                        work += f.envs
                        done = True
                        break
                    if r is None:
                        e.i += 1
                        continue
                    kind, x = r
                    done = True
                    if kind == "go":
                        outs += x
                    elif kind == "end":
                        ended = True
                        self.exits.append((x, e, X))
                    elif kind == "dead":
                        ended = True
                    elif kind == "again":
                        work += x
                    break
            except Lost as x:
                ended = True
                self.lost.append("%s at %s" % (x, L[min(e.i, len(L) - 1)].loc()))
            except Bad as x:
                ended = True
                self.bad.append((e.murky, str(x), e, L[min(e.i, len(L) - 1)]))
        return outs, ended

    def goto(self, e, s, frm=None):
        n = e.copy()
        frm = e.b if frm is None else frm
        upd = {}
        for X in self.fn.blocks[s]:
            if X.op != "phi":
                break
            for v, p in X.d["in"]:
                if p == frm:
                    upd[X.i] = self.val(e, v)
        n.regs.update(upd)
        n.b, n.prev = s, frm
        n.i = sum(1 for X in self.fn.blocks[s] if X.op == "phi")
        return n

    def cmp(self, pred, a, b):
        if a == NPOS and b == NPOS:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        for x, y, sw in ((a, b, False), (b, a, True)):
            if x == NPOS and y[0] == "i":
                r = {"eq": False, "ne": True, "ult": sw, "ule": sw, "ugt": not sw, "uge": not sw}.get(pred)
                return r
            if x[0] == "ch" and y[0] == "i" and not y[2]:
                c = y[1]
                if c < 0 or c < 256 and chr(c & 255) in x[1]:
                    return {"eq": False, "ne": True}.get(pred)
                return None
            if x[0] == "late" and y[0] == "i":
                # a position behind the one compared with, or none
                if lin_add(y, x[1], -1)[1:] == (0, ()) or lin_add(y, x[1], -1)[0] == "i" and lin_add(y, x[1], -1)[1] <= 0 and not lin_add(y, x[1], -1)[2]:
                    return {"eq": False, "ne": True, "ult": sw, "ule": sw, "ugt": not sw, "uge": not sw}.get(pred)
                return None
        if a[0] == "i" and b[0] == "i":
            d = lin_add(a, b, -1)
            if not d[2]:
                v = d[1]
                return {"eq": v == 0, "ne": v != 0, "slt": v < 0, "sle": v <= 0, "sgt": v > 0, "sge": v >= 0,
                        "ult": v < 0, "ule": v <= 0, "ugt": v > 0, "uge": v >= 0}.get(pred)
            lo = d[1] if all(k > 0 for _, k in d[2]) else None       # lengths are not negative
            hi = d[1] if all(k < 0 for _, k in d[2]) else None
            if lo is not None:
                lo += sum(k * self.hooks.least(s) for s, k in d[2])
                if lo > 0:
                    return {"eq": False, "ne": True, "ugt": True, "uge": True, "ult": False, "ule": False, "sgt": True, "sge": True, "slt": False, "sle": False}.get(pred)
                if lo == 0:
                    return {"uge": True, "ult": False, "sge": True, "slt": False}.get(pred)
            if hi is not None:
                hi += sum(k * self.hooks.least(s) for s, k in d[2])
                if hi < 0:
                    return {"eq": False, "ne": True, "ugt": False, "uge": False, "ult": True, "ule": True, "sgt": False, "sge": False, "slt": True, "sle": True}.get(pred)
                if hi == 0:
                    return {"ule": True, "ugt": False, "sle": True, "sgt": False}.get(pred)
            return None
        if a[0] == "p" and b == ("null",) or b[0] == "p" and a == ("null",):
            return {"eq": False, "ne": True}.get(pred)
        if a == b and a != TOP:
            return {"eq": True, "ne": False}.get(pred)
        return None

    def truth(self, v):
        if v[0] == "i" and not v[2]:
            return v[1] != 0
        return None

    def decide(self, e, X, free):
        """a choice that the input leaves open; a second one about the same value may depend on the first"""
        if not free:
            return False
        old = e.prop.get(("freed",))
        e.prop[("freed",)] = X.i
        return old is None

    def instr(self, e, X):
        d, op = X.d, X.op
        if op in ("alloca",):
            e.regs[X.i] = ("p", ("al", X.i), 0)
            return None
        if op == "load":
            p = self.val(e, d["o"][0])
            if p[0] == "p" and p[1] == ARG0:
                e.regs[X.i] = ("vt",)
            elif p == ("vt",):
                e.regs[X.i] = ("vt",)
            elif p == FREE or self.hooks.isfree(self, e, p):
                e.regs[X.i] = FREE
            else:
                e.regs[X.i] = e.mem.get((p[1], p[2]), TOP) if p[0] == "p" else TOP
            return None
        if op == "store":
            p = self.val(e, d["o"][1])
            v = self.val(e, d["o"][0])
            if p[0] == "p":
                v = self.hooks.stored(self, e, p, v)
                if v == TOP:
                    e.mem.pop((p[1], p[2]), None)
                else:
                    e.mem[(p[1], p[2])] = v
            else:
                e.murky = True
            return None
        if op == "gep":
            b = self.val(e, d["base"])
            if b[0] == "p" and b[1] == ARG0:
                e.regs[X.i] = STREAM
            elif b in (("vt",), FREE):
                e.regs[X.i] = b
            elif b[0] == "p" and not d.get("var"):
                e.regs[X.i] = ("p", b[1], b[2] + d["off"])
            else:
                e.regs[X.i] = TOP
            return None
        if op in ("sext", "zext", "trunc", "freeze", "bitcast"):
            v = self.val(e, d["o"][0])
            if op == "trunc" and v[0] == "i" and not v[2] and d["t"] == "i8":
                v = I((v[1] + 128) % 256 - 128)
            elif op == "zext" and v[0] == "i" and not v[2] and v[1] < 0:
                v = I(v[1] % (1 << int(d["from"][1:]))) if str(d.get("from", "")).startswith("i") else TOP
            elif op == "trunc" and v == NPOS:
                v = I(-1)
            e.regs[X.i] = v
            return None
        if op in ("add", "sub"):
            a, b = self.val(e, d["o"][0]), self.val(e, d["o"][1])
            if b == NPOS:
                b = I(-1)
            if a == NPOS:
                a = TOP
            e.regs[X.i] = lin_add(a, b, 1 if op == "add" else -1)
            return None
        if op in ("and", "or", "xor"):
            a, b = self.val(e, d["o"][0]), self.val(e, d["o"][1])
            r = FREE if FREE in (a, b) and TOP not in (a, b) else TOP
            if a[0] == "i" and b[0] == "i" and not a[2] and not b[2]:
                r = I({"and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[op])
            elif op == "and" and I(0) in (a, b):
                r = I(0)
            elif op == "or" and d["t"] == "i1" and I(1) in (a, b):
                r = I(1)
            e.regs[X.i] = r
            return None
        if op == "icmp":
            a, b = self.val(e, d["o"][0]), self.val(e, d["o"][1])
            r = self.cmp(d["pred"], a, b)
            e.regs[X.i] = (FREE if FREE in (a, b) and TOP not in (a, b) else TOP) if r is None else I(1 if r else 0)
            return None
        if op == "select":
            c = self.truth(self.val(e, d["o"][0]))
            a, b = self.val(e, d["o"][1]), self.val(e, d["o"][2])
            if c is None and a != b:
                n1, n2 = e.copy(), e.copy()
                n1.murky = n2.murky = True
                n1.regs[X.i], n2.regs[X.i] = a, b
                n1.i += 1
                n2.i += 1
                return ("again", [n1, n2])
            e.regs[X.i] = a if c or c is None else b
            return None
        if op == "br":
            if "cond" not in d:
                return ("go", [self.goto(e, d["succ"][0])])
            c = self.truth(self.val(e, d["cond"]))
            if c is None:
                outs = []
                fr = self.decide(e, X, self.val(e, d["cond"]) == FREE or self.hooks.free(self, e, d["cond"]))
                for s in d["succ"]:
                    n = self.goto(e, s)
                    n.murky = n.murky or not fr
                    outs.append(n)
                return ("go", outs)
            return ("go", [self.goto(e, d["succ"][0 if c else 1])])
        if op == "switch":
            v = self.val(e, d["cond"])
            dflt = d["default"]
            hit, und = None, []
            for k, s in d["cases"]:
                r = self.cmp("eq", v, I(k))
                if r is True:
                    hit = s
                    break
                if r is None:
                    und.append(s)
            if hit is not None:
                return ("go", [self.goto(e, hit)])
            outs = []
            fr = not und or v == FREE and self.decide(e, X, True)
            for s in dict.fromkeys(und + [dflt]):
                n = self.goto(e, s)
                n.murky = n.murky or not fr
                outs.append(n)
            return ("go", outs)
        if op == "ret":
            return ("end", "ret")
        if op == "resume":
            return ("end", "throw")
        if op == "unreachable":
            return ("dead", None)
        if op in ("call", "invoke"):
            return self.call(e, X)
        if op == "landingpad":
            if d.get("clauses"):
                raise Lost("a handler")
            e.regs[X.i] = TOP
            return None
        e.regs[X.i] = TOP
        return None

    def name(self, X):
        c = X.callee()
        return self.m.short(c) if c else None

    def call(self, e, X):
        name = self.name(X)
        args = [self.val(e, a) for a in X.d.get("args", [])]
        if name == "__cxa_throw":
            if X.op == "invoke" and self.fn.blocks[X.d["succ"][1]][0].op == "landingpad" and any(
                    J.d.get("clauses") for J in self.fn.blocks[X.d["succ"][1]] if J.op == "landingpad"):
                raise Lost("a handler")
            return ("end", "throw")
        if name in ("__cxa_begin_catch", "__cxa_rethrow"):
            raise Lost("a handler")
        r = self.stream(e, X, name, args)
        if name in ("std::char_traits::eof",):
            r = I(-1)
        elif name in ("std::char_traits::to_int_type", "std::char_traits::to_char_type", "std::char_traits::not_eof") and args:
            r = args[0]
        elif name in ("std::char_traits::eq", "std::char_traits::eq_int_type") and len(args) == 2:
            c = self.cmp("eq", args[0], args[1])
            r = TOP if c is None else I(1 if c else 0)
        if r is None:
            r = self.hooks.call(self, e, X, name, args)
        if r is None:
            # an unknown call: it may write whatever it gets the address of
            if any(a[0] == "p" and a[1] == ARG0 for a in args):
                raise Lost("the stream is passed to %s" % name)
            for a in args:
                if a[0] == "p":
                    if a[1][0] in ("arg",) or self.hooks.tracked(self, e, a):
                        e.murky = True
                    for k in [k for k in e.mem if k[0] == a[1]]:
                        del e.mem[k]
            r = TOP
        if r == ("throws",):
            return ("end", "throw")
        if isinstance(r, tuple) and r[:1] == ("either",):
            # returns the value, or throws
            self.exits.append(("throw", e.copy(), X))
            r = r[1]
        if X.d.get("t") != "void":
            e.regs[X.i] = r
        if X.op == "invoke":
            return ("go", [self.goto(e, X.d["succ"][0])])
        return None

    def stream(self, e, X, name, args):
        on = bool(args) and args[0][0] == "p" and args[0][1] == ARG0
        if not on or not name:
            return None
        n = name.split("::")[-1]
        if name.startswith("std::istream::") or name.startswith("std::basic_istream::"):
            if n == "read" and args[2] == I(1) and args[1][0] == "p":
                v = self.read1(e)
                if v is not None:
                    e.mem[(args[1][1], args[1][2])] = v
                return STREAM
            if n == "get" and len(args) == 1:
                v = self.read1(e)
                return I(-1) if v is None else v
            if n == "get" and len(args) == 2 and args[1][0] == "p":
                v = self.read1(e)
                if v is not None:
                    e.mem[(args[1][1], args[1][2])] = v
                return STREAM
            if n == "peek":
                return self.peek(e)
            if n in ("unget", "putback"):
                e.eof = False
                self.back(e, I(1))
                return STREAM
            if n == "seekg" and len(args) == 3 and args[2] == I(1):
                off = args[1]
                if off == NPOS:
                    off = I(-1)
                if off[0] != "i":
                    raise Lost("seek by an unknown distance")
                neg = ("i", -off[1], tuple((s, -k) for s, k in off[2]))
                if not neg[2] and neg[1] < 0:
                    e.eof = False
                    for _ in range(off[1]):
                        if not e.fail:
                            t = self.tok(e)
                            if t.char is None:
                                raise Lost("seek over a text")
                            if t is EOF:
                                raise Lost("seek over the end")
                            self.eat(e)
                    return STREAM
                self.back(e, neg)
                return STREAM
            if n == "ignore" and (len(args) == 1 or args[1] == I(1)):
                self.read1(e)
                return STREAM
            if n == "sync":
                return I(0)
            if n.startswith("operator bool"):
                return I(0 if e.fail else 1)
            return None
        if name.startswith("std::basic_ios::") or name.startswith("std::ios"):
            if n == "operator!" or n == "fail":
                return I(1 if e.fail else 0)
            if n.startswith("operator bool"):
                return I(0 if e.fail else 1)
            if n == "eof":
                return I(1 if e.eof else 0)
            if n == "good":
                return I(0 if e.eof or e.fail else 1)
            if n == "bad":
                return I(0)
            if n == "clear" and len(args) == 2 and args[1] == I(0):
                e.eof = e.fail = False
                return TOP
            return None
        if name == "std::getline" and len(args) in (2, 3) and args[1][0] == "p":
            dl = args[2] if len(args) == 3 else I(10)
            if dl[0] != "i" or dl[2]:
                raise Lost("unknown delimiter")
            segs, found = self.until(e, dl[1] & 255)
            if segs is not None:
                e.mem[(args[1][1], args[1][2])] = ("text", segs)
                self.hooks.texted(self, e, args[1])
            return STREAM
        return None
