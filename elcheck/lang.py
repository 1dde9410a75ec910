"""Regular languages: ECMAScript patterns as position automata, and the joint
exploration of several of them (the reachable combinations of membership)."""


class Unsupported(Exception):
    pass


NOTLT = frozenset(range(256)) - {10, 13}
DIGIT = frozenset(range(48, 58))
WORD = DIGIT | frozenset(range(65, 91)) | frozenset(range(97, 123)) | {95}
SPACE = frozenset((32, 9, 10, 11, 12, 13))
ALL = frozenset(range(256))
NAMED = {"d": DIGIT, "D": ALL - DIGIT, "w": WORD, "W": ALL - WORD, "s": SPACE, "S": ALL - SPACE}
CTRL = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "0": 0}
POSIX = {"digit": DIGIT, "alpha": frozenset(range(65, 91)) | frozenset(range(97, 123)), "space": SPACE,
         "alnum": WORD - {95}, "upper": frozenset(range(65, 91)), "lower": frozenset(range(97, 123)), "d": DIGIT, "w": WORD, "s": SPACE,
         "xdigit": DIGIT | frozenset(range(65, 71)) | frozenset(range(97, 103))}


class Parser(object):
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self, first=True, last=True):
        out = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            out.append(self.cat())
        return ("alt", out) if len(out) > 1 else out[0]

    def cat(self):
        out = []
        while self.peek() not in (None, "|", ")"):
            out.append(self.rep())
        return ("cat", out)

    def rep(self):
        a = self.atom()
        while True:
            c = self.peek()
            if c == "*":
                a, n = ("rep", a, 0, None), 1
            elif c == "+":
                a, n = ("rep", a, 1, None), 1
            elif c == "?":
                a, n = ("rep", a, 0, 1), 1
            elif c == "{":
                j = self.s.index("}", self.i)
                q = self.s[self.i + 1:j].split(",")
                lo = int(q[0])
                hi = lo if len(q) == 1 else (int(q[1]) if q[1] else None)
                a, n = ("rep", a, lo, hi), j - self.i + 1
            else:
                return a
            self.i += n
            if self.peek() == "?":      # laziness does not change the language
                self.i += 1

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        if c in NAMED:
            return NAMED[c]
        if c == "x":
            v = int(self.s[self.i:self.i + 2], 16)
            self.i += 2
            return frozenset([v])
        if c in CTRL:
            return frozenset([CTRL[c]])
        if c.isalnum():
            raise Unsupported("escape " + c)
        return frozenset([ord(c)])

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            if self.peek() == "?":
                if self.s[self.i + 1] != ":":
                    raise Unsupported("lookaround")
                self.i += 2
            a = self.alt()
            if self.peek() != ")":
                raise Unsupported("unbalanced")
            self.i += 1
            return a
        if c == "[":
            return ("set", self.cls())
        if c == ".":
            return ("set", NOTLT)
        if c == "\\":
            return ("set", self.esc())
        if c in "^$":
            return ("anchor", c)
        if c in "*+?{":
            raise Unsupported("quantifier")
        return ("set", frozenset([ord(c)]))

    def cls(self):
        inv = self.peek() == "^"
        if inv:
            self.i += 1
        out = set()
        first = True
        while self.peek() != "]" or first and False:
            if self.peek() is None:
                raise Unsupported("class")
            first = False
            c = self.s[self.i]
            self.i += 1
            if c == "[" and self.peek() == ":":
                j = self.s.index(":]", self.i)
                out |= POSIX[self.s[self.i + 1:j]]
                self.i = j + 2
                continue
            lo = self.esc() if c == "\\" else frozenset([ord(c)])
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]" and len(lo) == 1:
                self.i += 1
                d = self.s[self.i]
                self.i += 1
                hi = self.esc() if d == "\\" else frozenset([ord(d)])
                out |= set(range(min(lo), max(hi) + 1))
            else:
                out |= lo
        self.i += 1
        return frozenset(ALL - out if inv else out)


class NFA(object):
    def __init__(self):
        self.eps = []
        self.tr = []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, n, s, first, last):
        """fragment for node n from state s; first/last: nothing can precede/follow"""
        k = n[0]
        if k == "set":
            t = self.new()
            self.tr[s].append((n[1], t))
            return t
        if k == "anchor":
            if (n[1] == "^" and not first) or (n[1] == "$" and not last):
                raise Unsupported("anchor inside a pattern")
            return s
        if k == "cat":
            xs = n[1]
            lead = 0
            while lead < len(xs) and xs[lead] == ("anchor", "^"):
                lead += 1
            tail = len(xs)
            while tail > 0 and xs[tail - 1] == ("anchor", "$"):
                tail -= 1
            for i, x in enumerate(xs):
                s = self.build(x, s, first and i <= lead, last and i >= tail - 1)
            return s
        if k == "alt":
            t = self.new()
            for x in n[1]:
                a = self.new()
                self.eps[s].append(a)
                self.eps[self.build(x, a, first, last)].append(t)
            return t
        if k == "rep":
            _, x, lo, hi = n
            single = hi == 1
            f, l = first and single, last and single
            for _ in range(lo):
                s = self.build(x, s, f if lo == 1 and hi == 1 else False, l if lo == 1 and hi == 1 else False)
            if hi is None:
                a = self.new()
                self.eps[s].append(a)
                b = self.build(x, a, False, False)
                self.eps[b].append(a)
                t = self.new()
                self.eps[a].append(t)
                return t
            t = self.new()
            self.eps[s].append(t)
            for _ in range(hi - lo):
                s = self.build(x, s, f, l)
                self.eps[s].append(t)
            return t
        raise Unsupported(k)

    def close(self, ss):
        out, st = set(ss), list(ss)
        while st:
            for t in self.eps[st.pop()]:
                if t not in out:
                    out.add(t)
                    st.append(t)
        return frozenset(out)


ANY = ("rep", ("set", ALL), 0, None)


def searched(ast):
    """the texts that contain a match of the pattern"""
    if ast[0] == "alt":
        return ("alt", [searched(x) for x in ast[1]])
    xs = list(ast[1]) if ast[0] == "cat" else [ast]
    head = xs and xs[0] == ("anchor", "^")
    tail = xs and xs[-1] == ("anchor", "$")
    xs = [x for x in xs if x[0] != "anchor"]
    return ("cat", ([] if head else [ANY]) + xs + ([] if tail else [ANY]))


def folded(ast):
    """the same pattern, letters of either case"""
    if ast[0] == "set":
        return ("set", ast[1] | frozenset(c ^ 32 for c in ast[1] if 65 <= (c & ~32) <= 90))
    if ast[0] in ("cat", "alt"):
        return (ast[0], [folded(x) for x in ast[1]])
    if ast[0] == "rep":
        return ("rep", folded(ast[1])) + tuple(ast[2:])
    return ast


def lengths(lo, hi=None):
    """texts of at least lo and at most hi characters"""
    return Lang(ast=("rep", ("set", ALL), lo, hi))


def char_at(k, cs):
    """texts with a character of cs at position k (from the end when negative)"""
    one = ("set", frozenset(cs))
    if k < 0:
        return Lang(ast=("cat", [ANY, one, ("rep", ("set", ALL), -k - 1, -k - 1)]))
    return Lang(ast=("cat", [("rep", ("set", ALL), k, k), one, ANY]))


class Lang(object):
    """a regular language given by an ECMAScript pattern or a literal"""

    def __init__(self, pattern=None, literal=None, icase=False, ast=None, search=False):
        self.n = NFA()
        s = self.n.new()
        if literal is not None:
            for c in literal:
                t = self.n.new()
                self.n.tr[s].append((frozenset([c]), t))
                s = t
            self.acc = s
        else:
            if ast is None:
                p = Parser(pattern)
                ast = p.alt()
                if p.i != len(pattern):
                    raise Unsupported("unbalanced pattern")
            if search:
                ast = searched(ast)
            if icase:
                ast = folded(ast)
            self.acc = self.n.build(ast, s, True, True)
        self.start = self.n.close([0])

    def step(self, ss, c):
        return self.n.close([t for s in ss for cs, t in self.n.tr[s] if c in cs])

    def accepts(self, ss):
        return self.acc in ss

    def sets(self):
        return {cs for tr in self.n.tr for cs, _ in tr}


def explore(langs, limit=200000):
    """all reachable membership vectors with one shortest witness each"""
    sets = {cs for l in langs for cs in l.sets()}
    reps = {}
    for c in range(256):
        reps.setdefault(tuple(c in s for s in sorted(sets, key=sorted)), c if not (32 < c < 127) else c)
    # prefer printable representatives
    for c in range(33, 127):
        k = tuple(c in s for s in sorted(sets, key=sorted))
        if not 32 < reps[k] < 127:
            reps[k] = c
    alpha = sorted(reps.values())
    start = tuple(l.start for l in langs)
    seen = {start: ""}
    out = {}
    todo = [start]
    while todo:
        nxt = []
        for st in todo:
            v = tuple(l.accepts(s) for l, s in zip(langs, st))
            out.setdefault(v, seen[st])
            for c in alpha:
                t = tuple(l.step(s, c) for l, s in zip(langs, st))
                if t not in seen:
                    seen[t] = seen[st] + chr(c)
                    nxt.append(t)
                    if len(seen) > limit:
                        raise Unsupported("too many states")
        todo = nxt
    return out, len(seen)
