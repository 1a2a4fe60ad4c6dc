"""Regular languages over bytes: RE2/flex style patterns, automata, inclusion with a shortest witness.

A language is (start, transitions, accept) of a lazily determinised automaton: objects with start(), step(state, byte), acc(state).
"""
from collections import deque

ALL = (1 << 256) - 1


class Bad(Exception):
    """a construct of the pattern language that has no rule"""


def bits(*cs):
    m = 0
    for c in cs:
        if isinstance(c, tuple):
            for k in range(c[0], c[1] + 1):
                m |= 1 << k
        else:
            m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


DIGIT = bits((48, 57))
WORD = bits((48, 57), (65, 90), (97, 122), 95)
SPACE = bits(" ", "\t", "\n", "\r", "\f")
NOTNL = ALL & ~bits("\n")
CLS = {"d": DIGIT, "D": ALL & ~DIGIT, "w": WORD, "W": ALL & ~WORD, "s": SPACE, "S": ALL & ~SPACE}
ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7}
NAMED = {"alpha": bits((65, 90), (97, 122)), "digit": DIGIT, "alnum": bits((48, 57), (65, 90), (97, 122)), "space": bits((9, 13), 32), "blank": bits(9, 32),
         "upper": bits((65, 90)), "lower": bits((97, 122)), "xdigit": bits((48, 57), (65, 70), (97, 102)),
         "punct": bits((33, 47), (58, 64), (91, 96), (123, 126))}


# ---- syntax: ("set", mask) ("cat", [..]) ("alt", [..]) ("rep", x, lo, hi|None) ("grp", x, n) ("and", x, y)
class Parser(object):
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def parse(self):
        if self.s.startswith("^"):
            self.i = 1
        r = self.alt()
        if self.i != len(self.s):
            raise Bad("unbalanced ) in %r" % self.s)
        return r

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while self.peek() not in ("", "|", ")"):
            if self.peek() == "$" and self.i == len(self.s) - 1:
                self.i += 1
                break
            xs.append(self.post())
        return ("cat", xs)

    def post(self):
        x = self.atom()
        while self.peek() in ("*", "+", "?", "{") and self.peek():
            c = self.peek()
            self.i += 1
            if c == "{":
                j = self.s.index("}", self.i)
                b = self.s[self.i:j].split(",")
                self.i = j + 1
                try:
                    lo = int(b[0])
                    hi = lo if len(b) == 1 else (int(b[1]) if b[1] else None)
                except ValueError:
                    raise Bad("repeat in %r" % self.s)
                x = ("rep", x, lo, hi)
            else:
                x = ("rep", x, 1 if c == "+" else 0, 1 if c == "?" else None)
            if self.peek() == "?":      # a lazy repeat matches the same whole strings
                self.i += 1
        return x

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            n = None
            if self.s.startswith("?", self.i):
                if self.s.startswith("?:", self.i):
                    self.i += 2
                elif self.s.startswith("?P<", self.i):
                    self.i = self.s.index(">", self.i) + 1
                    n = self.n
                    self.n += 1
                else:
                    raise Bad("group flags in %r" % self.s)
            else:
                n = self.n
                self.n += 1
            r = self.alt()
            if self.peek() != ")":
                raise Bad("missing ) in %r" % self.s)
            self.i += 1
            return r if n is None else ("grp", r, n)
        if c == "[":
            return ("set", self.cls())
        if c == ".":
            return ("set", NOTNL)
        if c == "\\":
            return ("set", self.esc())
        if c in ("*", "+", "?", "^", "$"):
            raise Bad("%r in %r" % (c, self.s))
        o = ord(c)
        if o > 255:
            raise Bad("a character beyond bytes in %r" % self.s)
        return ("set", 1 << o)

    def esc(self):
        c = self.peek()
        self.i += 1
        if c in CLS:
            return CLS[c]
        if c in ESC:
            return 1 << ESC[c]
        if c == "x":
            h = self.s[self.i:self.i + 2]
            self.i += 2
            try:
                return 1 << int(h, 16)
            except ValueError:
                raise Bad("escape in %r" % self.s)
        if c == "" or c.isalnum():
            raise Bad("escape \\%s in %r" % (c, self.s))
        return 1 << ord(c)

    def cls(self):
        neg = self.peek() == "^"
        if neg:
            self.i += 1
        m, first = 0, True
        while self.peek() != "]" or first:
            if not self.peek():
                raise Bad("missing ] in %r" % self.s)
            first = False
            if self.s.startswith("[:", self.i):
                j = self.s.index(":]", self.i)
                k = self.s[self.i + 2:j]
                self.i = j + 2
                if k not in NAMED:
                    raise Bad("class [:%s:]" % k)
                m |= NAMED[k]
                continue
            lo = self.one()
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]" and bin(lo).count("1") == 1:
                self.i += 1
                hi = self.one()
                m |= bits((lo.bit_length() - 1, hi.bit_length() - 1))
            else:
                m |= lo
        self.i += 1
        return ALL & ~m if neg else m

    def one(self):
        c = self.peek()
        self.i += 1
        if c == "\\":
            return self.esc()
        if ord(c) > 255:
            raise Bad("a character beyond bytes in %r" % self.s)
        return 1 << ord(c)


def parse(s):
    try:
        return Parser(s).parse()
    except (ValueError, IndexError):
        raise Bad("cannot read the pattern %r" % s)


def constrain(t, f):
    """intersect every group n with the language f(n) (a syntax tree) when that is not None"""
    k = t[0]
    if k == "grp":
        x = constrain(t[1], f)
        c = f(t[2])
        return x if c is None else ("and", x, c)
    if k in ("cat", "alt"):
        return (k, [constrain(x, f) for x in t[1]])
    if k == "rep":
        return (k, constrain(t[1], f), t[2], t[3])
    return t


def groups(t):
    k = t[0]
    if k == "grp":
        return 1 + groups(t[1])
    if k in ("cat", "alt"):
        return sum(groups(x) for x in t[1])
    if k == "rep":
        return groups(t[1])
    return 0


class NFA(object):
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, t, a, b):
        k = t[0]
        if k == "set":
            self.tr[a].append((t[1], b))
        elif k == "cat":
            cur = a
            for x in t[1]:
                n = self.new()
                self.build(x, cur, n)
                cur = n
            self.eps[cur].append(b)
        elif k == "alt":
            for x in t[1]:
                self.build(x, a, b)
        elif k == "grp":
            self.build(t[1], a, b)
        elif k == "rep":
            cur = a
            for _ in range(t[2]):
                n = self.new()
                self.build(t[1], cur, n)
                cur = n
            if t[3] is None:
                h = self.new()
                self.eps[cur].append(h)
                n = self.new()
                self.build(t[1], h, n)
                self.eps[n].append(h)
                self.eps[h].append(b)
            else:
                self.eps[cur].append(b)
                for _ in range(t[3] - t[2]):
                    n = self.new()
                    self.build(t[1], cur, n)
                    cur = n
                    self.eps[cur].append(b)
        elif k == "and":
            d = And(Lang(t[1]), Lang(t[2]))
            m, q = {d.start(): a}, deque([d.start()])
            blocks = partition([d])
            while q:
                s = q.popleft()
                if d.acc(s):
                    self.eps[m[s]].append(b)
                for mask, rep_ in blocks:
                    n = d.step(s, rep_)
                    if n not in m:
                        m[n] = self.new()
                        q.append(n)
                    self.tr[m[s]].append((mask, m[n]))
        else:
            raise Bad(k)


class Lang(object):
    """the language of a syntax tree"""

    def __init__(self, t):
        self.n = NFA()
        a, self.f = self.n.new(), self.n.new()
        # the accepting node must not be entered from the middle of a loop that also leaves it: it has no way out
        self.n.build(t, a, self.f)
        self.a = a
        self.memo = {}

    def masks(self):
        return [m for l in self.n.tr for m, _ in l]

    def close(self, ss):
        seen, q = set(ss), list(ss)
        while q:
            s = q.pop()
            for t in self.n.eps[s]:
                if t not in seen:
                    seen.add(t)
                    q.append(t)
        return frozenset(seen)

    def start(self):
        return self.close([self.a])

    def step(self, ss, c):
        k = (ss, c)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.close({t for s in ss for m, t in self.n.tr[s] if m >> c & 1})
        return r

    def acc(self, ss):
        return self.f in ss


class Comb(object):
    def __init__(self, *ls):
        self.ls = ls

    def masks(self):
        return [m for l in self.ls for m in l.masks()]

    def start(self):
        return tuple(l.start() for l in self.ls)

    def step(self, s, c):
        return tuple(l.step(x, c) for l, x in zip(self.ls, s))


class And(Comb):
    def acc(self, s):
        return all(l.acc(x) for l, x in zip(self.ls, s))


class Or(Comb):
    def acc(self, s):
        return any(l.acc(x) for l, x in zip(self.ls, s))


class Not(Comb):
    def acc(self, s):
        return not self.ls[0].acc(s[0])


def rx(s):
    return Lang(parse(s))


def lit(s):
    return Lang(("cat", [("set", 1 << ord(c)) for c in s]))


def prefix(s):
    return Lang(("cat", [("set", 1 << ord(c)) for c in s] + [("rep", ("set", ALL), 0, None)]))


ANY = ("rep", ("set", ALL), 0, None)


def partition(ls):
    """classes of bytes no automaton distinguishes: [(mask, representative)]"""
    blocks = [ALL]
    for m in {m for l in ls for m in l.masks()}:
        nb = []
        for b in blocks:
            x, y = b & m, b & ~m
            if x:
                nb.append(x)
            if y:
                nb.append(y)
        blocks = nb
    out = []
    for b in blocks:
        # a printable representative when there is one
        pr = b & bits((32, 126))
        al = b & bits((97, 122), (48, 57))
        p = al or pr or b
        out.append((b, (p & -p).bit_length() - 1))
    return sorted(out, key=lambda x: x[1])


def find(l, limit=200000):
    """a shortest member of the language, or None when it is empty"""
    blocks = partition([l])
    s = l.start()
    seen = {s: None}
    q = deque([s])
    while q:
        s = q.popleft()
        if l.acc(s):
            w = []
            while seen[s] is not None:
                s, c = seen[s]
                w.append(chr(c))
            return "".join(reversed(w))
        for _, c in blocks:
            n = l.step(s, c)
            if n not in seen:
                seen[n] = (s, c)
                q.append(n)
                if len(seen) > limit:
                    raise Bad("too many states")
    return None


def outside(a, b):
    """a shortest member of a that is not in b, or None"""
    return find(And(a, Not(b)))
