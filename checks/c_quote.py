"""C32: what a string literal denotes.

The decoder is read as a finite transducer: one turn of its loop looks at the next one or two characters of the
literal, appends characters and moves on.  Its turns come from the symbolic paths of the loop body; they are compared,
character class by character class, with the transducer of the language (a backslash is dropped, \\n is a newline).
"""
from common import *
from engine import Undecided
from trans import ev, Unknown, byteval
import c_parse
import c_syntax
from collections import deque

R32 = "a literal denotes its characters with the escapes resolved"
NPOS = 18446744073709551615

ESCAPED = {ord(c): ord(c) for c in "'\"?\\"}
ESCAPED[ord("n")] = 10


def reference(state, c):
    """(next state, emitted) of the language on one character, None when no literal goes on like that"""
    if state == "E":
        return ("N", (ESCAPED[c],)) if c in ESCAPED else None
    if c == 92:
        return ("E", ())
    if c in (34, 10):
        return None
    return ("N", (c,))


class Decoder(object):
    def __init__(self, ctx, fn, eng, exits):
        self.ctx, self.fn, self.eng = ctx, fn, eng
        ls = [r for r in eng.loops.values() if r["steps"]]
        if len(ls) != 1:
            raise Undecided("%d loops over the characters" % len(ls))
        self.loop = ls[0]
        if self.loop["early"]:
            raise Undecided("the loop over the characters (line %s) can be left early" % self.loop["line"])
        self.key = self.loop["key"]
        self.pre = self.loop["pre"]
        self.steps = self.loop["steps"]
        self.exits = exits
        rs = [r for r in self.pre.store if r.op == "P" and r.a[0] == fn["params"][0]["n"]] or [mk("P", fn["params"][0]["n"])]
        self.root = rs[0]
        self.src = mk("init", self.root)
        self.texts = {}
        for r, v in list(self.pre.store.items()):
            if hasattr(v, "op") and self.extent(v, 7) is not None:
                self.texts[r] = v
        self.ptrs = {mk("ptr", r): v for r, v in list(self.texts.items()) + [(self.root, self.src)]}
        self.result()
        if self.bad is None:
            self.reader()
            self.flagged()

    # -- results
    def result(self):
        """which variable holds the text, and the one with its length when it is cut in the end"""
        self.out = self.count = odd = None
        for x in self.exits:
            if x.val is VOID or not hasattr(x.val, "op") or x.val.op != "ptr":
                raise Undecided("the result is %r" % (x.val,))
            v = self.eng.read(x.st, self.eng.deref(x.st, x.val))
            if self.short(x):
                continue
            n = None
            if v.op == "out" and v.a[0].op == "call" and v.a[0].a[0].endswith("string::erase") and (len(v.a[0].a) < 4 or v.a[0].a[3] is I(NPOS)):
                v, n = v.a[0].a[1], v.a[0].a[2]
            elif v.op == "resized":
                v, n = v.a[0], v.a[1]
            elif v.op == "new" and len(v.a) == 4 and v.a[0] == "string" and v.a[2] is I(0):
                v, n = v.a[1], v.a[3]
            elif v.op == "substr" and v.a[1] is I(0):
                v, n = v.a[0], v.a[2]
            if v.op != "lv" or v.a[0] != self.key:
                if v is self.src:
                    self.bad = "the result is %r" % (v,)
                odd = odd or "the result is %r" % (v,)
                continue
            o, c = (v.a[1], tuple(v.a[2:])), None
            if n is not None:
                l = self.linear(n)
                if l is not None and l[1] != 0 and l[0].op == "lv" and l[0].a[0] == self.key:
                    self.bad = "the text ends %+d characters from where it was written" % l[1]
                    n = l[0]
                if n.op != "lv" or n.a[0] != self.key:
                    odd = odd or "the result is cut to %r" % (n,)
                    continue
                c = (n.a[1], tuple(n.a[2:]))
            if self.out is not None and (self.out, self.count) != (o, c):
                raise Undecided("different results on different ways")
            self.out, self.count = o, c
        if odd and not self.bad:
            raise Undecided(odd)
        if self.out is None:
            raise Undecided(odd or "no result")

    def short(self, x):
        """an exit only texts shorter than two quotes can take"""
        for n in range(2, 9):
            ok = True
            for f, v in x.st.facts.items():
                try:
                    if bool(self.num(f, n, None)) != v:
                        ok = False
                except Unknown:
                    pass
            if ok:
                return False
        return True

    # -- sizes and positions
    def num(self, t, n, f):
        """value of a size or position term for a literal of n characters when the reading position is f (absolute)"""
        env = {}
        for x in subterms(t):
            if x.op == "size":
                k = self.extent(x.a[0], n)
                if k is not None:
                    env[x] = k[1] - k[0]
            elif x.op == "lv" and self.pos is not None and x is self.pos and f is not None:
                env[x] = f - self.base
            elif x.op == "it" and len(x.a) == 2 and hasattr(x.a[1], "op") and x.a[1].op == "idx":
                try:
                    env[x] = self.num(x.a[1].a[0], n, f)
                except Unknown:
                    pass
        return ev(t, env)

    pos = None
    base = 0

    def extent(self, v, n):
        """(begin, end) in the literal of the text v"""
        if v is self.src:
            return 0, n
        if v.op == "lv" and len(v.a) == 2 and v.a[1] in self.texts:
            return self.extent(self.texts[v.a[1]], n)
        if v.op == "substr":
            b = self.extent(v.a[0], n)
            if b is None:
                return None
            try:
                a = self.num(v.a[1], n, None)
                l = self.num(v.a[2], n, None) if len(v.a) > 2 else NPOS
            except (Unknown, IndexError):
                return None
            a = b[0] + a
            return a, min(b[1], a + l) if l >= 0 else b[1]
        return None

    def offset(self, v):
        e = self.extent(v, 7)
        return None if e is None else e[0]

    def reader(self):
        """the variable that counts through the literal"""
        self.elem = None
        if self.loop["cont"] is not None:
            v = self.loop["cont"]
            for n in range(2, 9):
                e = self.extent(v, n)
                if e is None:
                    raise Undecided("the loop runs over %r" % (v,))
                if e != (1, n - 1):
                    self.wrongrange = (n, e)
            if self.loop["rev"]:
                self.wrongrange = (0, "backwards")
            self.elem = v
            return
        cands = {}
        for h, b in self.steps:
            for f in list(b.facts) + [b.store.get(self.out[0])]:
                if f is None:
                    continue
                for x in subterms(f):
                    c = self.rawcell(x)
                    if c is not None:
                        cands[c[0]] = c[1]
        if len(cands) != 1:
            raise Undecided("the characters are read through %r" % (sorted(map(repr, cands)),))
        self.pos, self.base = list(cands.items())[0]
        if self.pos.op != "lv" or self.pos.a[0] != self.key:
            raise Undecided("the characters are read at %r" % (self.pos,))
        self.posloc = (self.pos.a[1], tuple(self.pos.a[2:]))
        v = self.eng.read(self.pre, self.posloc)
        if v.op == "it" and v.a[0] in self.ptrs:
            v = v.a[1].a[0]
        if v.op != "i":
            raise Undecided("reading starts at %r" % (v,))
        self.start = v.a[0] + self.base
        # the condition of the loop
        h = self.steps[0][0]
        conds = [(f, w) for f, w in h.facts.items() if self.pre.facts.get(f) != w]
        if not conds:
            raise Undecided("the loop at line %s has no condition" % self.loop["line"])
        self.guards = []
        for n in range(2, 9):
            for f in range(self.start, n):
                go = True
                for c, w in conds:
                    if self.cells(c):
                        if (c, w) not in self.guards:
                            self.guards.append((c, w))
                        continue
                    try:
                        go = go and bool(self.num(c, n, f)) == w
                    except Unknown as x:
                        raise Undecided("the condition of the loop: %s" % (x,))
                if go and f == n - 1 and self.guards:
                    try:
                        go = self.passes((34, 0))
                    except Look:
                        raise Undecided("the condition of the loop looks past the literal")
                if go != (f < n - 1):
                    self.wrongrange = (n, f, go)

    wrongrange = None
    bad = None
    guards = ()

    def passes(self, cs):
        """the loop goes on before these characters"""
        try:
            return all(bool(ev(c, self.env(c, cs))) == w for c, w in self.guards)
        except Unknown as x:
            raise Undecided("the condition of the loop: %s" % (x,))

    def linear(self, t):
        """(variable, number) of variable + number"""
        c = 0
        while t.op in ("+", "itstep"):
            if t.op == "itstep":
                c += 1 if t.a[1] is True or t.a[1] is TRUE else -1
                t = t.a[0]
                continue
            ks = [x for x in t.a if x.op == "i"]
            vs = [x for x in t.a if x.op != "i"]
            if len(vs) != 1:
                return None
            c += sum(x.a[0] for x in ks)
            t = vs[0]
        return t, c

    def rawcell(self, x):
        """(variable, offset of its text in the literal, number) when x reads a character of the literal"""
        if x.op == "init" and x.a[0] is self.root and len(x.a) == 2 and hasattr(x.a[1], "op") and x.a[1].op == "idx":
            l = self.linear(x.a[1].a[0])
            return l and (l[0], 0, l[1])
        if x.op == "lv" and x.a[0] == self.key and x.a[1] in self.texts and len(x.a) == 3 and hasattr(x.a[2], "op") and x.a[2].op == "idx":
            l = self.linear(x.a[2].a[0])
            return l and (l[0], self.offset(self.texts[x.a[1]]), l[1])
        if x.op == "proj" and hasattr(x.a[1], "op") and x.a[1].op == "idx":
            o = self.offset(x.a[0])
            l = self.linear(x.a[1].a[0])
            return l and o is not None and (l[0], o, l[1]) or None
        if x.op == "init" and x.a[0].op == "D" and len(x.a) == 1:
            l = self.linear(x.a[0].a[0])
            if l and l[0].op == "lv" and l[0].a[0] == self.key:
                v = self.eng.read(self.pre, (l[0].a[1], tuple(l[0].a[2:])))
                if v.op == "it" and v.a[0] in self.ptrs:
                    return l[0], self.offset(self.ptrs[v.a[0]]), l[1]
        return None

    def cells(self, t):
        """{term: how many characters ahead} of the reads of the literal in t"""
        out = {}
        for x in subterms(t):
            if self.elem is not None:
                if x.op == "elem" and x.a[0] is self.elem:
                    out[x] = 0
                continue
            c = self.rawcell(x)
            if c is not None and c[0] is self.pos and c[1] == self.base:
                out[x] = c[2]
        return out

    # -- turns
    def flagged(self):
        """the variables that only take constants: the states of the decoder"""
        self.flags = []
        for h, b in self.steps:
            for r in set(h.store) | set(b.store):
                v, w = h.store.get(r), b.store.get(r)
                if v is not None and w is not None and v.op in ("b", "i") and r not in self.flags and any(
                        h2.store.get(r) is not b2.store.get(r) for h2, b2 in self.steps):
                    self.flags.append(r)
        for h, b in self.steps:
            for r in self.flags:
                if h.store[r].op not in ("b", "i") or b.store[r].op not in ("b", "i"):
                    raise Undecided("the variable %r" % (r,))
        self.turns = []
        seen = set()
        for h, b in self.steps:
            conds = [(f, w) for f, w in b.facts.items() if h.facts.get(f) != w]
            if self.elem is not None:
                df = 1
            else:
                l = self.linear(self.eng.read(b, self.posloc))
                if l is None or l[0] is not self.pos:
                    raise Undecided("the reading position becomes %r" % (self.eng.read(b, self.posloc),))
                df = l[1]
            emit = self.emitted(h, b)
            fl = (tuple(h.store[r] for r in self.flags), tuple(b.store[r] for r in self.flags))
            k = (repr(conds), df, repr(emit), fl)
            if k in seen:
                continue
            seen.add(k)
            self.turns.append((fl, conds, df, emit))
        self.begin = tuple(self.pre.store.get(r) for r in self.flags)

    def emitted(self, h, b):
        v0, v1 = self.eng.read(h, self.out), self.eng.read(b, self.out)
        if self.count is None:
            if v1 is v0:
                return []
            p = pieces(v1)
            if v1.op == "upd" and self.out[0] in self.texts:
                x = v1
                while x.op == "upd" and all(hasattr(k, "op") and k.op == "idx" for k, _ in x.a[1]):
                    x = x.a[0]
                if x is v0:
                    self.bad = "the text decoded in place keeps the length of the literal"
                    return []
            if not p or p[0] is not v0:
                raise Undecided("the text becomes %r" % (v1,))
            return list(p[1:])
        t0, t1 = self.eng.read(h, self.count), self.eng.read(b, self.count)
        l = self.linear(t1)
        if l is None or l[0] is not t0:
            raise Undecided("the length becomes %r" % (t1,))
        n = l[1]
        w = {}
        x = v1
        while x is not v0:
            if x.op != "upd":
                raise Undecided("the text becomes %r" % (v1,))
            for k, y in x.a[1]:
                i = self.linear(k.a[0]) if hasattr(k, "op") and k.op == "idx" else None
                if i is None or i[0] is not t0:
                    raise Undecided("a character is written at %r" % (k,))
                w.setdefault(i[1], y)
            x = x.a[0]
        if n < 0 or any(i not in w for i in range(n)):
            raise Undecided("the length grows by %d but %r are written" % (n, sorted(w)))
        return [w[i] for i in range(n)]

    def behind(self):
        """what is written in place lies behind what is still to be read"""
        if self.count is None or self.out[0] not in self.texts:
            return True
        reads = any(x.op == "proj" and x.a[0].op == "lv" and x.a[0].a[1] is self.out[0] or x.op == "lv" and len(x.a) == 3 and x.a[1] is self.out[0] or x.op == "init" and x.a[0].op == "D" for h, b in self.steps for f in list(b.facts) + [b.store[self.out[0]]] for x in subterms(f))
        if not reads:
            return True
        t = self.eng.read(self.pre, self.count)
        if t.op != "i" or self.elem is not None:
            return None
        return t.a[0] <= self.start and all(len(e) <= df for _, _, df, e in self.turns)

    def initial(self):
        """what is there before the first turn"""
        v = self.eng.read(self.pre, self.out)
        if self.count is not None:
            t = self.eng.read(self.pre, self.count)
            return t is I(0)
        return v.op == "s" and v.a[0] == "" or None

    def turn(self, flags, cs):
        """[(characters consumed, emitted, flags)] for the characters to come; raises Unknown"""
        out = []
        if self.guards and not self.passes(cs):
            return None
        for (f0, f1), conds, df, emit in self.turns:
            if f0 != flags:
                continue
            ok = True
            for f, w in conds:
                if bool(ev(f, self.env(f, cs))) != w:
                    ok = False
                    break
            if not ok:
                continue
            s = []
            for p in emit:
                y = ev(p, self.env(p, cs))
                if isinstance(y, str):
                    s += [ord(c) & 255 for c in y]
                elif isinstance(y, bool):
                    raise Unknown(p)
                else:
                    s.append(int(y) & 255)
            out.append((df, tuple(s), f1))
        return out

    def env(self, t, cs):
        e = {}
        for x, k in self.cells(t).items():
            if not 0 <= k < len(cs):
                raise Look(k)
            e[x] = byteval(cs[k])
        return e


class Look(Exception):
    """the turn depends on a character further ahead"""


def say(w):
    return '"%s"' % "".join(chr(c) if 32 <= c < 127 else "\\%03o" % c for c in w)


def compare(ctx, d, where):
    """every literal, by a search over the pairs of states"""
    start = (d.begin, "N", (), ())
    seen = {start: ()}
    q = deque([start])
    n = 0
    while q:
        cfg = q.popleft()
        flags, ref, ahead, behind = cfg      # ahead: emitted too early; behind: still owed
        w = seen[cfg]
        if ref == "N" and (ahead or behind):
            ctx.oblige(R32, where, False, "the literal %s denotes %s" % (say(w), "more than is written" if ahead else "less than is written"))
            return n
        for c0 in range(256):
            r = reference(ref, c0)
            if r is None:
                continue
            n += 1
            for cs, ended, ts in turns(d, flags, (c0,), r[0]):
                word = w + cs
                if ts is None:
                    ctx.oblige(R32, where, False, "decoding the literal %s stops before character %s" % (say(finish(word, r[0])), say((c0,))))
                    return n
                if len(ts) != 1:
                    raise Undecided("%d turns of the decoder fit %s" % (len(ts), say(word)))
                df, emit, f1 = ts[0]
                for w2, want, state in consumed(ref, cs, ended, df):
                    if state is None:
                        ctx.oblige(R32, where, False, "decoding %s runs past the closing quote" % say(word))
                        return n
                    a = behind + want
                    b = ahead + emit
                    k = min(len(a), len(b))
                    if a[:k] != b[:k]:
                        ctx.oblige(R32, where, False, "in the literal %s character %s becomes %s" % (
                            say(finish(w + w2, state)), say(a[:k]), say(b[:k])))
                        return n
                    a, b = a[k:], b[k:]
                    if len(a) > 3 or len(b) > 3:
                        ctx.oblige(R32, where, False, "the literal %s denotes %s" % (say(finish(w + w2, state)), "less than is written" if a else "more than is written"))
                        return n
                    nx = (f1, state, b, a)
                    if nx not in seen:
                        seen[nx] = w + w2
                        q.append(nx)
    ctx.extra["turns_compared"] = n
    ctx.oblige(R32, where, True)
    return n


def turns(d, flags, cs, state, ended=False):
    """[(characters of the literal, is that all of it, the turns that fit)] with as many characters as the decoder looks at"""
    try:
        return [(cs, ended, d.turn(flags, cs + ((34, 0) if ended else ())))]
    except Look as x:
        if ended or x.args[0] != len(cs) or len(cs) > 2:
            raise Undecided("a turn of the decoder looks at the character %+d" % x.args[0])
    out = []
    for c in range(256):
        s = reference(state, c)
        if s is not None:
            out += turns(d, flags, cs + (c,), s[0])
    if state == "N":
        out += turns(d, flags, cs, state, True)
    return out


def consumed(state, cs, ended, df, n=0, done=(), want=()):
    """[(characters, what they denote, state)] after df characters"""
    if n == df:
        return [(done, want, state)]
    if df > 3:
        raise Undecided("a turn of the decoder takes %d characters" % df)
    if n < len(cs):
        s = reference(state, cs[n])
        return consumed(s[0], cs, ended, df, n + 1, done + (cs[n],), want + s[1])
    if ended:
        return [(done, want, None)]
    out = []
    for c in range(256):     # the turn did not look at this one
        s = reference(state, c)
        if s is not None:
            out += consumed(s[0], cs, ended, df, n + 1, done + (c,), want + s[1])
    if state == "N":
        out.append((done, want, None))
    return out


def finish(w, state):
    return w + ((92,) if state == "E" else ())


def decoder(ctx):
    ctx.load()
    fns = ctx.fns("stl2ps::NewQuote")
    if not fns:
        raise Undecided("no decoder")
    for fn in fns:
        where = ctx.where(fn)
        eng, ex = ctx.run(fn, {}, own=True, exact=True)
        if ex is None:
            continue
        d = Decoder(ctx, fn, eng, ex)
        if d.bad:
            ctx.oblige(R32, where, False, d.bad)
            continue
        if d.wrongrange:
            n = d.wrongrange[0]
            ctx.oblige(R32, where, False, "not exactly the characters between the quotes are decoded: of a literal of %d characters the range is %r" % (n, d.wrongrange[1:]))
            continue
        if d.elem is None:
            ctx.oblige(R32, where, d.start == 1, "decoding starts at character %d of the literal" % d.start)
            if d.start != 1:
                continue
        b = d.behind()
        ctx.oblige("decoding in place never overtakes itself", where, b, "characters are overwritten before they are read")
        i = d.initial()
        ctx.oblige(R32, where, i, "the text does not start empty")
        if b and i:
            compare(ctx, d, where)


def literal(ctx):
    """the token's value is the decoder's, of all of the token's text"""
    lx = c_syntax.Lexer(ctx)
    tm = c_syntax.Terminals(ctx.tree)
    n = 0
    start = lx.sc.start()
    seen = {start}
    q = [start]
    rules = set()
    sp = start
    # the rules that a literal ends in
    for w in (b'""', b'"a"', b'"\\n"', b'"\\\\"', b'"a\\"b"', b'"\x00"', b'"\xff"'):
        s = start
        for byte in w:
            s = lx.sc.step(s, byte) if s is not None else None
        k = lx.sc.accept(s) if s is not None else 0
        if k:
            rules.add(k)
    for k in sorted(rules):
        for o in lx.outcomes(k) or []:
            if isinstance(o.ret, int) and tm.real(o.ret):
                n += 1
        c_syntax.value(ctx, lx, tm, k, "STRING")
    if not n:
        raise Undecided("no rule for string literals is understood")


def joined(ctx):
    """adjacent literals concatenate in order"""
    sy = c_parse.Syntax(ctx)
    mp = c_parse.mapping(ctx, sy)
    ev_ = c_parse.Evaluator(ctx, sy)
    ev_.slots = {}
    fm = c_parse.Forms(sy, mp)
    n = 0
    for l in ("string", "arg"):
        for r, num in sorted(sy.spec.by[l], key=lambda x: x[1]):
            if l == "arg" and "string" not in r or l == "string" and not fm.choice.get(l):
                continue
            for f in fm.production(num):
                n += 1
                c_parse.one28(ctx, sy, ev_, fm, l, f)
    ctx.account(ev_.eng, [])
    if not n:
        raise Undecided("no form of string literals")


def partial(ctx, f):
    try:
        f(ctx)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (f.__name__, gaveup(x)))


def c32(ctx):
    ctx.rule("transducer equivalence: the turns of the decoder's loop (its symbolic paths) against the transducer of the language, for every pair of reachable states and every byte; "
             "the bounds of the loop for every length; the value stored by the scanner's rule; attribute evaluation of the productions that join literals")
    partial(ctx, decoder)
    partial(ctx, literal)
    partial(ctx, joined)
