"""Normal forms of vector expressions: each component a Laurent polynomial over coordinates and lengths, modulo
(the length of v)^2 = v.x^2 + v.y^2 + v.z^2."""
from fractions import Fraction
from math import isqrt
from terms import *
from poly import const, atom, padd, pmul, pinv, totuple

AX = ("x", "y", "z")
VEC = ("+", "-", "neg", "sv", "vs", "normalized", "cross")
TOL = Fraction(1, 10 ** 10)


class Unclear(Exception):
    pass


class Alg(object):
    def __init__(self):
        self.leads = {}       # coordinate -> what its square is
        self.roots = {}       # root atom -> the polynomial it is the root of
        self.memo = {}
        self.vmemo = {}

    # ---------------------------------------------------------- vectors
    def ndim(self, t):
        if t.op == "rec":
            n = [f for f, _ in t.a[1] if f in AX]
            return len(n) or None
        if t.op == "upd":
            n = self.ndim(t.a[0]) if t.a[0].op != "dflt" else None
            return n or len([f for f, _ in t.a[1] if f in AX]) or None
        if t.op == "pt":
            return 3
        if t.op == "circle":
            return 2
        if t.op == "cross":
            return 3
        if t.op in ("sv",):
            return self.ndim(t.a[1])
        if t.op in VEC:
            for a in t.a:
                if isinstance(a, T):
                    n = self.ndim(a)
                    if n:
                        return n
        return None

    def comps(self, t, n=None):
        n = n or self.ndim(t)
        if n is None:
            raise Unclear(repr(t)[:80])
        k = (t, n)
        r = self.vmemo.get(k)
        if r is None:
            r = self.vmemo[k] = self._comps(t, n)
        return r

    def _comps(self, t, n):
        o = t.op
        if o in ("+", "-") and len(t.a) == 2:
            a, b = self.comps(t.a[0], n), self.comps(t.a[1], n)
            return [padd(x, y, 1 if o == "+" else -1) for x, y in zip(a, b)]
        if o == "neg":
            return [padd({}, x, -1) for x in self.comps(t.a[0], n)]
        if o == "sv":
            s = self.scal(t.a[0])
            return [pmul(s, x) for x in self.comps(t.a[1], n)]
        if o == "vs":
            s = self.inv(self.scal(t.a[1]))
            return [pmul(s, x) for x in self.comps(t.a[0], n)]
        if o == "normalized":
            c = self.comps(t.a[0], n)
            s = self.inv(self.norm(c))
            return [pmul(s, x) for x in c]
        if o == "cross" and n == 3:
            return self.cross(self.comps(t.a[0], 3), self.comps(t.a[1], 3))
        return [self.scal(proj(t, ax)) for ax in AX[:n]]

    def cross(self, a, b):
        return [padd(pmul(a[(i + 1) % 3], b[(i + 2) % 3]), pmul(a[(i + 2) % 3], b[(i + 1) % 3]), -1) for i in range(3)]

    def dot(self, a, b):
        r = {}
        for x, y in zip(a, b):
            r = padd(r, pmul(x, y))
        return self.red(r)

    def sub(self, a, b):
        return [padd(x, y, -1) for x, y in zip(a, b)]

    def norm(self, c):
        return self.root(self.dot(c, c))

    # ---------------------------------------------------------- scalars
    def scal(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._scal(t)
        return r

    def pair(self, a, b):
        n = self.ndim(a) or self.ndim(b)
        return self.comps(a, n), self.comps(b, n)

    def _scal(self, t):
        o = t.op
        if o in ("i", "f"):
            return const(Fraction(t.a[0]))
        if o in ("+", "-") and len(t.a) == 2:
            return padd(self.scal(t.a[0]), self.scal(t.a[1]), 1 if o == "+" else -1)
        if o == "neg":
            return padd({}, self.scal(t.a[0]), -1)
        if o in ("*", "sv") and len(t.a) == 2:
            return self.red(pmul(self.scal(t.a[0]), self.scal(t.a[1])))
        if o in ("/", "vs") and len(t.a) == 2:
            return self.red(pmul(self.scal(t.a[0]), self.inv(self.scal(t.a[1]))))
        if o in ("fcast", "tofloat") and len(t.a) == 1:
            return self.scal(t.a[0])
        if o == "dot":
            return self.dot(*self.pair(*t.a[:2]))
        if o == "norm":
            return self.norm(self.comps(t.a[0]))
        if o == "squaredNorm":
            c = self.comps(t.a[0])
            return self.dot(c, c)
        if o in ("abs", "fabs"):
            x = self.scal(t.a[0])
            return self.root(pmul(x, x))
        if o == "sqrt":
            return self.root(self.scal(t.a[0]))
        if o == "hypot":
            return self.norm([self.scal(a) for a in t.a])
        if o == "proj" and t.a[1] in AX and isinstance(t.a[0], T) and t.a[0].op in VEC:
            v = t.a[0]
            n = self.ndim(v)
            if n and AX.index(t.a[1]) < n:
                return self.comps(v, n)[AX.index(t.a[1])]
        return atom(t)

    def inv(self, p):
        i = pinv(self.red(p))
        if i is None:
            raise Unclear("divides by a sum")
        return i

    def root(self, p):
        p = self.red(p)
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            s = fsqrt(c)
            if s is not None and all(e % 2 == 0 for _, e in m) and all(t in self.roots for t, _ in m):
                return {tuple((t, e // 2) for t, e in m): s}
        a = mk("root", str(totuple(p)))
        if a in self.roots:
            return atom(a)
        self.roots[a] = p
        lead = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.roots and m[0][0] not in self.leads:
                if lead is None or m[0][0].id > lead[0].id:
                    lead = (m[0][0], c)
        if lead:
            t, c = lead
            rest = {m: k for m, k in p.items() if m != ((t, 2),)}
            self.leads[t] = {m: k / c for m, k in padd({((a, 2),): Fraction(1)}, rest, -1).items()}
        else:
            self.leads[a] = p
        return atom(a)

    def red(self, p):
        fuel = 400
        while True:
            hit = None
            for m in p:
                for t, e in m:
                    if e >= 2 and t in self.leads:
                        hit = (m, t, e)
                        break
                if hit:
                    break
            if hit is None:
                return p
            fuel -= 1
            if not fuel:
                raise Unclear("too large")
            m, t, e = hit
            q = dict(p)
            c = q.pop(m)
            rest = tuple((x, (k - 2 if x is t else k)) for x, k in m if x is not t or k != 2)
            p = padd(q, pmul({rest: c}, self.leads[t]))

    def eq(self, a, b):
        """equal up to the rounding of constants"""
        d = self.red(padd(a, b, -1))
        if not d:
            return True
        ra, rb = self.red(a), self.red(b)
        return all(m in ra and m in rb and abs(c) <= abs(rb[m]) * TOL for m, c in d.items())

    def veq(self, a, b):
        return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))

    def atoms(self, p):
        """the coordinates a polynomial is about"""
        out = set()
        work = [p]
        while work:
            q = work.pop()
            for m in q:
                for t, e in m:
                    if t in self.roots:
                        if t not in out:
                            out.add(t)
                            work.append(self.roots[t])
                    else:
                        out.add(t)
        return {t for t in out if t not in self.roots}


def fsqrt(c):
    if c <= 0:
        return None
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None
