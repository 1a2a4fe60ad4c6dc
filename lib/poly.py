"""Normal forms of arithmetic terms: sums of monomials over opaque atoms (Laurent polynomials)."""
from fractions import Fraction
from terms import *

ZERO = {}


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(t, e=1):
    return {((t, e),): Fraction(1)}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mmul(x, y):
    d = dict(x)
    for t, e in y:
        n = d.get(t, 0) + e
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pinv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((t, -e) for t, e in m): 1 / c}
    return None


def totuple(p):
    return tuple(sorted(((tuple((t.id, e) for t, e in m), c) for m, c in p.items())))


_pa = {}


def polyatom(p):
    """an atom standing for the polynomial p"""
    k = totuple(p)
    if k not in _pa:
        _pa[k] = mk("polyatom", str(k))
    return _pa[k]


def poly(t, depth=0):
    o = t.op
    if o in ("i", "f"):
        return const(Fraction(t.a[0]))
    if depth > 200:
        return atom(t)
    if o in ("+", "-") and len(t.a) == 2:
        return padd(poly(t.a[0], depth + 1), poly(t.a[1], depth + 1), 1 if o == "+" else -1)
    if o == "neg":
        return padd({}, poly(t.a[0], depth + 1), -1)
    if o in ("*", "sv") and len(t.a) == 2:
        return pmul(poly(t.a[0], depth + 1), poly(t.a[1], depth + 1))
    if o in ("/", "vs") and len(t.a) == 2:
        d = poly(t.a[1], depth + 1)
        n = poly(t.a[0], depth + 1)
        i = pinv(d)
        if i is not None:
            return pmul(n, i)
        if d:
            return pmul(n, atom(polyatom(d), -1))
    if o in ("fcast", "tofloat") and len(t.a) == 1:
        return poly(t.a[0], depth + 1)
    return atom(t)


def peq(a, b):
    """equal up to the rounding of their constants"""
    a = poly(a) if isinstance(a, T) else a
    b = poly(b) if isinstance(b, T) else b
    d = padd(a, b, -1)
    return all(m in a and m in b and abs(c) <= abs(b[m]) * TOL for m, c in d.items())


TOL = Fraction(1, 10 ** 12)


def atoms(p):
    return {t for m in p for t, e in m}


def degree(p, t):
    return {dict(m).get(t, 0) for m in p}
