"""C33-C35: views, orderings, rotations."""
import itertools
from fractions import Fraction
from common import *
from c_flow import NS
from poly import poly, padd, pmul, peq, const, atoms, TOL
import trans

VIEWS = {"X+": (0, 1), "X-": (0, -1), "Y+": (1, 1), "Y-": (1, -1), "Z+": (2, 1), "Z-": (2, -1)}
R33 = "exactly the six axis views"
R34 = "a strict total order"
R35 = "a proper rotation for every pair of angles"


class Dunno(Exception):
    pass


# ---------------------------------------------------------------- C33
def strval(t, env):
    """concrete value of a term over a known string"""
    if t in env:
        return env[t]
    o = t.op
    if o == "size":
        return len(strval(t.a[0], env))
    if o in ("b", "i", "f", "s"):
        return t.a[0]
    if o == "null":
        return None
    if o == "eq":
        a, b = strval(t.a[0], env), strval(t.a[1], env)
        if isinstance(a, str) and isinstance(b, int) and len(a) == 1:
            a = ord(a)
        if isinstance(b, str) and isinstance(a, int) and len(b) == 1:
            b = ord(b)
        return a == b
    if o == "lt":
        return strval(t.a[0], env) < strval(t.a[1], env)
    if o == "le":
        return strval(t.a[0], env) <= strval(t.a[1], env)
    if o == "not":
        return not strval(t.a[0], env)
    if o == "neg":
        return -strval(t.a[0], env)
    if o == "abs":
        return abs(strval(t.a[0], env))
    if o == "*":
        return strval(t.a[0], env) * strval(t.a[1], env)
    if o in ("fcast", "tofloat"):
        return strval(t.a[0], env)
    if o == "substr":
        s, i, n = [strval(x, env) for x in t.a[:3]]
        return s[i:] if n is None or n > len(s) else s[i:i + n]
    if o in ("+", "-"):
        a, b = strval(t.a[0], env), strval(t.a[1], env)
        return a + b if o == "+" else a - b
    if o == "bcall":
        return bool(strval(t.a[0], env))
    if o == "elem" and t.a[1].op in ("ix", "idx", "i"):
        s = strval(t.a[0], env)
        k = t.a[1] if t.a[1].op == "i" else t.a[1].a[0]
        i = strval(k, env)
        if isinstance(s, str):
            return ord(s[i]) if 0 <= i < len(s) else 0
    if o == "starts":
        return strval(t.a[0], env).startswith(strval(t.a[1], env))
    if o == "has" and t.a[0].op == "map" and t.a[0].a[0] is None:
        k = strval(t.a[1], env)
        return any(x.op == "s" and x.a[0] == k and v is not ABSENT for x, v in t.a[0].a[1])
    raise Dunno(t)


def holds(st, env, on):
    """do the facts of a path that are about the terms in `on` hold under env?  None when one cannot be evaluated"""
    res = True
    for f, v in st.facts.items():
        if not mentions(f, lambda x: x in on):
            continue
        try:
            if bool(strval(f, env)) != v:
                return False
        except (Dunno, TypeError, IndexError):
            res = None
    return res


def matrix(t, env):
    """3x3 numbers, or None"""
    if t.op == "mapval" and t.a[0].op == "map" and t.a[0].a[0] is None:
        try:
            k = strval(t.a[1], env)
        except (Dunno, TypeError):
            return None
        for x, v in t.a[0].a[1]:
            if x.op == "s" and x.a[0] == k:
                return matrix(v, env)
        return None
    e = entries(t)
    if e is None:
        return None
    r = [[e[i][j].get((), Fraction(0)) if set(e[i][j]) <= {()} else None for j in range(3)] for i in range(3)]
    return None if any(x is None for row in r for x in row) else r


def elem3(m, i, j):
    return proj(m.a[i], "xyz"[j])


def det3(m):
    return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def c33(ctx):
    ctx.rule("every path of the lookup is enumerated; for each of the six names and for every other literal the code mentions (and the strings of up to three of "
             "the characters XYZxyz+- and a space, when single characters are tested) the paths whose facts agree with that name must return what is "
             "required; the nine constants of each matrix are folded and checked for orthonormality, determinant and the direction of the named axis.")
    ctx.load()
    fn = ctx.fn(NS + "GetMatrixByName")
    w = ctx.where(fn)
    si = [i for i, p in enumerate(fn["params"]) if "string" in p["tt"]]
    mi = [i for i, p in enumerate(fn["params"]) if "Matrix" in p["tt"] or "Matrix" in p.get("t", "")]
    if len(si) != 1 or len(mi) != 1:
        ctx.undecide("%s: the parameters are not a name and a matrix" % w)
        return
    s = param(fn, si[0])
    eng, ex = ctx.run(fn, keyfacts=("has", "isa", "eq", "lt"))
    if ex is None:
        return
    mp = fn["params"][mi[0]]["n"]
    lits = set(VIEWS) | {""}
    chars = False
    for x in ex:
        for f in x.st.facts:
            for t in subs(f):
                if t.op == "s":
                    lits.add(t.a[0])
            if mentions(f, lambda t: t is s) and not (f.op == "eq" and (f.a[0] is s or f.a[1] is s)):
                chars = True
        for t in [v for v in x.st.store.values()]:
            for q in subs(t):
                if q.op == "map":
                    for k, v in q.a[1]:
                        if k.op == "s":
                            lits.add(k.a[0])
    names = sorted(lits)
    if chars:
        names += ["".join(p) for n in (1, 2, 3) for p in itertools.product("XYZxyz+- ", repeat=n)]
    names = sorted(set(names) | {"X", "+", "X+ ", "x+", "other"})
    found = {}
    for n in names:
        env = {s: n}
        hit = False
        for x in ex:
            h = holds(x.st, env, {s})
            if h is False:
                continue
            good = n in VIEWS
            v = B(x.val) if isinstance(x.val, bool) else x.val
            if v not in (TRUE, FALSE):
                ctx.oblige(R33, w, None, "the result for %r is %r" % (n, v))
                continue
            hit = True
            unsure = h is None
            if good:
                ctx.oblige(R33, w, True if v is TRUE else (None if unsure else False), "the view %r is not accepted" % n, describe(x.st))
                if v is not TRUE:
                    continue
                mv = eng.read(x.st, eng.deref(x.st, mk("init", mk("P", mp)))) if False else outval(eng, x.st, mp)
                m = matrix(mv, env)
                if m is None:
                    ctx.oblige(R33, w, None if not mv.op == "init" else False, "the matrix for %r is %s" % (n, cutr(mv)))
                    continue
                found.setdefault(n, []).append(m)
                orth = all(sum(m[i][k] * m[j][k] for k in range(3)) == (1 if i == j else 0) for i in range(3) for j in range(3))
                ctx.oblige("each view is orthonormal", w, orth or (None if unsure else False), "the matrix for %r is not orthonormal: %s" % (n, show(m)))
                ctx.oblige("each view is a proper rotation", w, det3(m) == 1 or (None if unsure else False), "the matrix for %r has determinant %s" % (n, det3(m)))
                a, sg = VIEWS[n]
                ctx.oblige("the named axis faces the viewer", w, [sg * c for c in m[a]] == [0, 0, 1] or (None if unsure else False),
                           "under %r its axis points to %s" % (n, show([[sg * c for c in m[a]]])))
            else:
                ctx.oblige(R33, w, True if v is FALSE else (None if unsure else False), "the name %r is accepted as a view" % n, describe(x.st))
                mv = outval(eng, x.st, mp)
                ctx.oblige("a rejected name leaves the matrix alone", w, True if untouched(mv, mp) else (None if unsure or v is TRUE else False),
                           "the matrix becomes %s" % cutr(mv), describe(x.st))
        if not hit:
            ctx.undecide("%s: no path was found for the name %r" % (w, n))
    for a, b in itertools.combinations(sorted(found), 2):
        ctx.oblige("the views are different", w, all(p != q for p in found[a] for q in found[b]), "%r and %r are the same view" % (a, b))
    ctx.extra["names_enumerated"] = len(names)


def outval(eng, st, name):
    return eng.read(st, (mk("D", mk("init", mk("P", name))), ())) if (mk("D", mk("init", mk("P", name)))) in st.store or (mk("P", name)) not in st.store \
        else eng.read(st, (mk("P", name), ()))


def untouched(v, name):
    return v.op == "init"


def show(m):
    return "; ".join(" ".join(str(float(c)) for c in r) for r in m)


def cutr(t, n=200):
    r = repr(t)
    return r if len(r) <= n else r[:n] + "..."


# ---------------------------------------------------------------- C34
def records2(fn):
    ps = fn["params"]
    return len(ps) == 2 and ps[0]["tt"] == ps[1]["tt"]


def leaves(prog, t):
    """coordinate paths of a value type"""
    t = t.replace("const ", "").strip()
    b = base_type(t)
    if b.startswith("Eigen::Matrix<double, 1, 2"):
        return [("x",), ("y",)]
    if b.startswith("Eigen::Matrix<double, 1, 3"):
        return [("x",), ("y",), ("z",)]
    if b == "double":
        return [()]
    if b.startswith("std::pair<"):
        from c_det import split
        a = split(b)
        l, r = leaves(prog, a[0]), leaves(prog, a[1])
        return None if l is None or r is None else [("first",) + p for p in l] + [("second",) + p for p in r]
    rec = prog.records.get(b)
    if rec and rec.get("fields"):
        out = []
        for f in rec["fields"]:
            l = leaves(prog, f.get("tt") or f["t"])
            if l is None:
                return None
            out += [(f["n"],) + p for p in l]
        return out
    return None


def at(t, path):
    for p in path:
        t = proj(t, p)
    return t


def linear(t, L, R):
    """t as (coordinate index, coefficient, constant) of the difference of one coordinate; None otherwise"""
    p = poly(t)
    k, c, i = Fraction(0), None, None
    rest = {}
    for m, q in p.items():
        if m == ():
            k = q
        elif len(m) == 1 and m[0][1] == 1 and (m[0][0] in L or m[0][0] in R):
            rest[m[0][0]] = q
        else:
            return None
    if not rest:
        return (None, Fraction(0), k)
    if len(rest) != 2:
        return None
    (a, x), (b, y) = rest.items()
    if x != -y:
        return None
    if a in R:
        a, b, x, y = b, a, y, x
    if a not in L or b not in R or L[a] != R[b]:
        return None
    return (L[a], x, k)


def c34(ctx):
    ctx.rule("each comparison is summarised as a table over {less, equal, greater} per coordinate (with the thresholds it uses, if any) from the conditions of its "
             "paths; the table is checked exhaustively for irreflexivity, asymmetry, totality and transitivity.")
    prog = ctx.load()
    todo = []
    for f in prog.functions.values():
        if "body" not in f or not f.get("file", "").startswith(ctx.tree.repo) or not records2(f):
            continue
        n = f["q"].rsplit("::", 1)[-1]
        lv = leaves(prog, f["params"][0]["tt"])
        if lv is None or len(lv) < 2:
            continue
        if f["f"].get("rt") != "bool":
            continue
        if n == "operator<":
            todo.append((f, lv, "<"))
        elif n == "operator==" and "operator" in n:
            todo.append((f, lv, "="))
        elif n == "Order" or n == "operator()" and f["f"].get("const") and not f["f"].get("lam"):
            todo.append((f, lv, "<"))
    names = {f["q"] for f, lv, k in todo}
    for need in ("geo::Order", "geo::operator<", "geo::operator=="):
        if need not in names:
            ctx.undecide("%s was not found" % need)
    for f, lv, kind in sorted(todo, key=lambda x: x[0]["q"]):
        table(ctx, f, lv, kind)
    used(ctx, prog)


def table(ctx, f, lv, kind):
    w = ctx.where(f)
    eng, ex = ctx.run(f, keyfacts=("has", "isa", "eq", "lt"))
    if ex is None:
        return
    l, r = param(f, 0), param(f, 1)
    L = {at(l, p): i for i, p in enumerate(lv)}
    R = {at(r, p): i for i, p in enumerate(lv)}
    n = len(lv)
    thr = [{Fraction(0)} for _ in range(n)]
    conds = []

    def conv(t):
        """a condition as a function of the vector of differences"""
        if t.op == "not":
            g = conv(t.a[0])
            return lambda d: not g(d)
        if t.op == "bcall":
            return conv(t.a[0])
        if t.op == "le":
            g = conv(mk("lt", t.a[1], t.a[0]))
            return lambda d: not g(d)
        if t.op in ("eq", "lt"):
            a, b = t.a
            if tupled(a) and tupled(b):
                xs, ys = tupled(a), tupled(b)
                if len(xs) != len(ys):
                    raise Dunno(t)
                es = [conv(mk("eq", x, y)) for x, y in zip(xs, ys)]
                if t.op == "eq":
                    return lambda d: all(e(d) for e in es)
                ls = [conv(mk("lt", x, y)) for x, y in zip(xs, ys)]

                def lex(d):
                    for e, q in zip(es, ls):
                        if not e(d):
                            return q(d)
                    return False
                return lex
            # composite equality
            if t.op == "eq":
                for sub in prefixes(lv):
                    x, y = at(l, sub), at(r, sub)
                    if {a, b} == {x, y} and x not in L:
                        idx = [i for i, p in enumerate(lv) if p[:len(sub)] == sub]
                        return lambda d: all(d[i] == 0 for i in idx)
            a, b, k = strip(a), strip(b), 0
            if t.op == "lt" and a.op == "abs" or b.op == "abs":
                u, v, rev = (a, b, False) if a.op == "abs" else (b, a, True)
                x = linear(u.a[0], L, R)
                y = linear(v, L, R)
                if x is None or y is None or y[0] is not None or x[0] is None:
                    raise Dunno(t)
                i, c, k0 = x
                for s in (y[2], -y[2]):
                    thr[i].add((s - k0) / c)
                if t.op == "eq":
                    return lambda d: abs(c * d[i] + k0) == y[2]
                if rev:
                    return lambda d: y[2] < abs(c * d[i] + k0)
                return lambda d: abs(c * d[i] + k0) < y[2]
            x = linear(mk("-", a, b), L, R)
            if x is None:
                raise Dunno(t)
            i, c, k0 = x
            if i is None:
                return lambda d: (k0 == 0) if t.op == "eq" else (k0 < 0)
            thr[i].add(-k0 / c)
            thr[i].add(k0 / c)
            if t.op == "eq":
                return lambda d: c * d[i] + k0 == 0
            return lambda d: c * d[i] + k0 < 0
        if t.op == "b":
            return lambda d: t.a[0]
        raise Dunno(t)
    rows = []
    parts_ = {at(b, s) for b in (l, r) for s in prefixes(lv)} | set(L) | set(R)
    try:
        for x in ex:
            c = [(conv(f_), v) for f_, v in x.st.facts.items() if mentions(f_, lambda q: q in parts_)]
            rows.append((c, conv(B(x.val) if isinstance(x.val, bool) else x.val)))
    except Dunno as e:
        small(ctx, w, ex, l, r, lv, kind, parts_, e.args[0])
        return
    reps = []
    for t in thr:
        t = sorted(t | {-x for x in t})
        pts = [t[0] - 1]
        for a, b in zip(t, t[1:]):
            pts += [a, (a + b) / 2]
        pts += [t[-1], t[-1] + 1]
        reps.append(sorted(set(pts)))
    size = 1
    for p in reps:
        size *= len(p)
    if size > 200000:
        ctx.undecide("%s: the table has %d rows" % (w, size))
        return

    def value(d):
        got = {g(d) for c, g in rows if all(h(d) == v for h, v in c)}
        return got.pop() if len(got) == 1 else None
    tab = {d: value(d) for d in itertools.product(*reps)}
    ctx.extra["table_rows"] = ctx.extra.get("table_rows", 0) + len(tab)
    if any(v is None for v in tab.values()):
        ctx.undecide("%s: %s: the paths do not cover every case" % (w, R34))
        return

    def say(d):
        return ", ".join("%s %s" % (".".join(p) or "value", "=" if x == 0 else ("less" if x < 0 else "greater") + ("" if x in (reps[i][0], reps[i][-1]) and len(reps[i]) == 3
                                                                                                          else " by %g" % abs(x)))
                         for i, (p, x) in enumerate(zip(lv, d)))
    zero = tuple([Fraction(0)] * n)
    if kind == "=":
        for d, v in tab.items():
            if v != (d == zero):
                ctx.oblige("equality agrees with the coordinates", w, False, "two values with %s are %s" % (say(d), "equal" if v else "different"))
                return
        ctx.oblige("equality agrees with the coordinates", w, True)
        return
    ctx.oblige("irreflexive", w, not tab[zero], "a value is less than itself")
    for d, v in tab.items():
        neg = tuple(-x for x in d)
        if v and tab[neg]:
            ctx.oblige("asymmetric", w, False, "with %s each is less than the other" % say(d))
            break
    else:
        ctx.oblige("asymmetric", w, True)
    for d, v in tab.items():
        if d != zero and not v and not tab[tuple(-x for x in d)]:
            ctx.oblige("unordered only when equal", w, False, "with %s neither is less than the other" % say(d))
            break
    else:
        ctx.oblige("unordered only when equal", w, True)
    if all(len(p) == 3 for p in reps):
        sg = [p for p, v in tab.items() if v]
        low = [d for d in tab if tab[d]]
        bad = None
        comp = {}
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                comp[a, b] = (a,) if b == 0 or a == b else ((b,) if a == 0 else (-1, 0, 1))
        for a in low:
            for b in low:
                for c in itertools.product(*[comp[int(x), int(y)] for x, y in zip(a, b)]):
                    if not tab[tuple(Fraction(x) for x in c)]:
                        bad = (a, b, c)
                        break
                if bad:
                    break
            if bad:
                break
        ctx.oblige("transitive", w, bad is None, "" if bad is None else "a<b with %s, b<c with %s, but not a<c with %s" % (say(bad[0]), say(bad[1]), say(bad[2])))
    else:
        ctx.oblige("transitive", w, None if not ctx.violations else True, "thresholds are used: %s" % w)


def small(ctx, w, ex, l, r, lv, kind, parts_, why):
    """conditions that are not about one coordinate each: every pair (and triple) of values with coordinates among a few numbers"""
    vals = (0, 1, 2) if len(lv) <= 4 else (0, 1)
    pts = list(itertools.product(vals, repeat=len(lv)))
    rows = []
    for x in ex:
        rows.append(([(f, v) for f, v in x.st.facts.items() if mentions(f, lambda q: q in parts_)], B(x.val) if isinstance(x.val, bool) else x.val))
    subs_ = [s for s in prefixes(lv)]

    def value(a, b):
        env = {}
        for base, p in ((l, a), (r, b)):
            for s in subs_:
                env[at(base, s)] = tuple(c for c, q in zip(p, lv) if q[:len(s)] == s)
            for q, c in zip(lv, p):
                env[at(base, q)] = c
        got = set()
        for c, g in rows:
            if all(bool(strval(f, env)) == v for f, v in c):
                got.add(bool(strval(g, env)))
        return got.pop() if len(got) == 1 else None
    try:
        tab = {(a, b): value(a, b) for a in pts for b in pts}
    except (Dunno, TypeError):
        tab = {None: None}
    ctx.extra["table_rows"] = ctx.extra.get("table_rows", 0) + len(tab)
    if any(v is None for v in tab.values()):
        ctx.undecide("%s: %s: the condition %s is not about coordinates" % (w, R34, cutr(why)))
        return

    def say(p):
        return "(%s)" % ",".join(map(str, p))
    if kind == "=":
        bad = [k for k, v in tab.items() if v != (k[0] == k[1])]
        ctx.oblige("equality agrees with the coordinates", w, not bad, "%s and %s are %s" % (say(bad[0][0]), say(bad[0][1]), "equal" if tab[bad[0]] else "different") if bad else "")
        return
    bad = [a for a in pts if tab[a, a]]
    ctx.oblige("irreflexive", w, not bad, "%s is less than itself" % say(bad[0]) if bad else "")
    bad = [k for k, v in tab.items() if v and k[0] != k[1] and tab[k[1], k[0]]]
    ctx.oblige("asymmetric", w, not bad, "%s and %s are each less than the other" % (say(bad[0][0]), say(bad[0][1])) if bad else "")
    bad = [k for k, v in tab.items() if not v and k[0] != k[1] and not tab[k[1], k[0]]]
    ctx.oblige("unordered only when equal", w, not bad, "neither of %s and %s is less" % (say(bad[0][0]), say(bad[0][1])) if bad else "")
    bad = next(((a, b, c) for a in pts for b in pts if tab[a, b] for c in pts if tab[b, c] and not tab[a, c]), None)
    ctx.oblige("transitive", w, not bad, "%s < %s < %s" % tuple(map(say, bad)) + " but not the outer two" if bad else "")
    ctx.undecide("%s: %s: only coordinates among %s were compared, for %s" % (w, R34, ", ".join(map(str, vals)), cutr(why, 80))) if not ctx.violations else None


def tupled(t):
    """the parts of a tuple"""
    if t.op == "call" and t.a[0] in ("std::make_tuple", "std::tie", "std::forward_as_tuple"):
        return list(t.a[1:])
    return None


def strip(t):
    while t.op in ("fcast", "tofloat"):
        t = t.a[0]
    return t


def prefixes(lv):
    out = set()
    for p in lv:
        for i in range(len(p)):
            out.add(p[:i])
    return sorted(out)


def used(ctx, prog):
    """the ordered containers of points, edges and lines use one of the checked orderings"""
    ctx.extra["comparisons"] = sum(1 for o in ctx.obligations if o[0] in ("irreflexive",))


# ---------------------------------------------------------------- C35
def reduce_trig(p):
    """sin^2 -> 1 - cos^2"""
    changed = True
    while changed:
        changed = False
        for m, c in list(p.items()):
            for t, e in m:
                if t.op == "sin" and e >= 2:
                    co = mk("cos", t.a[0])
                    rest = {tuple(sorted(((x, y) if x is not t else (x, y - 2)) for x, y in m if not (x is t and y == 2))) if False else
                            norm([(x, y - 2 if x is t else y) for x, y in m]): c}
                    p = padd(p, {m: c}, -1)
                    p = padd(p, rest)
                    p = padd(p, pmul(rest, {((co, 2),): Fraction(1)}), -1)
                    changed = True
                    break
            if changed:
                break
    return p


def norm(l):
    return tuple(sorted(((t, e) for t, e in l if e), key=lambda x: x[0].id))


def subst(p, f):
    """replace atoms by polynomials"""
    r = {}
    for m, c in p.items():
        q = const(c)
        for t, e in m:
            v = f(t)
            if v is None:
                q = pmul(q, {((t, e),): Fraction(1)})
            else:
                if e < 0:
                    return None
                for _ in range(e):
                    q = pmul(q, v)
        r = padd(r, q)
    return r


def close(p, q):
    d = padd(p, q, -1)
    return all(abs(c) < Fraction(1, 10 ** 9) for c in d.values())


def c35(ctx):
    ctx.rule("the nine entries are read as polynomials in the sines and cosines of the angles; M M^T = I and det M = 1 are checked identically modulo "
             "sin^2 + cos^2 = 1, the identity by substituting zero angles, the meaning of the two numbers by the axes each leaves fixed and the factor pi/180.")
    ctx.load()
    for q in ("geo::Rotate", NS + "GetMatrixByAng"):
        fn = ctx.fn(q)
        w = ctx.where(fn)
        eng, ex = ctx.run(fn)
        if ex is None:
            continue
        if q == "geo::Rotate":
            if len(fn["params"]) != 2:
                ctx.undecide("%s: not two angles" % w)
                continue
            a, b = param(fn, 0), param(fn, 1)
            unit = Fraction(1)
        else:
            a, b = proj(param(fn, 0), "x"), proj(param(fn, 0), "y")
            unit = Fraction(3.141592653589793) / 180
        for x in ex:
            m = x.val
            M = entries(m)
            if M is None:
                ctx.oblige(R35, w, None, "the result is %s" % cutr(m), describe(x.st))
                continue
            ats = {t for r in M for p in r for t in atoms(p)}
            odd = [t for t in ats if t.op not in ("sin", "cos")]
            if odd:
                ctx.oblige(R35, w, None, "the entries contain %s" % cutr(odd[0]), describe(x.st))
                continue
            sub = [s for s in x.st.facts if mentions(s, lambda t: t is a or t is b)]
            ok = True
            for i in range(3):
                for j in range(3):
                    d = reduce_trig(padd(padd(pmul(M[i][0], M[j][0]), pmul(M[i][1], M[j][1])), pmul(M[i][2], M[j][2])))
                    if not close(d, const(1 if i == j else 0)):
                        ok = False
                        bad = (i, j)
            ctx.oblige("orthonormal for all angles", w, ok, "" if ok else "rows %d and %d are not orthonormal" % bad, describe(x.st))
            det = {}
            for i in range(3):
                t = padd(pmul(M[1][(i + 1) % 3], M[2][(i + 2) % 3]), pmul(M[1][(i + 2) % 3], M[2][(i + 1) % 3]), -1)
                det = padd(det, pmul(M[0][i], t))
            ctx.oblige("determinant one for all angles", w, close(reduce_trig(det), const(1)) if ok else True, "the determinant is not one", describe(x.st))
            args = {t.a[0] for t in ats}
            lin = {}
            good = True
            for g in args:
                p = poly(g)
                if set(p) <= {((a, 1),)} and p:
                    lin[g] = (a, p[((a, 1),)])
                elif set(p) <= {((b, 1),)} and p:
                    lin[g] = (b, p[((b, 1),)])
                else:
                    good = False
                    c0 = p.get((), 0)
                    only = all(set(dict(mm)) <= {a, b} for mm in p)
                    ctx.oblige("the identity for zero angles", w, False if only and c0 and not zero_ok(M, a, b) else None, "an angle of %s is used" % cutr(g))
            if not good:
                continue
            for g, (v, c) in lin.items():
                ctx.oblige("angles in degrees" if unit != 1 else "angles in radians", w, abs(abs(c) - unit) < Fraction(1, 10 ** 9),
                           "an angle is scaled by %g" % float(c))
            E = [[const(1 if i == j else 0) for j in range(3)] for i in range(3)]

            def at0(which):
                def f(t):
                    if lin[t.a[0]][0] in which:
                        return const(1) if t.op == "cos" else {}
                    return None
                return [[subst(p, f) for p in r] for r in M]
            Z = at0((a, b))
            ctx.oblige("the identity for zero angles", w, all(close(Z[i][j], E[i][j]) for i in range(3) for j in range(3)), "zero angles give another matrix")
            A = at0((b,))
            okA = all(close(A[2][j], E[2][j]) and close(A[j][2], E[j][2]) for j in range(3)) and \
                any(t.op in ("sin", "cos") for r in A for p in r for t in atoms(p))
            ctx.oblige("the first angle turns about the viewing axis", w, okA, "with no elevation the z axis does not stay in place")
            B = at0((a,))
            okB = all(close(B[0][j], E[0][j]) and close(B[j][0], E[j][0]) for j in range(3)) and \
                any(t.op in ("sin", "cos") for r in B for p in r for t in atoms(p))
            ctx.oblige("the second angle tilts about the x axis", w, okB, "with no rotation the x axis does not stay in place")
    ctx.extra["matrices"] = 2


def entries(t):
    """the nine entries of a matrix as polynomials"""
    if t.op == "mat":
        return [[poly(elem3(t, i, j)) for j in range(3)] for i in range(3)]
    if t.op == "mm":
        a, b = entries(t.a[0]), entries(t.a[1])
        if a is None or b is None:
            return None
        r = [[{} for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(3):
                for k in range(3):
                    r[i][j] = padd(r[i][j], pmul(a[i][k], b[k][j]))
        return r
    if t.op == "transpose":
        a = entries(t.a[0])
        return a and [[a[j][i] for j in range(3)] for i in range(3)]
    return None


def zero_ok(M, a, b):
    return False
