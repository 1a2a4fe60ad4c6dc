"""C38: point functions."""
import terms as TM
import specs
from poly import poly, padd, pmul, peq
from common import *
from c_flow import NS
from c_mesh import partial, lin
from c_index import over, short, mods
from engine import walk

RDEF = "a point function succeeds only with every coordinate of its result assigned"
RARG = "a failing argument fails the whole"
RNAME = "only the documented functions succeed"
RLIT = "a literal yields its own coordinates under the view rotation"
RNEAR = "near yields the target when it is a vertex, otherwise the vertex nearest in the plane of the page"
RCEN = "center yields the centre of a circle fitted to vertices"
RPTS = "the first estimate is made from the three nearest vertices"
RFEW = "no circle is fitted to fewer than three points"
RFIN = "no fitted circle has a centre or a radius that is not finite"
RFIT = "the fitted circle is the least-squares solution over all the points"
RSEL = "the points about as far away are selected exactly"
RCLO = "the nearest points are collected"
POINT = NS + "Point"
IMPL = NS + "point_impl::"


def c38(ctx):
    ctx.rule("value and path facts at every successful exit of the evaluation; the searches are judged turn by turn from their loop summaries; the fit by a polynomial identity of its rows")
    ctx.load()
    for fn in over_riders(ctx):
        partial(ctx, invoke, fn)
    partial(ctx, literal)
    for fn in ctx.fns(NS + "FindCircle"):
        partial(ctx, fit, fn)
    for fn in ctx.fns(IMPL + "Between"):
        partial(ctx, between, fn)
    for fn in ctx.fns(IMPL + "Closest"):
        partial(ctx, closest, fn)


def pointee(fn, i):
    return (mk("P", fn["params"][i]["n"]), ())


def over_riders(ctx):
    out = []
    for f in ctx.fns(POINT + "::Invoke"):
        out += ctx.prog.overriders.get(f["key"], [])
    if not out:
        for k, fs in ctx.prog.overriders.items():
            for f in fs:
                if f["q"].endswith("::Invoke") and f["q"].startswith(NS) and f not in out and len(f["params"]) == 2:
                    out.append(f)
    if not out:
        ctx.undecide("no override of Point::Invoke was found")
    return out


# ------------------------------------------------------------------ contracts
def c_inner(eng, st, f, ol, args, e):
    pts = eng.argval(st, args[0])
    ret = eng.argval(st, args[1])
    a, b = specs.fork(st, 2)
    loc = eng.deref(a, ret)
    eng.write(a, loc, mk("target", eng.ptr(ol) if ol is not None else NULL))
    a.mon["pts"] = pts
    b.mon["failed"] = 1
    return [(a, TRUE), (b, FALSE)]


def c_fit(eng, st, f, ol, args, e):
    pts = eng.argval(st, args[0], False)
    cen, rad = eng.argval(st, args[1]), eng.argval(st, args[2])
    a, b = specs.fork(st, 2)
    a.mon["fitted"] = 1
    b.mon["failed"] = 1
    eng.write(a, eng.deref(a, cen), mk("circle", S("center"), pts))
    eng.write(a, eng.deref(a, rad), mk("circle", S("rad"), pts))
    for s in (b,):
        eng.write(s, eng.deref(s, cen), mk("dflt", "v"))
        eng.write(s, eng.deref(s, rad), mk("dflt", "v"))
    return [(a, TRUE), (b, FALSE)]


CON = {POINT + "::Invoke": c_inner, NS + "FindCircle": c_fit, IMPL + "Closest": specs.pure("closest"), IMPL + "Between": specs.pure("between")}


def succeeded(x):
    return x.val is True or x.val is TRUE


def assigned(eng, t, n, ret, depth=0, seen=()):
    """None, or why the coordinate n of t is not assigned"""
    c = TM.proj(t, n)
    if t.op == "dflt" or c.op == "dflt" or (c.op == "proj" and c.a and isinstance(c.a[0], T) and c.a[0].op == "dflt"):
        return "it is never assigned"
    if mentions(c, lambda x: x.op == "dflt"):
        return "it depends on a value that is never assigned"
    if c.op == "init" and ret is not None and c.a[0] is ret[0]:
        return "the result keeps what it held before"
    if c.op == "lv" and depth < 4:
        r = eng.loops.get(c.a[0])
        if r is None or c.a[0] in seen:
            return None
        for l in r["changed"]:
            if l[0] is not c.a[1]:
                continue
            p = eng.read(r["pre"], l)
            for st, v in [(r["pre"], p)] + [(b, eng.read(b, l)) for h, b in r["steps"]]:
                if v.op == "lv" and v.a[0] == c.a[0]:
                    continue
                w = assigned(eng, v, n, ret, depth + 1, seen + (c.a[0],))
                if w:
                    return w
    return None


def known_many(st, s, k):
    """do the path facts give size(s) >= k?"""
    n = TM.size(s)
    for f, v in st.facts.items():
        if f.op == "eq" and k == 1 and not v and n in f.a and I(0) in f.a:
            return True
        if f.op == "lt" and f.a[0] is n and f.a[1].op == "i" and not v and f.a[1].a[0] >= k:
            return True
        if f.op == "lt" and f.a[1] is n and f.a[0].op == "i" and v and f.a[0].a[0] >= k - 1:
            return True
        if f.op == "has" and f.a[0] is s and v and k == 1:
            return True
    return False


def invoke(ctx, fn):
    P, ret = param(fn, 0), param(fn, 1)
    con = dict(CON)
    con.pop(fn["q"], None)
    eng, ex = ctx.run(fn, con, exact=True)
    if ex is None:
        return
    for x in ex:
        if x.val is not True and x.val is not False and not (isinstance(x.val, T) and x.val in (TRUE, FALSE)):
            ctx.undecide("%s: the outcome of a path is not decided" % fn["q"])
            continue
        if not succeeded(x):
            continue
        w = ctx.where(fn, getattr(x, "line", None))
        st = x.st
        loc = pointee(fn, 1)
        v = eng.read(st, loc)
        why = None
        for n in ("x", "y", "z"):
            why = why or (assigned(eng, v, n, loc) and (n, assigned(eng, v, n, loc)))
        ctx.oblige(RDEF, w, why is None, why and "%s succeeds but the %s coordinate of the result is not assigned: %s" % (fn["q"], why[0], why[1]))
        ctx.oblige(RARG, w, not st.mon.get("failed"), "%s succeeds on a path on which its argument or the circle failed" % fn["q"])
        name = function(st)
        if not any(f["n"] == "name_" or "string" in f["t"] for f in fields(ctx, fn)):
            continue
        ctx.oblige(RNAME, w, None if name == "?" else name in ("near", "center"),
                   "%s succeeds for a function name that is not one of the documented ones (%s)" % (fn["q"], "any other name" if name is None else repr(name)))
        if name == "near":
            near(ctx, eng, fn, x, v, P, w)
        elif name == "center":
            center(ctx, eng, fn, x, v, P, w)


def fields(ctx, fn):
    r = ctx.prog.records.get(fn["q"].rsplit("::", 1)[0])
    return (r or {}).get("fields", [])


def function(st):
    """the name of the point function the path is about: a string, None when every other name goes here, "?" when the path does not say"""
    no = False
    for f, v in st.facts.items():
        if f.op == "eq":
            s = [a for a in f.a if isinstance(a, T) and a.op == "s"]
            o = [a for a in f.a if isinstance(a, T) and a.op == "init"]
            if s and o:
                if v:
                    t = s[0].a[0]
                    return t.decode("latin-1") if isinstance(t, bytes) else t
                no = True
    return None if no else "?"


def comp(t, n):
    """the coordinate n of a vector term as a polynomial; None when it has none"""
    if t.op in ("sub", "sv_sub", "-") and len(t.a) == 2:
        a, b = comp(t.a[0], n), comp(t.a[1], n)
        return None if a is None or b is None else padd(a, b, -1)
    return poly(TM.proj(t, n))


def square(t, dims):
    """the squared length of a vector term as a polynomial"""
    p = {}
    for n in dims:
        c = comp(t, n)
        p = padd(p, pmul(c, c))
    return p


def distance(t, dims):
    """the polynomial of a squared distance term"""
    if t.op == "squaredNorm":
        return square(t.a[0], dims)
    if t.op == "dot":
        p = {}
        for n in dims:
            p = padd(p, pmul(comp(t.a[0], n), comp(t.a[1], n)))
        return p
    if t.op in ("norm", "sqrt"):
        return distance(t.a[0] if t.op == "sqrt" else mk("squaredNorm", t.a[0]), dims)
    return poly(t)


def near(ctx, eng, fn, x, v, P, w):
    st = x.st
    ctx.oblige(RNEAR, w, known_many(st, P, 1), "near succeeds although there may be no vertex at all")
    has = [(f, b) for f, b in st.facts.items() if f.op == "has" and f.a[0] is P]
    full = [b for f, b in has if f.a[1].op == "target"]
    if v.op == "target":
        ctx.oblige(RNEAR, w, True if True in full else (None if eng.loops else False), "near yields its target without the target being a vertex")
        return
    if True in full:
        ctx.oblige(RNEAR, w, False, "near does not yield the target although it is a vertex")
        return
    if not full:
        looked = any(f.op in ("has", "eq", "lt") and mentions(f, lambda t: t.op == "target") for f in st.facts) or any(
            mentions(f, lambda t: t.op == "target") and f.op == "eq" for r in eng.loops.values() for h, b in r["steps"] for f in b.facts)
        ctx.oblige(RNEAR, w, None if looked else False, "near never looks whether the target itself is a vertex")
    nearest(ctx, eng, fn, v, P, w)


def nearest(ctx, eng, fn, v, P, w):
    """the result of a search for the nearest vertex"""
    cx, cy = TM.proj(v, "x"), TM.proj(v, "y")
    if v.op != "lv" and cx.op == "lv" and cx.a[-1] == "x" and cy is mk("lv", *(cx.a[:-1] + ("y",))):
        v = mk("lv", *cx.a[:-1])
    if v.op != "lv":
        ctx.oblige(RNEAR, w, None, "", "the search is not a loop over the vertices")
        return
    r = eng.loops[v.a[0]]
    w = ctx.where(fn, r["line"])
    if not over(r, P):
        ctx.oblige(RNEAR, w, False if short(eng, r, P) else None, "the search leaves out a vertex", "the search is not a loop over the vertices")
        return
    if r["early"]:
        ctx.oblige(RNEAR, w, None, "", "the search can end early")
        return
    loc = [l for l in r["changed"] if l[0] is v.a[1] and len(l[1]) == len(v.a) - 2]
    if not loc:
        ctx.oblige(RNEAR, w, None, "", "the place of the result is not found")
        return
    loc = loc[0]
    pre = eng.read(r["pre"], loc)
    for h, b in r["steps"]:
        hv, bv = eng.read(h, loc), eng.read(b, loc)
        kept = bv is hv
        best = None
        for f, val in b.facts.items():
            if f in r["pre"].facts or f.op not in ("lt", "le"):
                continue
            for i in (0, 1):
                o, d = f.a[i], f.a[1 - i]
                if mentions(o, lambda t: t.op == "elem") or not mentions(d, lambda t: t.op == "elem"):
                    continue
                mine = o.op == "lv" and o.a[0] == r["key"]
                if mine or (best is None and mentions(d, lambda t: t.op == "target")):
                    best = (o, d, val if i == 1 else not val)
        if best is None:
            ctx.oblige(RNEAR, w, None, "", "a turn without a comparison with the best so far")
            continue
        o, d, nearer = best
        els = {t for t in TM.subs(d) if t.op == "elem"}
        tgs = {t for t in TM.subs(d) if t.op == "target"}
        if len(els) != 1 or len(tgs) != 1:
            ctx.oblige(RNEAR, w, None, "", "the measured distance is not between the target and one vertex")
            continue
        el, tg = els.pop(), tgs.pop()
        want = {}
        for n in ("x", "y"):
            c = padd(poly(TM.proj(tg, n)), poly(TM.proj(el, n)), -1)
            want = padd(want, pmul(c, c))
        got = distance(d, ("x", "y", "z"))
        ctx.oblige(RNEAR, w, peq(got, want), "the distance that is compared is not the one in the plane of the page between the target and the vertex")
        ol = [l for l in r["changed"] if eng.read(h, l) is o]
        bo = eng.read(b, ol[0]) if ol else None
        if kept:
            ctx.oblige(RNEAR, w, not nearer, "a vertex nearer than the best so far is passed over")
            ctx.oblige(RNEAR, w, bo is o, "the best distance changes while the result stays")
        else:
            ctx.oblige(RNEAR, w, nearer, "a vertex that is not nearer than the best so far replaces it")
            ctx.oblige(RNEAR, w, bo is d, "the best distance so far is not the one of the vertex taken")
            ctx.oblige(RNEAR, w, atvertex(bv, el), "the result is not the vertex that was found nearest")
        if ol:
            p = eng.read(r["pre"], ol[0])
            if isconst(p):
                ctx.oblige(RNEAR, w, False, "a vertex farther than a fixed distance is never taken")
            elif p.op == "call":
                nm = str(p.a[0])
                ctx.oblige(RNEAR, w, True if nm.endswith("::max") or nm.endswith("::infinity") else (False if nm.endswith("::min") or nm.endswith("epsilon") else None),
                           "the search starts from a bound that is not the largest number")
    if pre.op != "init":
        src = [t for t in TM.subs(pre) if t.op in ("init", "elem", "lv", "target")]
        ctx.oblige(RNEAR, w, None if any(t.op == "target" for t in src) else True, "", "the value before the search")


def atvertex(v, el):
    for n in ("x", "y"):
        if TM.proj(v, n) is not TM.proj(el, n):
            return False
    return True


# ------------------------------------------------------------------ center
def center(ctx, eng, fn, x, v, P, w):
    st = x.st
    ctx.oblige(RCEN, w, bool(st.mon.get("fitted")) or (None if known_many(st, P, 3) else False), "center succeeds without a fitted circle")
    cx, cy = TM.proj(v, "x"), TM.proj(v, "y")
    cs = outermost(cx) | outermost(cy)
    if len(cs) != 1:
        ctx.oblige(RCEN, w, None if v.op == "lv" else False, "the result of center is not the centre of one fitted circle")
        return
    c = cs.pop()
    ok = c.a[0] is S("center") and cx is TM.proj(c, "x") and cy is TM.proj(c, "y")
    ctx.oblige(RCEN, w, ok, "the result of center is not the centre of the fitted circle")
    sel = c.a[1]
    chain(ctx, eng, fn, st, sel, P, w)


def outermost(t):
    """the fitted circles a term is about, without those they are themselves made from"""
    if t.op == "circle":
        return {t}
    out = set()
    for a in t.a:
        if isinstance(a, T):
            out |= outermost(a)
    return out


def chain(ctx, eng, fn, st, sel, P, w, aim=lambda t: t.op == "target"):
    """where the points of a fitted circle come from"""
    if sel.op == "between":
        pts, lo, hi, cen = sel.a[:4]
        ctx.oblige(RCEN, w, flattened(eng, pts, P), "the points the circle is fitted to are not the x and y of every vertex", "how the vertices are projected")
        inner = outermost(cen)
        if len(inner) != 1:
            known = not mentions(cen, lambda t: t.op in ("lv", "call", "out"))
            ctx.oblige(RCEN, w, False if known and not inner else None, "distances are not taken from the centre of a fitted circle", "where the first estimate comes from")
            return
        c1 = inner.pop()
        r1 = mk("circle", S("rad"), c1.a[1])
        if not (c1.a[0] is S("center") and atvertex(cen, c1)):
            ctx.oblige(RCEN, w, False, "distances are not taken from the centre of the first estimate")
        f = [ratio(t, r1) for t in (lo, hi)]
        if None in f:
            ctx.oblige(RCEN, w, None, "", "the range of distances is not a multiple of the first radius")
        else:
            ctx.oblige(RCEN, w, 0 <= f[0] < 1 < f[1], "the range of distances does not contain the radius of the first estimate")
        chain(ctx, eng, fn, st, c1.a[1], P, w, aim)
    elif sel.op == "closest":
        pts, n, to = sel.a[:3]
        ctx.oblige(RPTS, w, flattened(eng, pts, P), "the first estimate is not made from the x and y of every vertex", "how the vertices are projected")
        ctx.oblige(RPTS, w, None if n.op != "i" else n.a[0] == 3, "the first estimate is not made from three vertices")
        tg = {t for t in TM.subs(to) if aim(t)}
        ctx.oblige(RPTS, w, len(tg) == 1 and atvertex(to, list(tg)[0]), "the vertices of the first estimate are not the ones nearest to the target")
    else:
        f = flattened(eng, sel, P)
        ctx.oblige(RCEN, w, False if f is True else None, "the circle is fitted to all vertices", "where the points of the circle come from")


def ratio(t, r):
    p = poly(t)
    a = poly(r)
    if len(p) != 1 or len(a) != 1:
        return 0 if not p else None
    (m, c), (m2, c2) = list(p.items())[0], list(a.items())[0]
    return float(c) / float(c2) if m == m2 else None


def flattened(eng, t, P):
    """is t the list of (x, y) of every vertex?"""
    if t.op != "lv":
        return None
    r = eng.loops.get(t.a[0])
    if r is None or not over(r, P):
        return False if r is not None and short(eng, r, P) else None
    if r["early"]:
        return None
    loc = [l for l in r["changed"] if l[0] is t.a[1] and len(l[1]) == len(t.a) - 2]
    if not loc:
        return None
    if TM.size(eng.read(r["pre"], loc[0])) is not I(0):
        return None
    for h, b in r["steps"]:
        base, app, wr = mods(eng.read(b, loc[0]))
        if base is not eng.read(h, loc[0]) or wr:
            return None
        if len(app) != 1:
            return False
        els = {s for s in TM.subs(app[0]) if s.op == "elem"}
        if len(els) != 1:
            return False
        if not atvertex(app[0], els.pop()):
            return False
    return True


# ------------------------------------------------------------------ literals
def literal(ctx):
    for fn in ctx.fns(NS + "Val::Invoke"):
        eng, ex = ctx.run(fn, {})
        if ex is None:
            continue
        want = mk("init", mk("P", "this", NS + "Val"), "p_")
        for x in ex:
            w = ctx.where(fn, None)
            if not succeeded(x):
                ctx.oblige(RLIT, w, False, "a literal can fail")
                continue
            v = eng.read(x.st, pointee(fn, 1))
            held = [f["n"] for f in fields(ctx, fn)]
            if "p_" not in held:
                ctx.oblige(RLIT, w, None, "", "the value of a literal")
                continue
            me = eng.read(x.st, (mk("P", "this", NS + "Val"), ("p_",)))
            ok = all(TM.proj(v, n) is TM.proj(me, n) and mentions(TM.proj(v, n), lambda t: t.op == "init" and "p_" in t.a[1:]) for n in ("x", "y", "z"))
            ctx.oblige(RLIT, w, ok, "a literal does not yield its own coordinates")
    for fn in ctx.fns(NS + "Val::Rotate"):
        eng, ex = ctx.run(fn, {})
        if ex is None:
            continue
        for x in ex:
            this = (mk("P", "this", NS + "Val"), ("p_",))
            v = eng.read(x.st, this)
            p, m = None, param(fn, 0)
            if v.op == "mm" and v.a[1] is m:
                p = v.a[0]
            ok = p is not None and p.op == "init" and "p_" in p.a
            bad = v.op == "init" or (v.op == "mm" and not ok)
            ctx.oblige(RLIT, ctx.where(fn, None), True if ok else (False if bad else None), "rotating a literal does not take its coordinates through the matrix given")
    for fn in ctx.fns(NS + "PointFunc::Rotate"):
        eng, ex = ctx.run(fn, {POINT + "::Rotate": specs.c_rotate})
        if ex is None:
            continue
        for x in ex:
            vs = [v for r, v in x.st.store.items() if r.op == "D" and v.op == "rec" and v.a[0] == "#point"]
            rot = [dict(v.a[1])["#rot"] for v in vs]
            m = param(fn, 0)
            ok = len(rot) == 1 and rot[0] is m
            ctx.oblige(RLIT, ctx.where(fn, None), True if ok else (False if not rot or (len(rot) == 1 and rot[0].op in ("mm", "unrotated", "transpose", "init")) else None),
                       "the argument of a point function is not rotated by the matrix given, once")


# ------------------------------------------------------------------ fit
def fit(ctx, fn):
    eng, ex = ctx.run(fn, {})
    if ex is None:
        return
    P = param(fn, 0)
    for x in ex:
        if not succeeded(x):
            if x.val not in (False, FALSE):
                ctx.undecide("FindCircle: the outcome of a path is not decided")
            continue
        st = x.st
        w = ctx.where(fn, None)
        ctx.oblige(RFEW, w, known_many(st, P, 3), "a path succeeds without at least three points")
        cl, rl = pointee(fn, 1), pointee(fn, 2)
        c, rad = eng.read(st, cl), eng.read(st, rl)
        cx, cy = TM.proj(c, "x"), TM.proj(c, "y")
        done = True
        for n, t, l in (("the x of the centre", cx, cl), ("the y of the centre", cy, cl), ("the radius", rad, rl)):
            un = t.op == "dflt" or (t.op == "init" and t.a[0] is l[0])
            done &= not un
            ctx.oblige(RDEF, w, not un, "FindCircle succeeds without assigning %s" % n)
        if not done:
            continue
        finite(ctx, st, cx, cy, rad, w)
        least(ctx, eng, fn, st, cx, cy, rad, P, w)


def finite(ctx, st, cx, cy, rad, w):
    def test(f):
        return mentions(f, lambda t: (t.op == "call" and any(k in str(t.a[0]) for k in ("isfinite", "isnan", "isinf", "allFinite", "hasNaN", "isnormal", "isInvertible"))) or
                        t.op in ("isfinite", "isnan", "allFinite", "hasNaN", "isinf", "isnormal", "determinant"))
    sure = None
    for f, v in st.facts.items():
        g = f.a[0] if f.op == "bcall" else f
        nm = str(g.a[0]) if g.op == "call" else g.op
        if "isfinite" in nm and v and any(a is rad for a in g.a):
            sure = True
        if "allFinite" in nm and v:
            sure = True
    if sure is None:
        doubt = any(test(f) or (f.op in ("eq", "lt") and mentions(f, lambda t: t.op in ("inverse", "mm", "sqrt"))) for f in st.facts)
        sure = None if doubt else False
    ctx.oblige(RFIN, w, sure, "FindCircle succeeds without a test that the circle is finite: points on a line have none", "how it is made sure that the circle is finite")


def product(t):
    return product(t.a[0]) + product(t.a[1]) if t.op == "mm" else [t]


def least(ctx, eng, fn, st, cx, cy, rad, P, w):
    res = {t for t in TM.subs(cx) if t.op == "mm"}
    top = [t for t in res if not any(u is not t and t in TM.subs(u) for u in res)]
    if len(top) != 1:
        ctx.oblige(RFIT, w, None, "", "the solution is not a product of matrices")
        return
    R = top[0]
    f = product(R)
    tr = lambda t: t.a[0] if t.op == "transpose" else mk("transpose", t)
    if len(f) != 3 or f[0].op != "inverse":
        ctx.oblige(RFIT, w, None, "", "the solution is not (A'A)^-1 A' b")
        return
    A = tr(f[1])
    nn = product(f[0].a[0])
    ok = len(nn) == 2 and nn[0] is f[1] and nn[1] is A
    ctx.oblige(RFIT, w, ok, "the normal equations are not formed from one matrix")
    if not ok:
        return
    b = f[2]
    if A.op != "lv" or b.op != "lv" or A.a[0] != b.a[0]:
        ctx.oblige(RFIT, w, None, "", "the rows are not filled in by one loop")
        return
    r = eng.loops[A.a[0]]
    w = ctx.where(fn, r["line"])
    if not over(r, P):
        ctx.oblige(RFIT, w, False if short(eng, r, P) else None, "a point is left out of the fit", "the rows are not filled in for every point in turn")
        return
    ctx.oblige(RFIT, w, None if r["early"] else True, "", "the rows")
    la, lb = [[l for l in r["changed"] if l[0] is t.a[1]][0] for t in (A, b)]
    for h, k in r["steps"]:
        rows = [mods(eng.read(k, l))[2] for l in (la, lb)]
        a = {}
        i = set()
        for key, v in rows[0]:
            if isinstance(key, T) and key.op == "idx2" and len(key.a) == 2 and key.a[1].op == "i":
                i.add(key.a[0])
                a[key.a[1].a[0]] = v
        y = None
        for key, v in rows[1]:
            if isinstance(key, T) and key.op in ("idx2", "idx"):
                i.add(key.a[0])
                y = v
            elif isinstance(key, T):
                i.add(key)
                y = v
        if len(i) != 1 or set(a) != {0, 1, 2} or y is None:
            short_ = len(i) == 1 and not eng_unknown(eng, k, la, lb)
            ctx.oblige(RFIT, w, False if short_ and (set(a) < {0, 1, 2} or y is None) else None, "a turn does not fill in the whole row", "how the rows are filled in")
            continue
        row = {}
        for n, c in ((0, "x"), (1, "y"), (2, "z")):
            row = padd(row, pmul(full(a[n]), poly(TM.proj(R, c))))
        row = padd(row, full(y), -1)
        els = {t for v in list(a.values()) + [y] for t in TM.subs(v) if t.op in ("elem",)}
        if len(els) != 1:
            ctx.oblige(RFIT, w, None, "", "the point of a row")
            continue
        el = els.pop()
        want = full(rad.a[0]) if rad.op == "sqrt" else pmul(full(rad), full(rad))
        for n, c in (("x", cx), ("y", cy)):
            d = padd(poly(TM.proj(el, n)), full(c), -1)
            want = padd(want, pmul(d, d), -1)
        ctx.oblige(RFIT, w, proportional(row, want), "the residual of a row is not the one of the circle equation at its point, |p - c|^2 = r^2")


def eng_unknown(eng, k, la, lb):
    return any(mods(eng.read(k, l))[0].op not in ("lv",) for l in (la, lb))


def full(t):
    """polynomial with dot products and squared lengths written out in two coordinates"""
    m = {}
    for s in TM.subs(t):
        if s.op in ("squaredNorm", "dot"):
            a = s.a[0]
            b = s.a[1] if s.op == "dot" else a
            m[s] = mk("+", mk("*", TM.proj(a, "x"), TM.proj(b, "x")), mk("*", TM.proj(a, "y"), TM.proj(b, "y")))
    if m:
        t = TM.replace(t, m)
    return poly(t)


def proportional(a, b):
    a = {m: c for m, c in a.items() if c != 0}
    b = {m: c for m, c in b.items() if c != 0}
    if not a or set(a) != set(b):
        return False
    q = None
    for m in a:
        k = a[m] / b[m]
        if q is None:
            q = k
        elif abs(k - q) > 1e-9:
            return False
    return True


# ------------------------------------------------------------------ selections
def between(ctx, fn):
    eng, ex = ctx.run(fn, {}, exact=True)
    if ex is None:
        return
    P, lo, hi, to = [param(fn, i) for i in range(4)]
    judged = set()
    for x in ex:
        v = x.val
        if not isinstance(v, T) or v.op != "lv":
            n = isinstance(v, T) and TM.size(v) is I(0)
            f = x.st.facts
            lt_ = lambda a, b: f.get(mk("lt", a, b))
            none = lt_(hi, lo) is True or lt_(hi, I(0)) is True or lt_(hi, TM.Fl(0.0)) is True or known_empty(x.st, P)
            ctx.oblige(RSEL, ctx.where(fn, None), None if not n else True if none else None, "", "an empty selection")
            continue
        r = eng.loops[v.a[0]]
        if v.a[0] in judged:
            continue
        judged.add(v.a[0])
        w = ctx.where(fn, r["line"])
        if not over(r, P):
            ctx.oblige(RSEL, w, False if short(eng, r, P) else None, "a point is left out", "not a loop over the points")
            continue
        if r["early"]:
            ctx.oblige(RSEL, w, None, "", "the selection can end early")
        loc = [l for l in r["changed"] if l[0] is v.a[1]][0]
        for h, b in r["steps"]:
            base, app, wr = mods(eng.read(b, loc))
            if base is not eng.read(h, loc) or wr:
                ctx.oblige(RSEL, w, None, "", "a turn that does more than select")
                continue
            new = {f: k for f, k in b.facts.items() if f not in r["pre"].facts}
            low = side(new, lo, P, to, True)
            high = side(new, hi, P, to, False)
            if app:
                ok = len(app) == 1 and app[0].op == "elem" and app[0].a[0] is P
                if app[0].op != "elem" and mentions(app[0], lambda t: t.op == "elem"):
                    ok = all(atvertex(app[0], t) for t in TM.subs(app[0]) if t.op == "elem")
                ctx.oblige(RSEL, w, ok, "what is selected is not a point given")
                ctx.oblige(RSEL, w, low is True and high is True if None not in (low, high) else (False if known_tests(new) else None),
                           "a point is selected without being between the two distances", "how a point is selected")
            else:
                ctx.oblige(RSEL, w, True if low is False or high is False else (False if low is True and high is True else (None if new and not known_tests(new) else False)),
                           "a point between the two distances is left out", "how a point is left out")


def known_empty(st, P):
    return st.facts.get(eq(TM.size(P), I(0))) is True


def known_tests(new):
    """are all comparisons of the turn ones that are understood?"""
    return all(f.op in ("lt", "le") or (f.op == "eq" and mentions(f, lambda t: t.op == "size")) for f in new)


def side(facts, bound, P, to, lower):
    """does the path say that the distance is on the inner side of the bound? True, False or None"""
    b2 = pmul(poly(bound), poly(bound))
    for f, v in facts.items():
        if f.op not in ("lt", "le"):
            continue
        for i in (0, 1):
            d, b = f.a[i], f.a[1 - i]
            els = [t for t in TM.subs(d) if t.op == "elem"]
            if not els or mentions(b, lambda t: t.op == "elem"):
                continue
            root = d.op in ("norm", "sqrt")
            if not peq(poly(b), poly(bound) if root else b2):
                continue
            want = {}
            for n in ("x", "y"):
                c = padd(poly(TM.proj(els[0], n)), poly(TM.proj(to, n)), -1)
                want = padd(want, pmul(c, c))
            if not peq(distance(d, ("x", "y")), want):
                continue
            less = v if i == 0 else not v
            return (not less) if lower else less
    return None


def closest(ctx, fn):
    eng, ex = ctx.run(fn, {}, exact=True)
    if ex is None:
        return
    P, count, to = [param(fn, i) for i in range(3)]
    done = set()
    for x in ex:
        v = x.val
        if isinstance(v, T) and TM.size(v) is I(0) and v.op != "lv":
            ok = any(k and f.op == "lt" and f.a[0] is count and f.a[1].op == "i" and f.a[1].a[0] <= 1 for f, k in x.st.facts.items()) or known_empty(x.st, P)
            ctx.oblige(RCLO, ctx.where(fn, None), True if ok else None, "", "an empty answer")
            continue
        if not isinstance(v, T) or v.op != "lv":
            ctx.oblige(RCLO, ctx.where(fn, None), None, "", "the answer is not collected by a loop")
            continue
        r = eng.loops[v.a[0]]
        w = ctx.where(fn, r["line"])
        held = r["cont"]
        if held is None or held.op != "lv":
            ctx.oblige(RCLO, w, None, "", "the answer is not a copy of a table")
            continue
        loc = [l for l in r["changed"] if l[0] is v.a[1]][0]
        for h, b in r["steps"]:
            base, app, wr = mods(eng.read(b, loc))
            ok = base is eng.read(h, loc) and not wr and len(app) == 1
            good = ok and app[0] is TM.proj(mk("elem", held, r["key"]), "second")
            ctx.oblige(RCLO, w, True if good else None, "the answer does not hold the points collected", "how the answer is copied")
        if held.a[0] in done:
            continue
        done.add(held.a[0])
        collected(ctx, eng, fn, eng.loops[held.a[0]], held, P, count, to)


def collected(ctx, eng, fn, r, held, P, count, to):
    w = ctx.where(fn, r["line"])
    if not over(r, P):
        ctx.oblige(RCLO, w, False if short(eng, r, P) else None, "a point is left out", "not a loop over the points")
        return
    if r["early"]:
        ctx.oblige(RCLO, w, None, "", "the search can end early")
        return
    loc = [l for l in r["changed"] if l[0] is held.a[1] and len(l[1]) == len(held.a) - 2][0]
    for h, b in r["steps"]:
        head, back = eng.read(h, loc), eng.read(b, loc)
        new = {f: k for f, k in b.facts.items() if f not in r["pre"].facts}
        if back is head:
            passed(ctx, eng, r, h, b, head, new, P, count, to, w)
        else:
            added(ctx, eng, r, head, back, new, P, count, to, w)


def dist_of(d, P, to):
    els = [t for t in TM.subs(d) if t.op == "elem"]
    if len(set(els)) != 1:
        return None
    want = {}
    for n in ("x", "y"):
        c = padd(poly(TM.proj(els[0], n)), poly(TM.proj(to, n)), -1)
        want = padd(want, pmul(c, c))
    return peq(distance(d, ("x", "y")), want)


def findif(f):
    for t in TM.subs(f):
        if t.op == "call" and str(t.a[0]).endswith(("find_if", "any_of")):
            return t
    return None


def passed(ctx, eng, r, h, b, head, new, P, count, to, w):
    """a turn that leaves the collection as it is"""
    dup = [(f, k) for f, k in new.items() if findif(f) is not None]
    if dup:
        f, k = dup[-1]
        if (f.op == "eq" and k is False) or (f.op == "bcall" and k is True):
            twin(ctx, eng, r, b, findif(f), w)
            return
        ctx.oblige(RCLO, w, None, "", "why a point is passed over")
        return
    far = full_ = False
    for f, k in new.items():
        if f.op != "lt":
            continue
        a, c = f.a
        last = lambda t: t.op == "lv" and mentions_last(t)
        if last(a) and dist_of(c, P, to) and k:
            far = True
        if last(c) and dist_of(a, P, to) and not k:
            far = True
        if a is TM.size(head) and c is count and not k:
            full_ = True
        if a is count and c is TM.size(head) and k:
            full_ = True
    if far and not full_:
        ctx.oblige(RCLO, w, None if any(f.op == "eq" and mentions(f, lambda t: t is TM.size(head)) and mentions(f, lambda t: t is count) for f in new) else False,
                   "a point is passed over for being farther than those held although fewer than asked for may be held")
    elif far:
        ctx.oblige(RCLO, w, True, "")
    else:
        ctx.oblige(RCLO, w, None, "", "why a point is passed over")


def mentions_last(t):
    return any(isinstance(a, T) and a.op == "last" for a in t.a) or "last()" in repr(t)


def twin(ctx, eng, r, b, call, w):
    """the test by which a point is taken for one already held: true of two equal points, whatever their distance"""
    lam = [t for t in call.a if isinstance(t, T) and t.op == "lam"]
    if not lam:
        ctx.oblige(RCLO, w, None, "", "the test for a point already held")
        return
    st = b.clone()
    el = [t for f in b.facts for t in TM.subs(f) if t.op == "elem"]
    if not el:
        ctx.oblige(RCLO, w, None, "", "the test for a point already held")
        return
    el = el[0]
    root = mk("H", "#probe", 1)
    eng.write(st, (root, ()), rec("pair", (("first", mk("held")), ("second", el))))
    try:
        outs_ = eng.apply_value(st, lam[0], [("l", (root, ()), False, "?")], {"k": "call", "l": r["line"], "_id": -7, "t": "bool"})
    except Exception as e:
        ctx.oblige(RCLO, w, None, "", "the test for a point already held")
        return
    for s, v in outs_:
        ctx.oblige(RCLO, w, always(eng, s, v), "a point equal to one already held is collected again when it lies at the target", "the test for a point already held")


def always(eng, s, v):
    """is the condition true of two equal points?"""
    v = eng.tobool(v) if v.op not in ("lt", "le", "not", "eq", "b") else v
    if v is TRUE:
        return True
    neg = False
    while v.op == "not":
        v, neg = v.a[0], not neg
    if v.op == "eq" and not neg and v.a[0] is v.a[1]:
        return True
    if v.op not in ("lt", "le"):
        return None

    def at(t, d):
        m = {}
        for u in TM.subs(t):
            if u.op in ("squaredNorm", "norm"):
                p = square(u.a[0], ("x", "y"))
                m[u] = TM.Fl(0.0) if peq(p, {}) else TM.Fl(d)
        p = poly(TM.replace(t, m))
        p = {k: c for k, c in p.items() if c != 0}
        if not p:
            return 0.0
        if list(p) == [()]:
            return float(p[()])
        return None
    for d in (0.0, 1.0, 100.0):
        a, c = at(v.a[0], d), at(v.a[1], d)
        if a is None or c is None:
            return None
        if (a < c if v.op == "lt" else a <= c) == neg:
            return False
    return True


def added(ctx, eng, r, head, back, new, P, count, to, w):
    """a turn that enters a point: under its distance, and drops the farthest when there are too many"""
    drops = []
    v = back
    n = 0
    while n < 6:
        n += 1
        if v.op == "erased":
            drops.append(v.a[1])
            v = v.a[0]
        elif v.op == "lv" and v.a[0] != r["key"]:
            q = eng.loops[v.a[0]]
            l = [l for l in q["changed"] if l[0] is v.a[1]]
            if not l:
                break
            for h, b in q["steps"]:
                t = eng.read(b, l[0])
                if t.op == "erased" and t.a[0] is eng.read(h, l[0]):
                    drops.append(t.a[1])
                else:
                    drops.append(None)
            v = eng.read(q["pre"], l[0])
        else:
            break
    if v.op != "sins" or v.a[0] is not head:
        ctx.oblige(RCLO, w, None, "", "how a point is entered")
        return
    it = v.a[1]
    k, p = TM.proj(it, "first"), TM.proj(it, "second")
    els = [t for t in TM.subs(p) if t.op == "elem"]
    ctx.oblige(RCLO, w, dist_of(k, P, to), "a point is not entered under its distance", "the distance of a point")
    ctx.oblige(RCLO, w, len(set(els)) == 1 and (p is els[0] or atvertex(p, els[0])), "what is entered is not a point given")
    for d in drops:
        last = d is not None and (mentions(d, lambda t: t.op == "last") or (mentions(d, lambda t: t.op == "end")))
        first = d is not None and mentions(d, lambda t: t.op == "first") and not last
        ctx.oblige(RCLO, w, True if last else (False if first else None), "the nearest point is dropped", "which point is dropped")
    n = TM.size(back)
    ok = None
    for f, val in new.items():
        if f.op != "lt" or f.a[1].op != "size":
            continue
        base, k = lin(f.a[0])
        if base is not count:
            continue
        if f.a[1] is n and not val:
            ok = k <= 0 or ok is True
        elif drops and val and len(drops) == 1 and back.op == "erased":
            ok = k <= 0 or ok is True
        elif not drops and not val:
            ok = k <= 0 or ok is True
    if ok is None:
        cmp_ = [f for f in new if f.op in ("lt", "le", "eq") and mentions(f, lambda t: t is count) and mentions(f, lambda t: t.op == "size")]
        ok = None if cmp_ else False
    ctx.oblige(RCLO, w, ok, "more points than asked for can be collected", "how many points are collected")
