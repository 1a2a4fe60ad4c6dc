"""C41: the numbers dimensions print."""
from fractions import Fraction
import math
import re
import terms as TM
from common import *
from c_flow import NS
from c_prop import DIMS, judge_all3, label_texts, closure, page_part, this_root, PAGE_FIELDS
import specs
from c_index import over, short, mods
import c_point
from poly import padd, pmul, poly
from vec import Alg, Unclear

R41 = "the number printed is the one measured"
DEG = Fraction(180 / math.pi)
CLOSE = Fraction(1, 10 ** 9)


def named(pm, terms, names):
    """{property: its point on the page} from the points a set of terms is about"""
    out = {}
    for t in terms:
        if t.op != "pt":
            continue
        for k in names:
            vs = pm.values(k)
            if any(x in vs for x in TM.subs(t.a[0])):
                out.setdefault(k, set()).add(t)
    return {k: list(v)[0] for k, v in out.items() if len(v) == 1}


def c41(ctx):
    ctx.rule("the value each label is formatted from is put in normal form over the coordinates of the evaluated points (modulo |v|^2 = v.v) and "
             "compared with the documented measure on every successful path; for circles it is traced to the fit, the selection and the projected vertices.")
    ctx.load()
    memo = {}
    count = {}

    def judge(kind, eng, st, v, pm):
        lt = label_texts(eng, st)
        if lt is None or not lt[0]:
            return {}
        strs = tuple(s for _, s in lt[0])
        pres = tuple(v.present(k) for k in ("from_dir", "to_dir"))
        key = (id(eng), strs, pres)
        if key in memo:
            return memo[key]
        out = memo[key] = {}
        vals = {t.a[1] for t in closure(eng, strs) if t.op == "fmt" and len(t.a) == 2}
        vals = {x for t in vals for x in (t if isinstance(t, tuple) else (t,))}
        for val in vals:
            count[kind] = count.get(kind, 0) + 1
            try:
                m, sure = MEASURE[kind](ctx, eng, st, v, pm, val)
            except Unclear as x:
                m, sure = "prints a number that is not understood (%s)" % x, 0
            if m:
                out[m] = sure
        return out
    judge_all3(ctx, R41, judge, DIMS)
    ctx.extra["labels_measured"] = count


def strip(t):
    while t.op in ("fcast", "tofloat") and len(t.a) == 1:
        t = t.a[0]
    return t


def known(alg, *ps):
    """is a polynomial only about coordinates of points (and constants)?"""
    return all(coordinate(t) or transform(t) for p in ps for t in alg.atoms(p))


def transform(t):
    """the scale and offset of the draw"""
    return t.op == "init" and t.a[0].op == "P" and t.a[0].a[0] == "this" and len(t.a) > 1


def coordinate(t):
    if t.op in ("proj", "init", "elem") and isinstance(t.a[0], T) and t.a[0].op in ("pt", "circle"):
        return True
    return t.op == "circle"


def points(eng, st, pm, val, names):
    pts = named(pm, closure(eng, [val]), names)
    if any(n not in pts for n in names):
        parts = page_part(eng, st, *PAGE_FIELDS) or []
        more = named(pm, closure(eng, parts + list(st.store.values())), names)
        for k, t in more.items():
            pts.setdefault(k, t)
    return pts


# ------------------------------------------------------------------ dim
def dim(ctx, eng, st, v, pm, val):
    pts = points(eng, st, pm, val, ("dir", "from", "to", "at"))
    if not {"dir", "from", "to"} <= set(pts):
        return "prints a number that is not understood", 0
    alg = Alg()
    d = alg.comps(pts["dir"], 3)
    n = alg.norm(d)
    diff = alg.sub(alg.comps(pts["to"], 3), alg.comps(pts["from"], 3))
    want = alg.red(pmul(alg.dot(d, diff), alg.inv(n)))
    got = alg.scal(val)
    sq = alg.eq(pmul(got, got), pmul(want, want))
    if not sq:
        return "prints something other than the distance of its points along its direction", 1 if known(alg, got) else 0
    if alg.eq(got, want) or alg.eq(got, padd({}, want, -1)):
        return "prints a negative number when its points come in one of the two orders", 1
    return None, 1


# ------------------------------------------------------------------ angle
def side(alg, v, pts, which):
    """the direction of one side"""
    dr, pt = v.present(which + "_dir"), v.present(which + "_point")
    if dr is True and pt is not True and which + "_dir" in pts:
        return alg.comps(pts[which + "_dir"], 3)
    if pt is True and dr is not True and which + "_point" in pts and "apex" in pts:
        return alg.sub(alg.comps(pts[which + "_point"], 3), alg.comps(pts["apex"], 3))
    return None


def angle(ctx, eng, st, v, pm, val):
    pts = points(eng, st, pm, val, ("from_dir", "from_point", "to_dir", "to_point", "apex"))
    alg = Alg()
    A, B = side(alg, v, pts, "from"), side(alg, v, pts, "to")
    if A is None or B is None:
        return "prints a number that is not understood", 0
    na, nb = alg.norm(A), alg.norm(B)
    ab = alg.dot(A, B)
    got = alg.scal(val)
    fs = {t for m in got for t, e in m if t.op in ("acos", "atan2", "asin", "atan")}
    if len(got) != 1 or len(fs) != 1:
        return "prints an angle that is not understood", 1 if got and known(alg, got) else 0
    (m, c), = got.items()
    f = fs.pop()
    if m != ((f, 1),):
        return "prints an angle multiplied with something", 1 if known(alg, {tuple((t, e) for t, e in m if t is not f): c}) else 0
    if f.op == "acos":
        x = f.a[0]
        lo = hi = False
        while True:
            x = strip(x)
            if x.op in ("min", "max") and len(x.a) == 2 and any(TM.num(a) is not None for a in x.a):
                k = [a for a in x.a if TM.num(a) is not None][0]
                y = [a for a in x.a if a is not k]
                if len(y) != 1:
                    break
                if x.op == "min" and TM.num(k) <= 1:
                    hi = True
                if x.op == "max" and TM.num(k) >= -1:
                    lo = True
                if abs(TM.num(k)) != 1:
                    return "limits the cosine of the angle to %s" % TM.num(k), 1 if abs(TM.num(k)) < 1 else 0
                x = y[0]
                continue
            break
        p = alg.scal(x)
        want = alg.red(pmul(ab, alg.inv(pmul(na, nb))))
        if not alg.eq(p, want):
            if alg.eq(p, padd({}, want, -1)):
                return "prints the supplement of the angle", 1
            return "prints something other than the angle between its directions", 1 if known(alg, p) else 0
        bounded = any(f.op in ("le", "lt") and x in f.a for f, b in st.facts.items())
        if not (lo and hi) and not bounded:
            return "takes the arc cosine of a product of unit vectors, which is not a number when rounded to more than 1", 1
    elif f.op == "atan2":
        y, x = alg.scal(f.a[0]), alg.scal(f.a[1])
        cr = alg.cross(A, B)
        cc = alg.dot(cr, cr)
        ok = False
        for k in ({(): Fraction(1)}, alg.inv(na), alg.inv(nb), alg.inv(pmul(na, nb))):
            if alg.eq(x, alg.red(pmul(ab, k))) and alg.eq(pmul(y, y), alg.red(pmul(cc, pmul(k, k)))):
                ok = True
        if not ok:
            return "prints something other than the angle between its directions", 1 if known(alg, x, y) else 0
        if strip(f.a[0]).op not in ("norm", "sqrt", "abs", "fabs", "hypot"):
            return "prints an angle whose sign is not understood", 0
    else:
        return "prints an angle that is not understood", 0
    if abs(c - DEG) > DEG * CLOSE:
        return "does not print its angle in degrees", 1
    return None, 1


# ------------------------------------------------------------------ circles
class Notes(object):
    """collects what the judgement of a fitted circle finds"""

    def __init__(self, ctx):
        self.found = []
        self.prog = ctx.prog
        self.extra = {}

    def oblige(self, rule, where, ok, msg="", note=""):
        if ok is None:
            self.found.append((note or msg, 0))
        elif not ok:
            self.found.append((msg, 1))

    def undecide(self, m):
        self.found.append((m, 0))


def circle(k):
    def f(ctx, eng, st, v, pm, val):
        alg = Alg()
        p = alg.scal(val)
        cs = {t for t in TM.subs(val) if t.op == "circle" and t.a[0] is S("rad")}
        outer = c_point.outermost(val)
        if len(p) != 1 or len(outer) != 1:
            return "prints a number that is not the radius of one fitted circle", 1 if known(alg, p) else 0
        (m, c), = p.items()
        o = outer.pop()
        if m != ((o, 1),) or o not in cs:
            return "prints a number that is not the radius of one fitted circle", 1 if known(alg, p) else 0
        if c != k:
            return "prints %s times the radius" % c, 1
        n = Notes(ctx)
        P = TM.proj(mk("init", mk("P", "this", "stl2ps::DrawToPage")), "points_")
        c_point.chain(n, eng, None, st, o.a[1], P, None, lambda t: t.op == "pt")
        bad = [x for x in n.found if x[1]] or n.found
        if bad:
            return "prints the radius of another circle: %s" % bad[0][0] if bad[0][1] else bad[0][0], bad[0][1]
        if o.a[1].op != "between":
            return "prints the radius of the first estimate", 1 if o.a[1].op == "closest" else 0
        cen = [t for t in TM.subs(o.a[1]) if t.op == "pt"]
        if not any(any(y in pm.values("center") for y in TM.subs(t.a[0])) for t in cen):
            return "prints the radius of a circle that is not about its center", 1
        return None, 1
    return f


MEASURE = {"Dim": dim, "Angle": angle, "Dia": circle(2), "Rad": circle(1)}


# ---------------------------------------------------------------------- C46
R46 = "a dimension is drawn where its features are"


def page_items(eng, st):
    """{part: the items the visitor added}, None when the page is not understood"""
    vs = page_part(eng, st, *PAGE_FIELDS)
    if vs is None:
        return None
    out = {}
    for n, v in zip(PAGE_FIELDS, vs):
        its = []
        while v is not None and v.op == "seq":
            its = list(v.a[1]) + its
            v = v.a[0]
        if v is not None and v.op != "init":
            return None
        out[n] = its
    return out


class Model(object):
    """coordinates of what is drawn, taken back to the model"""

    def __init__(self, ctx, eng, st):
        self.alg = Alg()
        fl = specs.visitor_fields(ctx.prog)
        this = this_root(ctx.prog)
        self.s = mk("init", this, *fl["scale"])
        self.d = mk("init", this, *fl["d"])
        self.inv = self.alg.inv(self.alg.scal(self.s))

    def back(self, v):
        a = self.alg
        return [a.red(pmul(padd(a.scal(TM.proj(v, ax)), a.scal(TM.proj(self.d, ax)), -1), self.inv)) for ax in "xy"]

    def len(self, t):
        return self.alg.red(pmul(self.alg.scal(t), self.inv))

    def clear(self, *ps):
        return all(coordinate(t) or t is self.s or t.op == "size" or t.op == "init" and t.a[:-1] == self.d.a for p in ps for t in self.alg.atoms(p))


def c46(ctx):
    ctx.rule("the coordinates of every line, arc and label a dimension adds are taken back to the model as polynomials over the coordinates of the evaluated points and "
             "compared with where its features are, on every successful path.")
    ctx.load()
    fl = specs.visitor_fields(ctx.prog)
    if not {"page", "scale", "d"} <= set(fl):
        ctx.undecide("the draw's transform is not kept in DrawToPage")
        return
    memo = {}
    count = {}

    def judge(kind, eng, st, v, pm):
        its = page_items(eng, st)
        if its is None:
            return {"draws something that is not understood": 0}
        turn = tuple(f for f, b in st.facts.items() if f.op in ("lt", "le") and TM.num(f.a[0]) == 0 or f.op in ("lt", "le") and TM.num(f.a[1]) == 0)
        key = (id(eng), tuple((n, tuple(x)) for n, x in sorted(its.items())), tuple(v.present(k) for k in ("from_dir", "to_dir")),
               tuple((f, st.facts[f]) for f in turn))
        if key in memo:
            return memo[key]
        out = memo[key] = {}
        M = Model(ctx, eng, st)
        try:
            for m, sure in PLACES[kind](ctx, eng, st, v, pm, its, M):
                out[m] = max(sure, out.get(m, 0))
        except Unclear as x:
            out["draws something that is not understood (%s)" % x] = 0
        count[kind] = count.get(kind, 0) + 1
        return out
    judge_all3(ctx, R46, judge, DIMS)
    ctx.extra["drawings_judged"] = count


def ends(M, lines):
    out = []
    for l in lines:
        try:
            out.append((M.back(TM.proj(l, "o")), M.back(TM.proj(l, "t"))))
        except Unclear:
            u = [{((mk("unclear", l, i), 1),): Fraction(1)} for i in (0, 1)]
            out.append((u, u))
    return out


def at_end(M, es, p):
    return sum(1 for o, t in es if M.alg.veq(o, p) or M.alg.veq(t, p))


def sure(M, es):
    return 1 if all(M.clear(*(o + t)) for o, t in es) else 0


def label(M, its, at, exact):
    a = M.alg
    for t in its["text"]:
        p = M.back(TM.proj(t, "at"))
        dx = a.red(padd(p[0], at[0], -1))
        ok = a.eq(p[1], at[1]) and (a.eq(p[0], at[0]) if exact else not any(coordinate(x) for x in a.atoms(dx)))
        if not ok:
            yield "puts its label elsewhere than at", 1 if M.clear(*p) else 0


def draw_dim(ctx, eng, st, v, pm, its, M):
    a = M.alg
    pts = points(eng, st, pm, mk("rec", "all", tuple(("i%d" % i, x) for i, x in enumerate(its["lines"] + its["text"]))), ("dir", "from", "to", "at"))
    if not {"dir", "from", "to", "at"} <= set(pts):
        yield "draws something that is not understood", 0
        return
    d, f, t, at = [a.comps(pts[k], 3) for k in ("dir", "from", "to", "at")]
    n = a.norm(d)
    n2 = a.inv(a.red(pmul(n, n)))
    feet = []
    for p in (f, t):
        k = a.red(pmul(a.dot(d, a.sub(p, at)), n2))
        feet.append([a.red(padd(x, pmul(k, y))) for x, y in zip(at, d)][:2])
    es = ends(M, its["lines"])
    for p, which in zip(feet, ("from", "to")):
        if at_end(M, es, p) < 2:
            yield "has no arrow where '%s' falls on the line through 'at'" % which, sure(M, es)
    u = a.sub(feet[1], feet[0])
    for q, foot, which in ((f, feet[0], "from"), (t, feet[1], "to")):
        if not any(along(a, u, o, t, q[:2], foot) or along(a, u, t, o, q[:2], foot) for o, t in es):
            yield "has no line that leads from '%s' to its arrow" % which, sure(M, es)
    yield from label(M, its, at, True)


def along(a, u, e1, e2, p, foot):
    """does a line lead from near p to the arrow, across the dimension?"""
    return not a.dot(u, a.sub(e1, p)) and not a.dot(u, a.sub(e2, foot)) and not a.veq(e1, foot)


def draw_circle(both):
    def f(ctx, eng, st, v, pm, its, M):
        a = M.alg
        src = closure(eng, its["lines"])
        fit = {t for l in its["lines"] for t in TM.subs(l) if t.op == "circle"}
        inner = {t for c in fit for t in TM.subs(c) if t is not c and t.op == "circle"}
        sel = {c.a[1] for c in fit - inner}
        pts = named(pm, src | closure(eng, its["text"]), ("at", "dir"))
        if len(sel) != 1 or not {"at", "dir"} <= set(pts):
            yield "draws something that is not understood", 0
            return
        sel = sel.pop()
        c = a.comps(mk("circle", S("center"), sel), 2)
        r = a.scal(mk("circle", S("rad"), sel))
        d = a.comps(pts["dir"], 3)[:2]
        at = a.comps(pts["at"], 3)[:2]
        k = a.red(pmul(r, a.inv(a.norm(d))))
        es = ends(M, its["lines"])
        for sg in ((1, -1) if both else (1,)):
            tip = [a.red(padd(x, pmul(k, y), sg)) for x, y in zip(c, d)]
            if at_end(M, es, tip) < 2:
                yield "has no arrow on its circle%s" % ("" if sg > 0 else " on the other side"), sure(M, es)
        if not both and not at_end(M, es, c):
            yield "has no line from the centre of its circle", sure(M, es)
        if not at_end(M, es, at):
            yield "has no line to its label", sure(M, es)
        yield from label(M, its, at, False)
    return f


def draw_angle(ctx, eng, st, v, pm, its, M):
    a = M.alg
    allof = mk("rec", "all", tuple(("i%d" % i, x) for i, x in enumerate(its["lines"] + its["arcs"] + its["text"])))
    pts = points(eng, st, pm, allof, ("at", "apex", "from_dir", "from_point", "to_dir", "to_point"))
    if not {"at", "apex"} <= set(pts):
        yield "draws something that is not understood", 0
        return
    A, B = side(a, v, pts, "from"), side(a, v, pts, "to")
    if A is None or B is None:
        yield "draws something that is not understood", 0
        return
    at, apex = a.comps(pts["at"], 3), a.comps(pts["apex"], 3)
    if len(its["arcs"]) != 1:
        yield "draws %d arcs" % len(its["arcs"]), 1 if all(x.op == "rec" for x in its["arcs"]) else 0
    for arc in its["arcs"]:
        c = M.back(TM.proj(arc, "center"))
        if not a.veq(c, apex[:2]):
            yield "draws an arc about something other than 'apex'", 1 if M.clear(*c) else 0
        r = M.len(TM.proj(arc, "r"))
        if not a.eq(r, a.norm(a.sub(at, apex))):
            yield "draws an arc that does not reach 'at'", 1 if M.clear(r) else 0
        ds = [direction(a, TM.proj(arc, n)) for n in ("start", "end")]
        if None in ds:
            yield "draws an arc whose ends are not understood", 0
            continue
        side_of = []
        for p in ds:
            hit = [i for i, q in enumerate((A, B)) if ray(a, p, q)]
            side_of.append(hit[0] if hit else None)
        if None in side_of:
            yield "draws an arc that does not end at its sides", 1 if all(M.clear(*p) for p in ds) else 0
        elif side_of[0] == side_of[1]:
            yield "draws an arc from a side to itself", 1
        else:
            z = cross2(a, ds[0], ds[1])
            sg = signed(a, st, z)
            if sg is False:
                yield "draws the arc of the other sector", 1
            elif sg is None:
                yield "draws an arc of one of its two sectors, it is not clear which", 0
    es = ends(M, its["lines"])
    for p, which in ((A, "from"), (B, "to")):
        if not any(not cross2(a, a.sub(o, apex[:2]), p) and not cross2(a, a.sub(t, apex[:2]), p) and not a.veq(o, t) for o, t in es):
            yield "draws no line along its side '%s'" % which, sure(M, es)
    yield from label(M, its, at, True)


def cross2(a, p, q):
    return a.red(padd(pmul(p[0], q[1]), pmul(p[1], q[0]), -1))


def direction(a, t):
    """the vector whose angle t is"""
    t = strip(t)
    if t.op == "atan2":
        return [a.scal(t.a[1]), a.scal(t.a[0])]
    return None


def ray(a, p, q):
    """is p a positive multiple of q?"""
    n = a.norm(q)
    for k in ({(): Fraction(1)}, a.inv(n)):
        if all(a.eq(x, pmul(k, y)) for x, y in zip(p, q[:2])):
            return True
    return False


def signed(a, st, z):
    """is z positive (True), negative (False)?"""
    for f, b in st.facts.items():
        if f.op not in ("lt", "le"):
            continue
        for i in (0, 1):
            if TM.num(f.a[i]) != 0:
                continue
            try:
                g = a.scal(f.a[1 - i])
            except Unclear:
                continue
            for k in (1, -1):
                if g and a.eq(g, padd({}, z, k)):
                    pos = (i == 0) == b          # 0 < g, or not g < 0 (the zero is excluded elsewhere)
                    return pos if k == 1 else not pos
    return None


PLACES = {"Dim": draw_dim, "Angle": draw_angle, "Dia": draw_circle(True), "Rad": draw_circle(False)}


# ---------------------------------------------------------------------- C45
R45 = "only finite numbers are drawn"
COMPS = {"lines": (("o", "x"), ("o", "y"), ("t", "x"), ("t", "y")), "arcs": (("center", "x"), ("center", "y"), ("r",), ("start",), ("end",)), "text": (("at", "x"), ("at", "y"))}
UNSAFE = ("asin", "acosh", "atanh", "log", "log2", "log10", "pow", "tan", "fmod", "inverse", "exp")


def c45(ctx):
    ctx.rule("every division, root and inverse cosine the drawn numbers are computed with is shown to be defined, or the result to be bounded by a comparison, "
             "from the facts of each successful path.")
    ctx.load()
    memo = {}
    count = {"numbers": 0, "operations": 0}

    def judge(kind, eng, st, v, pm):
        its = page_items(eng, st)
        if its is None:
            return {"draws something that is not understood": 0}
        out = {}
        nums = set()
        for part, cs in COMPS.items():
            for it in its[part]:
                for c in cs:
                    t = it
                    for f in c:
                        t = TM.proj(t, f)
                    nums.add((part, t))
        for it in its["text"]:
            for f in TM.subs(TM.proj(it, "str")):
                if f.op == "fmt" and len(f.a) == 2:
                    for x in (f.a[1] if isinstance(f.a[1], tuple) else (f.a[1],)):
                        nums.add(("number", x))
        for part, t in nums:
            hz = memo.get(t)
            if hz is None:
                hz = memo[t] = hazards(ctx, t)
                count["numbers"] += 1
                count["operations"] += len(hz)
            for h in hz:
                ok = defined(ctx, st, t, h, hz)
                if ok is False:
                    out["draws %s that is not finite when %s" % (WORD[part], WHEN[h.op](h))] = 1
                elif ok is None:
                    out["draws %s that may not be finite (%s)" % (WORD[part], WHEN[h.op](h))] = 0
        return out
    judge_all3(ctx, R45, judge, DIMS)
    ctx.extra["judged"] = count


WORD = {"lines": "a line", "arcs": "an arc", "text": "a label at a place", "number": "a number"}


def brief(t):
    s = repr(t)
    s = re.sub(r"pt\(\*?[^']*'(\w+)'[^()]*(\([^()]*\))?[^()]*\)", r"\1", s)
    s = re.sub(r"circle\('(\w+)',.*?\)+", r"the circle's \1", s)
    return s if len(s) < 70 else s[:67] + "..."


def div(h):
    return "%s is 0" % brief(h.a[1])


WHEN = {"/": div, "vs": div, "acos": lambda h: "its cosine is rounded to more than 1", "sqrt": lambda h: "the root is of a negative number"}
for _o in UNSAFE:
    WHEN[_o] = lambda h: "%s is not defined" % h.op


def hazards(ctx, t):
    """the operations below a term that are not defined everywhere"""
    fl = specs.visitor_fields(ctx.prog)
    s = mk("init", this_root(ctx.prog), *fl["scale"]) if "scale" in fl else None
    out = []
    for x in TM.subs(t):
        if x.op in ("/", "vs") and len(x.a) == 2:
            d = strip(x.a[1])
            if TM.num(d) is not None and TM.num(d) != 0:
                continue
            if d is s or only(d, s):
                continue
            out.append(x)
        elif x.op in UNSAFE:
            out.append(x)
        elif x.op == "acos":
            if not clamped(x.a[0]):
                out.append(x)
        elif x.op == "sqrt":
            p = poly(x.a[0])
            if not all(c > 0 and all(e % 2 == 0 or a is s or a.op in ("norm", "squaredNorm", "abs", "fabs", "sqrt") or a.op == "dot" and a.a[0] is a.a[1] for a, e in m) for m, c in p.items()):
                out.append(x)
    return out


def only(d, s):
    """a positive multiple or power of the scale"""
    p = poly(d)
    return bool(p) and s is not None and all(c > 0 and all(a is s for a, e in m) for m, c in p.items())


def clamped(t):
    lo = hi = False
    while True:
        t = strip(t)
        if t.op in ("min", "max") and len(t.a) == 2:
            k = [a for a in t.a if TM.num(a) is not None]
            y = [a for a in t.a if TM.num(a) is None]
            if len(k) != 1 or len(y) != 1:
                return False
            if t.op == "min" and TM.num(k[0]) <= 1:
                hi = True
            if t.op == "max" and TM.num(k[0]) >= -1:
                lo = True
            t = y[0]
            continue
        return lo and hi or TM.num(t) is not None


def inside(t, h):
    return any(x is h for x in TM.subs(t))


def defined(ctx, st, t, h, hz):
    # the result is bounded by what is known of a term it is part of
    ups = [x for x in TM.subs(t) if inside(x, h) and scalar(x)]
    unsure = False
    for x in ups:
        b = bounded(st, x)
        if b:
            return True
        if b is None:
            unsure = True
    if h.op in ("/", "vs"):
        d = strip(h.a[1])
        z = nonzero(st, d, hz)
        if z is True:
            return True
        for x in ups:
            if x.op == "min" and pairs(st, x, hz) and lower(st, x):
                return True
        if z is None or unsure:
            return None
        alg = Alg()
        return False if d.op in ("norm", "squaredNorm") or known(alg, alg.scal(d)) else None
    if h.op == "acos":
        if any(f.op in ("lt", "le") and inside(f, strip(h.a[0])) for f in st.facts) or unsure:
            return None
        x = strip(h.a[0])
        while x.op in ("min", "max") and len([a for a in x.a if TM.num(a) is None]) == 1:
            x = strip([a for a in x.a if TM.num(a) is None][0])
        return False if x.op == "dot" or x.op in ("/", "*") and any(y.op == "dot" for y in TM.subs(x)) else None
    return None


def scalar(x):
    return x.op in ("/", "min", "max", "abs", "fabs", "*", "+", "-", "neg", "sqrt", "acos", "norm", "fcast")


def bounded(st, x):
    """True: finite; None: something is known that may bound it; False"""
    hint = False
    up = lo = False
    for f, v in st.facts.items():
        if f.op == "bcall" and f.a[0].op in ("isfinite",) and same(f.a[0].a[0], x):
            if v:
                return True
        elif f.op == "bcall" and any(y is x for y in TM.subs(f)):
            hint = True
        elif f.op in ("lt", "le"):
            for i in (0, 1):
                k = factor(f.a[i], x)
                if k is None:
                    continue
                if not v:
                    hint = True
                    continue
                if (i == 0) == (k > 0):
                    up = True
                else:
                    lo = True
    if up and (lo or positive(x)):
        return True
    return None if hint else False


def lower(st, x):
    if positive(x):
        return True
    return any(f.op in ("lt", "le") and v and f.a[1] is x for f, v in st.facts.items())


def same(a, b):
    return a is b or strip(a) is strip(b)


def factor(side_, x):
    if not inside(side_, x):
        return None
    p = poly(side_)
    hit = [(m, c) for m, c in p.items() if any(inside(a, x) for a, e in m)]
    if len(hit) != 1:
        return None
    m, c = hit[0]
    px = poly(x)
    if len(px) != 1:
        return None
    (mx, cx), = px.items()
    return 1 if c / cx > 0 else -1


def positive(x):
    x = strip(x)
    if x.op in ("abs", "fabs", "norm", "sqrt", "squaredNorm"):
        return True
    if x.op in ("min", "max"):
        return all(positive(a) for a in x.a)
    if x.op in ("*", "/") and len(x.a) == 2:
        return all(positive(a) or TM.num(a) is not None and TM.num(a) > 0 or a.op == "init" and a.a[-1] == "scale" for a in x.a)
    return False


def vectors(d):
    """the vectors a denominator is a component or the length of (or of a multiple)"""
    out = []
    work = [d]
    while work:
        x = strip(work.pop())
        if x.op in ("neg", "abs", "fabs"):
            work.append(x.a[0])
        elif x.op in ("/", "*", "sv", "vs") and len(x.a) == 2:
            work += [a for a in x.a if TM.num(a) is None and not transform(a)]
        elif x.op in ("proj", "norm", "squaredNorm") and isinstance(x.a[0], T):
            w = x.a[0]
            while True:
                out.append(w)
                if w.op in ("normalized", "neg"):
                    w = w.a[0]
                elif w.op == "vs":
                    w = w.a[0]
                elif w.op == "sv":
                    w = w.a[1]
                else:
                    break
    return out


def outside(f, t, hz):
    """does a fact mention t other than as what a hazard divides by?"""
    work = [f]
    while work:
        x = work.pop()
        if x is t:
            return True
        if any(x is h for h in hz):
            continue
        for a in x.a:
            if isinstance(a, T):
                work.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    work += [c for c in (b if isinstance(b, tuple) else (b,)) if isinstance(c, T)]
    return False


def nonzero(st, d, hz):
    """True: known; None: something known may tell; False"""
    hint = False
    vs = vectors(d)
    for f, v in st.facts.items():
        if f.op not in ("eq", "lt", "le", "bcall"):
            continue
        if f.op == "bcall":
            hint = hint or outside(f, d, hz) or any(w.op != "pt" and outside(f, w, hz) for w in vs)
            continue
        zero = any(TM.num(a) == 0 for a in f.a)
        for a in f.a:
            a = strip(a)
            if zero and (a is d or a.op in ("abs", "fabs") and a.a[0] is d or vanishes(a, d)):
                if f.op == "eq" and not v or f.op == "lt" and v or f.op == "le" and not v:
                    return True
                if f.op == "eq" and a is d:
                    return False
                continue
            if f.op == "eq" and any(a is w for w in vs):
                if not v and d.op in ("norm", "squaredNorm"):
                    return True
                hint = True
            else:
                mine = {t for t in TM.subs(d) if t.op == "proj"} | {d}
                ts = [t for m in poly(a) for t, e in m]
                if ts and all(t in mine or any(t.op in ("proj", "norm", "squaredNorm", "dot") and t.a[0] is w for w in vs) or t.op in ("abs", "fabs") and t.a[0] in mine for t in ts):
                    hint = True
    return None if hint else False


def vanishes(p, d):
    """is p zero whenever the vector d is the length of is?"""
    if d.op not in ("norm", "squaredNorm"):
        return False
    if p.op == "proj":
        p = p.a[0]
    return p.op in ("cross", "dot") and any(a is d.a[0] for a in p.a)


def pairs(st, x, hz):
    """the smaller of two quotients by the components of one vector that is not zero: not infinite upwards"""
    ds = [strip(strip(a).a[1]) for a in x.a if strip(a).op == "/"]
    if len(ds) != 2:
        return False
    return any(nonzero(st, d, hz) is True for d in ds)



# ---------------------------------------------------------------------- C47
R47 = "the extent is the smallest box around every corner"


def c47(ctx):
    ctx.rule("each of the four bounds returned is followed back through the loops that fold it: it must start at a corner (or at infinity) and every turn must take the "
             "minimum or maximum with that coordinate of each corner of that facet.")
    ctx.load()
    for fn in ctx.fns(NS + "STLFile::Limits"):
        eng, ex = ctx.run(fn, {})
        if ex is None:
            continue
        F = TM.proj(mk("init", mk("P", "this", NS + "STLFile")), "facets")
        n = 0
        for x in ex:
            st = x.st
            w = ctx.where(fn)
            if not isinstance(x.val, T):
                ctx.undecide("Limits returns %r" % x.val)
                continue
            empty = st.facts.get(TM.eq(TM.size(F), I(0)))
            for f, op in (("o", "min"), ("t", "max")):
                for ax in "xy":
                    v = TM.proj(TM.proj(x.val, f), ax)
                    n += 1
                    if empty is True:
                        ctx.oblige(R47, w, True if TM.num(v) == 0 else (False if TM.num(v) is not None else None), "a model without facets does not lie at the origin", "the extent of a model without facets")
                        continue
                    ok, msg = extent(eng, v, F, op, ax)
                    ctx.oblige(R47, w, ok, "the %s %s of the extent %s" % ("least" if op == "min" else "greatest", ax, msg), "how the %s %s is found: %s" % ("least" if op == "min" else "greatest", ax, msg))
        ctx.extra["bounds_judged"] = n


def extent(eng, v, F, op, ax):
    if v.op != "lv" or v.a[0] not in eng.loops:
        if TM.num(v) is not None or corner(v, F) is not None:
            return False, "does not depend on every corner"
        return None, "it is %s" % v.op
    r = eng.loops[v.a[0]]
    loc = (v.a[1], tuple(v.a[2:]))
    if not over(r, F):
        if short(eng, r, F):
            return False, "leaves facets out"
        return None, "the loop does not run over the facets"
    if r["early"]:
        return False, "leaves facets out (the loop is left early)"
    first = eng.read(r["pre"], loc)
    c = corner(first, F)
    if c is not None:
        if c[0] != ax:
            return False, "starts with the %s of a corner" % c[0]
    elif limit(first) is not None:
        if limit(first) != (op == "min"):
            return False, "starts with the wrong extreme"
    elif TM.num(first) is not None:
        if abs(TM.num(first)) < 1e30 or (TM.num(first) < 0) == (op == "min"):
            return False, "starts with %s" % TM.num(first)
    elif not mentions(first, lambda t: t.op in ("call", "opaque")) and first.op in ("init", "proj", "dflt"):
        return False, "does not start with a corner"
    else:
        return None, "it starts with %s" % first.op
    for h, b in r["steps"]:
        got = set()
        ok, msg = fold(eng, eng.read(b, loc), eng.read(h, loc), mk("elem", F, r["key"]), op, ax, got, b)
        if not ok:
            return ok, msg
        if not got >= {0, 1, 2}:
            return False, "leaves out a corner of a facet"
    return True, ""


def limit(t):
    """True: the greatest number there is, False: the least"""
    up = True
    while t.op == "neg":
        up = not up
        t = t.a[0]
    if t.op == "call" and "numeric_limits" in str(t.a[0]):
        n = str(t.a[0]).strip("'").split("::")[-1]
        if n in ("infinity", "max"):
            return up
        if n == "lowest":
            return not up
    return None


def corner(t, F):
    """(axis, facet, index) when t is a coordinate of a corner of a facet of F"""
    if t.op not in ("proj", "init", "elem", "lv"):
        return None
    if isinstance(t.a[-1], str) and t.a[-1] in ("x", "y", "z"):
        s = repr(t)
        if "edge" in s and repr(F).rstrip("₀") in s and not mentions(t, lambda x: x.op in ("call", "opaque")):
            return t.a[-1], None, None
    return None


def fold(eng, v, head, el, op, ax, got, st, depth=0, bare=True):
    """(True, ""): v is the op of head and corners of el, which are added to got"""
    if v is head:
        return True, ""
    if depth > 12:
        return None, "too deep"
    if v.op in ("min", "max") and len(v.a) == 2:
        if v.op != op:
            return False, "is a %s" % ("minimum" if v.op == "min" else "maximum")
        for a in v.a:
            ok, msg = fold(eng, a, head, el, op, ax, got, st, depth + 1, False)
            if not ok:
                return ok, msg
        return True, ""
    if v.op == "lv" and v.a[0] in eng.loops:
        r = eng.loops[v.a[0]]
        loc = (v.a[1], tuple(v.a[2:]))
        E = TM.proj(el, "edge")
        ok, msg = fold(eng, eng.read(r["pre"], loc), head, el, op, ax, got, st, depth + 1)
        if not ok:
            return ok, msg
        if not over(r, E):
            return (False, "leaves corners out") if short(eng, r, E) else (None, "an inner loop")
        if r["early"]:
            return False, "leaves corners out (the loop is left early)"
        for h, b in r["steps"]:
            new = set()
            h0 = eng.read(h, loc)
            ok, msg = fold(eng, eng.read(b, loc), h0, el, op, ax, new, b, depth + 1)
            if not ok:
                return ok, msg
            if "each" not in new and not settled(b, h0, E, r["key"], op, ax):
                return False, "leaves out a corner of a facet"
        got |= {0, 1, 2}
        return True, ""
    if v.op in ("init", "proj", "lv") and v.a[-1] in ("x", "y", "z"):
        if mentions(v, lambda t: t is el) or mentions(v, lambda t: t.op == "elem" and t.a[0] is TM.proj(el, "edge")):
            if v.a[-1] != ax:
                return False, "takes the %s of a corner" % v.a[-1]
            ks = [t for t in TM.subs(v) if t.op == "elem" and t.a[0] is TM.proj(el, "edge")]
            if ks:
                got.add("each")
                if bare:
                    return replaced(st, v, head, op)
                return True, ""
            for i in range(3):
                if v is TM.proj(TM.proj(TM.proj(el, "edge"), mk("idx", I(i))), ax):
                    got.add(i)
                    if bare:
                        return replaced(st, v, head, op)
                    return True, ""
    return None, "it becomes %s" % v.op


def replaced(st, v, head, op):
    for f, b in st.facts.items():
        if f.op in ("lt", "le") and set(f.a) == {v, head}:
            less = (f.a[0] is v) == b         # v is the smaller one
            return (True, "") if less == (op == "min") else (False, "is replaced the wrong way")
    if any(f.op in ("lt", "le", "eq", "bcall") and inside(f, v) for f in st.facts):
        return None, "a comparison"
    return False, "becomes that of any corner"


def settled(st, head, E, key, op, ax):
    """a turn that keeps the bound: is the corner known not to exceed it?"""
    v = TM.proj(mk("elem", E, key), ax)
    for f, b in st.facts.items():
        if f.op in ("lt", "le") and set(f.a) == {v, head}:
            less = (f.a[0] is v) == b
            return less != (op == "min")
    return False
