"""C24, C25: the index of a mesh and the generation of lines."""
import re
from common import *
from c_flow import NS
from engine import Undecided, walk, base_type

RFP = "the floating point environment of the caller is restored on every way out"
RAREA = "fixed-size arrays are indexed inside their bounds"
STL = NS + "STLFile::"
BIG = 1 << 40


def partial(ctx, f, *a):
    try:
        f(ctx, *a)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (f.__name__, gaveup(x)))


# ---------------------------------------------------------------- the floating point environment
FP0, HELD = mk("fpenv", "entry"), mk("fpenv", "held")


def fpget(st):
    return dict(st.mon.get("fp", ())).get("env", FP0)


def fpset(st, v):
    st.mon["fp"] = (("env", v),)


def c_hold(eng, st, f, ol, args, e):
    p = eng.argval(st, args[0])
    eng.write(st, eng.deref(st, p), fpget(st))
    fpset(st, HELD)
    return [(st, I(0))]


def c_get(eng, st, f, ol, args, e):
    p = eng.argval(st, args[0])
    eng.write(st, eng.deref(st, p), fpget(st))
    return [(st, I(0))]


def c_set(eng, st, f, ol, args, e):
    p = eng.argval(st, args[0])
    if p.op == "ptr":
        v = eng.read(st, eng.deref(st, p))
    else:
        v = mk("fpenv", "default") if p.op in ("i", "cast", "null") else mk("fpenv", p)
    fpset(st, v)
    return [(st, I(0))]


def c_update(eng, st, f, ol, args, e):
    # raises what was held back: the flags of the caller change
    c_set(eng, st, f, ol, args, e)
    v = fpget(st)
    fpset(st, mk("fpenv", "flags raised over", v))
    return [(st, I(0))]


def c_change(eng, st, f, ol, args, e):
    fpset(st, mk("fpenv", "changed by " + f["q"].rsplit("::", 1)[-1]))
    return [(st, I(0))]


FPCON = {}
for _n, _c in (("feholdexcept", c_hold), ("fegetenv", c_get), ("fesetenv", c_set), ("feupdateenv", c_update), ("fesetround", c_change), ("feenableexcept", c_change),
               ("fedisableexcept", c_change), ("feclearexcept", c_change), ("feraiseexcept", c_change), ("fesetexceptflag", c_change), ("fesetmode", c_change),
               ("_mm_setcsr", c_change)):
    FPCON[_n] = FPCON["std::" + _n] = _c


def uses_fp(ctx):
    """functions that touch the floating point environment, and the public ones they are reached from"""
    direct = set()
    for fn in ctx.prog.functions.values():
        if "body" not in fn or "/shim/" in fn.get("file", "") or fn.get("file", "").startswith("/usr"):
            continue
        for n in walk(fn["body"]):
            f = n.get("f")
            if isinstance(f, dict) and f.get("q") in FPCON:
                direct.add(fn["key"])
    return direct


# ---------------------------------------------------------------- indices
class Access(object):
    def __init__(self, fn, line, n, i, facts, stack, what):
        self.fn, self.line, self.n, self.i, self.facts, self.stack, self.what = fn, line, n, i, facts, stack, what


def fixed(t):
    """number of elements of a fixed-size array type"""
    t = t.replace("const ", "").strip().rstrip("&").strip()
    m = re.search(r"\[(\d+)\]$", t)
    if m:
        return int(m.group(1))
    m = re.match(r"std::array<.*,\s*(\d+)[UuLl]*>$", t)
    return int(m.group(1)) if m else None


class Watch(object):
    def __init__(self):
        self.seen = {}

    def __call__(self, eng, st, ev):
        if ev[0] != "access":
            return
        e = ev[4]
        b = e.get("b") if isinstance(e.get("b"), dict) else e.get("o")
        if not isinstance(b, dict):
            return
        n = fixed(b.get("t", ""))
        if n is None:
            return
        i = ev[2]
        facts = tuple((f, w) for f, w in st.facts.items() if f.op in ("lt", "le", "eq") and related(f, i))
        k = (eng.fnstack[-1] if eng.fnstack else None, ev[3], n, i, facts, eng.loopstack)
        if k not in self.seen:
            self.seen[k] = Access(k[0], ev[3], n, i, facts, eng.loopstack, base_type(b.get("t", "")))


def related(f, i):
    xs = [x for x in subterms(i) if x.op in ("lv", "ix", "init")]
    return any(mentions(f, lambda y: y is x) for x in xs)


def lin(t):
    """(variable or None, number)"""
    c = 0
    while t.op == "+":
        ks = [x for x in t.a if hasattr(x, "op") and x.op == "i"]
        vs = [x for x in t.a if not (hasattr(x, "op") and x.op == "i")]
        if len(vs) != 1:
            return t, c
        c += sum(x.a[0] for x in ks)
        t = vs[0]
    if t.op == "i":
        return None, c + t.a[0]
    return t, c


class Range(object):
    """[lo, hi]; sure: the ends are taken on some run as far as the paths tell"""

    def __init__(self, lo, hi, sure):
        self.lo, self.hi, self.sure = lo, hi, sure


def narrowed(v, facts):
    """(greatest, least) the facts leave the variable"""
    hi, lo = None, None
    for f, w in facts:
        if f.op not in ("lt", "le", "eq") or len(f.a) != 2:
            continue
        a, b = f.a
        for x, y, side in ((a, b, 0), (b, a, 1)):
            l = lin(x)
            m = lin(y)
            if l[0] is not v or m[0] is not None:
                continue
            c = m[1] - l[1]
            if f.op == "eq":
                if w:
                    hi = c if hi is None else min(hi, c)
                    lo = c if lo is None else max(lo, c)
                continue
            strict = f.op == "lt"
            if side == 0:
                # v < c or v <= c
                if w:
                    h = c - 1 if strict else c
                    hi = h if hi is None else min(hi, h)
                else:
                    h = c if strict else c + 1
                    lo = h if lo is None else max(lo, h)
            else:
                if w:
                    h = c + 1 if strict else c
                    lo = h if lo is None else max(lo, h)
                else:
                    h = c if strict else c - 1
                    hi = h if hi is None else min(hi, h)
    return hi, lo


class Bounds(object):
    def __init__(self, eng):
        self.eng = eng

    def trips(self, r):
        """greatest number of turns, None when the mesh decides it, -1 when not known"""
        node = r["node"]
        if r["cont"] is not None:
            t = None
            for k in ("r", "range", "e", "c"):
                x = node.get(k)
                if isinstance(x, dict) and "t" in x:
                    t = x["t"]
                    break
            n = fixed(t) if t else None
            if n is not None:
                return n
            if t and re.search(r"std::(vector|map|set|deque|list)<", t):
                return None
            return -1
        if r["bound"] is not None and r["start"] is not None and r["start"].op == "i":
            if r["bound"].op == "i":
                return max(0, r["bound"].a[0] - r["start"].a[0])
            return None if r["bound"].op in ("size", "init") else -1
        return -1

    def of(self, t, facts, stack, depth=0):
        if depth > 8:
            raise Undecided("nested too deeply")
        v, c = lin(t)
        if v is None:
            return Range(c, c, True)
        hi, lo = narrowed(v, facts)
        r = self.var(v, stack, depth)
        sure = r.sure
        if hi is not None:
            r = Range(r.lo, min(r.hi, hi), sure)
        if lo is not None:
            r = Range(max(r.lo, lo), r.hi, sure)
        return Range(r.lo + c, r.hi + c, sure)

    def var(self, v, stack, depth):
        if v.op == "ix":
            r = self.eng.loops.get(v.a[0])
            if r is None or r["start"] is None or r["bound"] is None:
                return Range(-BIG, BIG, False)
            s = self.of(r["start"], tuple(r["pre"].facts.items()), stack, depth + 1)
            n = self.of(r["bound"], tuple(r["pre"].facts.items()), stack, depth + 1)
            return Range(s.lo, n.hi - 1, s.sure and n.sure)
        if v.op == "size":
            return Range(0, BIG, True)
        if v.op == "lv":
            return self.looped(v, stack, depth)
        return Range(-BIG, BIG, False)

    def looped(self, v, stack, depth):
        r = self.eng.loops.get(v.a[0])
        if r is None:
            return Range(-BIG, BIG, False)
        loc = (v.a[1], tuple(v.a[2:]))
        p = self.eng.read(r["pre"], loc)
        s = self.of(p, tuple(r["pre"].facts.items()), tuple(k for k in stack if k != v.a[0]), depth + 1)
        n = self.trips(r)
        inside = v.a[0] in stack
        sure = s.sure and n != -1
        if n is not None and n >= 0 and inside:
            n = max(0, n - 1)
        hi, lo = s.hi, s.lo
        up = down = 0
        gh = gl = None        # where guarded steps lead at most
        freeup = freedown = False
        for h, b in r["steps"]:
            x = self.eng.read(b, loc)
            w, c = lin(x)
            if w is None:
                hi, lo = max(hi, c), min(lo, c)
                continue
            if w is not v:
                d = self.moved(w, v, depth)
                if d is None:
                    return Range(-BIG, BIG, False)
                if d[0] + c < 0 or d[1] + c <= 0:
                    return Range(-BIG, BIG, False)
                # an inner loop moves it further, or not at all
                c += d[1]
                sure = sure and d[2]
            fs = tuple((f, y) for f, y in b.facts.items() if f.op in ("lt", "le", "eq"))
            mh, ml = narrowed(v, fs)
            if any(mentions(f, lambda y: y is v) and not understood(f, v) for f in b.facts):
                sure = False
            if c > 0:
                if mh is not None:
                    gh = mh + c if gh is None else max(gh, mh + c)
                else:
                    freeup = True
                up = max(up, c)
            if c < 0:
                if ml is not None:
                    gl = ml + c if gl is None else min(gl, ml + c)
                else:
                    freedown = True
                down = min(down, c)
        if up > 0:
            t = BIG if n is None or n < 0 else n * up
            free = hi + t
            hi = free if freeup else min(free, max(hi, gh))
        if down < 0:
            t = BIG if n is None or n < 0 else n * -down
            free = lo - t
            lo = free if freedown else max(free, min(lo, gl))
        return Range(lo, hi, sure)

    def moved(self, w, v, depth):
        """(least, greatest, sure) change from v to w, which inner loops made of it"""
        if w is v:
            return 0, 0, True
        if w.op != "lv" or depth > 8:
            return None
        r = self.eng.loops.get(w.a[0])
        if r is None:
            return None
        loc = (w.a[1], tuple(w.a[2:]))
        x, c = lin(self.eng.read(r["pre"], loc))
        if x is None:
            return None
        d = self.moved(x, v, depth + 1)
        if d is None:
            return None
        n = self.trips(r)
        lo, hi, sure = d[0] + c, d[1] + c, d[2] and n != -1
        for h, b in r["steps"]:
            y, k = lin(self.eng.read(b, loc))
            if y is not w:
                return None
            if any(mentions(f, lambda z: z is w) for f in b.facts):
                sure = False
            t = BIG if n is None or n < 0 else n
            if k > 0:
                hi = max(hi, d[1] + c + t * k)
            elif k < 0:
                lo = min(lo, d[0] + c + t * k)
        return lo, hi, sure


def understood(f, v):
    return f.op in ("lt", "le", "eq") and len(f.a) == 2 and any(lin(x)[0] is v and lin(y)[0] is None for x, y in (f.a, f.a[::-1]))


def c25(ctx):
    ctx.rule("typestate of the floating point environment over every path of line generation (what the caller had, held, anything else), compared at every way out; "
             "interval analysis of every index into a fixed-size array there, with the trip counts of the loops that move it")
    ctx.load()
    fns = ctx.fns(STL + "ToLines")
    direct = uses_fp(ctx)
    ctx.extra["functions_touching_the_fp_environment"] = len(direct)
    reached = set()
    for fn in fns:
        partial(ctx, lines, fn, reached)
    partial(ctx, crosses)
    for k in sorted(direct - reached, key=repr):
        fn = ctx.prog.functions[k]
        if re.search(r"(::~|::(\w+)::\2$)", fn["q"]) or len(fn["q"].split("::")) > 2 and fn["q"].split("::")[-1] == fn["q"].split("::")[-2]:
            continue
        partial(ctx, others, fn)


def lines(ctx, fn, reached):
    w = Watch()
    con = dict(FPCON)
    con[STL + "EdgeCrosses"] = c_crosses
    con[NS + "GenerateLines"] = c_lines
    eng, ex = ctx.run(fn, con, hooks=[w])
    reached |= set(eng.calls_inlined) | {fn["key"]}
    if ex is None:
        return
    judge(ctx, fn, ex)
    areas(ctx, eng, w)


def judge(ctx, fn, ex):
    for x in ex:
        v = fpget(x.st)
        ok = True if v is FP0 else False if v.op == "fpenv" else None
        ctx.oblige(RFP, ctx.where(fn), ok, "on this way out the floating point environment is %s" % (
            "the one set up for the computation" if v is HELD else " ".join(map(str, v.a)) if v.op == "fpenv" else repr(v)), describe(x.st, 6) if ok is False else None)


def c_crosses(eng, st, f, ol, args, e):
    return [(st, mk("crosses"))]


def c_lines(eng, st, f, ol, args, e):
    return [(st, mk("drawnlines", *[eng.argval(st, a, False) for a in args]))]


def crosses(ctx):
    """the parts of line generation that stand alone"""
    for q in (STL + "EdgeCrosses", NS + "GenerateLines"):
        for fn in ctx.fns(q) if any(f["q"] == q for f in ctx.prog.functions.values()) else []:
            w = Watch()
            eng, ex = ctx.run(fn, dict(FPCON), hooks=[w])
            if ex is None:
                continue
            judge(ctx, fn, ex)
            areas(ctx, eng, w)


def others(ctx, fn):
    w = Watch()
    eng, ex = ctx.run(fn, dict(FPCON), hooks=[w])
    if ex is not None:
        judge(ctx, fn, ex)


def areas(ctx, eng, w):
    b = Bounds(eng)
    n = 0
    for a in w.seen.values():
        fn = ctx.prog.functions.get(a.fn)
        where = ctx.where(fn, a.line)
        try:
            r = b.of(a.i, a.facts, a.stack)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (where, gaveup(x)))
            continue
        n += 1
        if 0 <= r.lo and r.hi < a.n:
            ctx.oblige(RAREA, where, True)
        elif r.sure:
            ctx.oblige(RAREA, where, False, "an index into %s reaches %s" % (a.what, ("%d" % r.hi if r.hi < BIG // 2 else "any number") if r.hi >= a.n else "%d" % r.lo))
        else:
            ctx.oblige(RAREA, where, None, "an index into %s is not bounded: %r" % (a.what, a.i))
    ctx.extra["indices"] = ctx.extra.get("indices", 0) + n
