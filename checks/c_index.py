"""C24: the edge index of a mesh."""
from itertools import product
import terms as TM
from common import *
from c_flow import NS
from c_mesh import partial, lin
from engine import walk
from trans import ev, Unknown

STL = NS + "STLFile::"
RIDX = "a mesh that is handed out was indexed after the last change of its facets"
RROT = "rotating takes the normal and the three corners of every facet through the same matrix"
RSAME = "rotating leaves the mesh it starts from as it is"
RCULL = "exactly the facets that do not face the viewer are dropped"
RKEY = "an edge is entered and looked up under a form that does not depend on its direction"
RENT = "every edge of every facet is entered once"
RFACE = "the facets of an edge are noted with it"
RPERM = "setting edges aside keeps every edge and its facets together"
RSEEN = "exactly the edges between two facets in one plane are set aside"
RPOS = "an edge is looked up with its position in the list"
RTAB = "the table holds the positions of the three edges of every facet"
THIS = mk("P", "this", NS + "STLFile")
PAIRS = (frozenset((0, 1)), frozenset((1, 2)), frozenset((0, 2)))
SIGNS = list(product((-1, 0, 1), repeat=3))
AXES = ("x", "y", "z")


def c24(ctx):
    ctx.rule("summaries of the loops that transform facets, enter edges, set edges aside and fill the table, judged per turn; the form of an edge is decided over the 27 relative positions of its ends; "
             "the typestate changed/indexed of every mesh that is handed out")
    ctx.load()
    culls = []
    for fn in ctx.fns(STL + "Rotate"):
        partial(ctx, rotate, fn, culls)
    for fn in ctx.fns(STL + "Make"):
        partial(ctx, make, fn)
    partial(ctx, outside, culls)
    for fn in ctx.fns(STL + "CullBackFace"):
        partial(ctx, culling, fn)
    fns = ctx.fns(STL + "Index")
    if not fns:
        ctx.undecide("no function of the name Index: the index is built elsewhere")
    for fn in fns:
        partial(ctx, Index(ctx, fn).run)


# ---------------------------------------------------------------- handing out
def c_index(eng, st, f, ol, args, e):
    l = ol if ol is not None else eng.deref(st, eng.argval(st, args[0]))
    v = eng.read(st, (l[0], l[1] + ("facets",)))
    for n in ("edges", "face_edge", "unseen"):
        eng.write(st, (l[0], l[1] + (n,)), mk("indexof", n, v))
    return [(st, VOID)]


def c_cull(eng, st, f, ol, args, e):
    l = (ol[0], ol[1] + ("facets",))
    eng.write(st, l, mk("culled", eng.read(st, l)))
    return [(st, VOID)]


CON = {STL + "Index": c_index, STL + "CullBackFace": c_cull}


def indexed(ctx, eng, fn, x, get):
    f = get("facets")
    bad = []
    known = True
    for n in ("edges", "face_edge", "unseen"):
        v = get(n)
        if v.op == "indexof":
            if v.a[1] is not f:
                bad.append("%s was built from other facets" % n)
        elif v.op == "lv" and f.op == "lv" and v.a[0] == f.a[0] and v.a[0] in eng.loops:
            r = eng.loops[v.a[0]]
            fl, vl = (f.a[1], tuple(f.a[2:])), (v.a[1], tuple(v.a[2:]))
            for h, b in r["steps"]:
                fb, vb = eng.read(b, fl), eng.read(b, vl)
                if vb.op == "indexof" and vb.a[1] is fb or vb is eng.read(h, vl) and fb is eng.read(h, fl):
                    continue
                bad.append("%s is not built after facets are added" % n)
                break
        elif v.op in ("init", "seq", "i", "undef", "emptyseq"):
            bad.append("%s is not built at all" % n if not (v.op == "init") else "%s is that of another mesh" % n)
        else:
            known = False
    if bad:
        ctx.oblige(RIDX, ctx.where(fn), False, "; ".join(bad), describe(x.st, 6))
    else:
        ctx.oblige(RIDX, ctx.where(fn), True if known else None, "the index is not one that Index built")


def make(ctx, fn):
    eng, ex = ctx.run(fn, CON)
    n = 0
    for x in ex or []:
        v = x.val
        if v.op != "ptr":
            if v is not NULL and v.op != "null":
                ctx.undecide("%s: what is returned is not followed: %r" % (ctx.where(fn), v))
            continue
        l = eng.deref(x.st, v)
        n += 1
        indexed(ctx, eng, fn, x, lambda k: eng.read(x.st, (l[0], l[1] + (k,))))
    ctx.extra["meshes_handed_out_by_reading"] = n
    if ex and not n:
        ctx.undecide("%s: no way out returns a mesh" % ctx.where(fn))


def rotate(ctx, fn, culls):
    eng, ex = ctx.run(fn, CON, unroll_arrays=True)
    if ex is None:
        return
    ps = fn["params"]
    m0 = None
    w = ctx.where(fn)
    for x in ex:
        v = x.val
        if not isinstance(v, T):
            ctx.undecide("%s: what is returned is not followed" % w)
            continue
        indexed(ctx, eng, fn, x, lambda k: proj(v, k))
        t = eng.read(x.st, (THIS, ()))
        ctx.oblige(RSAME, w, True if t.op == "init" else False, "the mesh itself comes out changed: %s" % (repr(t)[:80]))
        f = proj(v, "facets")
        culled = False
        while f.op == "culled":
            culled = True
            f = f.a[0]
        F0 = proj(mk("init", THIS), "facets")
        empty = x.st.facts.get(eq(TM.size(F0), I(0))) is True or x.st.facts.get(lt(I(0), TM.size(F0))) is False
        if empty:
            continue
        if f is F0:
            ctx.oblige(RROT, w, False, "the facets are handed out as they were", describe(x.st, 6))
            continue
        els = elements(eng, f, F0)
        culls.append(culled or bool(els and els[2]))
        if els is None:
            ctx.oblige(RROT, w, None, "the facets are not rotated one by one: %r" % (repr(f)[:80]))
            continue
        if not culled and els[1] is None:
            ctx.oblige(RCULL, w, False, "no facet is dropped from the rotated mesh")
        src, vals, cond, line = els
        for st, val in vals:
            one_facet(ctx, eng, fn, src, val, line)


def elements(eng, f, F0):
    """(loop, [(state, value made of the facet)], kept) when f is F0 taken facet by facet"""
    if f.op == "mapped":
        r = eng.loops.get(f.a[1])
        if f.a[0] is not F0 or r is None or r["early"]:
            return None
        loc = r["contloc"]
        if loc is None:
            return None
        return mk("elem", F0, r["key"]), [(b, eng.read(b, (loc[0], loc[1] + (mk("each", r["key"]),)))) for h, b in r["steps"]], None, r["line"]
    if f.op == "lv":
        r = eng.loops.get(f.a[0])
        if r is None or r["early"]:
            return None
        loc = (f.a[1], tuple(f.a[2:]))
        if not over(r, F0):
            return None
        pre = eng.read(r["pre"], loc)
        if pre is F0:
            # element by element in place, with an index
            vals = []
            for h, b in r["steps"]:
                base, app, wr = mods(eng.read(b, loc))
                if base is not f or app or len(wr) != 1 or wr[0][0] is not mk("ix", r["key"]):
                    return None
                vals.append((b, wr[0][1]))
            # no turn touches another facet than its own
            return mk("elem", f, r["key"]), vals, None, r["line"]
        if not (pre.op == "seq" and not pre.a[1] and not isinstance(pre.a[0], T)) and pre is not EMPTYSEQ:
            return None
        vals = []
        kept = False
        for h, b in r["steps"]:
            base, app, wr = mods(eng.read(b, loc))
            if base is not f or wr:
                return None
            if not app:
                kept = True
            vals.extend((b, a) for a in app)
        return mk("elem", F0, r["key"]), vals, kept or None, r["line"]
    return None


def over(r, F):
    """does the loop run over every element of F, in turn?"""
    if r["cont"] is not None:
        return r["cont"] is F
    return r["bound"] is TM.size(F) and r["start"] is not None and r["start"] is I(0)


def short(eng, r, F):
    """does the loop leave out the first or the last elements of F for sure?"""
    if r["early"]:
        return False
    n = TM.size(F)
    if r["bound"] is not None and r["start"] is not None:
        b, c = lin(r["bound"])
        if b is not n or r["start"].op != "i":
            return False
        return c < 0 or r["start"].a[0] > 0
    for c in r["changed"]:
        p = eng.read(r["pre"], c)
        if p.op != "i" or not r["steps"]:
            continue
        if any(lin(eng.read(b, c)) != (eng.read(h, c), 1) for h, b in r["steps"]):
            continue
        if p.a[0] > 0:
            return True
        v = eng.read(r["steps"][0][0], c)
        off = [lin(f.a[0])[1] for f, w in r["steps"][0][1].facts.items() if w and f.op == "lt" and lin(f.a[0])[0] is v and f.a[1] is n]
        if off and max(off) > 0:
            return True
    return False


def mods(v):
    """(base, appended items, [(index, value)]) of a vector term"""
    app, wr = [], []
    while True:
        if v.op == "upd":
            for n, x in v.a[1]:
                wr.append((n.a[0] if isinstance(n, T) and n.op == "idx" else n, x))
            v = v.a[0]
        elif v.op == "seq" and isinstance(v.a[0], T):
            app = list(v.a[1]) + app
            v = v.a[0]
        else:
            return v, app, wr[::-1]


def one_facet(ctx, eng, fn, src, val, line):
    w = ctx.where(fn, line)
    ms = set()
    e = proj(val, "edge")
    parts = [("the normal", proj(val, "norm"), proj(src, "norm"))] + [
        ("corner %d" % i, proj(e, mk("idx", I(i))), proj(proj(src, "edge"), mk("idx", I(i)))) for i in range(3)]
    srcs = {id(s): n for n, v, s in parts}
    for n, v, s in parts:
        if v is s:
            ctx.oblige(RROT, w, False, "%s of a facet is not rotated" % n)
            continue
        a = [x for x in v.a if isinstance(x, T)] if v.op == "mm" else []
        if len(a) != 2:
            ctx.oblige(RROT, w, None, "%s becomes %r" % (n, repr(v)[:100]))
            continue
        if a[0] is not s:
            o = srcs.get(id(a[0]))
            ctx.oblige(RROT, w, False if o or a[0].op == "mm" else None, "%s is made from %s" % (n, o or repr(a[0])[:100]))
            continue
        ms.add(a[1])
        ctx.oblige(RROT, w, True)
    if len(ms) > 1:
        ctx.oblige(RROT, w, False, "different matrices are used: %s" % ", ".join(sorted(repr(m)[:60] for m in ms)))
    for m in ms:
        if m.op != "init" or m.a[0].op != "P":
            ctx.oblige(RROT, w, None, "the matrix is not the one that was asked for: %r" % (repr(m)[:80]))


def outside(ctx, culls):
    """nothing else changes the facets of a mesh that was handed out"""
    # dropping facets again changes nothing when the rotated mesh had that done to it last
    again = bool(culls) and all(culls)
    n = 0
    for fn in ctx.prog.functions.values():
        if "body" not in fn or "/shim/" in fn.get("file", "") or fn["q"].startswith(STL):
            continue
        for c in walk(fn["body"]):
            f = c.get("f")
            if c.get("k") == "call" and isinstance(f, dict):
                n += 1
                if f.get("q") == STL + "CullBackFace":
                    ctx.oblige(RIDX, ctx.where(fn, c.get("l")), True if again else False if culls else None, "facets are dropped from a mesh whose index stays as it was")
    ctx.oblige(RIDX, "calls outside of the mesh", True)
    ctx.extra["calls_looked_at"] = n


# ---------------------------------------------------------------- moving elements to the end
def turn(eng, r, b, h, loc):
    """what a turn does to a vector: "same", ("swap", i, j), ("bad", why) or None"""
    head = eng.read(h, loc)
    base, app, wr = mods(eng.read(b, loc))
    if base is not head:
        return None
    if not wr and not app:
        return "same"
    if app:
        return None
    d = {}
    order = []
    for i, v in wr:
        if i not in d:
            order.append(i)
        d[i] = v
    at = {proj(head, mk("idx", i)): i for i in order}
    got = [at.get(d[i]) for i in order]
    if len(order) == 1:
        i = order[0]
        if d[i] is proj(head, mk("idx", i)):
            return "same"
        return ("bad", "the element at %r is overwritten and no other place keeps it" % i)
    if None in got:
        return None
    if len(set(got)) != len(got):
        return ("bad", "an element is written twice and another one is lost")
    if len(order) == 2:
        return ("swap", order[0], order[1])
    return None


def partition(eng, r, loc, nloc):
    """The turns of a loop that keeps the element at its position or swaps it for the last one counted at nloc:
    [(state, "keep" | "drop" | ("bad", why) | None)] and the location of the position"""
    ilocs = [c for c in r["changed"] if c != loc and c != nloc and eng.isint(eng.read(r["pre"], c)) and not c[1]]
    turns = []
    iloc = None
    for c in ilocs:
        p = eng.read(r["pre"], c)
        if p is I(0):
            iloc = c
    for h, b in r["steps"]:
        what = turn(eng, r, b, h, loc)
        n, c = lin(eng.read(b, nloc))
        same = eng.read(h, nloc)
        if n is not same:
            turns.append((h, b, None))
            continue
        if iloc is None:
            turns.append((h, b, None))
            continue
        i, ci = lin(eng.read(b, iloc))
        hi = eng.read(h, iloc)
        if i is not hi:
            turns.append((h, b, None))
            continue
        if what is None:
            turns.append((h, b, None))
        elif what == "same":
            if c == 0 and ci == 1:
                turns.append((h, b, "keep"))
            elif c < 0:
                turns.append((h, b, ("bad", "the last element goes out of the count though it was not looked at")))
            elif ci > 1:
                turns.append((h, b, ("bad", "an element is passed over")))
            else:
                turns.append((h, b, None))
        elif what[0] == "bad":
            turns.append((h, b, what))
        else:
            a = {what[1], what[2]}
            want = {hi, add(same, I(-1))}
            if a == want and c == -1 and ci == 0:
                turns.append((h, b, "drop"))
            elif a == want and c == -1 and ci == 1:
                turns.append((h, b, ("bad", "the element that is swapped in is never looked at")))
            elif a == want and c == 0:
                turns.append((h, b, ("bad", "the element that is swapped out stays in the count")))
            elif all(lin(x)[0] in (hi, same) for x in a):
                turns.append((h, b, ("bad", "the places %s are swapped, and %d leave the count" % (" and ".join(map(repr, sorted(a, key=repr))), -c))))
            else:
                turns.append((h, b, None))
    return turns, iloc


def culling(ctx, fn):
    eng, ex = ctx.run(fn, {})
    if ex is None:
        return
    loc = (THIS, ("facets",))
    F0 = eng.read_init(loc) if hasattr(eng, "read_init") else proj(mk("init", THIS), "facets")
    w = ctx.where(fn)
    done = set()
    for x in ex:
        v = eng.read(x.st, loc)
        if v in done:
            continue
        done.add(v)
        empty = x.st.facts.get(eq(TM.size(F0), I(0))) is True or x.st.facts.get(lt(I(0), TM.size(F0))) is False
        if empty:
            continue
        if v.op == "resized" and v.a[0].op == "lv" and v.a[0].a[0] in eng.loops:
            culled_swapping(ctx, eng, fn, loc, v, F0)
        elif v is F0:
            ctx.oblige(RCULL, w, False, "no facet is dropped")
        elif v.op == "lv" and v.a[0] in eng.loops and eng.read(eng.loops[v.a[0]]["pre"], (v.a[1], tuple(v.a[2:]))) is F0 and all(
                isinstance(turn(eng, eng.loops[v.a[0]], b, h, loc), (str, tuple)) for h, b in eng.loops[v.a[0]]["steps"]):
            ctx.oblige(RCULL, w, False, "facets are moved about and none is dropped")
        elif v.op == "lv" and v.a[0] in eng.loops and over(eng.loops[v.a[0]], F0):
            culled_copying(ctx, eng, fn, v, F0)
        else:
            ctx.oblige(RCULL, w, None, "how facets are dropped is not followed: %r" % (repr(v)[:100]))


def faces(st, n, h=None):
    """True/False: the facet with the normal's z-component n is known to face the viewer, or not to"""
    for f, v in st.facts.items():
        if f.op not in ("lt", "le", "eq") or len(f.a) != 2:
            continue
        a, b = f.a
        if f.op in ("lt", "le") and a is n and zero(b):
            if f.op == "le":
                return not v
            if v:
                return False
            return ("at", 0)        # n >= 0
        if f.op in ("lt", "le") and b is n and zero(a):
            if f.op == "lt":
                return v
            if not v:
                return False
            return ("at", 0)
        if f.op in ("lt", "le") and (a is n or b is n):
            return ("other", f)
    return None


def zero(t):
    return t.op in ("i", "f") and t.a[0] == 0


def judge_face(ctx, w, st, n, kept):
    r = faces(st, n)
    if r is True or r is False:
        ctx.oblige(RCULL, w, r == kept, "a facet that %s the viewer is %s" % ("faces" if r else "does not face", "kept" if kept else "dropped"), describe(st, 4))
    elif r is None:
        rel = [f for f in st.facts if mentions(f, lambda y: y is n)]
        ctx.oblige(RCULL, w, None if rel else False, "a facet is %s whatever way it faces" % ("kept" if kept else "dropped"), describe(st, 4))
    elif r[0] == "at":
        ctx.oblige(RCULL, w, False, "a facet seen edge-on is %s" % ("kept" if kept else "dropped with those that face the viewer"), describe(st, 4))
    else:
        ctx.oblige(RCULL, w, False if kind_const(r[1], n) else None, "facets are %s by %r" % ("kept" if kept else "dropped", r[1]), describe(st, 4))


def kind_const(f, n):
    o = f.a[0] if f.a[1] is n else f.a[1]
    return o.op in ("i", "f")


def culled_swapping(ctx, eng, fn, loc, v, F0):
    r = eng.loops[v.a[0].a[0]]
    w = ctx.where(fn, r["line"])
    if eng.read(r["pre"], loc) is not F0 or r["early"]:
        ctx.oblige(RCULL, w, None, "the loop does not start from the facets")
        return
    n = v.a[1]
    if n.op != "lv" or n.a[0] != r["key"]:
        ctx.oblige(RCULL, w, None, "the number of facets that stay is not followed: %r" % n)
        return
    nloc = (n.a[1], tuple(n.a[2:]))
    if eng.read(r["pre"], nloc) is not TM.size(F0):
        ctx.oblige(RCULL, w, None, "the count does not start at the number of facets")
        return
    turns, iloc = partition(eng, r, loc, nloc)
    for h, b, what in turns:
        if what is None:
            ctx.oblige(RCULL, w, None, "a turn is not followed")
        elif what in ("keep", "drop"):
            nz = proj(proj(proj(eng.read(h, loc), mk("idx", eng.read(h, iloc))), "norm"), "z")
            judge_face(ctx, w, b, nz, what == "keep")
        else:
            ctx.oblige(RCULL, w, False, what[1], describe(b, 4))


def culled_copying(ctx, eng, fn, v, F0):
    r = eng.loops[v.a[0]]
    w = ctx.where(fn, r["line"])
    loc = (v.a[1], tuple(v.a[2:]))
    el = mk("elem", F0, r["key"])
    for h, b in r["steps"]:
        base, app, wr = mods(eng.read(b, loc))
        if base is not eng.read(h, loc) or wr or any(a is not el for a in app) or len(app) > 1:
            ctx.oblige(RCULL, w, None, "a turn is not followed")
            continue
        judge_face(ctx, w, b, proj(proj(el, "norm"), "z"), bool(app))


# ---------------------------------------------------------------- the index
class Index(object):
    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.keys = {}
        self.seen = set()

    def ob(self, rule, line, ok, msg=None, note=None):
        self.ctx.oblige(rule, self.ctx.where(self.fn, line), ok, msg, note)

    def hook(self, eng, st, e):
        if e[0] != "mapkey":
            return
        k = e[2]
        if k.op != "rec" or k.a[0] != "pair":
            return
        p, q = proj(k, "first"), proj(k, "second")
        cp, cq = corner(p), corner(q)
        if cp is None or cq is None or cp[:2] != cq[:2] or cp[2] == cq[2]:
            return
        facts = frozenset((f, v) for f, v in st.facts.items() if f.op in ("lt", "le", "eq", "not", "bcall") and about(f, p, q))
        self.keys.setdefault((e[4], p, q, facts), (e[3], cp[2], cq[2]))

    def run(self, ctx):
        fn = self.fn
        eng, ex = ctx.run(fn, {}, hooks=[self.hook], exact=True, unroll_states=20000, unroll_arrays=True)
        if ex is None:
            return
        self.eng = eng
        self.F = proj(mk("init", THIS), "facets")
        self.canonical()
        full = 0
        done = set()
        for x in ex:
            g = lambda n: eng.read(x.st, (THIS, (n,)))
            if x.st.facts.get(lt(I(0), TM.size(self.F))) is False or x.st.facts.get(eq(TM.size(self.F), I(0))) is True:
                self.nothing(x)
                continue
            E, FE, U = g("edges"), g("face_edge"), g("unseen")
            if g("facets") is not self.F:
                self.ob(RIDX, None, None, "the facets change while they are indexed")
                continue
            full += 1
            if (E, FE, U) in done:
                continue
            done.add((E, FE, U))
            partial(ctx, lambda c: self.table(x, FE, E))
            partial(ctx, lambda c: self.aside(E, U))
        if not full and any(a[0] in ("check", "abort", "throw") for a in eng.aborts):
            self.ob(RPOS, eng.aborts[-1][2], False, "with any facet the index stops the program: no edge is found again")
        ctx.extra["ways_out_of_Index"] = ctx.extra.get("ways_out_of_Index", 0) + full

    def nothing(self, x):
        for n in ("edges", "face_edge"):
            v = self.eng.read(x.st, (THIS, (n,)))
            if v.op == "init":
                self.ob(RIDX, None, False, "%s stays that of an earlier index when there are no facets" % n, describe(x.st, 4))

    # -- the form of an edge
    def canonical(self):
        phi = {}
        lines = {}
        unclear = set()
        first = {}
        for (line, p, q, facts), (name, i, j) in self.keys.items():
            first.setdefault((line, frozenset((i, j))), set()).add((i, j))
        for (line, p, q, facts), (name, i, j) in self.keys.items():
            if not facts:
                if len(first[line, frozenset((i, j))]) == 1:
                    self.ob(RKEY, line, False, "an edge is %s under the ends in the order the facet has them" % (
                        "entered" if name in ("emplace", "insert", "try_emplace", "operator[]") else "looked up"))
                else:
                    unclear.add(line)
                continue
            for s in SIGNS:
                # p is s away from q
                env = {}
                for ax, d in zip(AXES, s):
                    env[proj(p, ax)] = d
                    env[proj(q, ax)] = 0
                ok = True
                for f, v in facts:
                    try:
                        r = bool(ev(f, env))
                    except Unknown:
                        ok = None
                        break
                    if r != v:
                        ok = False
                        break
                if ok is None:
                    unclear.add(line)
                    break
                if ok and any(s):
                    phi.setdefault(s, set()).add(True)
                    phi.setdefault(tuple(-d for d in s), set()).add(False)
                    lines.setdefault(s, set()).add(line)
                    lines.setdefault(tuple(-d for d in s), set()).add(line)
        for line in sorted(unclear):
            self.ob(RKEY, line, None, "what decides the direction of an edge is not evaluated")
        n = 0
        for s in SIGNS:
            if s > (0, 0, 0):
                r = phi.get(s)
                n += 1
                if r is None:
                    self.ob(RKEY, None, None, "no edge goes %s" % (s,))
                else:
                    self.ob(RKEY, min(lines[s]), len(r) == 1, "an edge whose ends differ by %s is taken in one direction here and in the other there (lines %s)" % (s, ", ".join(map(str, sorted(lines[s])))))
        self.ctx.extra["keys_seen"] = len(self.keys)

    # -- the table
    def table(self, x, FE, E):
        eng = self.eng
        if FE.op != "lv" or FE.a[0] not in eng.loops:
            self.ob(RTAB, None, False if FE.op in ("init", "resized", "seq") else None, "the table is not filled: %s" % repr(FE)[:80])
            return
        r = eng.loops[FE.a[0]]
        loc = (FE.a[1], tuple(FE.a[2:]))
        pre = eng.read(r["pre"], loc)
        F = self.F
        if not over(r, F) or r["early"]:
            self.ob(RTAB, r["line"], False if short(eng, r, F) else None, "the table is not filled for every facet")
            return
        if pre.op == "resized" and pre.a[1] is not TM.size(F):
            self.ob(RTAB, r["line"], False if lin(pre.a[1])[0] is TM.size(F) else None, "the table has not one row per facet")
        elif pre.op == "init":
            self.ob(RTAB, r["line"], False, "the table keeps the rows of an earlier index")
        for h, b in r["steps"]:
            v = eng.read(b, loc)
            base, app, wr = mods(v)
            head = eng.read(h, loc)
            if base is not head:
                self.ob(RTAB, r["line"], None, "a turn is not followed")
                continue
            if app and not wr and len(app) == 1:
                row = app[0]
            elif not app and len(wr) == 1 and counts(eng, r, h, b, wr[0][0]):
                row = wr[0][1]
            elif not app and not wr:
                self.ob(RTAB, r["line"], False, "the row of a facet is left as it was", describe(b, 4))
                continue
            else:
                self.ob(RTAB, r["line"], False if any(i.op == "i" for i, _ in wr) else None, "the row that is filled is not that of the facet", describe(b, 4))
                continue
            self.row(r, b, row, E)

    def row(self, r, b, row, E):
        got = []
        # what the row held before is not filled in
        for i in range(3):
            v = proj(row, mk("idx", I(i)))
            lk = looked(v)
            if lk is None:
                old = v.op in ("elem", "lv", "undef") or v.op == "i" or (v.op == "proj" and v.a[0].op == "elem")
                self.ob(RTAB, r["line"], False if old else None, "slot %d of a row is not filled: %s" % (i, repr(v)[:80]))
                return
            D, k = lk
            c = keycorners(k)
            if c is None or c[0] is not self.F or c[1] != r["key"]:
                self.ob(RTAB, r["line"], None, "what is looked up for slot %d is not followed: %r" % (i, repr(k)[:80]))
                return
            got.append(c[2])
            if D not in self.seen:
                self.seen.add(D)
                self.positions(D, E)
        ok = set(got) == set(PAIRS)
        self.ob(RTAB, r["line"], ok, "a row holds the edges %s" % ", ".join("%d-%d" % tuple(sorted(g)) for g in got))

    # -- what the lookups find
    def positions(self, D, E):
        eng = self.eng
        if D.op != "lv" or D.a[0] not in eng.loops:
            self.ob(RPOS, None, None, "the map that is looked at is not followed: %r" % (repr(D)[:80]))
            return
        r = eng.loops[D.a[0]]
        loc = (D.a[1], tuple(D.a[2:]))
        eloc = (THIS, ("edges",))
        there = eng.read(r["pre"], eloc)
        if any(c == eloc for c in r["changed"]):
            there = mk("lv", r["key"], *((THIS,) + ("edges",)))
        if there is not E:
            # the list changed after the positions were noted
            self.ob(RPOS, r["line"], False if self.moved(E, there) else None, "the list of edges changes after the positions were noted")
            return
        if not over(r, E):
            if any(c == eloc for c in r["changed"]) and self.enters(r, loc):
                return
            some = r["cont"] is None and r["bound"] is not None and r["bound"].op == "lv" and r["start"] is I(0)
            self.ob(RPOS, r["line"], False if some or short(eng, r, E) else None, "positions are not noted for every edge: %r to %r" % (r["start"], r["bound"]))
            return
        el = mk("elem", E, r["key"])
        clean = empty_map(eng.read(r["pre"], loc))
        for h, b in r["steps"]:
            v = eng.read(b, loc)
            head = eng.read(h, loc)
            if v is head:
                self.ob(RPOS, r["line"], None if clean is None else clean, "an edge that is known already keeps its old position", describe(b, 4))
                continue
            if v.op != "map" or v.a[0] is not head or len(v.a[1]) != 1:
                self.ob(RPOS, r["line"], None, "a turn is not followed: %r" % (repr(v)[:80]))
                continue
            k, p = v.a[1][0]
            if k is not el:
                self.ob(RPOS, r["line"], None, "what a position is noted for is not followed: %r" % (repr(k)[:80]))
                continue
            ok = counts(eng, r, h, b, p)
            self.ob(RPOS, r["line"], ok, "what is noted for an edge is %r" % (repr(p)[:60]))

    def enters(self, r, loc):
        """positions that are noted while edges are entered, and nothing moves later"""
        self.entered(mk("lv", r["key"], THIS, "edges"))
        return True

    def moved(self, E, there):
        r = self.eng.loops.get(E.a[0]) if E.op == "lv" else None
        if r is None:
            return False
        loc = (THIS, ("edges",))
        return any(isinstance(turn(self.eng, r, b, h, loc), tuple) for h, b in r["steps"])

    # -- setting aside
    def aside(self, E, U):
        eng = self.eng
        eloc, uloc = (THIS, ("edges",)), (THIS, ("unseen",))
        if E.op != "lv" or E.a[0] not in eng.loops:
            self.ob(RENT, None, False if E.op in ("init", "seq") else None, "the edges are not entered: %s" % repr(E)[:80])
            return
        r = eng.loops[E.a[0]]
        if over(r, self.F):
            # nothing is set aside
            self.entered(E)
            q = eng.loops.get(U.a[0]) if U.op == "lv" else None
            if q is not None:
                nl = (U.a[1], tuple(U.a[2:]))
                for h, b in q["steps"]:
                    v, c = lin(eng.read(b, nl))
                    if v is eng.read(h, nl) and c < 0:
                        self.ob(RPERM, q["line"], False, "the edge that goes out of the count is not the one that was looked at", describe(b, 4))
                        return
            self.ob(RSEEN, r["line"], None, "no edge is set aside")
            return
        pre = eng.read(r["pre"], eloc)
        self.entered(pre)
        nloc = None
        if U.op == "lv" and U.a[0] == r["key"]:
            nloc = (U.a[1], tuple(U.a[2:]))
        if nloc is None:
            self.ob(RSEEN, r["line"], None, "the number of edges that stay is not followed: %r" % U)
            return
        if eng.read(r["pre"], nloc) is not TM.size(pre):
            self.ob(RSEEN, r["line"], False if lin(eng.read(r["pre"], nloc))[0] in (TM.size(pre), None) or eng.read(r["pre"], nloc).op == "init" else None,
                    "the count does not start at the number of edges")
            return
        if r["early"]:
            self.ob(RSEEN, r["line"], None, "the loop can be left early")
        turns, iloc = partition(eng, r, eloc, nloc)
        others = [c for c in r["changed"] if c not in (eloc, nloc, iloc)]
        for h, b, what in turns:
            if what is None:
                self.ob(RPERM, r["line"], None, "a turn is not followed")
                continue
            if what not in ("keep", "drop"):
                self.ob(RPERM, r["line"], False, what[1], describe(b, 4))
                continue
            self.ob(RPERM, r["line"], True)
            i = eng.read(h, iloc)
            ef = self.sides(r, h, b, i)
            if ef is None:
                self.ob(RSEEN, r["line"], None, "what decides a turn is not followed", describe(b, 4))
                continue
            if what == "drop" and ef[0] is not None:
                t = turn(eng, r, b, h, ef[0])
                e = turn(eng, r, b, h, eloc)
                if t is None:
                    self.ob(RPERM, r["line"], None, "the facets of edges are not followed")
                else:
                    self.ob(RPERM, r["line"], isinstance(t, tuple) and t[0] == "swap" and set(t[1:]) == set(e[1:]), "edges are swapped and the facets noted with them are not")
            self.flat(r, b, what, ef)

    def sides(self, r, h, b, i):
        """(location of the facets noted with edges, eq fact, [dot facts]) of a turn"""
        eng = self.eng
        same, dots, loc = None, [], None
        for f, v in b.facts.items():
            if f.op == "eq" and len(f.a) == 2:
                x, y = f.a
                if side(x) and side(y) and side(x)[0] == side(y)[0] and {side(x)[2], side(y)[2]} == {"first", "second"} and side(x)[1] is i:
                    same = v
                    loc = side(x)[0]
            if f.op in ("lt", "le") and len(f.a) == 2:
                for k in (0, 1):
                    d, c = f.a[k], f.a[1 - k]
                    if d.op == "dot" and c.op in ("f", "i"):
                        dots.append((d, f.op, k, v, c.a[0]))
        if same is None and not dots:
            return (None, None, []) if len(b.facts) >= 0 else None
        return loc, same, dots

    def flat(self, r, b, what, ef):
        loc, same, dots = ef
        line = r["line"]
        def over_(d):
            # the dot product is known to be at least the limit (True), or less (False)
            t, op, k, v, c = d
            return (not v) if k == 0 else v
        if what == "drop":
            if same is None or same:
                self.ob(RSEEN, line, False if same or dots else None, "an edge of one facet only can be set aside", describe(b, 4))
            elif not dots:
                self.ob(RSEEN, line, False, "edges are set aside whatever the angle between their facets", describe(b, 4))
            else:
                self.ob(RSEEN, line, all(over_(d) for d in dots), "edges between facets that are not in one plane are set aside", describe(b, 4))
                for d in dots:
                    self.normals(r, d, line)
        else:
            if same or any(not over_(d) for d in dots):
                self.ob(RSEEN, line, True)
            else:
                self.ob(RSEEN, line, False if same is False and dots else None, "an edge between two facets in one plane stays", describe(b, 4))

    def normals(self, r, d, line):
        got = []
        for x in d[0].a:
            s = None
            if isinstance(x, T):
                for y in subterms(x):
                    if side(y):
                        s = side(y)
            got.append(s and s[2])
        if None in got or len(got) != 2:
            self.ob(RSEEN, line, None, "which facets are compared is not followed")
        else:
            self.ob(RSEEN, line, set(got) == {"first", "second"}, "a facet is compared with itself")

    # -- entering
    def entered(self, E):
        if E in self.seen:
            return
        self.seen.add(E)
        eng = self.eng
        if E.op != "lv" or E.a[0] not in eng.loops:
            self.ob(RENT, None, False if E.op in ("init",) else None, "the edges are not entered: %s" % repr(E)[:80])
            return
        r = eng.loops[E.a[0]]
        loc = (E.a[1], tuple(E.a[2:]))
        pre = eng.read(r["pre"], loc)
        line = r["line"]
        if not over(r, self.F) or r["early"]:
            self.ob(RENT, line, False if short(eng, r, self.F) else None, "edges are not entered for every facet")
            return
        if pre.op == "init":
            self.ob(RENT, line, False, "the edges of an earlier index stay in the list")
        elif not (pre is EMPTYSEQ or (pre.op == "seq" and not isinstance(pre.a[0], T) and not pre.a[1])):
            self.ob(RENT, line, None, "the list does not start empty: %s" % repr(pre)[:60])
        else:
            self.ob(RENT, line, True)
        dl = None
        for c in r["changed"]:
            for h, b in r["steps"]:
                if eng.read(b, c).op == "map":
                    dl = c
        if dl is None:
            self.ob(RENT, line, None, "no map tells the edges that are known")
            return
        e = empty_map(eng.read(r["pre"], dl))
        self.ob(RENT, line, e, "edges count as known before any is entered")
        par = [c for c in r["changed"] if c not in (loc, dl)]
        verdicts = {}
        for h, b in r["steps"]:
            k = (eng.read(b, loc), eng.read(b, dl)) + tuple(eng.read(b, c) for c in par)
            hs = frozenset((f, v) for f, v in b.facts.items() if f.op in ("has", "eq") and keyed(f))
            if (k, hs) in verdicts:
                continue
            verdicts[k, hs] = True
            self.turn_in(r, h, b, loc, dl, par)
        self.ctx.extra["turns_of_entering"] = len(r["steps"])

    def turn_in(self, r, h, b, loc, dl, par):
        eng = self.eng
        line = r["line"]
        head, dh = eng.read(h, loc), eng.read(h, dl)
        base, items, wr = mods(eng.read(b, loc))
        if base is not head or wr:
            self.ob(RENT, line, None, "a turn is not followed")
            return
        have = {}          # edge -> entered here / known
        known = {}
        for f, v in b.facts.items():
            if f.op == "has" and f.a[0] is dh:
                c = keycorners(f.a[1])
                if c:
                    known[f.a[1]] = v
        eqs = [(f.a[0], f.a[1], v) for f, v in b.facts.items() if f.op == "eq" and keycorners(f.a[0]) and keycorners(f.a[1])]
        for k in items:
            c = keycorners(k)
            if c is None or c[0] is not self.F or c[1] != r["key"]:
                self.ob(RENT, line, None, "what is entered is not followed: %s" % repr(k)[:80])
                return
            if known.get(k) is not False:
                self.ob(RENT, line, False if known.get(k) else None, "an edge that is known is entered again", describe(b, 4))
            have[c[2]] = True
        for k, v in known.items():
            if v:
                have[keycorners(k)[2]] = True
        again = True
        while again:
            again = False
            for x, y, v in eqs:
                a, c = keycorners(x)[2], keycorners(y)[2]
                if v and (a in have) != (c in have):
                    have[a] = have[c] = True
                    again = True
        # an edge with both ends at one point is the same from both sides
        miss = [p for p in PAIRS if p not in have]
        if miss:
            self.ob(RENT, line, False, "the edge between corners %d and %d of a facet is not entered" % tuple(sorted(miss[0])), describe(b, 6))
            return
        self.ob(RENT, line, True)
        d = eng.read(b, dl)
        ents = dict(d.a[1]) if d.op == "map" and d.a[0] is dh else {} if d is dh else None
        if ents is None:
            self.ob(RENT, line, None, "the map is not followed")
            return
        for n, k in enumerate(items):
            if k not in ents:
                self.ob(RENT, line, False, "an edge is entered and does not count as known")
                return
            v, c = lin(ents[k])
            if v is TM.size(head):
                self.ob(RPOS, line, c == n, "an edge is entered with the position of another one (off by %d)" % (c - n))
            else:
                self.ob(RPOS, line, False if v is None else None, "an edge is entered with position %r" % ents[k])
        for k in ents:
            if k not in items:
                self.ob(RENT, line, False, "an edge counts as known and is not entered")
        self.faces(r, h, b, par, items, dh, ents)

    def faces(self, r, h, b, par, items, dh, ents):
        """the facets noted with the edges: (f, f) at first, the second one later"""
        eng = self.eng
        line = r["line"]
        for c in par:
            v = eng.read(b, c)
            base, app, wr = mods(v)
            if base is not eng.read(h, c) or (not app and not wr and not items):
                continue
            if not app and not wr:
                if eng.read(r["pre"], c).op in ("seq", "emptyseq"):
                    self.ob(RFACE, line, False, "an edge is entered without its facet", describe(b, 4))
                continue
            self.ob(RFACE, line, len(app) == len(items), "%d edges are entered with %d notes of their facets" % (len(items), len(app)))
            for a in app:
                if a.op == "rec" and a.a[0] == "pair":
                    x, y = proj(a, "first"), proj(a, "second")
                    ok = counts(eng, r, h, b, x) and counts(eng, r, h, b, y)
                    self.ob(RFACE, line, True if ok else False if {x.op, y.op} <= {"ix", "i", "+"} else None, "an edge is entered as one between facets %r and %r" % (x, y))
                else:
                    self.ob(RFACE, line, None, "the note of facets is not followed")
            for i, val in wr:
                lk = looked(i)
                ok = lk is not None and lk[0] is dh and keycorners(lk[1]) is not None or any(i is p for p in ents.values())
                second = proj(val, "second")
                first = proj(val, "first")
                self.ob(RFACE, line, True if ok else None, "the place of a note is not followed: %r" % i)
                if ok:
                    ok = counts(eng, r, h, b, second)
                    self.ob(RFACE, line, True if ok else False if second.op in ("ix", "i", "+") or side(second) else None, "the second facet of an edge is noted as %r" % second)
                    if counts(eng, r, h, b, first) and ok and lk is not None:
                        self.ob(RFACE, line, False, "the first facet of an edge is forgotten")


def keyed(f):
    return any(keycorners(x) is not None for x in f.a if isinstance(x, T))


def about(f, p, q):
    """a fact about where p and q are, and about no other corner"""
    if keyed(f):
        return False
    own = {proj(x, ax) for x in (p, q) for ax in AXES} | {p, q}
    hit = False
    for x in subterms(f):
        if x in own:
            hit = True
        elif corner(x) is not None or x.op == "proj" and x.a[1] in AXES:
            return False
    return hit


def corner(t):
    """(facets, loop, i) of corner i of the facet a loop looks at"""
    path = []
    while t.op == "proj" or (t.op == "elem" and len(t.a) > 2):
        if t.op == "elem":
            path = list(t.a[2:]) + path
            t = mk("elem", t.a[0], t.a[1])
            break
        path.insert(0, t.a[1])
        t = t.a[0]
    if t.op == "elem" and len(path) == 2 and path[0] == "edge" and isinstance(path[1], T) and path[1].op == "idx" and path[1].a[0].op == "i":
        return t.a[0], t.a[1], path[1].a[0].a[0]
    return None


def keycorners(k):
    """(facets, loop, {i, j}) of an edge between two corners of one facet"""
    if not isinstance(k, T) or k.op != "rec" or k.a[0] != "pair":
        return None
    a, b = corner(proj(k, "first")), corner(proj(k, "second"))
    if a is None or b is None or a[:2] != b[:2]:
        return None
    return a[0], a[1], frozenset((a[2], b[2]))


def looked(v):
    """(map, key) of a value that was found in a map"""
    if v.op == "mapval":
        return v.a[0], v.a[1]
    if v.op in ("lv", "init") and len(v.a) > 3 and v.a[-1] == "second" and isinstance(v.a[-2], T) and v.a[-2].op == "at":
        return mk(v.op, *v.a[:-2]), v.a[-2].a[0]
    if v.op == "proj" and v.a[1] == "second":
        w = v.a[0]
        if w.op == "proj" and isinstance(w.a[1], T) and w.a[1].op == "at":
            return w.a[0], w.a[1].a[0]
    return None


def empty_map(v):
    if v is EMPTYMAP:
        return True
    if v.op == "map" and (v.a[0] is None or v.a[0] is EMPTYMAP):
        return not v.a[1]
    if v.op in ("lv", "init"):
        return False
    return None


def counts(eng, r, h, b, p):
    """is p the number of the turn?"""
    if p is mk("ix", r["key"]):
        return True
    v, c = lin(p)
    if v is mk("ix", r["key"]) or v is None:
        return False
    if v.op == "lv" and v.a[0] == r["key"]:
        loc = (v.a[1], tuple(v.a[2:]))
        p0 = eng.read(r["pre"], loc)
        steps = [lin(eng.read(b2, loc)) for h2, b2 in r["steps"]]
        if all(s[0] is v and s[1] == 1 for s in steps) and p0.op == "i":
            return p0.a[0] + c == 0
    if v.op == "size":
        return None
    return None


def side(t):
    """(location, index, first/second) of a facet noted with an edge"""
    if t.op == "lv" and len(t.a) >= 4 and t.a[-1] in ("first", "second") and isinstance(t.a[-2], T) and t.a[-2].op == "idx":
        return (t.a[1], tuple(t.a[2:-2])), t.a[-2].a[0], t.a[-1]
    return None
