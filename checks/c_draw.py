"""C13-C15, C43: what is drawn, under which transform and in which context."""
from common import *
from c_flow import STAGES, NS, ops, param_doc, succeeded, flat, appended
from c_prop import (DIMS, KINDS, closure, this_path, this_root, page_loc, label_texts, judge_all3, judge_all, run_item, subject, R43, OPAQUE, find_maps, View)
from poly import poly, peq, padd, pmul, atom, const, degree, atoms
import models

R13 = "every accepted dimension is drawn"


def c13(ctx):
    ctx.rule("on every successful path of a dimension the page gains at least one label and one line (an angle also an arc, a dia label starts with the "
             "diameter sign, a rad label with R); on every failing path the page is left as it was.")
    ctx.load()
    o = ops(ctx)
    for kind in DIMS:
        fn = o.get(kind)
        if fn is None:
            ctx.undecide("no DrawToPage::operator() for %s" % kind)
            continue
        w = ctx.where(fn)
        eng, ex = ctx.run(fn, STAGES)
        for x in ex or ():
            ok = succeeded(x)
            st = x.st
            if ok is None:
                ctx.undecide("%s: returns %r" % (w, x.val))
                continue
            l = page_loc(eng, st)
            if l is None:
                ctx.undecide("%s: the current page is not understood" % w)
                continue
            parts = {}
            for n in ("lines", "arcs", "text"):
                before = proj(mk("init", l[0]), n)
                parts[n] = appended(eng, before, eng.read(st, (l[0], l[1] + (n,))), st)
            if not ok:
                for n, k in parts.items():
                    ctx.oblige("a dimension that fails adds nothing", w, None if k is None else k == 0,
                               "%s that fails has already added %s to the page" % (subject(kind), n), describe(st))
                continue
            for n, need in (("text", True), ("lines", True), ("arcs", kind == "Angle")):
                if need:
                    k = parts[n]
                    ctx.oblige(R13, w, None if k is None else k > 0, "%s succeeds without adding any %s" % (subject(kind), n), describe(st))
            if kind in ("Dia", "Rad"):
                items, base = label_texts(eng, st)
                verdict = False
                for it, s in items:
                    p = pieces(s)
                    raw = proj(it, "raw")
                    if kind == "Dia":
                        if p and p[0].op == "s" and p[0].a[0].startswith("\\351") and raw == TRUE:
                            verdict = True
                        elif p and (vague(p[0]) or vague(raw)) and not verdict:
                            verdict = None
                    else:
                        if p and p[0].op == "s" and p[0].a[0].startswith("R"):
                            verdict = True
                        elif p and vague(p[0]) and not verdict:
                            verdict = None
                ctx.oblige("the label carries its sign", w, verdict,
                           "no label of %s starts with %s" % (subject(kind), "the diameter sign" if kind == "Dia" else "R"), describe(st))


R14 = "geometry is placed with the draw's transform"
ADD = (("AddLines", "lines", (("o", "pos"), ("t", "pos"))), ("AddArcs", "arcs", (("center", "pos"), ("r", "len"), ("start", "same"), ("end", "same"))),
       ("AddText", "text", (("at", "pos"), ("str", "same"), ("center", "same"), ("raw", "same"))))


def c14(ctx):
    ctx.rule("each adding loop is solved to a fixpoint: its body must append exactly one item per element, in order, whose coordinates have the normal "
             "form scale*x + d over the element's own coordinates (radius scale*r, angles and texts unchanged); and every item a dimension adds must "
             "contain the offset exactly once and the scale at most linearly.")
    ctx.load()
    fl = specs.visitor_fields(ctx.prog)
    if not {"page", "scale", "d"} <= set(fl):
        ctx.undecide("the draw's transform is not kept in DrawToPage")
        return
    scale = mk("init", this_root(ctx.prog), *fl["scale"])
    d = mk("init", this_root(ctx.prog), *fl["d"])
    for name, part, comps in ADD:
        fn = ctx.fn(NS + "DrawToPage::" + name)
        w = ctx.where(fn)
        eng, ex = ctx.run(fn, STAGES, boolret=False)
        src = param(fn, 0)
        for x in ex or ():
            st = x.st
            l = page_loc(eng, st)
            if l is None:
                ctx.undecide("%s: the current page is not understood" % w)
                continue
            loc = (l[0], l[1] + (part,))
            before = proj(mk("init", l[0]), part)
            v = eng.read(st, loc)
            for n in ("lines", "arcs", "text"):
                if n != part:
                    ctx.oblige("only its own kind is added", w, eng.read(st, (l[0], l[1] + (n,))) is proj(mk("init", l[0]), n),
                               "%s changes the page's %s" % (name, n))
            if v is before and st.facts.get(eq(size(src), I(0))) is True:
                continue
            if v.op != "lv" or v.a[0] not in eng.loops:
                ctx.oblige("every item is added", w, None if v is not before else False, "the page's %s become %r" % (part, v), describe(st))
                continue
            r = eng.loops[v.a[0]]
            wl = ctx.where(fn, r["line"])
            pre = eng.read(r["pre"], loc)
            ctx.oblige("items already on the page are kept", wl, True if pre is before else (None if vague(pre) else False), "the loop starts with %r" % pre)
            if r["cont"] is not src:
                ctx.oblige("every item is added, in order", wl, None, "the loop runs over %r" % r["cont"])
                continue
            ctx.oblige("every item is added, in order", wl, not r["rev"], "the items are added backwards")
            for s, c in r["early"]:
                ctx.oblige("every item is added, in order", wl, False, "the loop over the items is left early", describe(s))
            el = mk("elem", src, r["key"])
            for h, b in r["steps"]:
                v0, v1 = eng.read(h, loc), eng.read(b, loc)
                if v1 is v0:
                    ctx.oblige("every item is added, in order", wl, False, "an item is not added", describe(b))
                    continue
                if not (v1.op == "seq" and v1.a[0] is v0):
                    ctx.oblige("every item is added, in order", wl, None if v1.op != "prepend" else False, "the page's %s become %r" % (part, v1), describe(b))
                    continue
                if len(v1.a[1]) != 1:
                    ctx.oblige("every item is added, in order", wl, False, "%d items are added for one" % len(v1.a[1]), describe(b))
                    continue
                it = v1.a[1][0]
                if it.op == "join" or it.op == "elem" and it is not el:
                    ctx.oblige(R14, wl, None, "the item added is %r" % it)
                    continue
                for c, how in comps:
                    got, org = proj(it, c), proj(el, c)
                    if how == "same":
                        ctx.oblige("everything else is unchanged", wl, True if got is org or peq(got, org) else (None if vague(got, ("elem",)) and False else False),
                                   "%s.%s becomes %r" % (part, c, got), describe(b))
                    elif how == "len":
                        ok = peq(got, mk("*", org, scale))
                        ctx.oblige("a radius is scaled without the offset", wl, ok or (None if unclear(got) else False), "the radius becomes %r" % got, describe(b))
                    else:
                        for ax in "xy":
                            g = proj(got, ax)
                            want = mk("+", mk("*", proj(org, ax), scale), proj(d, ax))
                            ok = peq(g, want)
                            ctx.oblige(R14, wl, ok or (None if unclear(g) else False),
                                       "%s.%s of an item becomes %r" % (c, ax, g), describe(b))
    # what the dimensions add themselves
    o = ops(ctx)
    for kind in DIMS:
        fn = o.get(kind)
        if fn is None:
            continue
        w = ctx.where(fn)
        eng, ex = ctx.run(fn, STAGES)
        seen = {}
        for x in ex or ():
            if succeeded(x) is not True:
                continue
            st = x.st
            l = page_loc(eng, st)
            if l is None:
                continue
            for n, comps in (("lines", ("o", "t")), ("arcs", ("center",)), ("text", ("at",))):
                v = eng.read(st, (l[0], l[1] + (n,)))
                while v is not None and v.op == "seq":
                    for it in v.a[1]:
                        if it in seen:
                            continue
                        seen[it] = 1
                        for c in comps:
                            for ax in "xy":
                                placed(ctx, w, kind, n, proj(proj(it, c), ax), proj(d, ax), scale, st)
                        if n == "arcs":
                            g = poly(proj(it, "r"))
                            dg = degree(g, scale)
                            ctx.oblige(R14, w, dg <= {1} or (None if unclear(proj(it, "r")) else False), "the radius of an arc of %s is %r" % (subject(kind), proj(it, "r")))
                    v = v.a[0]
        ctx.extra.setdefault("items_checked", {})[kind] = len(seen)
    # texts of the page are placed in page coordinates, not with a draw's transform
    fn = o.get("Text")
    if fn is not None:
        eng, ex = ctx.run(fn, STAGES)
        for x in ex or ():
            l = page_loc(eng, x.st)
            if l is None:
                continue
            v = eng.read(x.st, (l[0], l[1] + ("text",)))
            cl = closure(eng, [v])
            bad = [t for t in cl if t.op == "init" and t.a[0] is this_root(ctx.prog) and t.a[1:1 + len(fl["scale"])] == fl["scale"]
                   or t.op == "init" and t.a[0] is this_root(ctx.prog) and t.a[1:1 + len(fl["d"])] == fl["d"]]
            ctx.oblige("page texts do not use a draw's transform", ctx.where(fn), not bad, "a text of the page is placed using %r" % (bad[:1],))


def unclear(t):
    return mentions(t, lambda x: x.op in ("call", "opaque", "join", "aftervisit"))


def placed(ctx, w, kind, part, g, dax, scale, st):
    p = poly(g)
    lin = [m for m in p if dict(m).get(dax)]
    ok = len(lin) == 1 and lin[0] == ((dax, 1),) and p[lin[0]] == 1
    rest = {m: c for m, c in p.items() if m not in lin}
    inner = any(mentions(t, lambda x: x is dax or (x.op == "init" and dax.op == "init" and x.a == dax.a[:-1])) for m in rest for t, e in m)
    deg = degree(rest, scale)
    if not ok or inner:
        ctx.oblige(R14, w, None if unclear(g) else False, "an item of %s has the coordinate %s, which does not contain the offset exactly once" % (subject(kind), cut(g)), describe(st))
        return
    if any(e > 1 for e in deg):
        ctx.oblige(R14, w, False, "an item of %s is scaled twice: %s" % (subject(kind), cut(g)), describe(st))
        return
    for m, c in rest.items():
        e = dict(m).get(scale, 0)
        # a coordinate of a point that is not scaled at all
        if e == 0 and not mentions_any(m, scale) and m and all(t.op in ("proj", "init") and t.a[0].op in ("pt", "circle") or t.op in ("pt", "circle") for t, _ in m):
            ctx.oblige(R14, w, False, "an item of %s uses a model coordinate that is not scaled: %s" % (subject(kind), cut(g)), describe(st))
            return
    ctx.oblige(R14, w, True)


def mentions_any(m, scale):
    return any(mentions(t, lambda x: x is scale) for t, e in m)


def cut(t):
    s = repr(t)
    return s if len(s) < 200 else s[:197] + "..."


# ---------------------------------------------------------------------- C15, C43
R15 = "a draw's model and dimensions share one context"
PAGE_CENTER = {"x": 396, "y": 306}


def run_draw(ctx):
    fn = ops(ctx).get("Draw")
    if fn is None:
        ctx.undecide("no DrawToPage::operator() for Draw")
        return None
    eng, ex = ctx.run(fn, STAGES, visit_is_dim=True)
    return fn, eng, ex


def c15(ctx):
    ctx.rule("on every successful path of a draw the visitor's rotation, points, scale and offset at every visit of a dimension (and while the model's lines "
             "are added) are compared, as normal forms, with the values prescribed by the draw's own properties and its own model; no dimension may "
             "change them.")
    ctx.load()
    r = run_draw(ctx)
    if r is None:
        return
    fn, eng, ex = r
    w = ctx.where(fn)
    fl = specs.visitor_fields(ctx.prog)
    if not {"page", "scale", "d"} <= set(fl):
        ctx.undecide("the draw's context is not kept in DrawToPage")
        return
    draw = param(fn, 0)
    name = proj(draw, "name")
    n = 0
    for x in ex or ():
        if succeeded(x) is not True:
            continue
        st = x.st
        pms = find_maps(ctx, eng, st)
        if len(pms) != 1:
            ctx.undecide("%s: the properties of the draw are not understood" % w)
            continue
        pm = list(pms.values())[0]
        v = View(eng, st, pm)
        if v.infeasible:
            continue
        n += 1
        det = describe(st)
        got = {k: this_path(eng, st, p) for k, p in fl.items() if k != "page"}
        stale(ctx, w, got, det, fl)
        # -- rotation and model
        rot = got["rotation_"]
        pv = pm.values("view")
        isview = v.present("view")
        if isview is False:
            zp = rot.op == "init" and rot.a[0].op == "G" and rot.a[0].a[0].endswith("matrix::ZP") or ident(rot)
            ctx.oblige("the default view is Z+", w, True if zp else (None if unclear(rot) else False), "without a view the rotation is %r" % rot, det)
        elif isview:
            if rot.op in ("view", "viewang"):
                ctx.oblige("the view property gives the rotation", w, any(t in subs(rot) for t in pv), "the rotation is %r" % rot, det)
                ty = v.types.get("view", {})
                loc = [t for t, b in ty.items() if b]
                want = "viewang" if any("Eigen" in t for t in loc) else "view"
                ctx.oblige("the view property gives the rotation", w, rot.op == want, "a view that is %s gives the rotation %r" % (loc, rot), det)
            else:
                ctx.oblige("the view property gives the rotation", w, None if unclear(rot) else False, "with a view the rotation is %r" % rot, det)
        pts = got["points_"]
        mesh = None
        rots = [t for t in subs(pts) if t.op == "rotated"]
        if pts.op != "points_of" or len(rots) != 1:
            ctx.oblige("dimensions use the points of the draw's model", w, None if unclear(pts) or pts.op not in ("init", "points_of") else False, "the points are %r" % pts, det)
        else:
            ctx.oblige("dimensions use the rotation of the model", w, rots[0].a[1] is rot, "the model is rotated by %r, the dimensions by %r" % (rots[0].a[1], rot), det)
            mesh = rots[0].a[0]
            ok = mentions(mesh, lambda t: t is name)
            mapt = [f for f, b in st.facts.items() if f.op == "has" and f.a[1] is name and "stl_files" in repr(f.a[0])]
            ctx.oblige("the model is the one the draw names", w, True if ok else (None if unclear(mesh) else False), "the model drawn is %r" % mesh, det)
            hv = [b for f, b in st.facts.items() if f.op == "has" and f.a[1] is name]
            ctx.oblige("an unknown model is an error", w, bool(hv) and all(hv), "the draw succeeds without knowing that its model exists", det)
        # -- scale
        sc = got["scale"]
        ok, why = scale_ok(eng, st, v, pm, sc)
        ctx.oblige("the scale is the draw's own", w, ok, why, det)
        # -- offset
        lim = [t for t in subs(got["d"]) if t.op == "limits"]
        if len(lim) != 1:
            ctx.oblige("the offset centres the draw's own model", w, None if unclear(got["d"]) else False, "the offset is %s" % cut(got["d"]), det)
        else:
            L = lim[0]
            rr = [t for t in subs(L) if t.op == "rotated"]
            ctx.oblige("the offset centres the draw's own model", w, len(rr) == 1 and rr[0].a[1] is rot and (mesh is None or rr[0].a[0] is mesh),
                       "the limits are those of %s" % cut(L), det)
            at = v.present("@")
            for ax in "xy":
                g = proj(got["d"], ax)
                mid = mk("*", mk("/", mk("+", proj(proj(L, "o"), ax), proj(proj(L, "t"), ax)), I(2)), sc)
                if at:
                    oks = False
                    for t in pm.values("@"):
                        val = proj(mk("init", mk("D", t)), "value")
                        want = mk("-", mk("+", mk("*", I(72), proj(val, ax)), I(PAGE_CENTER[ax])), mid)
                        oks = oks or peq(g, want)
                    ctx.oblige("the draw is centred where it says", w, oks or (None if unclear(g) else False), "with @ the offset is %s" % cut(g), det)
                elif at is False:
                    want = mk("-", I(0), mid)
                    ctx.oblige("the draw is centred where it says", w, peq(g, want) or (None if unclear(g) else False), "without @ the offset is %s" % cut(g), det)
        # -- the model's lines
        adders(ctx, fn, eng, st, got, rot, mesh, w, det)
        visits(ctx, fn, eng, st, got, draw, w, det, fl)
    if not n:
        ctx.undecide("%s: no path succeeds" % w)
    # no dimension changes the context
    for kind, f in sorted(ops(ctx).items()):
        if kind == "Draw":
            continue
        wf = ctx.where(f)
        e2, ex2 = ctx.run(f, STAGES)
        for x in ex2 or ():
            for k, p in fl.items():
                val = this_path(e2, x.st, p)
                ctx.oblige("dimensions leave the context alone", wf, val is mk("init", this_root(ctx.prog), *p),
                           "%s changes the %s used by what follows" % (subject(kind), k), describe(x.st))


def ident(t):
    """the constant identity"""
    return t.op == "mat" and all(peq(elem3(t, i, j), I(1 if i == j else 0)) for i in range(3) for j in range(3))


def elem3(t, i, j):
    r = t.a[i]
    return proj(r, "xyz"[j])


def stale(ctx, w, got, det, fl):
    for k, t in got.items():
        old = [x for x in subs(t) if x.op == "init" and x.a[0] is this_root(ctx.prog) and any(x.a[1:1 + len(p)] == p for q, p in fl.items() if q != "page")]
        ctx.oblige("nothing carries over from earlier draws", w, not old, "the %s still depends on the previous draw: %r" % (k, old[:1]), det)


def scale_ok(eng, st, v, pm, sc):
    p = v.present("scale")
    if p is False:
        return (True if peq(sc, I(72)) else (None if unclear(sc) else False)), "without a scale property the scale is %r" % sc
    if p is None:
        return None, "whether a scale is given is not examined"
    for t in pm.values("scale"):
        val = proj(mk("init", mk("D", t)), "value")
        a, b = proj(val, "first"), proj(val, "second")
        if peq(sc, mk("/", mk("*", I(72), a), b)):
            return True, ""
    return (None if unclear(sc) else False), "the scale is %r" % sc


def adders(ctx, fn, eng, st, got, rot, mesh, w, det):
    loops = [eng.loops[ev[1]] for ev in st.trace if ev[0] == "loop" and ev[1] in eng.loops]
    ml = [r for r in loops if r["cont"] is not None and r["cont"].op == "lines_of"]
    if not ml:
        ctx.oblige("the model is drawn", w, None, "the loop adding the model's lines was not recognised")
        return
    ctx.oblige("the model is drawn once", w, len(ml) == 1, "the lines of the model are added %d times" % len(ml), det)
    for r in ml:
        rr = [t for t in subs(r["cont"]) if t.op == "rotated"]
        ctx.oblige("the model is drawn under the draw's view", w, len(rr) == 1 and rr[0].a[1] is rot and (mesh is None or rr[0].a[0] is mesh),
                   "the lines drawn are %s" % cut(r["cont"]), det)
        el = mk("elem", r["cont"], r["key"])
        l = page_loc(eng, r["pre"])
        for h, b in r["steps"]:
            l = page_loc(eng, b)
            v1 = eng.read(b, (l[0], l[1] + ("lines",)))
            if v1.op != "seq" or len(v1.a[1]) != 1:
                continue
            it = v1.a[1][0]
            for c in ("o", "t"):
                for ax in "xy":
                    g = proj(proj(it, c), ax)
                    want = mk("+", mk("*", got["scale"], proj(proj(el, c), ax)), proj(got["d"], ax))
                    ctx.oblige("the model is placed in the draw's context", w, peq(g, want) or (None if unclear(g) else False),
                               "a line of the model is placed at %s" % cut(g), det)


def visits(ctx, fn, eng, st, got, draw, w, det, fl):
    dims = proj(draw, "dims")
    loops = [(ev, eng.loops[ev[1]]) for ev in st.trace if ev[0] == "loop" and ev[1] in eng.loops]
    dl = [(ev, r) for ev, r in loops if r["cont"] is dims]
    direct = [ev for ev in st.trace if ev[0] == "visit"]
    if direct:
        ctx.oblige("dimensions are evaluated by the loop over them", w, None, "a dimension is evaluated outside a loop")
    if not dl:
        ctx.oblige("every dimension is evaluated", w, None if direct else False, "a draw succeeds without evaluating its dimensions", det)
        return
    ctx.oblige("every dimension is evaluated once", w, len(dl) == 1, "the dimensions are walked %d times" % len(dl), det)
    for ev, r in dl:
        wl = ctx.where(fn, None)
        for s, c in r["early"]:
            if not s.mon.get("diag"):
                ctx.oblige("every dimension is evaluated", w, False, "the loop over the dimensions is left early", describe(s))
        for h, b in r["steps"]:
            vs = [e for e in flat(b.trace) if e[0] == "visit"]
            if len(vs) != 1:
                ctx.oblige("every dimension is evaluated once", w, False, "one iteration evaluates %d dimensions" % len(vs), describe(b, 6))
                continue
            snap = dict(vs[0][2])
            for k in ("rotation_", "points_", "scale", "d"):
                same = snap[k] is got[k] or (k == "scale" and peq(snap[k], got[k])) or \
                    (k == "d" and all(peq(proj(snap[k], ax), proj(got[k], ax)) for ax in "xy"))
                ctx.oblige("dimensions are evaluated in the draw's context", ctx.where(fn, vs[0][-1]),
                           True if same else (None if unclear(snap[k]) or snap[k].op == "lv" else False),
                           "while dimensions are evaluated the %s is %s" % (k, cut(snap[k])), describe(b, 6))


def c43(ctx):
    ctx.rule("on every successful path of a draw with a scale the visitor's scale has the normal form 72*a/b over the two numbers written, and both are known "
             "to be at least 1.")
    ctx.load()
    r = run_draw(ctx)
    if r is None:
        return
    fn, eng, ex = r
    w = ctx.where(fn)
    fl = specs.visitor_fields(ctx.prog)
    if "scale" not in fl:
        ctx.undecide("the scale is not kept in DrawToPage")
        return
    for x in ex or ():
        if succeeded(x) is not True:
            continue
        st = x.st
        pms = find_maps(ctx, eng, st)
        if len(pms) != 1:
            ctx.undecide("%s: the properties of the draw are not understood" % w)
            continue
        pm = list(pms.values())[0]
        v = View(eng, st, pm)
        if v.infeasible:
            continue
        sc = this_path(eng, st, fl["scale"])
        ok, why = scale_ok(eng, st, v, pm, sc)
        ctx.oblige("the scale is used exactly as written", w, ok, why, describe(st))
        if v.present("scale") and ok:
            good = {"first": False, "second": False}
            for t in pm.values("scale"):
                val = proj(mk("init", mk("D", t)), "value")
                for c in good:
                    q = proj(val, c)
                    lo = eng.range(st, q)[0]
                    if lo is not None and lo >= 1 or st.facts.get(lt(q, I(1))) is False or st.facts.get(lt(I(0), q)) is True:
                        good[c] = True
            for c, g in good.items():
                ctx.oblige(R43, w, g, "a draw succeeds with a scale whose %s number may be zero or negative" % c, describe(st))
