"""Contracts: what a caller may assume about a function of the program.

Each contract stands for a function whose body is analysed on its own; the callers
are analysed against the contract.  Contracts are keyed by the statically named
callee.
"""
from terms import *
import models
from models import mkptr


def fork(st, n):
    return [st] + [st.clone() for _ in range(n - 1)]


# ------------------------------------------------------------------ points
def c_clone(eng, st, f, ol, args, e):
    p = eng.ptr(ol)
    of, rot = point_state(eng, st, ol)
    q = mk("clone", p, e["_id"], len(eng.loopstack))
    eng.write(st, eng.deref(st, q), rec("#point", (("#of", of), ("#rot", rot))))
    return [(st, q)]


def point_state(eng, st, ol):
    """(the point of the document this object stands for, the rotation applied to it)"""
    v = eng.read(st, ol)
    if v.op == "rec" and v.a[0] == "#point":
        d = dict(v.a[1])
        return d["#of"], d["#rot"]
    return eng.ptr(ol), mk("unrotated")


def c_rotate(eng, st, f, ol, args, e):
    m = eng.argval(st, args[0])
    of, rot = point_state(eng, st, ol)
    for h in eng.hooks:
        h(eng, st, ("rotate", eng.ptr(ol), m, e.get("l")))
    nr = m if rot.op == "unrotated" else mk("mm", rot, m)
    eng.write(st, ol, rec("#point", (("#of", of), ("#rot", nr))))
    return [(st, VOID)]


def c_invoke(eng, st, f, ol, args, e):
    pts = eng.argval(st, args[0])
    ret = eng.argval(st, args[1])
    of, rot = point_state(eng, st, ol)
    a, b = fork(st, 2)
    eng.write(a, eng.deref(a, ret), mk("pt", of, rot, pts))
    b.mon["diag"] = 1
    return [(a, TRUE), (b, FALSE)]


# ------------------------------------------------------------------ visits
def visitor_fields(prog):
    """{'page': path, 'scale': path, 'd': path} inside DrawToPage, found by type"""
    r = prog.records.get(NS + "DrawToPage", {})
    out = {"points_": ("points_",), "rotation_": ("rotation_",)}

    def scan(fields, pre):
        for f in fields:
            t = f["t"]
            p = pre + (f["n"],)
            if "OutputPage" in t and ("*" in t or "_ptr" in t):
                out.setdefault("page", p)
            elif t in ("float", "double"):
                out.setdefault("scale", p)
            elif t in ("Eigen::Matrix<double, 1, 2>", "Eigen::RowVector2d"):
                out.setdefault("d", p)
            elif not pre and t in prog.records:
                scan(prog.records[t].get("fields", ()), p)
    scan(r.get("fields", ()), ())
    return out


def c_visit(eng, st, f, ol, args, e):
    """Evaluating a drawable: succeeds, or reports and fails."""
    v = eng.argval(st, args[0]) if args else NULL
    draw = eng.ptr(ol)
    isdim = getattr(eng, "visit_is_dim", False)
    vl = eng.deref(st, v)
    fl = visitor_fields(eng.p)
    snap = tuple((n, eng.read(st, (vl[0], vl[1] + f))) for n, f in sorted(fl.items()))
    eng.event(st, "visit", draw, snap, e.get("l"))
    page = eng.read(st, (vl[0], vl[1] + fl["page"])) if "page" in fl else UNDEF
    if page.op not in ("null", "undef"):
        pl = eng.deref(st, page)
        eng.write(st, pl, mk("drawn", eng.read(st, pl), draw))
    if not isdim:
        for n in ("scale", "d", "points_", "rotation_"):
            if n not in fl:
                continue
            eng.write(st, (vl[0], vl[1] + fl[n]), mk("aftervisit", S(n), draw))
    a, b = fork(st, 2)
    b.mon["diag"] = 1
    return [(a, TRUE), (b, FALSE)]


# ------------------------------------------------------------------ steps of a conversion
def reporting(name, outparam=None, event=True):
    """A step that returns whether it succeeded and has reported if it did not."""
    def c(eng, st, f, ol, args, e):
        vals = tuple(eng.argval(st, a, False) if a[0] == "v" else eng.read(st, a[1]) for a in args)
        if event:
            eng.event(st, name, vals, e.get("l"))
        if outparam is not None:
            v = vals[outparam]
            t = mk(name, *[x for i, x in enumerate(vals) if i != outparam])
            if v.op == "ptr":
                eng.write(st, eng.deref(st, v), t)
            elif args[outparam][0] == "l":
                eng.write(st, args[outparam][1], t)
        a, b = fork(st, 2)
        eng.assume(a, mk("bcall", mk("ok", S(name))), True)
        eng.assume(b, mk("bcall", mk("ok", S(name))), False)
        b.mon["diag"] = 1
        return [(a, TRUE), (b, FALSE)]
    return c


def c_parse(eng, st, f, ol, args, e):
    vals = [eng.argval(st, a, False) for a in args]
    eng.event(st, "parse", tuple(vals), e.get("l"))
    if vals and vals[-1].op == "ptr":
        eng.write(st, eng.deref(st, vals[-1]), mk("parsed", *vals[:-1]))
    a, b = fork(st, 2)
    r = mk("parserc", e["_id"])
    eng.markint(r)
    b.mon["diag"] = 1
    eng.assume(a, mk("bcall", mk("ok", S("parse"))), True)
    eng.assume(b, mk("bcall", mk("ok", S("parse"))), False)
    eng.assume(b, eq(r, I(0)), False)
    return [(a, I(0)), (b, r)]


def c_render(eng, st, f, ol, args, e):
    vals = tuple(eng.argval(st, a, False) if a[0] == "v" else eng.read(st, a[1]) for a in args)
    out = [a for a in args if a[0] == "l" and "stream" in a[3]]
    eng.event(st, "render", vals, mkptr(out[0][1]) if out else NULL, e.get("l"))
    if out:
        models.written(eng, st, out[0][1], e)
    return [(st, VOID)]


def c_make(eng, st, f, ol, args, e):
    """STLFile::Make: a mesh, or nothing and a report."""
    inl = args[0][1] if args and args[0][0] == "l" else None
    src = eng.read(st, inl) if inl else NULL
    eng.event(st, "make", src, e.get("l"))
    if inl:
        eng.write(st, inl, mk("rdall", e["_id"], src))
    a, b = fork(st, 2)
    b.mon["diag"] = 1
    root = mk("H", "stl2ps::STLFile", e["_id"], a.depth)
    k = 0
    while root in a.store and k < 8:
        k += 1
        root = mk("H", "stl2ps::STLFile", e["_id"], a.depth, k)
    a.store[root] = mk("mesh", src)
    return [(a, mk("ptr", root)), (b, NULL)]


def c_circle(eng, st, f, ol, args, e):
    pts = eng.argval(st, args[0], False)
    cen, rad = eng.argval(st, args[1]), eng.argval(st, args[2])
    a, b = fork(st, 2)
    eng.write(a, eng.deref(a, cen), mk("circle", S("center"), pts))
    eng.write(a, eng.deref(a, rad), mk("circle", S("rad"), pts))
    return [(a, TRUE), (b, FALSE)]


def pure(name):
    def c(eng, st, f, ol, args, e):
        vals = [eng.argval(st, a, False) if a[0] == "v" else eng.read(st, a[1]) for a in args]
        o = [eng.read(st, ol)] if ol is not None else []
        return [(st, mk(name, *(o + vals)))]
    return c


def c_cull(eng, st, f, ol, args, e):
    eng.write(st, ol, mk("culled", eng.read(st, ol)))
    return [(st, VOID)]


def c_matname(eng, st, f, ol, args, e):
    n = eng.argval(st, args[0], False)
    p = eng.argval(st, args[1])
    a, b = fork(st, 2)
    eng.assume(a, mk("bcall", mk("viewname", n)), True)
    eng.assume(b, mk("bcall", mk("viewname", n)), False)
    eng.write(a, eng.deref(a, p), mk("view", n))
    return [(a, TRUE), (b, FALSE)]


def c_matang(eng, st, f, ol, args, e):
    return [(st, mk("viewang", eng.argval(st, args[0], False)))]


def c_typename(eng, st, f, ol, args, e):
    return [(st, mk("typename", eng.ptr(ol) if ol else NULL))]


NS = "stl2ps::"

POINTS = {NS + "Point::Clone": c_clone, NS + "Point::Rotate": c_rotate, NS + "Point::Invoke": c_invoke}
VISIT = {NS + "Drawable::Visit": c_visit}
GEOM = {NS + "FindCircle": c_circle, NS + "point_impl::Closest": pure("closest"), NS + "point_impl::Between": pure("between"),
        NS + "GetMatrixByName": c_matname, NS + "GetMatrixByAng": c_matang,
        NS + "STLFile::Rotate": pure("rotated"), NS + "STLFile::CullBackFace": c_cull, NS + "STLFile::Limits": pure("limits"),
        NS + "STLFile::ToLines": pure("lines_of"), NS + "STLFile::Points": pure("points_of"),
        NS + "Meta::type_name": c_typename}


def both(a, b, c=None):
    d = {}
    for x in (a, b, c):
        if x:
            d.update(x)
    return d
