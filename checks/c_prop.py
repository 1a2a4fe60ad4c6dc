"""C07-C13, C43: the properties an item carries and what becomes of them."""
from common import *
from c_flow import STAGES, NS, ops, param_doc, succeeded, flat
import models

LOC2 = "stl2ps::MetaValue<Eigen::Matrix<double, 1, 2>>"
STR = "stl2ps::MetaValue<std::basic_string<char>>"
RATIO = "stl2ps::MetaValue<std::pair<int, int>>"
POINT = "stl2ps::MetaRef<stl2ps::Point>"
KINDS = {
    "page": {"name": {STR}},
    "Draw": {"scale": {RATIO}, "view": {STR, LOC2}, "@": {LOC2}},
    "Text": {"@": {LOC2}},
    "Angle": dict.fromkeys(("at", "apex", "from_dir", "from_point", "to_dir", "to_point"), {POINT}),
    "Dim": dict.fromkeys(("at", "dir", "from", "to"), {POINT}),
    "Dia": dict.fromkeys(("at", "dir", "center"), {POINT}),
    "Rad": dict.fromkeys(("at", "dir", "center"), {POINT}),
}
for _k in ("Angle", "Dim", "Dia", "Rad"):
    KINDS[_k] = dict(KINDS[_k], fmt={STR})
REQUIRED = {"Angle": ("at", "apex"), "Dim": ("at", "dir", "from", "to"), "Dia": ("at", "dir", "center"), "Rad": ("at", "dir", "center")}
EXACTLY_ONE = {"Angle": (("from_dir", "from_point"), ("to_dir", "to_point"))}
DIMS = ("Angle", "Dim", "Dia", "Rad")


def is_proplist(ctx, t):
    """Is the container the list of properties of an item?"""
    if t is None:
        return False
    n = lastfield(t)
    if n is None:
        return False
    for r in ctx.prog.records.values():
        for f in r.get("fields", ()):
            if f["n"] == n and "unique_ptr<stl2ps::Meta>" in f["t"].replace("class ", ""):
                return True
    return False


def lastfield(t):
    if t.op == "init":
        t = t.a[0] if len(t.a) == 1 else t
    p = None
    for x in t.a[::-1]:
        if isinstance(x, str):
            return x
        if isinstance(x, tuple):
            x = x[-1] if x else None
            if isinstance(x, str):
                return x
    return p


def owner(t):
    """The item a property list belongs to."""
    return t


class PropMap(object):
    """The map a loop over a property list has filled: name -> property."""

    def __init__(self, eng, rec, loc, base):
        self.eng = eng
        self.rec = rec
        self.loc = loc
        self.base = base       # the term the loop leaves behind

    def values(self, k):
        k = S(k)
        return {mk("mapval", self.base, k), proj(proj(self.base, mk("at", k)), "second")}

    def key(self, t):
        """the property name when t is the value stored for a constant name"""
        if t.op == "mapval" and t.a[0] is self.base and t.a[1].op == "s":
            return t.a[1].a[0]
        return None


def proploops(ctx, eng):
    return [r for r in eng.loops.values() if is_proplist(ctx, r["cont"])]


def find_maps(ctx, eng, st, within=None):
    """PropMaps held by the locals of a state (a map or a term derived from one)."""
    out = {}
    bases = {}
    for r in proploops(ctx, eng):
        if within is not None and not within(r["cont"]):
            continue
        for root, path in r["changed"]:
            bases[mk("lv", r["key"], root, *path)] = (r, (root, path))
    for root, v in st.store.items():
        for t in maps_in(v):
            b = t.a[0] if t.op == "map" else t
            if b in bases and b not in out:
                r, loc = bases[b]
                if is_map_loc(eng, r, loc):
                    out[b] = PropMap(eng, r, loc, b)
    return out


def maps_in(v, depth=3):
    out = []
    if not isinstance(v, T):
        return out
    if v.op in ("lv", "map"):
        out.append(v)
    if v.op in ("rec", "upd", "some", "pair") and depth:
        for x in v.a:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            out.extend(maps_in(z, depth - 1))
            elif isinstance(x, T):
                out.extend(maps_in(x, depth - 1))
    return out


def is_map_loc(eng, r, loc):
    for h, b in r["steps"]:
        v = eng.read(b, loc)
        if v.op == "map":
            return True
    return False


def erased(m, base):
    """the names taken out of a map term built on base; None when it is not"""
    if m is base:
        return frozenset()
    if m.op == "map" and m.a[0] is base:
        ks = set()
        for k, v in m.a[1]:
            if v.op != "absent" or k.op != "s":
                return None
            ks.add(k.a[0])
        return frozenset(ks)
    return None


class View(object):
    """What a state knows about the properties of one item."""

    def __init__(self, eng, st, pm):
        self.has = {}
        self.null = {}
        self.types = {}
        self.emptied = []       # erased sets of the emptiness tests that succeeded
        self.leftover = []      # ... that failed
        base = pm.base
        alias = {}
        for f, v in st.facts.items():
            if f.op == "has":
                e = erased(f.a[0], base)
                if e is not None and f.a[1].op == "s" and f.a[1].a[0] not in e:
                    self.has[f.a[1].a[0]] = v
            elif f.op == "eq" and f.a[1] is I(0) and f.a[0].op == "size":
                e = erased(f.a[0].a[0], base)
                if e is not None:
                    (self.emptied if v else self.leftover).append(e)
        for k in self.has:
            for t in pm.values(k):
                alias[t] = k
        self.alias = alias
        for f, v in st.facts.items():
            if f.op == "nonnull" and f.a[0] in alias:
                self.null[alias[f.a[0]]] = not v
            elif f.op == "isa" and f.a[0] in alias:
                self.types.setdefault(alias[f.a[0]], {})[f.a[1] if isinstance(f.a[1], str) else str(f.a[1].a[0] if f.a[1].op == "s" else f.a[1])] = v
        self.infeasible = any(v and self.null.get(k) for k, v in self.has.items())
        for e in self.emptied:
            if any(v and k not in e for k, v in self.has.items()):
                self.infeasible = True

    def present(self, k):
        """True / False / None"""
        h = self.has.get(k)
        if h is None:
            for e in self.emptied:
                if k not in e:
                    return False
        return h

    def names(self):
        return [k for k, v in self.has.items() if v]


def run_item(ctx, kind, fn, judge, contracts=None, isdim=True):
    """Analyse the evaluation of one kind of item.  judge(eng, st, view, pm) -> {problem: True}; judged where success is decided:
    at the exits, and for pages at the end of each iteration over the pages."""
    cache = {}

    def problems(eng, st, within=None):
        pms = find_maps(ctx, eng, st, within)
        out = {}
        for pm in pms.values():
            v = View(eng, st, pm)
            if v.infeasible:
                return None
            out.update(judge(eng, st, v, pm))
        return out, pms
    hooks = []
    found = set()
    if kind == "page":
        def back(eng, st, rec_):
            key = rec_["key"]
            if rec_["cont"] is None or is_proplist(ctx, rec_["cont"]):
                return
            el = mk("elem", rec_["cont"], key)
            r = problems(eng, st, lambda c: mentions(c, lambda t: t is el))
            if r is None:
                return
            if r[1]:
                found.add(key)
            for p in r[0]:
                st.mon["p:" + p] = 1
        hooks.append(back)
    eng = ctx.engine(dict(contracts or STAGES))
    eng.hooks = []
    eng.backhooks = hooks
    eng.visit_is_dim = isdim
    from engine import Undecided
    try:
        ex = eng.run(fn, boolret=True)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (ctx.where(fn), x))
        ex = None
    ctx.account(eng, ex)
    return eng, ex, problems, found


def subject(kind):
    return "a page" if kind == "page" else "a %s" % kind.lower() if kind != "Angle" else "an angle"


def judge_all(ctx, rule, judge, kinds=None, crash=None):
    """Run judge over every kind of item and turn what it finds on successful paths into violations.
    crash: the same for the paths that use a null pointer."""
    o = ops(ctx)
    todo = [(k, o.get(k)) for k in ("Draw", "Text") + DIMS] + [("page", ctx.fn(NS + "GeneratePages"))]
    for kind, fn in todo:
        if kinds and kind not in kinds:
            continue
        if fn is None:
            ctx.undecide("no DrawToPage::operator() for %s" % kind)
            continue
        w = ctx.where(fn)
        eng, ex, problems, found = run_item(ctx, kind, fn, lambda eng, st, v, pm: judge(kind, eng, st, v, pm))
        if ex is None:
            continue
        n = 0
        anymap = bool(found)
        for x in ex:
            ok = succeeded(x)
            if crash and x.st.mon.get("nullderef"):
                for pm in find_maps(ctx, eng, x.st).values():
                    v = View(eng, x.st, pm)
                    for p in ({} if v.infeasible else crash(kind, v)):
                        ctx.oblige(rule, w, False, "%s %s (line %s)" % (subject(kind), p, x.st.mon["nullderef"]), describe(x.st))
            if ok is None:
                ctx.undecide("%s: returns %r" % (w, x.val))
                continue
            if not ok:
                continue
            for m in x.st.mon:
                if m.startswith("p:"):
                    ctx.oblige(rule, w, False, "%s %s" % (subject(kind), m[2:]), describe(x.st))
            if kind == "page":
                n += 1
                continue
            r = problems(eng, x.st)
            if r is None:
                continue
            n += 1
            if not r[1]:
                continue
            anymap = True
            for p in r[0]:
                ctx.oblige(rule, w, False, "%s %s" % (subject(kind), p), describe(x.st))
        if not anymap:
            ctx.undecide("%s: how the properties of %s are collected is not understood" % (w, subject(kind)))
        elif not n:
            ctx.undecide("%s: no path succeeds" % w)
        else:
            ctx.oblige(rule, w, True)
        ctx.extra.setdefault("success_paths", {})[kind] = n
        yield_loops(ctx, kind, eng, fn, rule)


def yield_loops(ctx, kind, eng, fn, rule):
    """The loop that collects the properties must put each one in under its own name, or report it."""
    for r in proploops(ctx, eng):
        locs = [l for l in r["changed"] if is_map_loc(eng, r, l)]
        f = ctx.prog.functions.get(r["fn"].split("@")[0]) if isinstance(r["fn"], str) else None
        wl = ctx.where(f or fn, r["line"])
        if not locs:
            continue
        el = mk("elem", r["cont"], r["key"])
        names = {proj(el, "name"), mk("init", mk("D", el))}
        for h, b in r["steps"]:
            if b.mon.get("diag"):
                continue
            for loc in locs:
                v0, v1 = eng.read(h, loc), eng.read(b, loc)
                ptrs = lambda t: t is el or (t.op == "ptr" and t.a[0].op == "D" and t.a[0].a[0] is el)
                if v1 is v0:
                    if rule == R08 and any(f.op == "has" and v for f, v in b.facts.items() if mentions(f, lambda t: t is el)):
                        ctx.oblige(rule, wl, False, "a property whose name was seen before is dropped without a diagnostic", describe(b))
                    elif rule == R07:
                        hs = [f for f, v in b.facts.items() if f.op == "has" and v and mentions(f, lambda t: t is el)]
                        if not hs:
                            ctx.oblige(rule, wl, False, "a property is skipped before it is examined", describe(b))
                    continue
                if v1.op != "map" or v1.a[0] is not (v0.a[0] if v0.op == "map" else v0):
                    ctx.undecide("%s: the map of properties becomes %r" % (wl, v1))
                    continue
                new = [kv for kv in v1.a[1] if kv not in (v0.a[1] if v0.op == "map" else ())]
                for k, val in new:
                    isname = nameof(k, el)
                    if rule == R07:
                        ctx.oblige(rule, wl, True if isname and ptrs(val) else (None if vague(k) or vague(val) or not isname else False),
                                   "a property is entered as %r -> %r" % (k, val))
                    if rule == R08:
                        hasf = [v for f, v in b.facts.items() if f.op == "has" and f.a[1] is k]
                        if not (hasf and hasf[0] is False):
                            ctx.oblige(rule, wl, False if b.mon.get("dup") or not hasf else None,
                                       "a property whose name was seen before replaces the earlier one without a diagnostic", describe(b))
                        else:
                            ctx.oblige(rule, wl, True)
        for s, ctl in r["early"]:
            if rule in (R07, R08) and not s.mon.get("diag") and (ctl is None or ctl == ("brk",)):
                ctx.oblige(rule, wl, False, "the properties after some property are not examined", describe(s))


def nameof(k, el):
    """Is k the name of the property el points to?"""
    return mentions(k, lambda t: t is el) and lastfield(k) == "name"


R07 = "unknown properties are rejected"
R08 = "repeated properties are rejected"
R09 = "wrongly typed values are rejected"
R10 = "incomplete dimensions are rejected"
R11 = "every property takes effect"
R12 = "number formats are validated and used"
R43 = "the scale is a positive ratio"


def c07(ctx):
    ctx.rule("on every successful path of every item's evaluation the map of its properties must have been found empty after taking out only "
             "properties the item is documented to accept, and the loop that filled the map must enter every property under its own name.")
    ctx.load()

    def judge(kind, eng, st, v, pm):
        out = {}
        if not v.emptied:
            out["succeeds without establishing that no other property is left"] = 1
        for e in v.emptied:
            for k in e:
                if k not in KINDS[kind] and v.present(k):
                    out["accepts the undocumented property '%s'" % k] = 1
        for k in v.names():
            if k not in KINDS[kind] and all(k in e for e in v.emptied):
                out["accepts the undocumented property '%s'" % k] = 1
        return out
    judge_all(ctx, R07, judge)


def c08(ctx):
    ctx.rule("the loop that collects an item's properties must, for every property whose name is already present, report it, and no path on which "
             "that happened may return success.")
    ctx.load()

    def judge(kind, eng, st, v, pm):
        return {"with a repeated property succeeds": 1} if st.mon.get("dup") else {}
    judge_all(ctx, R08, judge)


def c09(ctx):
    ctx.rule("on every successful path each property that is present must have passed a type test for one of its documented types.")
    ctx.load()

    def judge(kind, eng, st, v, pm):
        out = {}
        for k in v.names():
            want = KINDS[kind].get(k)
            if not want:
                continue
            ty = v.types.get(k, {})
            good = [t for t, b in ty.items() if b]
            if any(t in want for t in good):
                continue
            if good:
                out["accepts '%s' with the type %s" % (k, good[0])] = 1
            elif ty:
                out["succeeds although '%s' failed its type test" % k] = 1
            else:
                out["succeeds without testing the type of '%s'" % k] = 1
        return out
    judge_all(ctx, R09, judge)


def c10(ctx):
    ctx.rule("on every successful path of a dimension each needed property must have been found present, and exactly one of each exclusive pair.")
    ctx.load()

    def judge(kind, eng, st, v, pm):
        out = {}
        for k in REQUIRED[kind]:
            if v.present(k) is not True:
                out["succeeds without '%s'" % k] = 1
        for pair in EXACTLY_ONE.get(kind, ()):
            p = [v.present(k) for k in pair]
            if p.count(True) > 1:
                out["succeeds with both '%s' and '%s'" % pair] = 1
            elif p.count(True) == 0 or None in p:
                if True in p:
                    out["succeeds without excluding that both '%s' and '%s' are given" % pair] = 1
                else:
                    out["succeeds with neither '%s' nor '%s'" % pair] = 1
        return out

    def crash(kind, v):
        return ["uses a null pointer where '%s' is missing" % k for k in REQUIRED[kind] if v.present(k) is False]
    judge_all(ctx, R10, judge, DIMS, crash)


# ---------------------------------------------------------------------- what the values influence
OPAQUE = {"call", "opaque", "join", "bytes"}


def closure(eng, terms):
    """Every term a value is computed from, through the loops that produced it."""
    seen = set()
    work = [t for t in terms if isinstance(t, T)]
    while work:
        t = work.pop()
        for x in subs(t):
            if x in seen:
                continue
            seen.add(x)
            r = None
            if x.op == "lv":
                r = eng.loops.get(x.a[0])
                loc = (x.a[1], tuple(x.a[2:]))
            elif x.op == "mapped":
                r = eng.loops.get(x.a[1])
                loc = None
            if r is None:
                continue
            if r["cont"] is not None:
                work.append(r["cont"])
            if loc is None and r["contloc"]:
                loc = (r["contloc"][0], r["contloc"][1] + (mk("each", r["key"]),))
            if loc is None:
                continue
            work.append(eng.read(r["pre"], loc))
            for h, b in r["steps"]:
                work.append(eng.read(b, loc))
            for s, c in r["early"]:
                work.append(eng.read(s, loc))
    return seen


def this_root(prog):
    """the root the engine gives to the DrawToPage a member function works on"""
    return mk("P", "this", "stl2ps::DrawToPage")


def this_path(eng, st, path):
    return eng.read(st, (this_root(eng.p), path))


def page_loc(eng, st):
    fl = specs.visitor_fields(eng.p)
    if "page" not in fl:
        return None
    p = this_path(eng, st, fl["page"])
    if p.op in ("null", "undef"):
        return None
    return eng.deref(st, p)


PAGE_FIELDS = ("lines", "arcs", "text")


def page_part(eng, st, *names):
    l = page_loc(eng, st)
    if l is None:
        return None
    return [eng.read(st, (l[0], l[1] + (n,))) for n in names]


def targets(kind, k, eng, st, ctx):
    """[(what, terms)] the property must influence"""
    if kind == "page":
        for p in ctx.fn(NS + "GeneratePages")["params"]:
            if "OutputPage" in p["tt"]:
                return [("the page", [eng.read(st, (mk("P", p["n"]), ()))])]
        return []
    if kind == "Text":
        return [("the text on the page", page_part(eng, st, "text"))]
    if kind == "Draw":
        fl = specs.visitor_fields(eng.p)
        if k == "scale":
            return [("the scale of the drawing", [this_path(eng, st, fl["scale"])] if "scale" in fl else None)]
        if k == "view":
            return [("the rotation of the dimensions", [this_path(eng, st, ("rotation_",))]), ("the lines of the model", page_part(eng, st, "lines"))]
        return [("the offset of the drawing", [this_path(eng, st, fl["d"])] if "d" in fl else None)]
    if k == "fmt":
        return [("the label", page_part(eng, st, "text"))]
    return [("what is drawn", page_part(eng, st, *PAGE_FIELDS))]


def judge_all3(ctx, rule, judge, kinds=None):
    """judge returns {message: 1 (definite) or 0 (cannot tell)}"""
    def j(kind, eng, st, v, pm):
        out = {}
        for m, sure in judge(kind, eng, st, v, pm).items():
            if sure:
                out[m] = 1
            else:
                ctx.undecide("%s: %s" % (rule, m))
        return out
    judge_all(ctx, rule, j, kinds)


def c11(ctx):
    ctx.rule("on every successful path the drawn output (followed back through the loops that built it) must be computed from the value of each "
             "property found present.")
    ctx.load()
    memo = {}

    def judge(kind, eng, st, v, pm):
        out = {}
        for k in v.names():
            if k not in KINDS[kind]:
                if all(k in e for e in v.emptied) and v.emptied:
                    parts = page_part(eng, st, *PAGE_FIELDS)
                    if parts is None:
                        out["accepts '%s', whose effect is not known" % k] = 0
                    elif not any(t in closure(eng, parts) for t in pm.values(k)):
                        out["accepts '%s', which has no effect" % k] = 1
                continue
            for what, terms in targets(kind, k, eng, st, ctx):
                if terms is None:
                    out["draws nothing that could depend on '%s'" % k] = 0
                    continue
                key = (id(eng), tuple(terms))
                cl = memo.get(key)
                if cl is None:
                    cl = memo[key] = closure(eng, terms)
                vals = pm.values(k)
                if any(t in cl for t in vals):
                    continue
                if kind == "Draw" and k == "view" and what.startswith("the lines") and \
                        any(f.op == "eq" and b and f.a[0].op == "size" and f.a[0].a[0].op == "lines_of" for f, b in st.facts.items()):
                    f0 = [f for f, b in st.facts.items() if f.op == "eq" and b and f.a[0].op == "size" and f.a[0].a[0].op == "lines_of"]
                    if any(any(t in subs(f) for t in vals) for f in f0):
                        continue
                if kind == "Text" and any(f.op == "eq" and b and f.a[0].op == "size" and f.a[0].a[0].op == "split" for f, b in st.facts.items()):
                    continue      # nothing is written
                out["succeeds but %s does not depend on '%s'" % (what, k)] = 0 if any(t.op in OPAQUE for t in cl) else 1
        return out
    judge_all3(ctx, R11, judge)


DEFAULT_FMT = {"Angle": "%.1f", "Dim": "%.3f", "Dia": "%.3f", "Rad": "%.3f"}


def label_texts(eng, st):
    """the text items appended to the page: [(item, str term)], or None"""
    l = page_loc(eng, st)
    if l is None:
        return None
    v = eng.read(st, (l[0], l[1] + ("text",)))
    items = []
    base = v
    n = 0
    while base.op == "seq" and n < 20:
        n += 1
        items = list(base.a[1]) + items
        base = base.a[0]
        if base is None:
            break
    return [(i, proj(i, "str")) for i in items], base


def c12(ctx):
    ctx.rule("the string of every label is traced back to the number formats it is produced with: the default literal when no fmt is present, otherwise "
             "the ParsedFormat<'f'>::New of that property's value on a path where New is known to have succeeded.")
    ctx.load()

    def judge(kind, eng, st, v, pm):
        out = {}
        lt = label_texts(eng, st)
        if lt is None:
            return {"the label is not understood": 0}
        strs = [s for _, s in lt[0]]
        if not strs:
            return {}
        cl = closure(eng, strs)
        fs = [t for t in cl if t.op == "fmt"]
        if not fs:
            return {"prints a label without formatting a number": 0 if any(t.op in OPAQUE for t in cl) else 1}
        pres = v.present("fmt")
        vals = pm.values("fmt")
        for f in fs:
            F = f.a[0]
            if F.op == "pflit":
                if F.a[0].op != "s":
                    out["formats a label with %r, which was not validated" % F.a[0]] = 0 if vague(F) else 1
                elif pres is True:
                    out["formats the number with %r although a fmt is given" % F.a[0].a[0]] = 1
                elif F.a[0].a[0] != DEFAULT_FMT[kind]:
                    out["formats the number with %r instead of the default %r" % (F.a[0].a[0], DEFAULT_FMT[kind])] = 1
                continue
            news = [t for t in subs(F) if t.op == "pfnew"]
            if len(news) == 1 and (F.op == "init" or F is news[0]):
                nw = news[0]
                q = nw.a[1].a[0]
                conv = q.split("ExtendedParsedFormat<", 1)[-1].split(">::")[0].split("FormatConversionCharSet")
                if len(conv) != 2 or conv[1].lstrip(":") != "f":
                    out["validates the fmt against %s instead of one %%f conversion" % q.split("ExtendedParsedFormat")[-1]] = 1
                if nw.a[0] != "New":
                    out["accepts a fmt that does not print the number (%s)" % nw.a[0]] = 1
                if st.facts.get(mk("nonnull", nw)) is not True:
                    out["uses a fmt that may not have passed its validation"] = 1
                if not any(t in subs(nw.a[2]) for t in vals):
                    out["formats the number with %r instead of the fmt property" % nw.a[2]] = 0 if vague(nw.a[2]) and nw.a[2].op != "lv" else 1
                if pres is False:
                    out["formats the number with a fmt that is not given"] = 1
                if any(t in subs(nw.a[2]) for t in vals) and nw.a[2].op not in ("init", "lv", "proj", "mapval"):
                    out["validates an altered fmt: %r" % nw.a[2]] = 0
                continue
            out["formats a label with %r" % F] = 0 if vague(F) or F.op not in ("s", "init", "lv") else 1
        return out
    judge_all3(ctx, R12, judge, DIMS)
