"""C01-C06, C16, C20, C37: what the stages of a conversion do, in which order, and what they report."""
from common import *
import models

STAGES = specs.both(specs.POINTS, specs.VISIT, specs.GEOM)
OKC = mk("bcall", mk("ok", S("convert")))


def okf(n):
    return mk("bcall", mk("ok", S(n)))


def nparams(fn, *needles):
    tt = [p["tt"] for p in fn["params"]]
    return all(any(n in t for t in tt) for n in needles)


def script_fns(ctx):
    """(from stream, from document)"""
    fs = ctx.fns("stl2ps::ScriptToPS")
    a = [f for f in fs if nparams(f, "istream")]
    b = [f for f in fs if nparams(f, "Document")]
    return (a[0] if a else None), (b[0] if b else None)


# ---------------------------------------------------------------------- C01
def c_convert(eng, st, f, ol, args, e):
    if len(args) != 3:
        return None
    vals = tuple(eng.argval(st, a, False) if a[0] == "v" else eng.read(st, a[1]) for a in args)
    outl = args[2][1] if args[2][0] == "l" else None
    st.mon["converted"] = st.mon.get("converted", 0) + 1
    eng.convert.append((vals, args, e.get("l"), st.clone()))
    eng.event(st, "convert", vals, e.get("l"))
    if outl:
        models.written(eng, st, outl, e)
        eng.outloc = outl
    a, b = specs.fork(st, 2)
    eng.assume(a, OKC, True)
    eng.assume(b, OKC, False)
    return [(a, TRUE), (b, FALSE)]


def c01(ctx):
    ctx.rule("typestate of the output stream and of each stage's result along every path of main and of both forms of ScriptToPS: "
             "exit status 0 requires a converted script, read from the opened script, and an output stream closed and tested after its last write; "
             "a path on which all of that succeeded must not exit with another status.")
    ctx.load()
    fn = ctx.fn("main")
    eng = ctx.engine({NS + "ScriptToPS": c_convert})
    eng.convert = []
    eng.outloc = None
    from engine import Undecided
    try:
        ex = eng.run(fn)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (ctx.where(fn), x))
        ex = None
    ctx.account(eng, ex)
    w = ctx.where(fn)
    if ex is not None:
        if not eng.convert:
            ctx.undecide("%s: main does not call ScriptToPS" % w)
        seen0 = False
        for x in ex:
            st, v = x.st, x.val
            if v is VOID:
                v = I(0)
            if v.op == "b":
                v = I(int(v.a[0]))
            if v.op != "i":
                ctx.undecide("%s: exit status %r" % (w, v))
                continue
            conv = st.facts.get(OKC)
            final = eng.read(st, eng.outloc) if eng.outloc else UNDEF
            closed_ok = final.op == "closed" and st.facts.get(mk("iofail", final)) is False
            n = st.mon.get("converted", 0)
            if v is I(0):
                seen0 = True
                ctx.oblige("status 0 only after a successful conversion", w, n >= 1 and conv is True,
                           "main returns 0 on a path where the conversion %s" % ("failed" if n else "never ran"), describe(st))
                if n and conv:
                    if final.op == "closed":
                        ctx.oblige("status 0 only when everything was written", w, closed_ok,
                                   "main returns 0 without having seen that the output was written and closed without error", describe(st))
                    else:
                        ctx.oblige("status 0 only when everything was written", w,
                                   None if vague(final) and final.op not in ("wr", "flushed") else False,
                                   "main returns 0 while the output file is still open (unflushed output may be lost)", describe(st))
            else:
                if n and conv and closed_ok:
                    ctx.oblige("success gives status 0", w, False, "main returns %r although everything succeeded" % v, describe(st))
                else:
                    ctx.oblige("failure gives another status", w, True)
        if not seen0 and ex:
            ctx.oblige("success gives status 0", w, False, "main never returns 0")
        for vals, args, line, st in eng.convert:
            wl = ctx.where(fn, line)
            sc, outp = mk("flag", "script"), mk("flag", "output")
            src, inn, out = vals
            if inn.op == "open":
                ctx.oblige("the script is opened before it is converted", wl, st.facts.get(mk("iofail", inn)) is False,
                           "the script stream may have failed to open", describe(st))
                ctx.oblige("the script of the command line is read", wl, flagname(inn.a[0]) == "script" if flagname(inn.a[0]) else None,
                           "the script is read from %r" % inn.a[0])
            else:
                ctx.oblige("the script is opened before it is converted", wl, None, "input stream is %r" % inn)
            base = models.stream_base(out)
            if base.op == "open":
                ctx.oblige("the output of the command line is written", wl, flagname(base.a[0]) == "output" if flagname(base.a[0]) else None,
                           "the output goes to %r" % base.a[0])
    fs, fd = script_fns(ctx)
    if fd is None or fs is None:
        ctx.undecide("ScriptToPS is not present in both forms")
    for f in (fs, fd):
        if f is not None:
            script_paths(ctx, f, want_render=False)


def flagname(t):
    if t.op == "flag":
        n = t.a[0]
        return n if isinstance(n, str) else (n.a[0] if n.op == "s" else None)
    return None


def script_contracts(ctx):
    c = dict(STAGES)
    c[NS + "Parse"] = specs.c_parse
    c[NS + "LoadFiles"] = specs.reporting("load", 1)
    c[NS + "GeneratePages"] = specs.reporting("generate", 2)
    c[NS + "RenderPages"] = specs.c_render
    return c


def script_paths(ctx, fn, want_render):
    """Every path of ScriptToPS, with the stages as contracts."""
    w = ctx.where(fn)
    early = []

    def hook(eng, st, ev):
        if ev[0] == "render" or (ev[0] == "out" and ev[1].op == "ptr" and ev[1].a[0].op == "P"):
            early.append((ev, dict(st.facts)))
    eng, ex = ctx.run(fn, script_contracts(ctx), hooks=[hook])
    if ex is None:
        return
    stages = ["load", "generate"] + (["parse"] if nparams(fn, "istream") else [])
    for x in ex:
        st = x.st
        evs = flat(st.trace)
        done = [s for s in stages if st.facts.get(okf(s)) is True]
        allok = len(done) == len(stages)
        nr = sum(1 for ev in evs if ev[0] == "render")
        if x.val is True or x.val is TRUE or x.val == TRUE:
            ctx.oblige("success only when every stage succeeded", w, allok,
                       "returns true on a path where %s" % ", ".join(
                           "'%s' %s" % (s, "failed" if st.facts.get(okf(s)) is False else "did not run") for s in stages if s not in done),
                       describe(st))
            if allok and want_render:
                ctx.oblige("a successful conversion renders once", w, nr == 1, "renders %d times on a successful path" % nr, describe(st))
        else:
            if allok:
                ctx.oblige("the conversion reports success when all stages succeeded", w, False,
                           "returns false although every stage succeeded", describe(st))
            else:
                ctx.oblige("failure is returned", w, True)
            if want_render and nr:
                ctx.oblige("a failed conversion renders nothing", w, False, "renders on a path that returns false", describe(st))
    if not want_render:
        return
    for ev, facts in early:
        ok = all(facts.get(okf(s)) is True for s in stages)
        wl = ctx.where(fn, ev[-1])
        ctx.oblige("nothing is written before every stage succeeded", wl, ok,
                   "%s before %s succeeded" % ("the pages are rendered" if ev[0] == "render" else "output is written",
                                               ", ".join(s for s in stages if facts.get(okf(s)) is not True)))
        if ev[0] == "out":
            ctx.oblige("output is produced by rendering only", wl, False, "writes %r itself" % (ev[2],))
        if ev[0] == "render":
            vals, out = ev[1], ev[2]
            pg = [v for v in vals if mentions(v, lambda t: t.op == "generate")]
            ctx.oblige("the generated pages are rendered", wl, any(v.op == "generate" for v in vals) or (None if pg or any(vague(v) for v in vals) else False),
                       "renders %r" % (vals[1:2],))
            gen = [v for v in vals if v.op == "generate"]
            for g in gen:
                d = g.a[1] if len(g.a) > 1 else None
                wantd = param_doc(fn)
                if nparams(fn, "istream"):
                    ctx.oblige("the parsed document is converted", wl, True if d is not None and d.op == "parsed" else (None if d is None or vague(d) else False),
                               "pages are generated from %r" % d)
                elif wantd is not None:
                    ctx.oblige("the given document is converted", wl, True if d is wantd else (None if d is None or vague(d) else False),
                               "pages are generated from %r" % d)
                ld = g.a[0]
                ctx.oblige("pages use the loaded models", wl, True if ld.op == "load" and ld.a[0] is d else (None if vague(ld) else False),
                           "pages are generated with %r" % ld)
            ctx.oblige("the caller's stream is written", wl, True if out.op == "ptr" and out.a[0].op == "P" else None, "written to %r" % out)
    if nparams(fn, "istream"):
        seen = set()
        for x in ex:
            for ev in flat(x.st.trace):
                if ev[0] == "parse" and ev not in seen:
                    seen.add(ev)
                    vals = ev[1]
                    src = param(fn, 0)
                    ctx.oblige("the whole script is parsed", ctx.where(fn, ev[-1]),
                               True if len(vals) == 3 and vals[0] is src and vals[1].op == "readall" else
                               (None if any(vague(v) for v in vals[:2]) else False), "parses %r" % (vals[:2],))


def param_doc(fn):
    for i, p in enumerate(fn["params"]):
        if "Document" in p["tt"]:
            return param(fn, i)
    return None


def flat(trace):
    out = []
    for ev in trace:
        if ev[0] == "loop":
            out.extend(flat(ev[3]))
        else:
            out.append(ev)
    return out


def c02(ctx):
    ctx.rule("effect traces of both forms of ScriptToPS: at every write to the output the success of parse, load and generate must already be "
             "established by a branch; success paths render exactly once, from the generated pages of the parsed document.")
    ctx.load()
    fs, fd = script_fns(ctx)
    if fd is None or fs is None:
        ctx.undecide("ScriptToPS is not present in both forms")
    for f in (fs, fd):
        if f is not None:
            script_paths(ctx, f, want_render=True)


# ---------------------------------------------------------------------- C03, C04
def ops(ctx, kind=None):
    r = {}
    for f in ctx.fns("stl2ps::DrawToPage::operator()"):
        if f["params"]:
            r[base_type(f["params"][0]["tt"]).split("::")[-1]] = f
    return r


def steps(ctx):
    """[(function, contracts)] of every step that returns success or failure and must report."""
    out = []
    lf = dict(STAGES)
    lf[NS + "STLFile::Make"] = specs.c_make
    out.append((ctx.fn(NS + "LoadFiles"), lf))
    out.append((ctx.fn(NS + "GeneratePages"), STAGES))
    for k, f in sorted(ops(ctx).items()):
        out.append((f, STAGES))
    for f in ctx.fns(NS + "DrawToPage::AddDims"):
        out.append((f, STAGES))
    for f in ctx.fns(NS + "STLFile::Make"):
        out.append((f, {}))
    pts = dict(STAGES)
    inv = [ctx.prog.functions[k] for k in ctx.prog.functions if ctx.prog.functions[k]["q"] in
           (NS + "PointFunc::Invoke", NS + "Val::Invoke") and "body" in ctx.prog.functions[k]]
    base = ctx.prog.find(NS + "Point::Invoke")
    seen = {f["key"] for f in inv}
    for b in base:
        for f in ctx.prog.overriders.get(b["key"], []):
            if f["key"] not in seen and "body" in f:
                inv.append(f)
    for f in inv:
        out.append((f, pts))
    vis = dict(STAGES)
    vis[NS + "VisitDrawable::operator()"] = specs.reporting("op", None)
    for b in ctx.prog.find(NS + "Drawable::Visit"):
        for f in ctx.prog.overriders.get(b["key"], []):
            if "body" in f:
                out.append((f, vis))
    for f in ctx.fns(NS + "Drawable::VisitNode"):
        out.append((f, STAGES))
    sc = script_contracts(ctx)
    for f in script_fns(ctx):
        if f is not None:
            out.append((f, sc))
    return out


def succeeded(x):
    v = x.val
    if v is True or v is False:
        return v
    if v.op == "b":
        return v.a[0]
    if v.op == "null":
        return False
    if v.op == "ptr":
        return True
    nn = x.st.facts.get(mk("nonnull", v))
    return nn


def diag_paths(ctx, want):
    ctx.load()
    for fn, con in steps(ctx):
        eng, ex = ctx.run(fn, con)
        if ex is None:
            continue
        w = ctx.where(fn)
        n = 0
        for x in ex:
            ok = succeeded(x)
            if ok is None:
                ctx.undecide("%s: returns %r" % (w, x.val))
                continue
            d = x.st.mon.get("diag", 0)
            n += 1
            if want == "C03":
                if ok and d:
                    ctx.oblige("a reported error is returned as failure", w, False,
                               "%s returns success on a path that has reported an error" % fn["q"], describe(x.st))
            else:
                if not ok and not d:
                    ctx.oblige("a failure is reported", w, False,
                               "%s returns failure on a path without any diagnostic" % fn["q"], describe(x.st))
        ctx.oblige("all %s paths" % ("success" if want == "C03" else "failure"), w, True)
        ctx.extra.setdefault("paths_per_function", {})[w] = n


def c03(ctx):
    ctx.rule("one bit of typestate ('an error has been reported') is carried along every path of every step, through loops to a fixpoint; "
             "callees are their contracts (a step either succeeds silently or reports and fails), each proved for its own body. "
             "A path that returns success with the bit set is a violation.")
    diag_paths(ctx, "C03")


def c04(ctx):
    ctx.rule("one bit of typestate ('an error has been reported') is carried along every path of every step, through loops to a fixpoint; "
             "callees are their contracts, each proved for its own body. A path that returns failure with the bit clear is a violation.")
    diag_paths(ctx, "C04")


# ---------------------------------------------------------------------- C05, C06
def elem_of(cont, key):
    return mk("elem", cont, key)


def load_engine(ctx):
    c = dict(STAGES)
    c[NS + "STLFile::Make"] = specs.c_make
    fn = ctx.fn(NS + "LoadFiles")
    doc = param_doc(fn)
    cont = proj(doc, "models") if doc is not None else None
    mp = [p for p in fn["params"] if "map" in p["tt"]]

    def back(eng, st, r):
        if not mp or r["cont"] is None or r["cont"] is not cont:
            return
        root = mk("P", mp[-1]["n"])
        before = mk("lv", r["key"], root)
        el = mk("elem", cont, r["key"])
        if not mentions(eng.read(st, (root, ())), lambda t: t is before):
            return
        for rule, ok, msg in model_entry(eng, st, (root, ()), before, proj(el, "name"), proj(el, "source")):
            if ok is False:
                st.mon["p:%s: %s" % (rule, msg)] = 1
    eng, ex = ctx.run(fn, c, backhooks=[back])
    return fn, eng, ex


def model_loops(ctx, fn, eng):
    doc = param_doc(fn)
    cont = proj(doc, "models")
    return cont, [r for r in eng.loops.values() if r["cont"] is cont]


def c05(ctx):
    ctx.rule("the loop of LoadFiles over the declared models is solved to a fixpoint; every iteration that can still lead to success must add exactly "
             "the pair (declared name, mesh read from the stream that was opened for the declared source) to the result map, which starts empty.")
    ctx.load()
    fn, eng, ex = load_engine(ctx)
    if ex is None:
        return
    w = ctx.where(fn)
    cont, loops = model_loops(ctx, fn, eng)
    if not loops:
        ctx.undecide("%s: no loop over the declared models was recognised" % w)
        return
    outp = [i for i, p in enumerate(fn["params"]) if "map" in p["tt"] or p["tt"].endswith("*")]
    mapparam = [p for p in fn["params"] if "map" in p["tt"]]
    if not mapparam:
        ctx.undecide("%s: no result map" % w)
        return
    mroot = mk("P", mapparam[-1]["n"])
    used = set()
    for x in ex:
        if succeeded(x) is not True:
            continue
        final = eng.read(x.st, (mroot, ()))
        for m in x.st.mon:
            if m.startswith("p:"):
                ctx.oblige(m[2:].split(":")[0], w, False, m[2:].split(": ", 1)[1], describe(x.st))
        zero = x.st.facts.get(eq(size(cont), I(0))) is True
        if final.op == "lv" and final.a[0] in [r["key"] for r in loops]:
            used.add(final)
            ctx.oblige("the result is what the loop over the models built", w, True)
        elif zero and final.op == "map" and not final.a[1]:
            ctx.oblige("no models: nothing is loaded", w, True)
        elif zero and final.op == "lv":
            used.add(final)
        else:
            ctx.oblige("the result is what the loop over the models built", w, None if vague(final) else False,
                       "on success the result is %r" % final, describe(x.st))
        nl = [ev for ev in x.st.trace if ev[0] == "loop" and ev[1] in [r["key"] for r in loops]]
        if not nl:
            ctx.oblige("every declared model is examined", w, False, "a success path does not go through the loop over the models", describe(x.st))
    for r in loops:
        wl = ctx.where(fn, r["line"])
        loc = None
        for f in used:
            if f.a[0] == r["key"]:
                loc = (f.a[1], tuple(f.a[2:]))
        if loc is None:
            continue
        pre = eng.read(r["pre"], loc)
        ctx.oblige("the result starts empty", wl, True if pre.op == "map" and not pre.a[1] and (pre.a[0] is None or not isinstance(pre.a[0], T))
                   else (None if vague(pre) else False), "the loop starts with %r in the result" % pre)
        for s, ctl in r["early"]:
            ctx.oblige("a failed declaration does not stop later ones", wl, False,
                       "the loop over the models is left early (%s)" % (ctl[0] if ctl else "break"), describe(s))
        el = mk("elem", cont, r["key"])
        name, srcname = proj(el, "name"), proj(el, "source")
        if not r["steps"]:
            ctx.undecide("%s: no iteration was analysed" % wl)
        for h, b in r["steps"]:
            if b.mon.get("diag"):
                continue
            det = describe(b)
            for rule, ok, msg in model_entry(eng, b, loc, eng.read(h, loc), name, srcname):
                ctx.oblige(rule, wl, ok, msg, det)


def model_entry(eng, b, loc, before, name, srcname):
    """[(rule, verdict, message)] for one iteration over the declared models"""
    after = eng.read(b, loc)
    base = before.a[0] if before.op == "map" else before
    if b.mon.get("dup") or b.facts.get(mk("has", before, name)) is True:
        return [("a name declared twice fails", False, "a name that is already present is accepted")]
    added = None
    if after.op == "map" and (after.a[0] is base or after.a[0] is before):
        added = [kv for kv in after.a[1] if kv not in (before.a[1] if before.op == "map" else ())]
    if added is None:
        return [("one entry per declaration", None if vague(after) and after.op != "lv" else False,
                 "an iteration that can lead to success leaves %r in the result" % after)]
    if len(added) != 1:
        return [("one entry per declaration", False, "an iteration that can lead to success adds %d entries" % len(added))]
    k, v = added[0]
    out = [("bound under the declared name", True if k is name else (None if vague(k) else False), "bound under %r" % k)]
    if v.op == "null":
        return out + [("bound to a mesh", False, "a model without a mesh is left in the result of a load that succeeds")]
    m = eng.read(b, eng.deref(b, v)) if v.op == "ptr" else v
    if m.op != "mesh":
        return out + [("bound to a mesh", None if vague(m) else False, "bound to %r" % m)]
    out.append(("bound to a mesh", True, ""))
    s = m.a[0]
    if s.op == "open":
        out.append(("read from a file that was opened", b.facts.get(mk("iofail", s)) is False,
                    "the model is parsed from a stream that may not have been opened"))
        out.append(("read from the declared source", True if mentions(s.a[0], lambda t: t is srcname) else (None if vague(s.a[0]) else False),
                    "the model is read from %r" % s.a[0]))
    elif s.op == "lv" and s.a[0] in eng.loops:
        good = b.facts.get(mk("ioget", "good", s))
        out.append(("read from a file that was opened", good is True or None if good is not False else False,
                    "the model is parsed from a stream that could not be opened"))
    else:
        out.append(("read from a file that was opened", None if vague(s) else False, "the model is parsed from %r" % s))
    return out


def c06(ctx):
    ctx.rule("the sequence of paths tried for one declaration is reconstructed from the open events of each path through LoadFiles and its search loop: "
             "absolute sources alone; otherwise the current directory, then each load path in order, the search going on only after a failed open.")
    ctx.load()
    fn, eng, ex = load_engine(ctx)
    if ex is None:
        return
    cont, loops = model_loops(ctx, fn, eng)
    if not loops:
        ctx.undecide("%s: no loop over the declared models was recognised" % ctx.where(fn))
    lp = mk("flag", "load_path")
    n = 0
    for r in loops:
        el = mk("elem", cont, r["key"])
        src = proj(el, "source")
        absol = mk("starts", src, S("/"))
        wl = ctx.where(fn, r["line"])
        for h, b in r["steps"]:
            opens = attempts(eng, b.trace)
            if not opens:
                continue
            ab = b.facts.get(absol)
            n += 1
            if ab is None:
                # other ways to ask for the first character
                ab = first_char(b, src)
            if ab is None:
                fs = [f for f in b.facts if mentions(f, lambda t: t is src) and f.op not in ("iofail", "ioget")]
                plain = all(f.op in ("has", "nonnull") or (f.op == "eq" and (f.a[0].op in ("find", "size", "rfind") or f.a[0] is src) and isconst(f.a[1]))
                            for f in fs)
                ctx.oblige("absolute sources are recognised", wl, False if plain else None,
                           "whether the source starts with '/' is not what decides how it is looked for", describe(b) + ["path of the source: %r" % src])
                continue
            if ab:
                ok = len(opens) == 1 and opens[0][0] == "one" and opens[0][1] is src
                odd = any(o[0] == "?" or (o[0] == "one" and vague(o[1])) for o in opens)
                ctx.oblige("an absolute source is opened as it is", wl, True if ok else (None if odd else False),
                           "an absolute source is looked for at %s" % showopens(opens), describe(b))
            else:
                ok, why = relative_ok(eng, b, opens, src, lp)
                ctx.oblige("a relative source is searched in order", wl, ok, why, describe(b))
    if not n:
        ctx.undecide("%s: no file is opened in the loop over the models" % ctx.where(fn))


def first_char(st, src):
    for f, v in st.facts.items():
        if v and f.op == "eq" and f.a[0].op == "size" and f.a[0].a[0] is src and f.a[1] is I(0):
            return False     # empty
        if v and f.op == "eq" and f.a[0] is src and f.a[1] is S(""):
            return False
        if v and f.op == "eq" and f.a[0].op in ("find", "rfind") and f.a[0].a[0] is src and f.a[0].a[1] in (S("/"), I(47)) and \
                f.a[1].op == "i" and f.a[1].a[0] in (-1, (1 << 64) - 1):
            return False     # no slash at all
        if f.op == "eq" and any(x is I(ord("/")) for x in f.a if isinstance(x, T)):
            o = [x for x in f.a if x is not I(ord("/"))][0]
            if o.op in ("at", "idx", "front", "first") and mentions(o, lambda t: t is src):
                return v
            if mentions(o, lambda t: t is src):
                return v
    return None


def showopens(opens):
    return ", ".join(repr(o[1]) for o in opens)


def attempts(eng, trace):
    out = []
    for ev in trace:
        if ev[0] == "open":
            out.append(("one", ev[2], ev[3], ev[-1]))
        elif ev[0] == "loop":
            r = eng.loops.get(ev[1])
            if r is None:
                continue
            inner = set()
            for h, b in r["steps"]:
                for e2 in attempts(eng, b.trace):
                    inner.add(e2)
            for s, c in r["early"]:
                for e2 in flat_open(s, ev[1]):
                    inner.add(e2)
            for e2 in attempts(eng, ev[3]):
                inner.add(e2)
            if inner:
                out.append(("loop", ev[1], ev[2], tuple(sorted(inner, key=repr))))
    return out


def flat_open(s, key):
    return []


def relative_ok(eng, st, opens, src, lp):
    """Is this the documented search?"""
    want_cwd = True
    saw_rest = False
    for o in opens:
        if o[0] == "one":
            p = o[1]
            if want_cwd and (p is src or p is cat(S("./"), src)):
                want_cwd = False
                continue
            if vague(p):
                return None, "the path %r is not understood" % p
            return False, "a relative source is looked for at %r" % p
        r = eng.loops[o[1]]
        cont = r["cont"]
        if cont is None:
            return None, "the search loop is not understood"
        if r["rev"]:
            return False, "the load path is searched backwards"
        el = mk("elem", cont, r["key"])
        split = None
        has_dot = False
        c = cont
        if c.op == "prepend":
            if c.a[0] is S(".") or (isinstance(c.a[0], T) and c.a[0] is S(".")):
                has_dot = True
            c = c.a[1]
        if c.op != "split":
            if mentions(cont, lambda t: t.op == "split"):
                return (None if vague(cont) else False), "directories are taken from %r" % cont
            return (None if vague(cont) else False), "directories are taken from %r instead of the load path" % cont
        if flagname(c.a[0]) != "load_path" or c.a[1] is not S(","):
            return False, "directories are taken from %r" % c
        if cont.op == "prepend" and not has_dot:
            return False, "the first directory searched is %r" % cont.a[0]
        if want_cwd and not has_dot:
            return False, "the current directory is not searched first"
        if has_dot and not want_cwd:
            pass
        for e2 in o[3]:
            if e2[0] != "one":
                return None, "nested search loops"
            if e2[1] is not cat(el, S("/"), src):
                return (None if vague(e2[1]) else False), "in a directory the file is looked for at %r" % e2[1]
        # the search goes on only after a failed open
        for h, b in r["steps"]:
            op = [e2 for e2 in flat(b.trace) if e2[0] == "open"]
            if not op:
                return None, "an iteration of the search opens nothing"
            failed = [f for f, v in b.facts.items() if v and f.op == "iofail" and f.a[0].op == "open" and f.a[0].a[0] is op[-1][2]]
            if not failed:
                return False, "the search continues after a file was opened"
        for s, ctl in r["early"]:
            failed = [f for f, v in s.facts.items() if v and f.op == "iofail" and f.a[0].op == "open" and f.a[0].a[0] is cat(el, S("/"), src)]
            if failed:
                return False, "the search stops after a failed open"
        want_cwd = False
        saw_rest = True
    if not saw_rest:
        # stopping early is fine when the file in the current directory opened
        opened = [f for f, v in st.facts.items() if not v and f.op == "iofail" and f.a[0].op == "open"]
        if not opened:
            return False, "the load path is not searched"
    return True, ""


# ---------------------------------------------------------------------- C16
def c16(ctx):
    ctx.rule("the loops of GeneratePages and RenderPages are solved to a fixpoint: every iteration over the script's pages must append exactly one fresh page, "
             "make it the current page, and visit every draw of that page once and in order; rendering must walk the pages once, in order, numbering from 1.")
    ctx.load()
    gen_pages(ctx)
    render_pages(ctx)


def gen_pages(ctx):
    fn = ctx.fn(NS + "GeneratePages")
    eng, ex = ctx.run(fn, STAGES)
    if ex is None:
        return
    w = ctx.where(fn)
    doc = param_doc(fn)
    cont = proj(doc, "pages")
    loops = [r for r in eng.loops.values() if r["cont"] is cont]
    pp = [p for p in fn["params"] if "OutputPage" in p["tt"]]
    if not loops or not pp:
        ctx.undecide("%s: no loop over the pages of the script was recognised" % w)
        return
    proot = mk("P", pp[-1]["n"])
    keys = [r["key"] for r in loops]
    for x in ex:
        nl = [ev for ev in x.st.trace if ev[0] == "loop" and ev[1] in keys]
        zero = x.st.facts.get(eq(size(cont), I(0)))
        ctx.oblige("every page of the script is generated", w, bool(nl) if not vague(x.val if isinstance(x.val, T) else TRUE) else None,
                   "a path returns without going through the pages", describe(x.st))
        final = eng.read(x.st, (proot, ()))
        if nl and not (final.op == "lv" and final.a[0] in keys):
            ctx.oblige("the pages are kept as generated", w, None if vague(final) and final.op != "lv" else False,
                       "after the loop the pages are %r" % final, describe(x.st))
    for r in loops:
        wl = ctx.where(fn, r["line"])
        if r["rev"]:
            ctx.oblige("pages are generated in script order", wl, False, "the pages are walked backwards")
        for s, ctl in r["early"]:
            ctx.oblige("later pages are still generated", wl, False, "the loop over the pages is left early", describe(s))
        el = mk("elem", cont, r["key"])
        draws = proj(el, "draws")
        for h, b in r["steps"]:
            before, after = eng.read(h, (proot, ())), eng.read(b, (proot, ()))
            base = lv_chain(eng, before)
            grown = appended(eng, before, after, b)
            det = describe(b, 6)
            if grown is None:
                ctx.oblige("one page is added per page of the script", wl, None, "the pages become %r" % after)
            else:
                ctx.oblige("one page is added per page of the script", wl, grown == 1, "an iteration adds %s pages" % grown, det)
            page_visits(ctx, fn, eng, b, draws, proot, before, wl, det)
            titles(ctx, eng, b, proot, before, after, r, el, wl)


def lv_chain(eng, v):
    return v


def appended(eng, before, after, st):
    """How many elements a vector has gained, following the loops that only updated elements."""
    n = 0
    guard = 0
    while guard < 50:
        guard += 1
        if after is before:
            return n
        if after.op == "upd":
            after = after.a[0]
            continue
        if after.op == "seq":
            n += len(after.a[1])
            after = after.a[0]
            if not isinstance(after, T):
                return n if (before.op == "seq" and not before.a[1]) else None
            continue
        if after.op == "lv" and after.a[0] in eng.loops and after.a[0] != (before.a[0] if before.op == "lv" else None):
            r = eng.loops[after.a[0]]
            loc = (after.a[1], tuple(after.a[2:]))
            for h, b in r["steps"]:
                k = appended(eng, eng.read(h, loc), eng.read(b, loc), b)
                if k != 0:
                    return None
            nxt = eng.read(r["pre"], loc)
            if nxt is after:
                return None
            after = nxt
            continue
        if after.op == "resized":
            return None
        return None
    return None


def page_visits(ctx, fn, eng, b, draws, proot, before, wl, det):
    vloops = []
    for ev in b.trace:
        if ev[0] == "visit":
            ctx.oblige("draws are visited by the loop over the page's draws", wl, None, "a draw is visited outside a loop")
        if ev[0] == "loop":
            r = eng.loops.get(ev[1])
            if r is None:
                continue
            vis = [e for h, s in r["steps"] for e in flat(s.trace) if e[0] == "visit"]
            vis += [e for s, c in r["early"] for e in flat(s.trace) if e[0] == "visit" and mentions_key(e, ev[1])]
            if vis:
                vloops.append((ev, r))
    zero = b.facts.get(eq(size(draws), I(0))) is True
    dl = [x for x in vloops if x[1]["cont"] is draws]
    if len(vloops) != len(dl):
        for ev, r in vloops:
            if r["cont"] is not draws:
                ctx.oblige("the page's own draws are visited", wl, None if r["cont"] is None or vague(r["cont"]) else False,
                           "visits the elements of %r" % r["cont"], det)
    if len(dl) == 0:
        if zero:
            return
        if any(ev[0] == "loop" and eng.loops.get(ev[1]) and eng.loops[ev[1]]["cont"] is draws for ev in b.trace):
            return   # the path with zero draws
        ctx.oblige("every draw of a page is evaluated", wl, False if not vloops else None, "an iteration does not visit the draws of its page", det)
        return
    ctx.oblige("every draw is evaluated exactly once", wl, len(dl) == 1, "the draws of a page are visited %d times" % len(dl), det)
    for ev, r in dl:
        if r["rev"]:
            ctx.oblige("draws are evaluated in order", wl, False, "the draws of a page are visited backwards", det)
        key = r["key"]
        el = mk("elem", draws, key)
        for s, ctl in r["early"]:
            ctx.oblige("draws after a failed one are still evaluated", ctx.where(fn, r["line"]), False,
                       "the loop over the draws is left early", describe(s, 6))
        for h, s in r["steps"]:
            vs = [e for e in flat(s.trace) if e[0] == "visit"]
            if len(vs) != 1:
                ctx.oblige("every draw is evaluated exactly once", ctx.where(fn, r["line"]), False,
                           "one iteration evaluates %d draws" % len(vs), describe(s, 6))
                continue
            v = vs[0]
            isel = v[1] is el or (v[1].op == "ptr" and v[1].a[0].op == "D" and v[1].a[0].a[0] is el)
            ctx.oblige("every draw is evaluated exactly once", ctx.where(fn, v[-1]), True if isel else (None if vague(v[1]) else False),
                       "visits %r instead of the draw itself" % v[1], describe(s, 6))
            cp = dict(v[2]).get("page")
            cur_ok = is_last_of(cp, proot, before)
            ctx.oblige("draws go to their own page", ctx.where(fn, v[-1]), cur_ok, "the current page is %r" % cp, describe(s, 6))


def mentions_key(e, key):
    return any(isinstance(x, T) and mentions(x, lambda t: t.op in ("elem", "each") and len(t.a) > 1 and t.a[1] == key) for x in e if isinstance(x, T))


def is_last_of(cp, proot, before):
    """Does the pointer denote the page that was just appended?"""
    if cp is None or cp.op != "ptr":
        return None if cp is None or cp.op not in ("null",) else False
    root, path = cp.a[0], cp.a[1:]
    if root is not proot:
        if root.op == "L":
            return None     # a local page that may be moved in later
        return False
    p = [x for x in path if isinstance(x, T)]
    if len(p) == 1 and p[0].op == "idx":
        i = p[0].a[0]
        n = size(before)
        if i is n:
            return True
        if i.op == "i" and n.op == "i":
            return i is n
        if vague(i, ("init",)) and not i.op == "size":
            return None
        return None if i.op not in ("i",) else False
    if len(p) == 1 and p[0].op in ("last", "first"):
        return p[0].op == "last"
    return None


def titles(ctx, eng, b, proot, before, after, r, el, wl):
    pass


def c_psfn(name, eventargs=True):
    def c(eng, st, f, ol, args, e):
        vals = []
        out = None
        for a in args:
            if a[0] == "l" and "stream" in a[3]:
                out = a[1]
                continue
            vals.append(eng.argval(st, a, False) if a[0] == "v" else eng.read(st, a[1]))
        eng.event(st, "ps", name, tuple(vals), models.mkptr(out) if out else NULL, e.get("l"))
        if out:
            models.written(eng, st, out, e)
        return [(st, VOID)]
    return c


PSFNS = {"ps::" + n: c_psfn(n) for n in ("DocumentHeader", "PageHeader", "TextToPs", "ArcToPs", "LinesToPs", "PageFooter")}


def render_trace(ctx):
    fn = ctx.fn(NS + "RenderPages")
    eng, ex = ctx.run(fn, PSFNS, boolret=False)
    return fn, eng, ex


def render_pages(ctx):
    fn, eng, ex = render_trace(ctx)
    if ex is None:
        return
    w = ctx.where(fn)
    pi = [i for i, p in enumerate(fn["params"]) if "OutputPage" in p["tt"]]
    if not pi:
        ctx.undecide("%s: no page list" % w)
        return
    pages = param(fn, pi[0])
    for x in ex:
        ls = [ev for ev in x.st.trace if ev[0] == "loop" and any(e[0] == "ps" for h, b in eng.loops[ev[1]]["steps"] for e in flat(b.trace))]
        zero = x.st.facts.get(eq(size(pages), I(0))) is True
        if len(ls) != 1:
            ctx.oblige("all pages are rendered once", w, None if not ls else False, "%d loops write pages" % len(ls), describe(x.st))
        for ev in x.st.trace:
            if ev[0] == "ps" and ev[1] in ("PageHeader", "PageFooter"):
                ctx.oblige("pages are rendered by the loop over the pages", w, False, "%s outside the loop over the pages" % ev[1])
    for r in eng.loops.values():
        wl = ctx.where(fn, r["line"])
        if not any(e[0] == "ps" for h, b in r["steps"] for e in flat(b.trace)):
            continue
        if r["cont"] is not pages:
            n = r["bound"]
            ctx.oblige("all pages are rendered, in order", wl, None, "the loop does not run over the pages")
            continue
        ctx.oblige("all pages are rendered, in order", wl, not r["rev"], "the pages are rendered backwards")
        for s, c in r["early"]:
            ctx.oblige("all pages are rendered", wl, False, "the loop over the pages is left early", describe(s))
        key = r["key"]
        el = mk("elem", pages, key)
        for h, b in r["steps"]:
            evs = [e for e in b.trace if e[0] == "ps"]
            hd = [e for e in evs if e[1] == "PageHeader"]
            for e in evs:
                want = {"TextToPs": "text", "ArcToPs": "arcs", "LinesToPs": "lines"}.get(e[1])
                if want:
                    v = e[2][0]
                    ctx.oblige("a page shows its own content", ctx.where(fn, e[-1]), True if v is proj(el, want) else (None if vague(v) and v.op != "lv" else False),
                               "%s is given %r" % (e[1], v))
            for e in hd:
                num, of = (list(e[2]) + [None, None])[:2]
                ctx.oblige("every page is announced with the total", ctx.where(fn, e[-1]),
                           True if of is size(pages) else (None if of is None or vague(of) and of.op != "lv" else False),
                           "the total announced is %r" % of)
                numbering(ctx, fn, eng, ex, r, h, b, num, e[-1])


def numbering(ctx, fn, eng, ex, r, h, b, num, line):
    wl = ctx.where(fn, line)
    if num is None:
        return
    key = r["key"]
    ix = mk("ix", key)
    d = diff_const(num, ix)
    if d is not None:
        ctx.oblige("pages are numbered from 1", wl, d == 1, "the first page has number %d" % d)
        return
    lvs = [t for t in subs(num) if t.op == "lv" and t.a[0] == key]
    if len(lvs) != 1:
        ctx.oblige("pages are numbered from 1", wl, None if lvs or vague(num) else False, "the number announced is %r" % num)
        return
    lv = lvs[0]
    off = diff_const(num, lv)
    loc = (lv.a[1], tuple(lv.a[2:]))
    start = eng.read(r["pre"], loc)
    step = diff_const(eng.read(b, loc), lv)
    if start.op == "init" and lv.a[1].op == "G" and off is not None and step:
        left = {eng.read(x.st, loc) for x in ex or ()}
        ctx.oblige("pages are numbered from 1", wl, False if left and all(v.op == "lv" for v in left) else None,
                   "the first page has the number that the document before has left in a static variable")
        return
    if off is None or start.op != "i" or step is None:
        ctx.oblige("pages are numbered from 1", wl, None, "the number announced is %r" % num)
        return
    ctx.oblige("pages are numbered from 1", wl, start.a[0] + off == 1 and step == 1,
               "the first page has number %d and the number grows by %d" % (start.a[0] + off, step))


def diff_const(a, b):
    d = sub(a, b)
    return d.a[0] if d.op == "i" else None


# ---------------------------------------------------------------------- C20
def c20(ctx):
    ctx.rule("the effect trace of RenderPages is reduced to the sequence of document parts it emits (a loop is one repetition of its body's sequence) and "
             "compared with the document structure; the header and page templates are parsed as PostScript to find definitions and uses of CenterText.")
    ctx.load()
    fn, eng, ex = render_trace(ctx)
    if ex is None:
        return
    w = ctx.where(fn)
    for x in ex:
        seq = []
        for ev in x.st.trace:
            if ev[0] == "ps":
                seq.append(ev[1])
            elif ev[0] == "out":
                seq.append("raw")
                if ev[1].op == "ptr" and ev[1].a[0].op == "P":
                    ctx.oblige("nothing outside the structure", ctx.where(fn, ev[-1]), blank(ev[2]), "writes %r itself" % (ev[2],))
            elif ev[0] == "loop":
                r = eng.loops[ev[1]]
                if any(e[0] in ("ps", "out") for h, b in r["steps"] for e in flat(b.trace)):
                    seq.append("pages")
        seq = [s for s in seq if s != "raw"]
        if seq == ["DocumentHeader"] and any(ev[0] == "loop" and ev[2] == "0" for ev in x.st.trace):
            seq = ["DocumentHeader", "pages"]
        ctx.oblige("header once, then the pages", w, seq == ["DocumentHeader", "pages"], "the document consists of: " + ", ".join(seq or ["nothing"]), describe(x.st))
    for r in eng.loops.values():
        wl = ctx.where(fn, r["line"])
        for h, b in r["steps"]:
            seq = []
            for ev in b.trace:
                if ev[0] == "ps":
                    seq.append(ev[1])
                elif ev[0] == "out" and ev[1].op == "ptr" and ev[1].a[0].op == "P":
                    ctx.oblige("nothing outside the structure", ctx.where(fn, ev[-1]), blank(ev[2]), "writes %r itself" % (ev[2],))
            if not seq:
                continue
            want = ["PageHeader", "TextToPs", "ArcToPs", "LinesToPs", "PageFooter"]
            ctx.oblige("page header, content, one showpage", wl, seq == want, "a page consists of: " + ", ".join(seq), describe(b))
    import c_ps
    c_ps.structure(ctx)


def blank(t):
    return True if t.op == "s" and not t.a[0].strip() else (None if vague(t) else False)


# ---------------------------------------------------------------------- C37
def c37(ctx):
    ctx.rule("every store made while loading, generating or rendering is checked for its target: no store, mutating call or rotation may reach an object "
             "of the parsed document (anything reachable from the document, the drawables or the property values passed in).")
    ctx.load()
    todo = []
    lf = dict(STAGES)
    lf[NS + "STLFile::Make"] = specs.c_make
    todo.append((ctx.fn(NS + "LoadFiles"), lf))
    todo.append((ctx.fn(NS + "GeneratePages"), STAGES))
    for k, f in sorted(ops(ctx).items()):
        todo.append((f, STAGES))
    _, fd = script_fns(ctx)
    if fd is not None:
        todo.append((fd, script_contracts(ctx)))
    for f in ctx.fns(NS + "RenderPages"):
        todo.append((f, PSFNS))
    # evaluating a point must not change what it evaluates
    inv = []
    for b in ctx.prog.find(NS + "Point::Invoke"):
        inv += [f for f in ctx.prog.overriders.get(b["key"], []) if "body" in f]
    for b in ctx.prog.find(NS + "Point::Clone"):
        inv += [f for f in ctx.prog.overriders.get(b["key"], []) if "body" in f]
    for f in inv:
        todo.append((f, STAGES))
    for fn, con in todo:
        rot = []

        def hook(eng, st, ev, rot=rot):
            if ev[0] == "rotate":
                rot.append(ev)
        eng, ex = ctx.run(fn, con, hooks=[hook], boolret=False)
        if ex is None:
            continue
        w = ctx.where(fn)
        for ev in rot:
            p = ev[1]
            owned = p.op == "clone" or (p.op == "ptr" and p.a[0].op in ("H", "L", "Tmp")) or \
                (p.op == "ptr" and p.a[0].op == "D" and p.a[0].a[0].op == "clone")
            indoc = documentish(p, fn)
            ctx.oblige("only copies of points are rotated", ctx.where(fn, ev[-1]), True if owned else (False if indoc else None),
                       "a point of the document is rotated in place: %r" % p)
        bad = set()
        for x in ex:
            for root, v in x.st.store.items():
                if inside_document(root, fn) and v is not mk("init", root):
                    bad.add((root, v))
        for root, v in sorted(bad, key=lambda b: b[0].id):
            ctx.oblige("the document is not written", w, False if not vague(v) else False, "%r is changed to %r" % (root, short_repr(v)))
        ctx.oblige("no store reaches the document", w, not bad, "")


def short_repr(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + "..."


DOCTYPES = ("Document", "Angle", "Dia", "Dim", "Draw", "Rad", "Text", "BaseDim", "Meta", "NodeI", "Drawable")


def docparam(fn, name):
    for p in fn["params"]:
        if p["n"] == name:
            t = base_type(p["tt"]).split("::")[-1].rstrip("* &").strip()
            return t in DOCTYPES or t.split("<")[0] in DOCTYPES
    return False


def documentish(t, fn):
    return mentions(t, lambda x: x.op == "P" and docparam(fn, x.a[0]))


def inside_document(root, fn):
    if root.op == "P":
        if root.a[0] == "this":
            return not ("DrawToPage" in fn["q"])
        return docparam(fn, root.a[0])
    if root.op == "D":
        p = root.a[0]
        if p.op == "clone":
            return False
        return documentish(p, fn) or (mentions(p, lambda x: x.op == "P" and x.a[0] == "this") and "DrawToPage" not in fn["q"] and "::Invoke" in fn["q"])
    return False
