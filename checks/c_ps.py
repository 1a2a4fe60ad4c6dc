"""C17-C21: the PostScript that is written."""
from common import *
from c_flow import STAGES, NS, ops, PSFNS, flat, render_trace
from c_prop import closure, DIMS, page_loc, subject, this_root
from poly import poly, peq
import psx
import trans

R17 = "user text stays inside its string literal"
R18 = "user text stays inside its comment"
R19 = "the PostScript written is well formed"
PSN = ("DocumentHeader", "PageHeader", "LinesToPs", "ArcToPs", "TextToPs", "PageFooter")


class Piece(object):
    """One uninterrupted stretch of output: pieces written one after the other."""

    def __init__(self, parts, st, line, loop=None, head=None):
        self.parts, self.st, self.line, self.loop, self.head = parts, st, line, loop, head


def stretches(ctx, fn, eng, ex, outp):
    """-> ([Piece], complete?)"""
    res, good = [], [True]
    root = mk("ptr", mk("P", outp))

    def walk_(trace, st, loop, head):
        cur, line = [], None
        for ev in trace:
            if ev[0] == "out":
                if ev[1] is not root:
                    continue
                cur.append(ev[2])
                line = line or ev[-1]
            elif ev[0] == "loop":
                if ev[1] in eng.loops and loop_emits(eng, ev[1], root):
                    if cur:
                        res.append(Piece(cur, st, line, loop, head))
                    cur, line = [], None
            elif ev[0] == "call" and any(a is root for a in ev[3] if isinstance(a, T)):
                good[0] = False
                ctx.undecide("%s: %s writes to the output in a way that is not understood" % (ctx.where(fn, ev[-1]), ev[1]))
        if cur:
            res.append(Piece(cur, st, line, loop, head))
    for x in ex:
        walk_(x.st.trace, x.st, None, None)
    for k, r in eng.loops.items():
        for h, b in r["steps"]:
            t = b.trace[len(h.trace):] if b.trace[:len(h.trace)] == h.trace else b.trace
            walk_(t, b, r, h)
        for s, c in r["early"]:
            walk_(s.trace, s, r, None)
    return res, good[0]


def loop_emits(eng, key, root):
    r = eng.loops[key]
    return any(ev[0] == "out" and ev[1] is root for _, b in r["steps"] for ev in flat(b.trace)) or \
        any(ev[0] == "out" and ev[1] is root for s, _ in r["early"] for ev in flat(s.trace))


def psfuncs(ctx):
    """[(name, fn, engine, exits, stretches)] of everything that writes PostScript"""
    if getattr(ctx, "_psfuncs", None) is not None:
        return ctx._psfuncs
    out = []
    for n in PSN:
        fn = ctx.fn("ps::" + n)
        o = [p["n"] for p in fn["params"] if "ostream" in p["tt"]]
        if len(o) != 1:
            ctx.undecide("%s: no single output stream" % ctx.where(fn))
            continue
        eng, ex = ctx.run(fn, {}, boolret=False, keychars=True)
        if ex is None:
            continue
        st, ok = stretches(ctx, fn, eng, ex, o[0])
        out.append((n, fn, eng, ex, st))
    ctx._psfuncs = out
    return out


def scan(ctx, fn, p):
    """-> (tokens or None, holes, problem)"""
    holes = []
    parts = []
    for x in p.parts:
        parts += pieces(x)
    try:
        t = psx.tokens(parts, holes)
    except psx.Bad as b:
        return None, holes, (False, str(b))
    except psx.Dunno as b:
        return None, holes, (None, str(b))
    return t, holes, None


def known_raw(eng, p, h):
    """h is the text of an element whose raw flag is known to be set on this path"""
    b = owner(h)
    if b is None:
        return False
    raw = proj(b, "raw")
    if raw is TRUE:
        return True
    v = p.st.facts.get(eq(raw, I(0)))
    return v is False or eng._truth(p.st, raw) is True if hasattr(eng, "_truth") else v is False


def owner(h):
    """X when h is X.str"""
    if h.op == "proj" and h.a[1] == "str":
        return h.a[0]
    if h.op == "init" and h.a[-1] == "str":
        return mk("init", *h.a[:-1])
    if h.op == "lv" and h.a[-1] == "str":
        return mk("lv", *h.a[:-1])
    return None


def plain(h):
    """nothing a user chooses: numbers and the program's own text"""
    return h.op in ("tostr", "i", "f") or timelike(h)


def timelike(h):
    if h.op == "call" and h.a[0] in ("absl::FormatTime",) and isinstance(h.a[1], T) and h.a[1].op == "s" and not set(h.a[1].a[0]) & set("()\\\n\r\f"):
        return True
    return h.op == "init" and "static:" in repr(h)


def c17(ctx):
    ctx.rule("every template written is read as PostScript; a value inside a string literal must be a number, or a string passed through a loop or replacement that, "
             "for each of the 256 byte values, appends exactly its escaped form; unescaped texts only where the raw flag is set, and every raw text must be "
             "composed of literals and escaped parts.")
    ctx.load()
    nholes = 0
    for n, fn, eng, ex, st in psfuncs(ctx):
        for p in st:
            w = ctx.where(fn, p.line)
            toks, holes, prob = scan(ctx, fn, p)
            for c, h in holes:
                if c == "string":
                    nholes += 1
                    if plain(h) or known_raw(eng, p, h):
                        ctx.oblige(R17, w, True)
                        continue
                    parts = pieces(h)
                    ok, why = trans.escapes(eng, h)
                    if ok is None and not trans.image(eng, h):
                        # written as it is?
                        if owner(h) is not None or h.op in ("init", "flag", "elem"):
                            ok, why = False, "%r is written without escaping" % h
                    ctx.oblige(R17, w, ok, "in the text written %s" % why, describe(p.st))
                elif c == "code" and h.op != "tostr" and psx.isstring(h):
                    ctx.oblige(R17, w, False, "text is written outside any string literal: %r" % h)
            if prob and prob[0] is False and any(c == "string" for c, h in holes):
                ctx.oblige(R17, w, False, prob[1])
            elif prob and prob[0] is None:
                ctx.undecide("%s: %s" % (w, prob[1]))
    ctx.extra["string_values"] = nholes
    # who may write raw text
    o = ops(ctx)
    todo = [(k, o.get(k)) for k in DIMS + ("Text",)] + [("page", ctx.fn(NS + "GeneratePages"))]
    nt = 0
    for kind, fn in todo:
        if fn is None:
            continue
        w = ctx.where(fn)
        eng, ex = ctx.run(fn, STAGES, keychars=True)
        seen = set()
        for x in ex or ():
            vals = []
            for root, v in x.st.store.items():
                vals.append(v)
            for t in closure(eng, vals):
                if t.op != "rec" or t in seen:
                    continue
                f = dict(t.a[1])
                if "str" not in f or "raw" not in f:
                    continue
                seen.add(t)
                if f["raw"] is FALSE:
                    nt += 1
                    ctx.oblige(R17, w, True)
                    continue
                if f["raw"] is not TRUE:
                    ctx.oblige(R17, w, None, "whether a text is raw is not known: %r" % f["raw"])
                    continue
                nt += 1
                for q in pieces(f["str"]):
                    if q.op == "s":
                        ok, why = literal_ok(q.a[0]), "the literal %r is not a complete part of a string literal" % q.a[0]
                    elif plain(q):
                        ok, why = True, ""
                    else:
                        ok, why = trans.escapes(eng, q)
                        if ok is None and (q.op in ("fmt", "init", "proj", "flag") or owner(q) is not None):
                            ok, why = False, "%r is printed raw" % q
                    ctx.oblige(R17, w, ok, "%s prints raw text: %s" % (subject(kind), why), describe(x.st))
    ctx.extra["texts_composed"] = nt


def literal_ok(s):
    d, i = 0, 0
    while i < len(s):
        if s[i] == "\\":
            i += 1
            if i >= len(s):
                return False
        elif s[i] == "(":
            d += 1
        elif s[i] == ")":
            d -= 1
            if d < 0:
                return False
        i += 1
    return d == 0


def c18(ctx):
    ctx.rule("every template written is read as PostScript; a value inside a comment must be a number, the formatted time, or a string passed through a loop or "
             "replacement that never yields a newline, carriage return or form feed for any of the 256 byte values; the document name and the source may "
             "appear nowhere else.")
    ctx.load()
    nh = 0
    for n, fn, eng, ex, st in psfuncs(ctx):
        user = [mk("flag", "name"), mk("flag", S("name"))] + [param(fn, i) for i, p in enumerate(fn["params"]) if "string" in p["tt"] and "vector" not in p["tt"]]
        for p in st:
            w = ctx.where(fn, p.line)
            toks, holes, prob = scan(ctx, fn, p)
            for c, h in holes:
                cl = closure(eng, [h])
                usr = any(u in cl for u in user) or any(t.op == "flag" and "name" in repr(t) and "number" not in repr(t) for t in cl)
                if c == "comment":
                    nh += 1
                    if plain(h):
                        ctx.oblige(R18, w, True)
                        continue
                    im = trans.image(eng, h)
                    if im is None:
                        ctx.oblige(R18, w, False if h in user or h.op in ("flag", "init") else None, "%r is written into a comment as it is" % h, describe(p.st)) \
                            if not empty(p.st, h) else ctx.oblige(R18, w, True)
                        continue
                    res = True
                    for ch in range(256):
                        for o in im.outs[ch]:
                            if o is None:
                                res = None if res else res
                            elif set(o) & set("\n\r\f"):
                                res = False
                                why = "character %d of %r can become %r, which ends the comment" % (ch, im.src, o)
                    ctx.oblige(R18, w, res, why if res is False else "%r is not understood" % h, describe(p.st))
                elif usr:
                    ctx.oblige(R18, w, False if h in user or trans.image(eng, h) else None, "%r is written outside any comment" % h, describe(p.st))
    ctx.extra["comment_values"] = nh


def empty(st, h):
    return st.facts.get(eq(size(h), I(0))) is True


def machine(ctx):
    """(definitions made by the header, problems)"""
    for n, fn, eng, ex, st in psfuncs(ctx):
        if n != "DocumentHeader":
            continue
        best = None
        for p in st:
            toks, holes, prob = scan(ctx, fn, p)
            if toks is None or all(t.k == "opencomment" for t in toks):
                continue
            m = psx.Machine()
            try:
                m.run(toks)
            except psx.Bad as b:
                return None, (fn, p.line, False, str(b))
            except psx.Dunno as b:
                return None, (fn, p.line, None, str(b))
            if best is None:
                best = m
        return best, None
    return None, None


def c19(ctx):
    ctx.rule("every template written is read as PostScript and interpreted on abstract operands: each operator must find operands of its types, each stretch must "
             "leave the operand stack empty, end with a newline, begin its own path and paint it; the operands of each painted line, arc and text are compared "
             "(as normal forms) with the element's own coordinates.")
    ctx.load()
    hdr, prob = machine(ctx)
    if prob:
        fn, line, ok, msg = prob
        ctx.oblige(R19, ctx.where(fn, line), ok, "in the header %s" % msg)
    if hdr is not None:
        f = ctx.fn("ps::DocumentHeader")
        ctx.oblige("the header leaves the stack as it found it", ctx.where(f), not hdr.st, "the header leaves %d operands behind" % len(hdr.st))
        ctx.oblige("a font is set", ctx.where(f), bool(hdr.font), "no font is set")
    for n, fn, eng, ex, st in psfuncs(ctx):
        loops = {}
        for p in st:
            w = ctx.where(fn, p.line)
            toks, holes, prob = scan(ctx, fn, p)
            if prob:
                ctx.oblige(R19, w, prob[0], prob[1], describe(p.st))
                continue
            last = p.parts[-1]
            lp = pieces(last)
            nl = None
            for q in reversed([y for x in p.parts for y in pieces(x)]):
                if q.op == "s":
                    nl = q.a[0].endswith("\n") or (q.a[0] and q.a[0][-1] in " \t" and not any(t.k == "opencomment" for t in toks))
                else:
                    nl = False
                break
            ctx.oblige("every fragment is terminated", w, nl, "what is written does not end with a newline", describe(p.st))
            if n == "DocumentHeader":
                continue
            m = psx.Machine(hdr.defs if hdr else None)
            m.font = True
            m.path = "shown"
            try:
                starts_own(toks)
                m.run(toks)
            except psx.Bad as b:
                if hdr is None and "not defined" in str(b):
                    ctx.undecide("%s: the header is not understood" % w)
                    continue
                ctx.oblige(R19, w, False, str(b), describe(p.st))
                continue
            except psx.Dunno as b:
                ctx.oblige(R19, w, None, str(b))
                continue
            ctx.oblige("operands are consumed", w, not m.st, "%d operands are left on the stack" % len(m.st), describe(p.st))
            ctx.oblige("paths are painted", w, m.path not in ("pt",), "a path is begun but not painted", describe(p.st))
            if p.loop is not None:
                loops.setdefault(p.loop["key"], []).append((p, m))
        content(ctx, n, fn, eng, st, loops)


def starts_own(toks):
    fresh = False
    for t in toks:
        if t.k == "op":
            if t.v == "newpath":
                fresh = True
            elif t.v in ("moveto", "arc", "arcn", "lineto") and not fresh:
                raise psx.Bad("the path is not started with newpath")
            elif t.v in ("stroke", "show", "fill"):
                fresh = False


def content(ctx, n, fn, eng, st, loops):
    """what each element paints"""
    if n not in ("LinesToPs", "ArcToPs", "TextToPs"):
        return
    w = ctx.where(fn)
    vec_ = [i for i, p in enumerate(fn["params"]) if "vector" in p["tt"]]
    if len(vec_) != 1:
        ctx.undecide("%s: no list of elements" % w)
        return
    src = param(fn, vec_[0])
    main = [r for r in eng.loops.values() if r["cont"] is src]
    if not main:
        ctx.oblige("every element is painted", w, None if eng.loops else False, "the elements are not walked over")
        return
    for p in st:
        if p.loop is None:
            ctx.oblige("only the elements are painted", ctx.where(fn, p.line), None, "something is written outside the loop over the elements")
    for r in main:
        wl = ctx.where(fn, r["line"])
        el = mk("elem", src, r["key"])
        ctx.oblige("elements in order", wl, not r["rev"], "the elements are painted backwards")
        for s, c in r["early"]:
            ctx.oblige("every element is painted", wl, False, "the loop over the elements is left early", describe(s))
        done = loops.get(r["key"], [])
        for h, b in r["steps"]:
            mine = [(p, m) for p, m in done if p.st is b]
            if not mine:
                ok = None if any(p.loop is r and p.st is b for p in st) or any(ev[0] == "loop" and loop_emits(eng, ev[1], mk("ptr", mk("P", q["n"])))
                                                                              for ev in b.trace if ev[0] == "loop" and ev[1] in eng.loops for q in fn["params"]) else False
                ctx.oblige("every element is painted", wl, ok, "an element is not painted", describe(b))
                continue
            for p, m in mine:
                wp = ctx.where(fn, p.line)
                if len(m.log) != 1:
                    ctx.oblige("every element is painted once", wp, False, "an element is painted %d times" % len(m.log), describe(b))
                    continue
                g = m.log[0]
                if n == "LinesToPs":
                    ok = g[0] == "stroke" and [s[0] for s in g[1]] == ["moveto", "lineto"]
                    ctx.oblige("a line is drawn as a line", wp, ok, "a line is painted as %s" % (shape(g)))
                    if ok:
                        for (nm, x, y), e in zip(g[1], ("o", "t")):
                            for v, ax in ((x, "x"), (y, "y")):
                                same(ctx, "a line goes from its first to its second point", wp, v, proj(proj(el, e), ax), b)
                elif n == "ArcToPs":
                    ok = g[0] == "stroke" and len(g[1]) == 1 and g[1][0][0] == "arc"
                    ctx.oblige("an arc is drawn as an arc", wp, ok, "an arc is painted as %s" % shape(g))
                    if ok:
                        c = proj(el, "center")
                        deg = [mk("/", mk("*", proj(el, k), I(180)), mk("f", 3.141592653589793)) for k in ("start", "end")]
                        want = [proj(c, "x"), proj(c, "y"), proj(el, "r")]
                        for v, x in zip(g[1][0][1:4], want):
                            same(ctx, "an arc has its own centre and radius", wp, v, x, b)
                        for v, x in zip(g[1][0][4:], deg):
                            same(ctx, "an arc has its own angles, in degrees", wp, v, x, b)
                else:
                    ok = g[0] == "show" and g[1] and g[1][0][0] == "moveto"
                    ctx.oblige("a text is shown", wp, ok, "a text is painted as %s" % shape(g))
                    if ok:
                        for v, ax in zip(g[1][0][1:], "xy"):
                            same(ctx, "a text is shown at its own position", wp, v, proj(proj(el, "at"), ax), b)
                        srcs = [q for q in g[2] if isinstance(q, T)]
                        lit = "".join(q for q in g[2] if isinstance(q, str))
                        s0 = proj(el, "str")
                        ok = None
                        if not lit and len(srcs) == 1:
                            im = trans.image(eng, srcs[0])
                            ok = True if srcs[0] is s0 or im and im.src is s0 else (False if im or not vague(srcs[0]) else None)
                        elif lit or not srcs:
                            ok = False
                        ctx.oblige("a text shows its own string", wp, ok, "the text shown is %r" % (srcs[:1],), describe(b))


def same(ctx, rule, w, v, want, st):
    ctx.oblige(rule, w, True if peq(v, want) else (None if mentions(v, lambda t: t.op in ("call", "opaque", "join", "out")) else False),
               "the operand is %r" % v, describe(st))


def shape(g):
    return "%s %s" % (" ".join(s[0] for s in g[1]), g[0])


def structure(ctx):
    """C20: showpage and CenterText"""
    hdr, prob = machine(ctx)
    f = ctx.fn("ps::DocumentHeader")
    if hdr is None:
        ctx.undecide("the header is not understood")
        return
    proc = "CenterText" if "CenterText" in hdr.defs else None
    pages = {}
    for n, fn, eng, ex, st in psfuncs(ctx):
        for p in st:
            w = ctx.where(fn, p.line)
            toks, holes, prob = scan(ctx, fn, p)
            if toks is None:
                continue
            k = [t.v for t in toks if t.k == "op"]
            np = k.count("showpage") + k.count("copypage")
            if np and n != "PageFooter":
                ctx.oblige("one showpage for each page", w, False, "%s ends the page" % n)
            if n == "PageFooter":
                pages.setdefault(id(p.st), [fn, p, 0])[2] += np
                ctx.oblige("the page footer only ends the page", w, set(k) <= {"showpage", "grestore", "gsave"}, "the footer uses %s" % ", ".join(sorted(set(k))))
            if n == "TextToPs" and p.loop is not None and p.loop["cont"] is not None:
                el = mk("elem", p.loop["cont"], p.loop["key"])
                cen = proj(el, "center")
                v = p.st.facts.get(eq(cen, I(0)))
                v = None if v is None else not v
                m = psx.Machine(hdr.defs)
                m.path = "shown"
                try:
                    m.run(toks)
                except (psx.Bad, psx.Dunno):
                    continue
                moved = [s for g in m.log if g[0] == "show" for s in g[1] if s[0] in ("rmoveto",)]
                shows = any(g[0] == "show" for g in m.log)
                if not shows:
                    continue
                if v is None:
                    looked = any(mentions(q, lambda t: t is cen) for q in list(p.st.facts) + list(p.parts))
                    ctx.oblige("exactly the centred texts are centred", w, None if looked and moved else False, "whether a text is centred is not looked at", describe(p.st))
                elif v:
                    ctx.oblige("exactly the centred texts are centred", w, len(moved) == 1, "a centred text is shown without being moved", describe(p.st))
                    if len(moved) == 1:
                        ctx.oblige("a centred text moves left by half its width", w, peq(moved[0][1], mk("/", mk("psw"), I(-2))),
                                   "a centred text moves by %r" % moved[0][1])
                else:
                    ctx.oblige("exactly the centred texts are centred", w, not moved, "a text that is not centred is moved", describe(p.st))
    for fn, p, k in pages.values():
        ctx.oblige("one showpage for each page", ctx.where(fn, p.line), k == 1, "the footer ends the page %d times" % k)
    if not pages:
        ctx.oblige("one showpage for each page", ctx.where(ctx.fn("ps::PageFooter")), False, "nothing ends the page")
    # the output starts empty
    from c_flow import c_convert
    from engine import Undecided
    fn = ctx.fn("main")
    eng = ctx.engine({NS + "ScriptToPS": c_convert})
    eng.convert, eng.outloc = [], None
    try:
        ex = eng.run(fn, boolret=False)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (ctx.where(fn), x))
        ex = None
    ctx.account(eng, ex)
    for x in ex or ():
        opened = {}
        for ev in flat(x.st.trace):
            if ev[0] == "open":
                opened[ev[1]] = ev
            elif ev[0] == "convert":
                outs_ = [e for l, e in opened.items() if e[2] in subs(ev[1][-1])]
                if len(outs_) != 1:
                    ctx.undecide("%s: how the output is opened is not understood" % ctx.where(fn, ev[-1]))
                    continue
                m = outs_[0][3]
                ok = None
                if m.op == "i":
                    m = m.a[0]
                    ok = not m & 1 and bool(m & 32 or not m & 8)
                elif m is NULL:
                    ok = True
                ctx.oblige("the document replaces the output file", ctx.where(fn, outs_[0][-1]), ok, "the output is opened with mode %r, which keeps old content" % m)
