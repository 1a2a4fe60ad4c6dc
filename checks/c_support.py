"""C36: the one diagnostic line of a syntax error."""
from common import *


def c36(ctx):
    ctx.rule("every path through stl2ps::error is enumerated; the text it writes is assembled as a sequence of literal "
             "and argument pieces and compared with the required line for the branch conditions of that path.")
    ctx.load(["parser_support"])
    fn = ctx.fn("stl2ps::error")
    P = fn["params"]
    if len(P) != 6:
        ctx.undecide("stl2ps::error has an unexpected signature")
        return
    names = [p["n"] for p in P]
    fptr = mk("init", mk("P", names[0]))
    par = {names[0]: fptr}
    eng, ex = run_params(ctx, fn, params=par, trace_diag=True)
    if ex is None:
        return
    bl, bc, el, ec = [mk("init", mk("P", n)) for n in names[1:5]]
    msg = mk("init", mk("P", names[5]))
    fname = mk("init", mk("D", fptr))
    for x in ex:
        st = x.st
        text = []
        where = ctx.where(fn)
        bad = None
        for ev in st.trace:
            if ev[0] == "out":
                tgt = ev[1].a[0] if ev[1].op == "ptr" else None
                if tgt is None or not (tgt.op == "G" and tgt.a[0] in ("stderr", "std::cerr")):
                    ctx.oblige("only standard error is written", ctx.where(fn, ev[-1]), False,
                               "writes %r to %r" % (ev[2], ev[1]), describe(st))
                    bad = True
                text.append(ev[2])
                where = ctx.where(fn, ev[-1])
            elif ev[0] in ("call", "vcall", "loop"):
                bad = True
                ctx.undecide("%s: the text is produced by %s" % (where, ev[1]))
        if bad:
            continue
        got = cat(*text)
        same = st.facts.get(eq(bl, el))
        fnull = st.facts.get(mk("nonnull", fptr))
        if fnull is None:
            fnull = True if mentions(got, lambda t: t is fname) else None
        m = {}
        if same:
            m[el] = bl
        got = replace(got, m) if m else got
        wants = []
        for sm in ([same] if same is not None else [True, False]):
            for nn in ([fnull] if fnull is not None else [True, False]):
                f = fname if nn else S("??")
                if sm:
                    w = cat(S("error "), f, S(":"), tostr(bl), S(":["), tostr(bc), S(","), tostr(ec), S("]: "), msg, S("\n"))
                else:
                    w = cat(S("error "), f, S(":"), tostr(bl), S(":"), tostr(bc), S(" to "), tostr(el), S(":"), tostr(ec),
                            S(": "), msg, S("\n"))
                wants.append(replace(w, m) if m else w)
        if all(got is w for w in wants):
            ctx.oblige("line is as documented", where, True)
        elif vague(got) or len(wants) > 1 and any(got is w for w in wants):
            ctx.oblige("line is as documented", where, None, "cannot compare %r" % (got,))
        else:
            ctx.oblige("line is as documented", where, False, "the line is %s instead of %s" % (full(got), full(wants[0])), describe(st))
    if not ex:
        ctx.undecide("no path returns from stl2ps::error")


def full(t):
    return " ".join(repr(p) for p in pieces(t))
