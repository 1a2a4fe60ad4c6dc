"""Helpers shared by the checks."""
from terms import *
from ctx import gaveup, GIVEUP
from engine import short, walk, base_type, is_ptr_type
import specs

VAGUE = {"call", "bcall", "out", "opaque", "lv", "mapped", "after", "join", "findof", "bytes", "reg"}
NS = "stl2ps::"


def vague(t, extra=()):
    """Does the term hide something the analysis knows nothing about?"""
    return mentions(t, lambda x: x.op in VAGUE or x.op in extra)


def param(fn, i):
    """The term for the initial value of the i-th parameter."""
    p = fn["params"][i]
    return mk("init", mk("P", p["n"]))


def outs(trace, root=None, flat=True):
    """('out') events of a trace; (events, complete?)"""
    r = []
    ok = True
    for ev in trace:
        if ev[0] == "out" and (root is None or ev[1] is root):
            r.append(ev)
        elif ev[0] == "loop":
            sub, o = outs(ev[3], root)
            r.extend(sub)
    return r, ok


def facts_of(st):
    return st.facts


def fact(st, t):
    return st.facts.get(t)


def run_params(ctx, fn, contracts=None, boolret=True, params=None, setup=None, hooks=(), **opt):
    eng = ctx.engine(contracts, **opt)
    eng.hooks = list(hooks)
    try:
        r = eng.run(fn, setup=setup, boolret=boolret, params=params)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (ctx.where(fn), gaveup(x)))
        r = None
    ctx.account(eng, r)
    return eng, r


def describe(st, n=12):
    """The branch decisions of a path, for a report."""
    out = []
    for a, b in list(st.facts.items())[-n:]:
        out.append("assuming %s%r" % ("" if b else "not ", a))
    return out


def aborts_note(eng):
    return ["abort at line %s" % a[1] for a in getattr(eng, "aborts", [])[:5]]
