"""C39: odd input is rejected, it does not end the process."""
import math
from common import *
from engine import Undecided, walk
from trans import ev, Unknown
import c_parse
import c_syntax
from c_syntax import istext, isleng
import c_scan
from c_scan import partial

RNUM = "a number that cannot be represented is reported and rejected"
REXC = "no exception and no abort ends a parse"

INF = float("inf")
STO = {"stof", "stod", "stold", "stoi", "stol", "stoll", "stoul", "stoull"}
# what an overflowing text gives
FLOATS = {"strtof": (INF, -INF), "strtod": (1e39, -1e39, INF, -INF), "atof": (1e39, -1e39, INF, -INF), "strtold": (1e39, -1e39, INF, -INF)}
FLT_MAX = 3.4028234663852886e38
CONSTS = {"std::numeric_limits<float>::max": FLT_MAX, "std::numeric_limits<float>::lowest": -FLT_MAX, "std::numeric_limits<float>::infinity": INF,
          "__builtin_huge_valf": INF, "__builtin_huge_val": INF, "__builtin_inff": INF, "__builtin_inf": INF, "std::numeric_limits<double>::max": 1.7976931348623157e308,
          "std::numeric_limits<double>::infinity": INF, "std::numeric_limits<double>::lowest": -1.7976931348623157e308}
LIMITS = {"std::numeric_limits::max": (FLT_MAX, 1.7976931348623157e308), "std::numeric_limits::lowest": (-FLT_MAX, -1.7976931348623157e308),
          "std::numeric_limits::infinity": (INF, INF)}
TESTS = {"isfinite": math.isfinite, "isinf": math.isinf, "isnan": math.isnan, "isnormal": lambda x: math.isfinite(x) and abs(x) > 1.1754943508222875e-38,
         "signbit": lambda x: math.copysign(1, x) < 0, "__builtin_isinf_sign": math.isinf,
         "__builtin_isfinite": math.isfinite, "__builtin_isinf": math.isinf, "__builtin_isnan": math.isnan}


def base(n):
    return n.rsplit("::", 1)[-1].split("<")[0]


def val(t, env):
    """a term with floats in it under {term: number}"""
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o in ("abs", "fabs"):
        return abs(val(a[-1], env))
    if o == "neg":
        return -val(a[0], env)
    if o == "tofloat":
        x = val(a[0], env)
        return x if abs(x) <= FLT_MAX else math.copysign(INF, x)
    if o == "eq":
        return val(a[0], env) == val(a[1], env)
    if o in ("lt", "<"):
        return val(a[0], env) < val(a[1], env)
    if o in ("le", "<="):
        return val(a[0], env) <= val(a[1], env)
    if o == "not":
        return not val(a[0], env)
    if o == "bcall":
        return bool(val(a[0], env))
    if o == "and":
        return all(val(x, env) for x in a)
    if o == "or":
        return any(val(x, env) for x in a)
    if o in TESTS and len(a) == 1:
        return TESTS[o](val(a[0], env))
    if o == "call" and isinstance(a[0], str):
        n = base(a[0])
        if a[0] in CONSTS:
            return CONSTS[a[0]]
        if a[0] in LIMITS:
            return LIMITS[a[0]][1 if env.get("wide") else 0]
        if n in TESTS and len(a) == 2:
            return TESTS[n](val(a[1], env))
        if n in ("abs", "fabs", "fabsf") and len(a) == 2:
            return abs(val(a[1], env))
        if n in ("max", "min") and len(a) == 3:
            return (max if n == "max" else min)(val(a[1], env), val(a[2], env))
    if o == "errno":
        return env.get("errno", 0)
    if o in ("+", "-", "*") and len(a) == 2 and all(hasattr(x, "op") for x in a):
        x, y = val(a[0], env), val(a[1], env)
        try:
            return x + y if o == "+" else x - y if o == "-" else x * y
        except (OverflowError, ValueError):
            raise Unknown(t)
    return ev(t, env)


def conversions(ts):
    out = {}
    for t in ts:
        if t is None or not hasattr(t, "op"):
            continue
        for x in subterms(t):
            if x.op == "call" and isinstance(x.a[0], str) and len(x.a) > 1 and hasattr(x.a[1], "op") and mentions(x.a[1], istext):
                n = base(x.a[0])
                if n in FLOATS or n in STO:
                    out[x] = n
    return out


def fits(facts, env):
    """can these facts hold there: True, False, None"""
    res = True
    for f, w in facts:
        try:
            rs = {bool(val(f, dict(env, wide=x))) for x in (False, True)}
            if rs == {not w}:
                return False
            if len(rs) == 2:
                res = None
        except Unknown:
            if mentions(f, lambda x: x in env or istext(x) or isleng(x) or x.op == "errno"):
                res = None
    return res


def scenarios(cs, ts):
    """environments of texts too large for a float"""
    for n in range(4):
        env = {"errno": 34}
        some = False
        for c, f in cs.items():
            vs = FLOATS.get(f)
            if vs is None:
                continue
            if n < len(vs):
                some = True
            env[c] = vs[min(n, len(vs) - 1)]
            if abs(env[c]) != INF:
                env["errno"] = 0
        for t in ts:
            for x in subterms(t):
                if isleng(x):
                    env[x] = 400
        if some:
            yield env


def tries(ctx, keys, extra=()):
    """functions of these that catch exceptions"""
    out = []
    for k in keys:
        fn = ctx.prog.functions.get(k)
        if fn is not None and "body" in fn and not generated(fn):
            if any(n.get("k") == "try" for n in walk(fn["body"])):
                out.append(fn["q"])
    for b in extra:
        if any(n.get("k") == "try" for n in walk(b)):
            out.append("the action")
    return out


def generated(fn):
    if fn.get("file", "").endswith(".tab.cc") or fn.get("file", "").endswith(".tab.h"):
        return True
    return fn.get("file", "").endswith(".yy.cc") and (fn["q"].startswith("yy") or fn["q"].startswith("stl2ps") and "::" not in fn["q"])


def numrules(lx):
    rules = set()
    for w in (b"1", b"12345678901234567890123456789012345678901234567890", b"-1", b"+1.", b"1.5", b".5", b"-.5", b"+.25", b"0", b"00.00"):
        s = lx.sc.start()
        for b in w:
            s = lx.sc.step(s, b) if s is not None else None
        k = lx.sc.accept(s) if s is not None else 0
        if k:
            rules.add(k)
    return sorted(rules)


def rulebody(lx, k):
    out, on = [], False
    for x in lx.sw["b"]["b"]:
        y = x
        while y is not None and y["k"] in ("case", "default"):
            if y["k"] == "case" and y.get("v") == k:
                on = True
            elif on and y["k"] == "case" and out:
                return out
            y = y.get("s")
        if on and y is not None:
            out.append(y)
            if y["k"] == "break":
                return out
    return out


def numbers(ctx):
    lx = c_syntax.Lexer(ctx, floatcasts=True, exact=True)
    tm = c_syntax.Terminals(ctx.tree)
    n = 0
    for k in numrules(lx):
        os = lx.outcomes(k)
        if os is None:
            continue
        where = lx.where(k)
        bodies = rulebody(lx, k)
        caught = tries(ctx, lx.inlined, bodies)
        dead = [s for kind, s, l in lx.aborts.get(k, ())]
        allf = [f for o in os for f in o.facts] + [o.val for o in os] + [f for s in dead for f in s.facts]
        cs = conversions(allf)
        n += 1
        for c, f in sorted(cs.items(), key=repr):
            if f in STO:
                ctx.oblige(REXC, where, None if caught else False, "%s throws on numbers out of range (nothing catches that)" % f)
        if not any(f in FLOATS for f in cs.values()):
            if not cs:
                ctx.oblige(RNUM, where, None, "the number is not converted by the standard library")
            continue
        for o in os:
            ts = list(o.facts)
            for env in scenarios(cs, ts):
                r = fits(o.facts.items(), env)
                if r is False:
                    continue
                x = [v for v in env.values() if isinstance(v, float)][0]
                what = "a number too large for a float (it converts to %g)" % x
                if isinstance(o.ret, int) and tm.real(o.ret):
                    ctx.oblige(RNUM, where, None if r is None or caught else False, "%s is taken for a number" % what)
                elif o.ret is None or o.ret == 0:
                    ctx.oblige(RNUM, where, None if r is None else False, "%s is skipped" % what)
                elif not o.diag:
                    ctx.oblige(RNUM, where, None if r is None else False, "%s is rejected without a word" % what)
                else:
                    ctx.oblige(RNUM, where, True)
        for kind, s, l in lx.aborts.get(k, ()):
            rs = [fits(s.facts.items(), env) for env in scenarios(cs, list(s.facts))]
            ends(ctx, where, kind, l, True in rs, caught)
    if not n:
        raise Undecided("no rule for numbers is understood")
    ctx.extra["number_rules"] = n


def ends(ctx, where, kind, line, certain, caught):
    what = "an exception is thrown" if kind == "throw" else "the process is ended"
    if kind == "throw" and caught:
        certain = False
    ctx.oblige(REXC, where, False if certain else None, "%s at line %s" % (what, line))


def texts(facts):
    """environments for what is known about the text of a token"""
    ts = [f for f, _ in facts]
    for n in (1, 2, 400):
        env = {}
        for t in ts:
            for x in subterms(t):
                if isleng(x):
                    env[x] = n
        yield env


def scanner(ctx):
    """the other rules"""
    lx = c_syntax.Lexer(ctx)
    nums = set(numrules(lx))
    n = 0
    for k in range(1, lx.sc.nrules + 1):
        if k in nums:
            continue
        try:
            os = lx.outcomes(k)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (lx.where(k), gaveup(x)))
            continue
        if os is None:
            continue
        n += 1
        bodies = rulebody(lx, k)
        caught = tries(ctx, lx.inlined, bodies)
        for kind, s, l in lx.aborts.get(k, ()):
            ends(ctx, lx.where(k), kind, l, any(fits(s.facts.items(), e) for e in texts(s.facts.items())), caught)
        ctx.oblige(REXC, lx.where(k), True)
    ctx.extra["scanner_rules"] = n


def parser(ctx):
    """the actions of the grammar over every form"""
    sy = c_parse.Syntax(ctx)
    mp = c_parse.mapping(ctx, sy)
    ev_ = c_parse.Evaluator(ctx, sy)
    ev_.slots = {}
    fm = c_parse.Forms(sy, mp)
    n = 0
    for l in c_parse.ORDER:
        for r, num in sorted(sy.spec.by[l], key=lambda x: x[1]):
            if not fm.choice.get(l):
                continue
            for f in fm.production(num):
                for start in mp[l]:
                    tree = sy.impl.parse(f.word, start)
                    if tree is not None:
                        break
                else:
                    continue
                ev_.eng.aborts[:] = []
                ev_.eng.calls_inlined.clear() if hasattr(ev_.eng.calls_inlined, "clear") else None
                try:
                    ev_.run(tree, start)
                except GIVEUP as x:
                    ctx.undecide("%s: %s" % (c_parse.tell(sy, f), gaveup(x)))
                    continue
                n += 1
                caught = tries(ctx, ev_.eng.calls_inlined)
                where = "stl-to-ps/parser.y (%s)" % c_parse.tell(sy, f)
                for kind, s, ln in list(ev_.eng.aborts):
                    ends(ctx, where, kind, ln, values(s), caught)
                ctx.oblige(REXC, where, True)
    ctx.account(ev_.eng, [])
    ctx.extra["forms"] = n


def values(s):
    """do values of the tokens lead there"""
    for num in (0.0, 1.0, -1.0, 0.5, 1e30, 3e9):
        for size in (0, 1, 400):
            env = {}
            for f in s.facts:
                for x in subterms(f):
                    if x.op == "init" and x.a[0].op == "P" and str(x.a[0].a[0]).startswith("num"):
                        env[x] = num
                    elif x.op == "size" and mentions(x, lambda y: y.op == "P" and str(y.a[0]).startswith("o")):
                        env[x] = size
            ok = all(fits([(f, w)], env) is True for f, w in s.facts.items() if mentions(f, lambda x: x in env))
            rest = [f for f in s.facts if not mentions(f, lambda x: x in env)]
            if ok and env and not any(f.op not in ("isa", "nonnull") for f in rest):
                return True
    return False


def decoder(ctx):
    """literals: what happens before the first character, for the empty one"""
    for fn in ctx.fns("stl2ps::NewQuote"):
        eng, ex = ctx.run(fn, {}, exact=True)
        if ex is None:
            continue
        src = mk("init", mk("P", fn["params"][0]["n"]))
        pre = {}
        for r in eng.loops.values():
            for root, v in r["pre"].store.items():
                if hasattr(v, "op") and v.op in ("i", "b"):
                    pre[mk("lv", r["key"], root)] = v.a[0]
        for kind, s, l in eng.aborts:
            certain = False
            for n in (2, 3, 400):
                env = {mk("size", src): n}
                for f in s.facts:
                    for x in subterms(f):
                        if x.op == "size" and x.a[0].op == "lv":
                            env[x] = n
                        elif x in pre:
                            env[x] = pre[x]
                certain = certain or all(fits([fw], env) is True for fw in s.facts.items())
            ends(ctx, ctx.where(fn), kind, l, certain, tries(ctx, [fn["key"]]))
        ctx.oblige(REXC, ctx.where(fn), True)


def library(ctx):
    """calls that throw on input, anywhere below the parse and the loading of models"""
    ctx.load()
    lx = c_syntax.Lexer(ctx)
    A = c_syntax.Actions(ctx)
    seen, todo = set(), []
    done = 0

    def scan(body, where, guarded):
        nonlocal done
        stack = [(body, guarded)]
        while stack:
            x, g = stack.pop()
            if isinstance(x, list):
                stack.extend((y, g) for y in x)
                continue
            if not isinstance(x, dict):
                continue
            if x.get("k") == "try":
                stack.append((x.get("b"), True))
                stack.extend((h.get("b"), g) for h in x.get("h", ()))
                continue
            f = x.get("f")
            if isinstance(f, dict) and "q" in f:
                done += 1
                q = f["q"]
                if q.startswith("std::") and base(q) in STO and not g:
                    ctx.oblige(REXC, "%s (line %s)" % (where, x.get("l")), False, "%s throws on input out of its range and nothing catches that" % base(q))
                fn = ctx.prog.functions.get(f.get("m"))
                if fn is not None and "body" in fn and not g:
                    todo.append(fn)
            stack.extend((v, g) for k, v in x.items() if isinstance(v, (dict, list)) and k != "f")
    for k in range(1, lx.sc.nrules + 1):
        for b in rulebody(lx, k):
            scan(b, lx.where(k), False)
    for k, b in A.cases.items():
        if k is not None:
            scan(b, "stl-to-ps/parser.y", False)
    for q in ("stl2ps::Parse", "stl2pslex"):
        todo.extend(fn for fn in ctx.prog.functions.values() if fn["q"] == q and "body" in fn)
    top = [fn for fn in ctx.prog.functions.values() if fn["q"] == "stl2ps::LoadFiles" and "body" in fn]
    if not tries(ctx, [f["key"] for f in top] + [f["key"] for f in ctx.prog.functions.values() if f["q"].endswith("ScriptToPS")]):
        todo.extend(top or [fn for fn in ctx.prog.functions.values() if fn["q"] == "stl2ps::STLFile::Make" and "body" in fn])
    while todo:
        fn = todo.pop()
        if fn["key"] in seen or generated(fn) and fn["q"] != "stl2pserror" or "/shim/" in fn.get("file", "") or fn.get("file", "").startswith("/usr"):
            continue
        seen.add(fn["key"])
        scan(fn["body"], ctx.where(fn), False)
        scan(fn.get("inits") or [], ctx.where(fn), False)
    ctx.functions.update(seen)
    ctx.extra["functions_below_the_parse"] = len(seen)
    ctx.extra["calls"] = done
    ctx.oblige(REXC, "stl-to-ps (calls below the parse and the loading of models)", True)


def driver(ctx):
    """Parse itself"""
    fn = ctx.fn("stl2ps::Parse")
    eng, ex = ctx.run(fn, c_scan.contracts30())
    if ex is None:
        return
    caught = tries(ctx, [f["key"] for f in ctx.prog.functions.values() if f["q"].endswith("ScriptToPS")])
    for kind, s, l in eng.aborts:
        certain = all(f.op in ("eq", "lt", "nonnull") and mentions(f, lambda x: x.op == "parsed") for f in s.facts)
        ends(ctx, ctx.where(fn), kind, l, certain, caught)
    ctx.oblige(REXC, ctx.where(fn), True)


def c39(ctx):
    ctx.rule("paths of the scanner's number rules judged in the scenarios of a text too large for a float: each such path has to report and reject; no path of a scanner rule, "
             "of an action over any form of the grammar or of Parse ends in an exception or a failed CHECK that input can bring about; call graph below the parse and below the loading of models without uncaught calls to "
             "library conversions that throw on input out of range")
    for f in (numbers, scanner, decoder, parser, library, driver):
        partial(ctx, f)
