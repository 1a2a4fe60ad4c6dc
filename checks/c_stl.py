"""C22-C25, C44: reading and indexing meshes."""
from common import *
from c_flow import NS
from poly import poly, padd, pmul, peq, const, atoms
import rx

MAKE = NS + "STLFile::Make"
R22 = "every line is recognised and the stream is read to its end"
R23 = "a facet is its own three vertices and its own normal"

# numbers as strtod takes them, and the least every reader has to take
NUM = (r"[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|[-+]?([iI][nN][fF]([iI][nN][iI][tT][yY])?|[nN][aA][nN](\([a-zA-Z0-9_]*\))?)"
       r"|[-+]?0[xX]([0-9a-fA-F]+(\.[0-9a-fA-F]*)?|\.[0-9a-fA-F]+)([pP][-+]?[0-9]+)?")
MINNUM = r"-?([0-9]+(\.[0-9]*)?|\.[0-9]+)(e-?[0-9]+)?"
INT = r"[-+]?[0-9]+"
SP = r"[ \t\r\f\v]"
# class of line: (the least that has to be taken, the most that may be)
LINES = {
    "solid": (r" *(end)?solid( .*)?", SP + r"*(end)?solid(" + SP + r".*)?"),
    "loop": (r" *(outer loop|endloop) *", SP + "*(outer" + SP + "+loop|endloop)" + SP + "*"),
    "facet": (r" *facet normal +N +N +N *", SP + "*facet" + SP + "+normal" + (SP + "+M") * 3 + SP + "*"),
    "endfacet": (r" *endfacet *", SP + "*endfacet" + SP + "*"),
    "vertex": (r" *vertex +N +N +N *", SP + "*vertex" + (SP + "+M") * 3 + SP + "*"),
}
_spec = {}


def spec(cls, most):
    k = (cls, most)
    if k not in _spec:
        s = LINES[cls][1 if most else 0]
        _spec[k] = rx.rx(s.replace("N +", "(%s) +" % MINNUM).replace("N *", "(%s) *" % MINNUM).replace("M", "(?:%s)" % NUM))
    return _spec[k]


def union(most):
    return rx.Or(*[spec(c, most) for c in LINES])


KIND = {"d": NUM, "f": NUM, "i": INT}


def matchlang(t):
    """language of a fullmatch(line, re2(...), kinds) atom; raises rx.Bad"""
    r = t.a[1]
    pat = r.a[0] if r.op == "re2" and len(r.a) == 1 else r
    if pat.op != "s":
        raise rx.Bad("the pattern is %r" % (pat,))
    ps = pat.a[0]
    tree = rx.parse(ps)
    if t.op == "partmatch":
        anyc = ("rep", ("set", rx.ALL), 0, None)
        tree = ("cat", ([] if ps.startswith("^") else [anyc]) + [tree] + ([] if ps.endswith("$") and not ps.endswith("\\$") else [anyc]))
    kinds = t.a[2] if len(t.a) > 2 else ()
    if len(kinds) > rx.groups(tree):
        return rx.Lang(("set", 0))

    def con(i):
        return rx.parse(KIND[kinds[i]]) if i < len(kinds) and kinds[i] in KIND else None
    return rx.Lang(rx.constrain(tree, con))


def linelang(facts, ln):
    """What a path knows about the line ln: (automaton, positive?, what it cannot interpret)"""
    mine = [(f, v) for f, v in facts.items() if mentions(f, lambda x: x is ln)]
    k = (ln, frozenset(mine))
    if k not in _lang:
        _lang[k] = linelang1(mine, ln)
    return _lang[k]


_lang = {}
_outside = {}


def outside(a, b):
    k = (id(a), id(b))
    if k not in _outside:
        _outside[k] = (rx.outside(a, b), a, b)
    return _outside[k][0]


def linelang1(facts, ln):
    ls, pos, unk = [rx.Lang(rx.ANY)], False, []
    for f, v in facts:
        l = None
        try:
            if f.op == "bcall" and f.a[0].op in ("fullmatch", "partmatch") and f.a[0].a[0] is ln:
                l = matchlang(f.a[0])
                if v and len(f.a[0].a) > 2 and any(k not in KIND for k in f.a[0].a[2]):
                    unk.append("what becomes of the text captured by %r" % (f.a[0].a[1],))
            elif f.op == "eq" and ln in f.a and any(x.op == "s" for x in f.a):
                l = rx.lit([x for x in f.a if x.op == "s"][0].a[0])
            elif f.op == "eq" and any(x.op == "size" and x.a[0] is ln for x in f.a) and any(x.op == "i" for x in f.a):
                l = rx.Lang(("rep", ("set", rx.ALL), int([x for x in f.a if x.op == "i"][0].a[0]), int([x for x in f.a if x.op == "i"][0].a[0])))
            elif f.op == "starts" and f.a[0] is ln and f.a[1].op == "s":
                l = rx.prefix(f.a[1].a[0])
            elif f.op == "bcall" and f.a[0].op == "starts" and f.a[0].a[0] is ln and f.a[0].a[1].op == "s":
                l = rx.prefix(f.a[0].a[1].a[0])
        except rx.Bad as x:
            unk.append(str(x))
            continue
        if l is None:
            if any(x.op == "cap" for x in subs(f)) and not unk and not mentions(f, lambda x: x.op in ("fullmatch", "partmatch")):
                continue        # about the value of a number, not the shape of the line
            unk.append(repr(f))
            continue
        pos = pos or v
        ls.append(l if v else rx.Not(l))
    return rx.And(*ls), pos, unk


def reads(st, inroot, head=None):
    """the lines read so far, oldest first, from the value of the stream; None when it is not a chain of getline calls"""
    v = st.store.get(inroot)
    out = []
    while v is not None and v.op == "getl":
        out.append(v)
        v = v.a[1]
    return list(reversed(out))


def make_engine(ctx, facet):
    fn = ctx.fn(MAKE)
    con = {}
    for k in indexers(ctx):
        con[k["q"]] = c_index

    def c_facet(eng, st, f, ol, args, e):
        if len(args) != 2:
            return None
        n, v = [eng.read(st, a[1]) if a[0] == "l" else eng.argval(st, a, False) for a in args]
        t = mk("facet", n, v)
        eng.event(st, "facet", n, v, e.get("l"))
        return [(st, t)]
    if facet:
        con["ctor " + NS + "Facet"] = c_facet
    con.update(getattr(ctx, "extracon", {}))
    eng, ex = ctx.run(fn, con, keyfacts=("has", "isa", "bcall"))
    return fn, eng, ex


def indexers(ctx):
    """the methods of STLFile that build the facet-to-edge table"""
    out = []
    for f in ctx.prog.functions.values():
        if f["q"].startswith(NS + "STLFile::") and "body" in f and not f["f"].get("const") and not f.get("ctor"):
            if any(n.get("k") == "mem" and n.get("q") == NS + "STLFile::face_edge" for n in walk(f["body"])):
                out.append(f)
    return out


def c_index(eng, st, f, ol, args, e):
    v = eng.read(st, ol)
    eng.event(st, "index", eng.ptr(ol), proj(v, "facets"), e.get("l"))
    for n in ("edges", "face_edge", "unseen"):
        eng.write(st, (ol[0], tuple(ol[1]) + (n,)), mk("indexed", n, proj(v, "facets")))
    return [(st, VOID)]


def inparam(fn):
    for p in fn["params"]:
        if "istream" in p["tt"]:
            return mk("P", p["n"])
    return None


def readloops(eng, inroot):
    out = []
    for k, r in eng.loops.items():
        if any(root is inroot for root, _ in r["changed"]) and r["steps"]:
            out.append((k, r))
    return out


def ptrnull(v):
    return v is not None and hasattr(v, "op") and v.op == "null"


def c22(ctx):
    ctx.rule("the patterns of every path through the reading loop are turned into automata (numbers restricted to what converts); the lines on which the loop "
             "goes on must be within the documented lines, no documented line may lead to an unconditional rejection, and a mesh may only be returned after "
             "getline has failed and the stream is not bad.")
    ctx.load()
    fn, eng, ex = make_engine(ctx, True)
    if ex is None:
        return
    w = ctx.where(fn)
    inr = inparam(fn)
    loops = readloops(eng, inr) if inr else []
    if not loops:
        ctx.undecide("%s: no loop reads the stream line by line" % w)
        return
    most = union(True)
    for key, r in loops:
        if not all(reads(b, inr) for _, b in r["steps"]):
            ctx.undecide("%s: a turn of the loop does not read one line with getline" % ctx.where(fn, r["line"]))
            continue
        wl = ctx.where(fn, r["line"])
        taken, vagueline = [], []
        for h, b in r["steps"]:
            for g in reads(b, inr):
                ln = mk("line", g)
                if b.facts.get(mk("iofail", g)) is True:
                    continue
                lang, pos, unk = linelang(b.facts, ln)
                try:
                    x = outside(lang, most)
                except rx.Bad as e:
                    ctx.undecide("%s: %s" % (wl, e))
                    continue
                vagueline.extend(unk)
                taken.append(lang)
                if x is None:
                    ctx.oblige(R22, wl, True)
                elif unk:
                    ctx.oblige(R22, wl, None, "whether only recognised lines are passed depends on %s" % unk[0][:200])
                else:
                    ctx.oblige(R22, wl, False, "reading goes on after the line %r, which is not one of the recognised lines" % x, describe(b))
        # every documented line is taken by some turn
        try:
            for c in LINES:
                x = rx.find(rx.And(spec(c, False), *[rx.Not(l) for l in {id(l): l for l in taken}.values()]))
                if x is None:
                    ctx.oblige(R22, wl, True)
                elif vagueline:
                    ctx.oblige(R22, wl, None, "whether every recognised line is taken depends on %s" % vagueline[0][:200])
                else:
                    ctx.oblige(R22, wl, False, "the line %r is one of the recognised lines but is never taken" % x)
        except rx.Bad as e:
            ctx.undecide("%s: %s" % (wl, e))
    done = 0
    for x in ex:
        if x.val is None or not hasattr(x.val, "op"):
            continue
        if ptrnull(x.val):
            continue
        done += 1
        rd = reads(x.st, inr)
        ok = [v for f, v in x.st.facts.items() if f.op == "iofail" and rd and f.a[0] is rd[-1]]
        eof = bad = None
        for f, v in x.st.facts.items():
            if f.op == "ioget":
                if f.a[0] == "bad" or getattr(f.a[0], "a", (None,))[0] == "bad":
                    bad = v
                elif f.a[0] == "eof" or getattr(f.a[0], "a", (None,))[0] == "eof":
                    eof = v
        if not rd:
            ctx.oblige(R22, w, None, "a mesh is returned without a line having been asked for")
            continue
        if ok and ok[0] is False:
            ctx.oblige(R22, w, False, "a mesh is returned before the stream has been read to its end", describe(x.st))
        elif not ok:
            ctx.oblige(R22, w, None, "the end of the stream is not tested with getline")
        elif bad is False or (eof is True and bad is not True):
            ctx.oblige(R22, w, True)
        else:
            ctx.oblige(R22, w, False, "a mesh is returned although the stream may have failed while it was read", describe(x.st))
    if not done:
        ctx.undecide("%s: no path returns a mesh" % w)


# ---------------------------------------------------------------- C23
TOP = mk("top")
UNK = mk("unk")
PCUR0, PCUR = mk("P0"), mk("P+")


def classify(b, inr):
    """class of the line(s) read in one turn"""
    rd = [g for g in reads(b, inr) if b.facts.get(mk("iofail", g)) is not True]
    if len(rd) != 1:
        return None, None
    ln = mk("line", rd[0])
    lang, pos, unk = linelang(b.facts, ln)
    try:
        if rx.find(lang) is None:
            return "none", ln
        for c in LINES:
            if outside(lang, spec(c, True)) is None:
                return c, ln
    except rx.Bad:
        pass
    return None, ln


def c23(ctx):
    ctx.rule("the reading loop is abstracted to a finite automaton over the class of each line and the ghost state of every loop-carried variable (captures of "
             "the current facet line, vertices since it, constants, unknown); every reachable state in which a facet is stored, or dropped, is inspected.")
    ctx.load()
    fn, eng, ex = make_engine(ctx, True)
    if ex is None:
        return
    inr = inparam(fn)
    loops = readloops(eng, inr) if inr else []
    n = 0
    for key, r in loops:
        w = ctx.where(fn, r["line"])
        try:
            n += ghost(ctx, eng, fn, key, r, inr, w)
        except rx.Bad as x:
            ctx.undecide("%s: %s" % (w, x))
    if not n:
        ctx.undecide("%s: no loop that stores facets was understood" % ctx.where(fn))


def lvars(t, key):
    return {x for x in subs(t) if x.op == "lv" and x.a[0] == key}


def newval(b, h, v):
    """value of the loop-carried v = lv(key, root, *path) at the end of a turn"""
    root, path = v.a[1], v.a[2:]
    x = b.store.get(root)
    if x is None:
        return TOP
    for f in path:
        x = proj(x, f)
    return x


def isz(t):
    """the zero vector"""
    return t.op == "rec" and all(proj(t, c) in (I(0), FZ) for c in "xyz")


FZ = mk("f", 0)


def ghost(ctx, eng, fn, key, r, inr, w):
    stores = []
    steps = []
    for h, b in r["steps"]:
        evs = [ev for ev in b.trace if ev[0] == "facet"] if b.trace else []
        evs = [ev for ev in evs if ev not in (h.trace or ())]
        steps.append((h, b, evs))
        stores.extend(evs)
    if not stores:
        return 0
    vs = set()
    for h, b, evs in steps:
        for ev in evs:
            vs |= lvars(ev[1], key) | lvars(ev[2], key)
        for f in b.facts:
            if not mentions(f, lambda x: x.op == "getl"):
                vs |= lvars(f, key)
    pvars = {ev[2] for ev in stores if ev[2].op == "lv"}
    for ev in stores:
        if ev[2].op == "seq":
            for x in ev[2].a[1]:
                if x.op == "elem" and x.a[0].op == "lv":
                    pvars.add(x.a[0])
    if len(pvars) != 1:
        ctx.oblige(R23, w, None, "the corners of a facet come from %r" % (sorted(map(repr, pvars))[:3],))
        return 0
    pv = pvars.pop()
    # constants that tell the states of the loop apart
    for h, b in r["steps"]:
        for root, x in h.store.items():
            if x.op == "b" and b.store.get(root) is not x:
                vs.add(mk("lv", key, root))
    vs = sorted(vs - {pv}, key=lambda t: t.id)
    # abstract steps
    turns = []
    for h, b, evs in steps:
        cls, ln = classify(b, inr)
        if cls == "none":
            continue
        if cls is None:
            ctx.oblige(R23, w, None, "the kind of line a turn of the loop reads is not known")
            return 0
        caps = {}
        for t in [x for v in b.store.values() for x in subs(v) if x.op == "cap" and x.a[0] is ln]:
            caps[t] = t.a[2]
        g = {f: v for f, v in b.facts.items() if lvars(f, key) and not mentions(f, lambda x: x.op == "getl")}
        turns.append((cls, ln, h, b, evs, g))
    start = r["pre"]

    def initial(v):
        x = start.store.get(v.a[1]) if start is not None and hasattr(start, "store") else None
        if x is None:
            return TOP
        for f in v.a[2:]:
            x = proj(x, f)
        return x
    vals = {v: norm_abs(initial(v)) for v in vs}
    p0 = initial(pv)
    init = (tuple(vals[v] for v in vs), p0 if p0 is EMPTYSEQ or (p0.op == "seq" and not p0.a[1]) else TOP, False)
    if init[1] is not TOP:
        init = (init[0], EMPTYSEQ, False)
    seen, q = {init: None}, [init]
    nst = 0
    while q:
        s = q.pop()
        env = dict(zip(vs, s[0]))
        for tn in turns:
            cls, ln, h, b, evs, g = tn
            if not feasible(g, env, pv, s[1]) or not at_head(h, vs, pv, env, s[1]):
                continue
            tenv = dict(env)
            for f, v in g.items():
                if v and f.op == "eq" and len(f.a) == 2:
                    for x, y in (f.a, f.a[::-1]):
                        if x in tenv and is_const(y):
                            tenv[x] = y
            # the facet that is stored, if any
            opened = s[2]
            p = s[1]
            for ev in evs:
                nst += 1
                okn = cmp_norm(ev[1], env)
                corners = corner_ids(ev[2], pv)
                sz = [v for f, v in b.facts.items() if f.op == "eq" and any(x.op == "size" and x.a[0] is pv for x in f.a) and I(3) in f.a]
                where = ctx.where(fn, ev[-1])
                if len(evs) > 1:
                    ctx.oblige(R23, where, False, "one line stores %d facets" % len(evs), path(seen, s, tn))
                if okn is None:
                    ctx.oblige(R23, where, None, "the normal is %r" % (ev[1],))
                else:
                    ctx.oblige(R23, where, okn, "a facet is stored with a normal that is not the one of its own facet line", path(seen, s, tn))
                other = [f for f in g if not mentions(f, lambda x: x is pv) and not (f.op == "eq" and any(isz(x) for x in f.a))]
                counted = any(x.op == "size" and x.a[0] is pv for f in g for x in subs(f))
                bad = False if counted or not other else None
                ctx.oblige(R23, where, True if p in (PCUR, PCUR0) else None if p is UNK else bad, "a facet is stored with vertices that are not exactly those read since its facet line", path(seen, s, tn))
                if True not in sz:
                    ctx.oblige(R23, where, bad, "a facet is stored without its vertices having been counted to be three", path(seen, s, tn))
                else:
                    ctx.oblige(R23, where, corners == [0, 1, 2], "a facet is stored with the corners %s of the vertices read" % corners, path(seen, s, tn))
                ctx.oblige(R23, where, bool(opened), "a facet is stored although none was begun since the last one was stored", path(seen, s, tn))
            if cls == "endfacet" and opened is True and not evs:
                zero = any(v and f.op == "eq" and any(isz(x) for x in f.a) for f, v in b.facts.items())
                unk = [f for f, v in g.items() if not zero and not mentions(f, lambda x: x is pv) and not (f.op == "eq" and any(isz(x) for x in f.a))]
                ctx.oblige(R23, w, True if zero else (None if unk else False),
                           "a facet that was begun is dropped at its end without the file being rejected", path(seen, s, tn))
            # the next state
            nenv = []
            for v in vs:
                nenv.append(step_abs(newval(b, h, v), v, tenv, ln, cls, bool(evs)))
            np_ = step_pts(newval(b, h, pv), pv, newval(h, h, pv), p, ln, cls, bool(evs))
            null = cls == "facet" and any(v and f.op == "eq" and any(isz(x) for x in f.a) and mentions(f, lambda x: x.op == "cap" and x.a[0] is ln)
                                          for f, v in b.facts.items())
            no = "zero" if null else True if cls == "facet" else False if cls == "endfacet" else opened
            n = (tuple(nenv), np_, no)
            if n not in seen:
                seen[n] = (s, tn)
                q.append(n)
                if len(seen) > 5000:
                    ctx.undecide("%s: too many states" % w)
                    return nst
    ctx.extra["ghost states"] = len(seen)
    return nst


EMPTYSEQ = mk("seq", None, ())


def path(seen, s, last):
    out = [last]
    while seen[s] is not None:
        s, t = seen[s]
        out.append(t)
    return ["lines: " + ", ".join(t[0] for t in reversed(out))]


def is_const(t):
    return t.op in ("b", "i", "f", "s", "null") or (t.op == "rec" and all(is_const(x) for _, x in t.a[1])) or t is EMPTYSEQ


def norm_abs(t):
    return t if is_const(t) or mentions(t, lambda x: x.op in ("F", "V")) and not mentions(t, lambda x: x.op in ("cap", "lv")) else TOP


def step_abs(t, v, env, ln, cls, stored):
    """abstract value of a variable after a turn"""
    m = {}
    for x in subs(t):
        if x.op == "cap" and x.a[0] is ln:
            m[x] = mk("F" if cls == "facet" else "V", x.a[2])
    t = replace(t, m) if m else t
    m = {}
    lv = [x for x in subs(t) if x.op == "lv"]
    age = {}
    for x in lv:
        a = env.get(x)
        if a is None or a is TOP:
            return TOP
        if cls == "facet" or stored:
            am = {y: mk("F", "old") for y in subs(a) if y.op == "F"}
            a = replace(a, am) if am else a
        age[x] = a
    m.update(age)
    t = replace(t, m) if m else t
    return norm_abs(t)


def at_head(h, vs, pv, env, p):
    """can the ghost state be the one of a turn that starts in the state h?"""
    for v in vs:
        x = newval(h, h, v)
        if is_const(x) and env[v] is not TOP and (not is_const(env[v]) or not same_const(x, env[v])):
            return False
    x = newval(h, h, pv)
    return not (is_empty(x) and p is PCUR)


def is_empty(t):
    return t.op == "seq" and t.a[0] is None and not t.a[1]


def step_pts(t, pv, hv, p, ln, cls, stored):
    if t.op == "seq" and is_empty(hv) and t.a[0] is None and len(t.a[1]) == 1:
        t = mk("seq", pv, t.a[1])
    if stored and t is pv:
        return UNK if p is UNK else TOP
    if is_empty(t):
        if cls == "facet":
            return PCUR0
        return PCUR0 if p is PCUR0 and cls != "vertex" and cls != "endfacet" else EMPTYSEQ if cls in ("endfacet",) or p is EMPTYSEQ else TOP
    if t is pv:
        if cls == "facet":
            return PCUR0 if p is EMPTYSEQ or p is PCUR0 else UNK if p is UNK else TOP
        if cls == "vertex":
            return UNK if p is UNK else TOP
        return p
    if t.op == "seq" and t.a[0] is pv and len(t.a[1]) == 1 and cls == "vertex":
        x = t.a[1][0]
        c = [proj(x, k) for k in "xyz"]
        if all(k.op == "cap" and k.a[0] is ln and k.a[2] == i for i, k in enumerate(c)):
            return PCUR if p in (PCUR, PCUR0) else TOP
        if all(k.op == "cap" and k.a[0] is ln for k in c):
            return TOP
    return UNK


def feasible(g, env, pv, p):
    for f, v in g.items():
        m = {x: env[x] for x in subs(f) if x in env and env[x] is not TOP}
        if f in m:
            f2 = m[f]
        else:
            f2 = replace(f, m) if m else f
        if f2.op == "b" and f2.a[0] != v:
            return False
        if f2.op == "eq" and all(is_const(x) for x in f2.a):
            same = same_const(*f2.a)
            if same != v:
                return False
        if f.op == "eq" and any(x.op == "size" and x.a[0] is pv for x in f.a) and any(x.op == "i" for x in f.a):
            n = [x for x in f.a if x.op == "i"][0].a[0]
            if p in (PCUR0, EMPTYSEQ) and (n == 0) != v:
                return False
    return True


def same_const(a, b):
    if a.op == "rec" and b.op == "rec":
        return all(same_const(proj(a, c), proj(b, c)) for c in "xyz")
    return a.a[0] == b.a[0] if a.a and b.a and not hasattr(a.a[0], "op") else a is b


def cmp_norm(t, env):
    c = []
    for k in "xyz":
        x = proj(t, k)
        m = {y: env[y] for y in subs(x) if y in env}
        x = replace(x, m) if m else x
        if x.op not in ("F", "V", "top", "f", "i") and mentions(x, lambda y: y.op not in ("F", "V", "top", "f", "i")):
            x = proj(replace(t, {y: env[y] for y in subs(t) if y in env}), k)
        c.append(x)
    return all(x is mk("F", i) for i, x in enumerate(c))


def corner_ids(t, pv):
    if t is pv:
        return [0, 1, 2]
    if t.op == "seq":
        r = []
        for x in t.a[1]:
            if x.op == "elem" and x.a[0] is pv and x.a[1].op == "idx" and x.a[1].a[0].op == "i":
                r.append(int(x.a[1].a[0].a[0]))
            else:
                return None
        return sorted(r)
    return None


# ---------------------------------------------------------------- C44
R44 = "the plane of a facet is the one through its corners"


def coords(t, memo):
    """x, y, z of a vector term as polynomials over coordinate atoms, normalised vectors as atoms; None when beyond the rules"""
    if t in memo:
        return memo[t]
    o = t.op
    r = None
    if o == "rec" and t.a[0] == "vec":
        r = [poly(proj(t, c)) for c in "xyz"]
    elif o in ("+", "-") and len(t.a) == 2:
        a, b = coords(t.a[0], memo), coords(t.a[1], memo)
        r = a and b and [padd(x, y, 1 if o == "+" else -1) for x, y in zip(a, b)]
    elif o == "sv" and len(t.a) == 2:
        v = coords(t.a[1], memo)
        k = scalar(t.a[0], memo)
        r = v and k is not None and [pmul(k, x) for x in v]
    elif o == "vs" and len(t.a) == 2:
        v = coords(t.a[0], memo)
        k = scalar(mk("/", I(1), t.a[1]), memo)
        r = v and k is not None and [pmul(k, x) for x in v]
    elif o == "neg":
        v = coords(t.a[0], memo)
        r = v and [padd({}, x, -1) for x in v]
    elif o == "cross":
        a, b = coords(t.a[0], memo), coords(t.a[1], memo)
        r = a and b and cross(a, b)
    elif o in ("elem", "lv", "init", "normalized", "mapped", "proj"):
        r = [{((mk("co", t, i), 1),): const(1)[()]} for i in range(3)]
    memo[t] = r or None
    return memo[t]


def cross(a, b):
    return [padd(pmul(a[(i + 1) % 3], b[(i + 2) % 3]), pmul(a[(i + 2) % 3], b[(i + 1) % 3]), -1) for i in range(3)]


def scalar(t, memo):
    o = t.op
    if o in ("i", "f"):
        return poly(t)
    if o in ("+", "-") and len(t.a) == 2:
        a, b = scalar(t.a[0], memo), scalar(t.a[1], memo)
        return None if a is None or b is None else padd(a, b, 1 if o == "+" else -1)
    if o == "neg":
        a = scalar(t.a[0], memo)
        return None if a is None else padd({}, a, -1)
    if o in ("*",) and len(t.a) == 2:
        a, b = scalar(t.a[0], memo), scalar(t.a[1], memo)
        return None if a is None or b is None else pmul(a, b)
    if o == "/" and len(t.a) == 2 and t.a[1].op in ("i", "f"):
        a = scalar(t.a[0], memo)
        return None if a is None else pmul(a, {(): 1 / poly(t.a[1])[()]})
    if o == "dot":
        a, b = coords(t.a[0], memo), coords(t.a[1], memo)
        if not a or not b:
            return None
        r = {}
        for x, y in zip(a, b):
            r = padd(r, pmul(x, y))
        return r
    if o in ("proj", "lv", "init") and len(t.a) > 1 and t.a[-1] in ("x", "y", "z"):
        v = coords(t.a[0] if o == "proj" else mk(o, *t.a[:-1]), memo)
        return v and v["xyz".index(t.a[-1])]
    return None


def psame(a, b, k=1):
    return all(peq(x, padd({}, y, k)) for x, y in zip(a, b))


def pequal(a, b):
    return peq(a, b)


def c44(ctx):
    ctx.rule("for every path that stores a facet the stored normal is written as a signed normalised vector and its direction, the order of the stored corners and "
             "the offset are compared as polynomials in the coordinates of the three vertices read; the sign must follow from the tested side of the given normal.")
    ctx.load()
    fn, eng, ex = make_engine(ctx, False)
    if ex is None:
        return
    n = 0
    for key, r in eng.loops.items():
        for h, b in r["steps"]:
            for root, v in b.store.items():
                if root.op != "H" or v.op not in ("rec", "upd") or h.store.get(root) is v:
                    continue
                f = proj(v, "facets")
                if f.op != "seq" or not f.a[1]:
                    continue
                for fc in f.a[1]:
                    n += 1
                    plane(ctx, ctx.where(fn, r["line"]), fc, b, key)
    if not n:
        ctx.undecide("%s: no stored facet was understood" % ctx.where(fn))


def plane(ctx, w, fc, b, key):
    norm, edge, off = proj(fc, "norm"), proj(fc, "edge"), proj(fc, "r")
    if edge.op != "seq" or edge.a[0] is not None or len(edge.a[1]) != 3:
        ctx.oblige(R44, w, None, "the corners are %r" % (edge,))
        return
    memo = {}
    e = [coords(x, memo) for x in edge.a[1]]
    sgn, base = 1, norm
    while base.op in ("sv", "neg"):
        if base.op == "neg":
            sgn, base = -sgn, base.a[0]
        elif base.a[0].op in ("i", "f") and abs(base.a[0].a[0]) == 1:
            sgn, base = sgn * int(base.a[0].a[0]), base.a[1]
        else:
            break
    if base.op in ("sv", "vs", "cross", "+", "-"):
        d = coords(base, memo)
        cr0 = e and all(e) and cross([padd(x, y, -1) for x, y in zip(e[1], e[0])], [padd(x, y, -1) for x, y in zip(e[2], e[0])])
        if d and cr0 and (psame(d, cr0) or psame(d, cr0, -1)):
            ctx.oblige(R44, w, False, "the stored normal is not made a unit vector", describe(b))
            return
    if base.op != "normalized" or not all(e):
        ctx.oblige(R44, w, None, "the normal is %r" % (norm,))
        return
    d = coords(base.a[0], memo)
    if d is None:
        ctx.oblige(R44, w, None, "the normal is %r" % (norm,))
        return
    cr = cross([padd(x, y, -1) for x, y in zip(e[1], e[0])], [padd(x, y, -1) for x, y in zip(e[2], e[0])])
    same, opp = psame(d, cr), psame(d, cr, -1)
    if not same and not opp:
        ctx.oblige(R44, w, False, "the stored normal %r is not perpendicular to the sides of the stored triangle" % (norm,), describe(b))
        return
    ok = same and sgn == 1 or opp and sgn == -1
    ctx.oblige("the corners turn counterclockwise seen from where the normal points", w, ok,
               "the stored corners turn clockwise seen from where the stored normal %r points" % (norm,), describe(b))
    # the side of the given normal: the sign of (given normal . direction) follows from a comparison with zero;
    # normalized(v) is v times something positive, so it counts as v here
    side, unclear = None, False
    want = [padd({}, x, sgn) for x in d]
    m2 = {}
    for f, v in b.facts.items():
        if f.op not in ("lt", "le", "eq") or not mentions(f, lambda x: x.op in ("dot", "cross", "normalized", "co", "comp")):
            continue
        if f.op == "eq":
            continue
        z = [x for x in f.a if x.op in ("i", "f") and not x.a[0]]
        t = [x for x in f.a if x not in z]
        q = len(z) == 1 and scalar(strip(t[0]), m2)
        if not q:
            unclear = True
            continue
        neg = v if f.a[0] is t[0] else not v
        for n in normals(t[0]):
            c = coords(n, m2)
            dt = {}
            for x, y in zip(c, want):
                dt = padd(dt, pmul(x, y))
            for k in (1, -1):
                if peq(q, padd({}, dt, k)):
                    side = (-1 if neg else 1) * k
    if side is None:
        ctx.oblige(R44, w, None if unclear else False, "the stored normal does not depend on the side the file's normal points to", describe(b))
    else:
        ctx.oblige("the stored normal is on the side of the file's normal", w, side == 1,
                   "the stored normal points to the other side than the file's normal", describe(b))
    # the offset: an affine combination of norm . corner
    nv = coords(norm, memo)
    o = scalar(off, memo)
    if o is None or nv is None:
        ctx.oblige("the offset is that of the corners", w, None, "the offset is %r" % (off,))
        return
    # o must be sum w_i (nv . e_i), sum w_i = 1
    dots = []
    for x in e:
        q = {}
        for p_, c in zip(nv, x):
            q = padd(q, pmul(p_, c))
        dots.append(q)
    ws = []
    for q in dots:
        m = next(iter(q))
        ws.append(o.get(m, 0) / q[m])
    tot = {}
    for q, k in zip(dots, ws):
        tot = padd(tot, q, k)
    good = peq(tot, o) and abs(sum(ws) - 1) < TOLW
    ctx.oblige("the offset is that of the corners", w, good, "the offset %r is not the normal times a point of the facet" % (off,), describe(b))


TOLW = 1e-9


def strip(t):
    return replace(t, {x: x.a[0] for x in subterms(t) if x.op == "normalized"})


def normals(t):
    return {x for x in subterms(t) if x.op in ("lv", "elem", "init", "proj")}
