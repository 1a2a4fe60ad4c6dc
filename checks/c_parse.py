"""C27-C31: the grammar and what its actions build."""
import itertools
import re
from common import *
from c_syntax import Lexer, Terminals, Actions, SAMPLE, label
import grammar
from engine import Undecided
from grammar import Grammar, Lalr

DIMS = ("angle", "dia", "dim", "rad")
# the documented grammar, over the token classes of c_syntax.TOKENS
SPEC = [
    ("input", ()), ("input", ("input", "model")), ("input", ("input", "page")),
    ("model", ("load", "ID", "'='", "STRING", "';'")),
    ("page", ("page", "'{'", "page_parts", "'}'")),
    ("page_parts", ()),
    ("page_parts", ("page_parts", "arg", "';'")),
    ("page_parts", ("page_parts", "draw", "ID", "'{'", "draw_parts", "'}'")),
    ("page_parts", ("page_parts", "text", "'['", "string", "']'", "'{'", "text_parts", "'}'")),
    ("text_parts", ()), ("text_parts", ("text_parts", "arg", "';'")),
    ("draw_parts", ()), ("draw_parts", ("draw_parts", "arg", "';'")),
] + [("draw_parts", ("draw_parts", k, "'('", "')'", "';'")) for k in DIMS] + [
    ("draw_parts", ("draw_parts", k, "'('", "dim_parts", "')'", "';'")) for k in DIMS] + [
    ("dim_parts", ("arg",)), ("dim_parts", ("dim_parts", "','", "arg")),
    ("arg", ("ID", "'='", "string")), ("arg", ("ID", "'='", "point_")), ("arg", ("ID", "'='", "NUM")),
    ("arg", ("ID", "'='", "location")), ("arg", ("ID", "'='", "NUM", "':'", "NUM")), ("arg", ("'@'", "location")),
    ("string", ("STRING",)), ("string", ("string", "STRING")),
    ("location", ("'['", "NUM", "','", "NUM", "']'")),
    ("point_", ("'['", "NUM", "','", "NUM", "','", "NUM", "']'")), ("point_", ("ID", "'('", "point_", "')'")),
]
# nonterminals that share a name with a keyword carry another one here
SPECNAME = {"page": "a_page"}
R27 = "the grammar accepts exactly the documented scripts"


def specgrammar():
    nts = {l for l, _ in SPEC}
    ren = {n: SPECNAME.get(n, n) for n in nts}
    out = []
    for i, (l, r) in enumerate(SPEC):
        # 'page' at the head of its own production is the keyword
        rr = tuple(x if l == "page" and x == "page" else ren.get(x, x) for x in r)
        out.append((ren[l], rr, i + 1))
    return Grammar(out, "input")


def classes(ctx):
    """token class -> name of the terminal of the generated parser"""
    lx = Lexer(ctx)
    tm = Terminals(ctx.tree)
    out = {}
    for cls, w in SAMPLE.items():
        if cls in ("skip", "error"):
            continue
        s = lx.sc.start()
        for b in w:
            s = lx.sc.step(s, b)
        c = label(lx, tm, lx.sc.accept(s), w) if s is not None else None
        if c is None or c[0] != "tok" or c[1] not in tm.byno:
            raise Undecided("the token for %r cannot be told" % w.decode())
        out[cls] = tm.byno[c[1]]
    if len(set(out.values())) != len(out):
        raise Undecided("different tokens share a code")
    return out


def callsets(g):
    """the smallest sets of nonterminals without which the grammar is regular"""
    rec = sorted(set().union(*[c for c, _ in g.sccs(())] or [set()]))
    for n in range(0, 4):
        r = [set(c) for c in itertools.combinations(rec, n) if g.regular(set(c))]
        if r:
            return r
    return []


def contexts(g):
    """shortest surroundings of every nonterminal in a sentence"""
    short_ = g.shortest()
    ctxs = {g.start: ((), ())}
    ch = True
    while ch:
        ch = False
        for l, r, _ in g.prods:
            if l not in ctxs:
                continue
            for i, x in enumerate(r):
                if x in g.by and all(y not in g.by or y in short_ for y in r):
                    pre = ctxs[l][0] + yields(g, short_, r[:i])
                    post = yields(g, short_, r[i + 1:]) + ctxs[l][1]
                    if x not in ctxs or len(pre) + len(post) < len(ctxs[x][0]) + len(ctxs[x][1]):
                        ctxs[x] = (pre, post)
                        ch = True
    return ctxs


def yields(g, short_, r):
    return sum((short_[x] if x in g.by else (x,) for x in r), ())


def sentences(g):
    """a sentence for every production and for every production inside another"""
    sh, cx = g.shortest(), contexts(g)
    seen = set()
    for l, r, n in g.prods:
        if l not in cx or not all(x not in g.by or x in sh for x in r):
            continue
        a, b = cx[l]
        forms = [r]
        for i, x in enumerate(r):
            for r2, _ in g.by.get(x, ()):
                forms.append(r[:i] + r2 + r[i + 1:])
                for j, y in enumerate(r2):
                    for r3, _ in g.by.get(y, ()):
                        forms.append(r[:i] + r2[:j] + r3 + r2[j + 1:] + r[i + 1:])
        for f in forms:
            if all(x not in g.by or x in sh for x in f):
                s = a + yields(g, sh, f) + b
                if s not in seen:
                    seen.add(s)
                    yield n, s


def spell(cls):
    return {"ID": "x", "NUM": "1", "STRING": '"s"'}.get(cls, cls.strip("'"))


def say(word):
    return " ".join(spell(x) for x in word)


class Syntax(object):
    """documented and implemented grammar over the same alphabet"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.cls = classes(ctx)
        self.back = {v: k for k, v in self.cls.items()}
        self.lalr = Lalr(ctx.tree.tmp + "/parser.xml")
        self.eof = [n for n, k in self.lalr.terms.items() if k == 0][0]
        self.spec = specgrammar()
        g = self.lalr.grammar()
        # nonterminals may be spelt like token classes
        self.impl = Grammar([("~" + l, tuple("~" + x if x in g.by else self.back.get(x, x) for x in r), n) for l, r, n in g.prods], "~" + g.start)

    def accepts(self, word):
        return self.lalr.accepts([self.cls.get(x, x) for x in word], self.eof)

    def rule(self, n):
        l, r = self.lalr.rule[n]
        return "%s: %s" % (l, " ".join(r) or "(nothing)")


def c27(ctx):
    ctx.rule("the tables bison built are read from its XML report: no unresolved conflict; sentences of the documented grammar for every production in every place must be accepted "
             "and sentences of the implemented grammar documented (both decided on the tables); equality is proved on the determinised automata of both grammars, "
             "with the self-embedding nonterminal taken for a symbol; no action accepts or rejects on its own but for a ratio's numbers.")
    sy = Syntax(ctx)
    L = sy.lalr
    ctx.extra.update(states=len(L.states), productions=len(L.rules), documented_productions=len(SPEC))
    for n, sym, rule in L.conflicts:
        ctx.oblige("the grammar is unambiguous", "stl-to-ps/parser.y", False,
                   "in state %d on %s the grammar has two readings; %s is dropped silently" % (n, sym, sy.rule(int(rule)) if rule.isdigit() else rule))
    if not L.conflicts:
        ctx.oblige("the grammar is unambiguous", "stl-to-ps/parser.y", True)
    bad = False
    count = 0
    for n, s in sentences(sy.spec):
        count += 1
        if not sy.accepts(s):
            l, r, _ = sy.spec.prods[n - 1]
            ctx.oblige(R27, "stl-to-ps/parser.y", False, "the script  %s  is documented (%s: %s) but rejected" % (say(s), l, say(r)))
            bad = True
            if count > 40:
                break
    impl = sy.impl
    ok = {n for n in sy.cls}
    for n, s in sentences(impl):
        count += 1
        if any(x not in ok for x in s):
            if "error" in s:
                continue        # below
            continue
        if sy.accepts(s) and not sy.spec.earley(s):
            ctx.oblige(R27, "stl-to-ps/parser.y (%s)" % sy.rule(n), False, "the script  %s  is accepted but not documented" % say(s))
            bad = True
    ctx.extra.update(sentences=count)
    for l, r, n in L.rules:
        if "error" in r:
            ctx.oblige(R27, "stl-to-ps/parser.y (%s)" % sy.rule(n), False, "after a syntax error the parser goes on by this production and can accept a script that is none")
            bad = True
    if not bad:
        equality(ctx, sy)
    actions27(ctx, sy)


def equality(ctx, sy):
    if sy.lalr.solved:
        ctx.undecide("conflicts solved by precedence in states %s: the tables may accept less than the grammar" % ", ".join(str(n) for n, _ in sy.lalr.solved[:5]))
        return
    if sy.lalr.conflicts:
        return
    a, b = sy.spec, sy.impl
    # nonterminals only: unreachable ones do not matter
    sa, sb = callsets(a), callsets(b)
    worst = None
    for ca in sa:
        for cb in sb:
            if len(ca) != len(cb):
                continue
            for perm in itertools.permutations(sorted(cb)):
                ra = {x: "<%d>" % i for i, x in enumerate(sorted(ca))}
                rb = {x: "<%d>" % i for i, x in enumerate(perm)}
                pairs = [(a.start, b.start)] + list(zip(sorted(ca), perm))
                n = 0
                diff = []
                for x, y in pairs:
                    d, k = grammar.differences(a.nfa(x, ca, ra), b.nfa(y, set(cb), rb))
                    n += k
                    diff += [(w, acc, x, y) for w, acc in d]
                if not diff:
                    ctx.oblige(R27, "stl-to-ps/parser.y", True)
                    ctx.extra.update(states_compared=n, selfembedding=", ".join(perm).replace("~", ""))
                    return
                if worst is None or len(diff) < len(worst[0]):
                    worst = (diff, ca, perm)
    if worst is None:
        ctx.undecide("the grammar nests differently from the documented one: equality is not shown (no difference was found)")
        return
    # words in one language only: complete them to scripts and let the tables decide
    diff, ca, perm = worst
    sha, shb, cxa, cxb = a.shortest(), b.shortest(), contexts(a), contexts(b)
    for w, acc, x, y in diff[:60]:
        g, sh, cx, names, top = (a, sha, cxa, sorted(ca), x) if acc else (b, shb, cxb, list(perm), y)
        names = {"<%d>" % i: z for i, z in enumerate(names)}
        s = cx[top][0] + sum((sh[names[t]] if t in names else (t,) for t in w), ()) + cx[top][1]
        if any(t not in sy.cls for t in s):
            continue
        x1, x2 = a.earley(s), sy.accepts(s)
        if x1 != x2:
            ctx.oblige(R27, "stl-to-ps/parser.y", False, "the script  %s  is %s" % (say(s), "documented but rejected" if x1 else "accepted but not documented"))
            return
    ctx.undecide("equality with the documented grammar is not shown (no difference was found)")


def actions27(ctx, sy):
    """an action ends the parse, one way or the other, only for a ratio"""
    A = Actions(ctx)
    g = sy.impl
    for l, r, n in g.prods:
        syms = opaque(A, sy.lalr.rule[n][1])
        try:
            res = A.run(A.fresh(), n, syms)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (A.where(n, l[1:]), gaveup(x)))
            continue
        for x in res:
            how = ends(x)
            if how is None:
                ctx.oblige("no action decides over the script", A.where(n, l[1:]), True)
            elif how == "accept":
                ctx.oblige("no action decides over the script", A.where(n, l[1:]), False, "this action accepts the script here and now, whatever follows")
            elif how == "odd":
                ctx.undecide("%s: the action leaves by %r" % (A.where(n, l[1:]), x.ctl))
            else:
                ctx.oblige("no action decides over the script", A.where(n, l[1:]), "':'" in r,
                           "this action rejects a documented construct" + "".join("; " + d for d in describe(x.st, 3)))


def ends(x):
    """how an action leaves: None | accept | reject | odd"""
    if x.ctl is None:
        return None
    if x.ctl[0] == "ret" and hasattr(x.ctl[1], "op") and x.ctl[1].op == "goto":
        n = x.ctl[1].a[0]
        if n == "yyacceptlab":
            return "accept"
        if n in ("yyerrorlab", "yyabortlab", "yyerrlab", "yyerrlab1"):
            return "reject"
    if x.ctl[0] == "throw":
        return "reject"
    return "odd"


def opaque(A, r):
    out = []
    for i, x in enumerate(r):
        f = A.field(x)
        if f is None:
            v = rec("value", ())
        elif f[1]:
            v = rec("value", ((f[0], mk("ptr", mk("P", "o%d" % (i + 1)))),))
        else:
            v = rec("value", ((f[0], mk("init", mk("P", "num%d" % (i + 1)))),))
        out.append((v, mk("init", mk("P", "@%d" % (i + 1)))))
    return out


# ---------------------------------------------------------------- C28: what is built
R28 = "the parser builds exactly what is written"
LISTS = {"input", "page_parts", "draw_parts", "text_parts", "dim_parts", "string"}


def mapping(ctx, sy):
    """documented nonterminal -> implemented ones with the same language (same name first)"""
    a, b = sy.spec, sy.impl
    best = None
    for ca in callsets(a):
        for cb in callsets(b):
            if len(ca) == len(cb) == 1:
                x, y = list(ca)[0], list(cb)[0]
                if not grammar.differences(a.nfa(x, ca, {x: "<0>"}), b.nfa(y, cb, {y: "<0>"}))[0]:
                    best = (x, y)
    out = {}
    reach = b.reach()
    for s in a.by:
        same = "~" + {"a_page": "page", "point_": "point"}.get(s, s)
        if best:
            ra, rb = {best[0]: "<0>"}, {best[1]: "<0>"}
            out[s] = [t for t in sorted(reach) if not grammar.differences(a.nfa(s, {best[0]}, ra), b.nfa(t, {best[1]}, rb), 1)[0]]
            if s == best[0] and best[1] not in out[s]:
                out[s].append(best[1])
        else:
            out[s] = [same] if same in reach else []
        out[s].sort(key=lambda t: (t != same, t))
    return out


class Form(object):
    """a piece of script: its symbols and what has to come of it"""

    def __init__(self, word, kind, parts=(), opaque=None):
        self.word = word        # implemented symbols
        self.kind = kind        # documented production, or the nonterminal when opaque
        self.parts = parts      # forms of the symbols of the production
        self.opaque = opaque
        self.at = 0             # position of the first symbol, set by place()

    def place(self, at=0):
        f = Form(self.word, self.kind, (), self.opaque)
        f.at = at
        ps = []
        n = at
        for p in self.parts:
            ps.append(p.place(n))
            n += len(p.word)
        f.parts = tuple(ps)
        return f


class Forms(object):
    def __init__(self, sy, mp):
        self.sy, self.mp = sy, mp
        self.choice = {s: (c[0] if c else None) for s, c in mp.items()}

    def token(self, cls):
        return Form((cls,), cls, (), "token")

    def of(self, s, depth=2):
        """forms of a symbol where it stands inside another production"""
        if s not in self.sy.spec.by:
            return [self.token(s)]
        if self.choice.get(s):
            return [Form((self.choice[s],), s, (), "nt")]
        return self.expand(s, depth)

    def expand(self, s, depth=2):
        out = []
        for r, n in self.sy.spec.by[s]:
            if s in r:
                if depth:
                    for base in self.expand(s, depth - 1):
                        for rest in self.product(r[1:], depth) if r[0] == s else []:
                            out.append(Form(base.word + sum((x.word for x in rest), ()), n, (base,) + tuple(rest)))
            else:
                for ps in self.product(r, depth):
                    out.append(Form(sum((x.word for x in ps), ()), n, tuple(ps)))
        return out[:150]

    def product(self, r, depth):
        alts = [self.of(x, depth)[:8] for x in r]
        return list(itertools.islice(itertools.product(*alts), 40))

    def production(self, n):
        """the forms that check one production, and whether they cover it in every place"""
        l, r, _ = self.sy.spec.prods[n - 1]
        ps = self.product(r, 1)
        return [Form(sum((x.word for x in p), ()), n, tuple(p)) for p in ps]


class Built(object):
    """what evaluating a form left"""

    def __init__(self, st, val, loc, word):
        self.st, self.val, self.loc, self.word = st, val, loc, word


class Evaluator(object):
    def __init__(self, ctx, sy):
        self.ctx, self.sy = ctx, sy
        self.A = Actions(ctx)
        self.eng = self.A.eng

    def leaf(self, sym, i):
        f = self.A.field(sym[1:] if sym.startswith("~") else self.sy.cls.get(sym, sym))
        loc = mk("init", mk("P", "@%d" % (i + 1)))
        if f is None:
            return rec("value", ()), loc
        if f[1] is None:
            return rec("value", ((f[0], mk("init", mk("P", "num%d" % (i + 1)))),)), loc
        return rec("value", ((f[0], mk("ptr", mk("P", "o%d" % (i + 1)))),)), loc

    def run(self, tree, start):
        """[(Built | ('refused', rule, state))]"""
        def go(st, t):
            if t[0] == "leaf":
                v, l = self.leaf(t[1], t[2])
                return [(st, v, l)]
            states = [(st, [])]
            for k in t[3]:
                nxt = []
                for s, acc in states:
                    for s2, v, l in go(s, k):
                        nxt.append((s2, acc + [(v, l)]))
                states = nxt
            out = []
            for s, syms in states:
                for r in self.A.run(s, t[2], syms):
                    how = ends(r)
                    if how is None:
                        out.append((r.st, r.value, r.loc))
                    elif how == "odd":
                        raise Undecided("the action leaves by %r" % (r.ctl,))
                    else:
                        self.refused.append((t[2], r))
            return out
        self.refused = []
        lhs = tree[1]
        f = self.A.field(lhs[1:])
        res = []
        for s, v, l in go(self.A.fresh(), tree):
            res.append((s, proj(v, f[0]) if f else v, l))
        return res


class Wrong(Exception):
    """the structure differs"""


class Unclear(Exception):
    pass


def say28(x):
    return repr(x)[:160]


class Judge(object):
    """compares what was built with what is written"""

    def __init__(self, ctx, ev, st):
        self.ctx, self.ev, self.eng, self.st = ctx, ev, ev.eng, st

    def fail(self, what, got=None):
        if got is not None and hasattr(got, "op") and vague(got):
            raise Unclear("%s: %s" % (what, say28(got)))
        raise Wrong(what + (": " + say28(got) if got is not None else ""))

    def content(self, p):
        if p.op != "ptr":
            self.fail("no object", p)
        return self.eng.read(self.st, self.eng.deref(self.st, p))

    def root(self, p):
        return p.a[0] if p.op == "ptr" and len(p.a) == 1 else None

    def o(self, form):
        return mk("P", "o%d" % (form.at + 1))

    # -- values a form stands for, as terms
    def text(self, f):
        if f.opaque:
            return mk("init", self.o(f))
        out = None
        for p in f.parts:
            t = self.text(p)
            out = t if out is None else mk("cat", *([*out.a] if out.op == "cat" else [out]), t)
        return out

    def number(self, f):
        return mk("init", mk("P", "num%d" % (f.at + 1)))

    def coords(self, f):
        """of a location form, as a pair of terms (None when opaque)"""
        return [self.number(p) for p in f.parts if p.kind == "NUM"]

    def is_text(self, v, f):
        w = self.text(f)
        if v is w or self.flat(v) == self.flat(w):
            return
        self.fail("the text is not what is written", v)

    def flat(self, t):
        if hasattr(t, "op") and t.op == "cat":
            return tuple(y for x in t.a for y in self.flat(x))
        return (t,)

    def is_location(self, v, f):
        if f.opaque:
            b = mk("init", self.o(f))
            if v is b or all(proj(v, c) is proj(b, c) for c in ("x", "y")):
                return
            self.fail("the location is not the one written", v)
        w = self.coords(f)
        if v.op == "rec" and len(v.a[1]) == 2 and [x for _, x in v.a[1]] == w:
            return
        self.fail("the location is not the one written", v)

    def is_point(self, p, f):
        if f.opaque:
            if self.root(p) is self.o(f):
                self.untouched(f)
                return
            self.fail("the point is not the one written", p)
        l, r = self.prod(f)
        t = self.type_of(p)
        self.isa(t, "Val" if len(r) == 7 else "PointFunc", p)
        c = self.content(p)
        vals = self.values(c)
        if len(r) == 7:
            w = self.coords(f)
            if len(vals) == 1 and vals[0].op == "rec" and [x for _, x in vals[0].a[1]] == w:
                return
            self.fail("the point's coordinates are not the ones written", c)
        self.each(c, vals, [("name", lambda v: self.is_text(v, f.parts[0])), ("argument", lambda v: self.is_point(v, f.parts[2]))])

    def untouched(self, f):
        r = self.o(f)
        v = self.st.store.get(r)
        if v is not None and v is not mk("init", r):
            self.fail("what was built for a part is changed afterwards", v)

    # -- objects
    def type_of(self, p):
        r = self.root(p)
        if r is not None and r.op == "H":
            return r.a[0]
        if r is not None and r.op == "P":
            return None
        self.fail("not an object of this construct", p)

    def isa(self, t, want, p):
        if t is None or t.split("::")[-1] != want:
            self.fail("a %s is built where a %s is written" % ((t or "part").split("::")[-1], want), p)

    def values(self, c):
        """the fields of a node without its location"""
        if c.op != "rec":
            raise Unclear("a node is built in a way beyond the rules: %s" % say28(c))
        return [v for n, v in c.a[1] if not isloc(v)]

    def each(self, c, vals, want):
        """every wanted value in its own field and nothing else"""
        left = list(vals)
        for name, test in want:
            hit = None
            unclear = None
            for v in left:
                try:
                    test(v)
                    hit = v
                    break
                except Wrong:
                    pass
                except Unclear as x:
                    unclear = x
            if hit is None:
                if unclear:
                    raise unclear
                if any(vague(v) for v in left if hasattr(v, "op")):
                    raise Unclear("the %s: %s" % (name, say28(c)))
                self.fail("the %s is not kept" % name, c)
            left.remove(hit)
        left = [v for v in left if not isempty(v)]
        if left:
            self.fail("more is kept than is written", c)

    def prod(self, f):
        l, r, _ = self.ev.sy.spec.prods[f.kind - 1]
        return l, r

    def is_arg(self, p, f):
        if f.opaque:
            if self.root(p) is self.o(f):
                self.untouched(f)
                return
            self.fail("the property is not the one written", p)
        l, r = self.prod(f)
        t = self.type_of(p)
        c = self.content(p)
        vals = self.values(c)
        if r[0] == "'@'":
            name = lambda v: None if v is S("@") else self.fail("the name is not @", v)
            vf = f.parts[1]
        else:
            name = lambda v: self.is_text(v, f.parts[0])
            vf = f.parts[2]
        m = re.match(r"stl2ps::(MetaValue|MetaRef)<(.*)>$", t or "")
        if not m:
            self.fail("no property is built", p)
        ty = m.group(2).replace(" ", "")
        kind = r[1] if r[0] == "'@'" else "ratio" if "':'" in r else r[2]
        ok = {"string": ty.startswith("std::basic_string") or ty == "std::string", "NUM": ty in ("float", "double"),
              "location": ty.startswith("Eigen::Matrix<double,1,2"), "point_": ty == "stl2ps::Point",
              "ratio": ty.startswith("std::pair<int,int>") or ty == "stl2ps::Scale"}[kind]
        if not ok:
            self.fail("a property of type %s is built for a %s" % (m.group(2), {"NUM": "number", "point_": "point"}.get(kind, kind)))
        if kind == "string":
            val = lambda v: self.is_text(v, vf)
        elif kind == "location":
            val = lambda v: self.is_location(v, vf)
        elif kind == "point_":
            val = lambda v: self.is_point(v, vf)
        elif kind == "NUM":
            n = self.number(vf)
            val = lambda v: None if v is n else self.fail("the number is not the one written", v)
        else:
            a, b = self.number(f.parts[2]), self.number(f.parts[4])
            val = lambda v: None if v.op == "rec" and [self.whole(x) for _, x in v.a[1]] == [a, b] else self.fail("the ratio is not the one written", v)
        names = dict(c.a[1])
        if "name" in names and "value" in names and not isempty(names["name"]):
            # both may be strings: tell them apart
            name(names["name"])
            val(names["value"])
            rest = [v for n, v in c.a[1] if n not in ("name", "value") and not isloc(v)]
            if any(not isempty(v) for v in rest):
                self.fail("more is kept than is written", c)
        else:
            self.each(c, vals, [("name", name), ("value", val)])

    def whole(self, x):
        """a number cut to an integer, where it is known to be one"""
        if x.op == "trunc" and self.eng.truth(self.st, eq(x.a[0], x)) is True:
            return x.a[0]
        return x

    # -- lists: what was appended to what, per field
    def delta(self, c, base):
        if base is not None and c is base:
            return {}
        if c.op == "seq" and c.a[0] is base:
            return {(): c.a[1]}
        if c.op == "dflt" and base is None:
            return {}
        if c.op in ("concat", "prepend") or c.op == "seq":
            raise Wrong("script order is not kept: %s" % say28(c)) if not vague(c) else Unclear(say28(c))
        if base is not None and c.op == "upd" and c.a[0] is base:
            out = {}
            for n, v in c.a[1]:
                for k, x in self.delta(v, proj(base, n)).items():
                    out[(n,) + k] = x
            return out
        if base is None and c.op == "rec":
            out = {}
            for n, v in c.a[1]:
                if isloc(v):
                    continue
                for k, x in self.delta(v, None).items():
                    out[(n,) + k] = x
            return out
        if vague(c):
            raise Unclear("the list is built in a way beyond the rules: %s" % say28(c))
        raise Wrong("the parts so far are not kept: %s" % say28(c))

    def items(self, f):
        """(base form or None, [item forms], production numbers) of a list form"""
        if f.opaque:
            return f, []
        l, r = self.prod(f)
        if not r:
            return None, []
        if r[0] == l:
            b, xs = self.items(f.parts[0])
            return b, xs + [f]
        return None, [f]

    def is_list(self, c, f):
        """c: content of the list object for form f"""
        base, xs = self.items(f)
        b = mk("init", self.o(base)) if base is not None else None
        d = self.delta(c, b)
        d = {k: v for k, v in d.items() if v}
        want = {}
        for x in xs:
            want.setdefault(self.slot(x), []).append(x)
        n = sum(len(v) for v in d.values())
        if n != len(xs):
            self.fail("%d parts are written but %d appended" % (len(xs), n), c)
        used = set()
        for slot, fs in want.items():
            hit, err = None, None
            for k, vs in d.items():
                if k in used or len(vs) != len(fs):
                    continue
                try:
                    for v, x in zip(vs, fs):
                        self.is_item(v, x)
                    hit = k
                    break
                except (Wrong, Unclear) as e:
                    err = err or e
            if hit is None:
                raise err or Wrong("a part is appended to the wrong list: %s" % say28(c))
            used.add(hit)
            old = self.ev.slots.setdefault(slot, hit)
            if old != hit:
                raise Wrong("parts of one kind go to different lists: %s and %s" % (".".join(old), ".".join(hit)))
        for s, k in self.ev.slots.items():
            if s[0] == (xs and self.slot(xs[0])[0]) and s not in want and k in used:
                raise Wrong("parts of different kinds go to the same list")

    def slot(self, x):
        l, r = self.prod(x)
        kind = "arg" if "arg" in r else "dim" if l == "draw_parts" else "draw" if l == "page_parts" else "item"
        if l == "input":
            kind = r[1]
        return (l, kind)

    def is_item(self, v, x):
        l, r = self.prod(x)
        if "arg" in r:
            self.is_arg(v, [p for p in x.parts if p.kind == "arg" or not p.opaque and self.ev.sy.spec.prods[p.kind - 1][0] == "arg"][0])
        elif l == "input":
            f = x.parts[1]
            if f.opaque:
                self.same(v, f)
            else:
                self.is_node(v, f)
        elif l == "page_parts":
            self.isa(self.type_of(v), "Draw" if "draw" in r else "Text", v)
            c = self.content(v)
            vals = self.values(c)
            if "draw" in r:
                self.each(c, vals, [("name", lambda y: self.is_text(y, x.parts[2]))] + self.moved(x.parts[4], "draw_parts"))
            else:
                self.each(c, vals, [("text", lambda y: self.is_text(y, x.parts[3]))] + self.moved(x.parts[6], "text_parts"))
        elif l == "draw_parts":
            self.isa(self.type_of(v), r[1].capitalize(), v)
            c = self.content(v)
            ps = [p for p in x.parts if p.kind == "dim_parts" or not p.opaque and self.ev.sy.spec.prods[p.kind - 1][0] == "dim_parts"]
            self.each(c, self.values(c), self.moved(ps[0], "dim_parts") if ps else [])
        else:
            raise Unclear("no rule for %s" % l)

    def moved(self, f, l):
        """tests for the fields that must hold the lists of form f"""
        base, xs = self.items(f)
        slots = [s for s in (("arg",) if l in ("text_parts", "dim_parts") else ("arg", "dim") if l == "draw_parts" else ("arg", "draw"))]
        out = []
        for s in slots:
            k = self.ev.slots.get((l, s))
            if k is None:
                raise Unclear("where the parts of a list are kept is not known")
            mine = [x for x in xs if self.slot(x)[1] == s]

            def test(v, k=k, mine=mine):
                b = None
                if base is not None:
                    b = mk("init", self.o(base))
                    for n in k:
                        b = proj(b, n)
                d = self.delta(v, b)
                got = d.get((), ())
                if set(d) - {()} or len(got) != len(mine):
                    self.fail("the list is not the one written", v)
                for y, x in zip(got, mine):
                    self.is_item(y, x)
            if base is None and not mine:
                continue
            out.append(({"arg": "list of properties", "dim": "list of dimensions", "draw": "list of draws"}[s], test))
        return out

    def same(self, v, f):
        """the object built for f, or its content"""
        r = self.o(f)
        if v is mk("init", r) or v.op == "ptr" and self.root(v) is r:
            if v.op == "ptr":
                self.untouched(f)
            return
        self.fail("the part appended is not the one written", v)

    def is_node(self, v, f):
        """model or page, as pointer or content"""
        l, r = self.prod(f)
        c = self.content(v) if v.op == "ptr" else v
        if l == "model":
            if v.op == "ptr":
                self.isa(self.type_of(v), "Model", v)
            names = dict(c.a[1]) if c.op == "rec" else {}
            if "name" in names and "source" in names:
                self.is_text(names["name"], f.parts[1])
                self.is_text(names["source"], f.parts[3])
                rest = [y for n, y in c.a[1] if n not in ("name", "source") and not isloc(y) and not isempty(y)]
                if rest:
                    self.fail("more is kept than is written", c)
            else:
                self.each(c, self.values(c), [("name", lambda y: self.is_text(y, f.parts[1])), ("source", lambda y: self.is_text(y, f.parts[3]))])
        else:
            if v.op == "ptr":
                self.isa(self.type_of(v), "Page", v)
            self.each(c, self.values(c), self.moved(f.parts[2], "page_parts"))

    def judge(self, f, val):
        """the value built for a whole form"""
        l, r = self.prod(f)
        for root, v in self.st.store.items():
            if root.op in ("D", "P") and not re.match(r"(o|num|@)\d+$|\$$|lhs$|yy", str(root.a[0])) and v is not mk("init", root):
                if mentions(root, lambda t: t.op == "init" and t.a[-1] == "result"):
                    self.fail("the document is changed on the side", v)
                raise Unclear("writes %s" % say28(root))
        if l == "string":
            self.is_text(self.content(val), f)
        elif l == "location":
            self.is_location(self.content(val), f)
        elif l == "point_":
            self.is_point(val, f)
        elif l == "arg":
            self.is_arg(val, f)
        elif l in ("model", "a_page"):
            self.is_node(val, f)
        elif l == "input":
            base, xs = self.items(f)
            if base is None:
                want = mk("init", mk("P", "this", "stl2ps_parser::parser"), "result")
                if val is not want:
                    r = self.root(val) if val.op == "ptr" else None
                    if not (val.op == "ptr" and len(val.a) == 1 and r.op == "D" and r.a[0] is want):
                        self.fail("the document is not the caller's", val)
                if xs:
                    raise Unclear("items at the head of the script")
                return
            if self.root(val) is not self.o(base):
                self.fail("the document is not the caller's", val)
            self.is_list(self.content(val), f)
        else:
            self.is_list(self.content(val), f)


def isloc(v):
    return hasattr(v, "op") and v.op == "rec" and {n for n, _ in v.a[1]} == {"filename", "line"}


def isempty(v):
    return hasattr(v, "op") and (v.op == "seq" and v.a[0] is None and not v.a[1] or v.op in ("null", "undef") or v is S(""))


ORDER = ["location", "string", "point_", "arg", "dim_parts", "text_parts", "draw_parts", "page_parts", "model", "a_page", "input"]


def c28(ctx):
    ctx.rule("for every production of the documented grammar a form is made whose parts stand for any text, number or part; the implemented grammar parses it, its actions are run over "
             "symbolic heaps bottom up (attribute evaluation), and the structure that is left is compared with what the form says. By induction over the productions this covers every script.")
    sy = Syntax(ctx)
    mp = mapping(ctx, sy)
    ev = Evaluator(ctx, sy)
    ev.slots = {}
    ctx.account(ev.eng, [])
    fm = Forms(sy, mp)
    n = 0
    for l in ORDER:
        for r, num in sorted(sy.spec.by[l], key=lambda x: x[1]):
            if not fm.choice.get(l):
                continue        # checked where it stands
            for f in fm.production(num):
                n += 1
                one28(ctx, sy, ev, fm, l, f)
    ctx.extra["forms"] = n
    ctx.account(ev.eng, [])


def tell(sy, f):
    return " ".join(spell(x) if not x.startswith("~") else "<%s>" % x[1:] for x in f.word) or "(nothing)"


def one28(ctx, sy, ev, fm, l, f):
    tree = None
    for start in fm.mp[l]:
        if not f.word and not f.parts and not any(r == () for r, _ in sy.impl.by[start]):
            pass
        tree = sy.impl.parse(f.word, start)
        # the trivial reading of a list as itself is none
        if tree is not None:
            break
    forms = [f]
    if tree is None:
        forms = unrolled(fm, l, f)
    for g in forms:
        if g is not f:
            tree = None
            for start in fm.mp[l]:
                tree = sy.impl.parse(g.word, start)
                if tree is not None:
                    break
        where = "stl-to-ps/parser.y"
        if tree is None:
            ctx.undecide("%s: the form  %s  has no reading below the nonterminals of the documented grammar" % (l, tell(sy, g)))
            continue
        where = ev.A.where(tree[2], tree[1][1:])
        try:
            res = ev.run(tree, l)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (where, gaveup(x)))
            continue
        h = g.place()
        if not res:
            ctx.oblige(R28, where, False, "the construct  %s  is never built" % tell(sy, g))
        for st, val, loc in res:
            try:
                Judge(ctx, ev, st).judge(h, val)
                ctx.oblige(R28, where, True)
            except Wrong as x:
                ctx.oblige(R28, where, False, "for  %s  %s" % (tell(sy, g), x), describe(st, 4))
            except Unclear as x:
                ctx.undecide("%s: for  %s  %s" % (where, tell(sy, g), x))
            except GIVEUP as x:
                ctx.undecide("%s: for  %s  %s" % (where, tell(sy, g), gaveup(x)))


def unrolled(fm, l, f):
    """short lists written out, when the implementation does not build the list from its front"""
    old = fm.choice.get(l)
    fm.choice[l] = None
    try:
        fs = [g for g in fm.expand(l, 2) if g.kind == f.kind]
    finally:
        fm.choice[l] = old
    return fs[:30]
