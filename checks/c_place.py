"""C31: the places that diagnostics name."""
import re
from common import *
from engine import Undecided
import c_flow
import c_parse
import c_syntax

R31N = "a node is placed where its own construct begins"
R31K = "the place kept in a node never changes"
R31L = "the scanner gives every token the file and line it begins on"
R31D = "a diagnostic names the place of the item it is about"


def partial(ctx, f, *a):
    try:
        f(ctx, *a)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (f.__name__, gaveup(x)))


# ---------------------------------------------------------------- nodes
def locfields(c):
    return [v for _, v in c.a[1] if c_parse.isloc(v)] if c.op == "rec" else []


def token(v):
    """(position of the token, edge) a location was taken from; 'none' for a made up one"""
    fs = dict(v.a[1])
    out = []
    for n in ("filename", "line"):
        t = fs[n]
        ps = set()

        def see(x):
            if x.op == "P" and re.match(r"@\d+$", str(x.a[0])):
                ps.add((int(str(x.a[0])[1:]), None))
            return False
        mentions(t, see)
        if not ps:
            return "none" if isconst(t) else None
        if len(ps) > 1 or n == "line" and not (t.op == "init" and t.a[-1] == "line"):
            return None if vague(t) else "odd" if n == "line" and len(ps) == 1 else None
        out.append(ps.pop())
    return out[1]


class Places(c_parse.Judge):
    def __init__(self, *a):
        c_parse.Judge.__init__(self, *a)
        self.seen = []

    def place(self, p, at, what):
        c = self.content(p) if p.op == "ptr" else p
        if c.op == "rec":
            self.seen.append((what, at, locfields(c), c))

    def is_arg(self, p, f):
        c_parse.Judge.is_arg(self, p, f)
        if not f.opaque:
            self.place(p, f.at, "property")

    def is_point(self, p, f):
        c_parse.Judge.is_point(self, p, f)
        if not f.opaque:
            self.place(p, f.at, "point")

    def is_node(self, v, f):
        c_parse.Judge.is_node(self, v, f)
        self.place(v, f.at, self.prod(f)[0].replace("a_", ""))

    def is_item(self, v, x):
        c_parse.Judge.is_item(self, v, x)
        l, r = self.prod(x)
        if "arg" not in r and l in ("page_parts", "draw_parts"):
            first = x.parts[1] if r and r[0] == l else x.parts[0]
            self.place(v, first.at, r[1])


def nodes(ctx):
    sy = c_parse.Syntax(ctx)
    mp = c_parse.mapping(ctx, sy)
    ev = c_parse.Evaluator(ctx, sy)
    ev.slots = {}
    fm = c_parse.Forms(sy, mp)
    kinds = {}
    for l in c_parse.ORDER:
        for r, num in sorted(sy.spec.by[l], key=lambda x: x[1]):
            if not fm.choice.get(l):
                continue
            for f in fm.production(num):
                one(ctx, sy, ev, fm, l, f, kinds)
    ctx.extra["nodes_placed"] = kinds
    ctx.account(ev.eng, [])
    if not kinds:
        raise Undecided("no node with a place is built")


def one(ctx, sy, ev, fm, l, f, kinds):
    tree = None
    for start in fm.mp[l]:
        tree = sy.impl.parse(f.word, start)
        if tree is not None:
            break
    for g in [f] if tree is not None else c_parse.unrolled(fm, l, f):
        for start in fm.mp[l] if tree is None or g is not f else []:
            tree = sy.impl.parse(g.word, start)
            if tree is not None:
                break
        if tree is None:
            ctx.undecide("%s: the form  %s  has no reading" % (l, c_parse.tell(sy, g)))
            continue
        where = ev.A.where(tree[2], tree[1][1:])
        text = c_parse.tell(sy, g)
        try:
            h = g.place()
            for st, val, loc in ev.run(tree, l):
                j = Places(ctx, ev, st)
                try:
                    j.judge(h, val)
                except (c_parse.Wrong, c_parse.Unclear) as x:
                    ctx.undecide("%s: for  %s  %s" % (where, text, x))
                for what, at, ls, c in j.seen:
                    node(ctx, where, text, h, what, at, ls, kinds)
                reports(ctx, where, text, st, len(h.word))
            for n, r in ev.refused:
                reports(ctx, ev.A.where(n), text, r.st, len(h.word))
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (where, gaveup(x)))


def node(ctx, where, text, h, what, at, ls, kinds):
    kinds[what] = kinds.get(what, 0) + 1
    if len(ls) != 1:
        ctx.oblige(R31N, where, False if not ls else None, "the %s of  %s  keeps %d places" % (what, text, len(ls)))
        return
    k = token(ls[0])
    if k is None:
        ctx.oblige(R31N, where, None, "the place of the %s of  %s  is %r" % (what, text, ls[0]))
    elif k in ("none", "odd"):
        ctx.oblige(R31N, where, False, "the place of the %s of  %s  is %s" % (what, text, "made up: %r" % (ls[0],) if k == "none" else repr(ls[0])))
    else:
        pos = k[0] - 1
        ok = pos in (at, at + 1)
        ctx.oblige(R31N, where, ok, "the %s of  %s  begins at its symbol %d (%s) but is placed at symbol %d (%s)" % (
            what, text, at + 1, c_parse.spell(h.word[at]) if not h.word[at].startswith("~") else h.word[at][1:], pos + 1,
            c_parse.spell(h.word[pos]) if pos < len(h.word) and not h.word[pos].startswith("~") else h.word[pos][1:] if pos < len(h.word) else "?"))


def reports(ctx, where, text, st, n):
    """a complaint made while parsing carries the location of a symbol of the construct"""
    for e in st.trace:
        if e[0] != "reported" or len(e) < 3:
            continue
        ps = set()

        def see(x):
            if x.op == "P" and re.match(r"@\d+$", str(x.a[0])):
                ps.add(int(str(x.a[0])[1:]))
            return False
        mentions(e[2], see)
        v = e[2]
        if v.op == "ptr":
            try:
                v = st.store.get(v.a[0]) or v
            except TypeError:
                pass
            mentions(v, see)
        ctx.oblige(R31D, where, True if ps and all(0 < p <= n for p in ps) else False if isconst(v) else None, "for  %s  the complaint is placed at %r" % (text, v))


# ---------------------------------------------------------------- nothing changes a place
def kept(ctx):
    ctx.load()
    n = 0
    locs = {q for q in ctx.prog.records if q.split("::")[-1] == "Loc" and q.startswith("stl2ps")}
    for q, r in ctx.prog.records.items():
        if any(f["t"] in locs for f in r.get("fields", ())) and q.startswith("stl2ps"):
            n += 1
    if not locs:
        raise Undecided("there is no type of places")

    def hits(lv):
        """(is a place or a part of one, the variable the chain starts from)"""
        hit = False
        x = lv
        while x is not None:
            t = (x.get("t") or "").replace("const ", "").strip()
            if t in locs:
                hit = True
            if x.get("k") == "mem":
                if x.get("arrow"):
                    return hit, None
                x = x.get("b")
            elif x.get("k") == "var":
                return hit, x
            elif x.get("k") in ("cast", "paren"):
                x = x.get("e")
            else:
                return hit, None
        return hit, None
    m = 0
    for key, f in sorted(ctx.prog.functions.items()):
        if "body" not in f or not f["q"].startswith("stl2ps") or f["q"].startswith("stl2ps_parser"):
            continue
        cls = f["q"].split("::")
        ctor = len(cls) > 1 and cls[-1] == cls[-2]
        if len(cls) > 1 and "::".join(cls[:-1]) in locs or ctor:
            continue
        for x in walk(f["body"]):
            tgt = None
            if x.get("k") == "asg":
                tgt = x.get("a") if isinstance(x.get("a"), dict) else x.get("b")
                tgt = x.get("x") or tgt
            elif x.get("k") == "un" and x.get("op") in ("++", "--"):
                tgt = x.get("e")
            elif x.get("k") == "call" and x.get("f", {}).get("q", "").split("::")[-1] in ("operator=", "assign", "append", "clear", "operator+=", "swap"):
                tgt = x.get("o") or (x["a"][0] if x.get("a") else None)
            if not isinstance(tgt, dict):
                continue
            m += 1
            hit, var = hits(tgt)
            if hit and not (var is not None and not var.get("ref")):
                ctx.oblige(R31K, "%s:%s (%s)" % (f.get("file", "").replace(ctx.tree.repo + "/", ""), x.get("l"), f["q"]), False, "the place of an item is changed after it was made")
    ctx.extra["assignments_examined"] = m
    ctx.oblige(R31K, "stl-to-ps/ast.h", True)
    clones(ctx)


def clones(ctx):
    for f in sorted(ctx.prog.functions.values(), key=lambda f: f["q"]):
        if "body" in f and f["q"].startswith("stl2ps::") and f["q"].endswith("::Clone"):
            eng, ex = ctx.run(f, {})
            for x in ex or []:
                v = x.val
                p = v
                while hasattr(p, "op") and p.op in ("uptr", "rec") and len(p.a):
                    p = p.a[-1] if p.op == "uptr" else (p.a[1][0][1] if p.a[1] else None)
                if p is None or p.op != "ptr":
                    ctx.oblige(R31K, ctx.where(f), None, "the copy is %r" % (v,))
                    continue
                c = eng.read(x.st, eng.deref(x.st, p))
                t = proj(c, "loc_")
                def mine(y, *path):
                    return y.op == "init" and y.a[0].op == "P" and y.a[0].a[0] == "this" and tuple(y.a[1:]) == path
                ok = mine(c) or mine(t, "loc_") or mine(proj(t, "line"), "loc_", "line") and mine(proj(t, "filename"), "loc_", "filename")
                if not ok and mentions(proj(t, "line"), lambda x: x.op in ("opaque", "out")):
                    ok = None
                ctx.oblige(R31K, ctx.where(f), ok, "a copy of the point is placed at %r" % (proj(t, "line"),))


# ---------------------------------------------------------------- tokens
def scanner(ctx):
    lx = c_syntax.Lexer(ctx)
    tm = c_syntax.Terminals(ctx.tree)
    sc = lx.sc
    newline = eating(sc)
    pname = lx.fn["params"][1]["n"]
    n = 0
    hand = False
    for k in range(1, sc.nrules + 1):
        for o in lx.outcomes(k) or []:
            for e in o.st.trace:
                if e[0] == "call" and e[1].split("::")[-1] in ("stl2psset_lineno", "set_lineno"):
                    hand = True
            if any(r.op in ("P", "D") and mentionsline(v) for r, v in o.st.store.items() if not (r.op == "P" and r.a[0] == pname)):
                hand = True
    for k in range(1, sc.nrules + 1):
        for o in lx.outcomes(k) or []:
            if not isinstance(o.ret, int) and not c_syntax.firstbyte(o.ret) if o.ret is not None else True:
                continue
            if o.ret == 0:
                continue
            n += 1
            w = lx.where(k)
            v = [v for r, v in o.st.store.items() if r.op == "P" and r.a[0] == pname and len(r.a) == 1]
            b = proj(v[0], "begin") if v else None
            if b is None or b.op == "init":
                ctx.oblige(R31L, w, False if not hand else None, "the token gets no place")
                continue
            ln, fn = proj(b, "line"), proj(b, "filename")
            if lineno(ln):
                ok = True
            elif mentions(ln, lineno) and ln.op in ("+", "-"):
                ok = False
            elif isconst(ln):
                ok = False
            elif ln.op == "init" and ln.a[0].op == "P" and ln.a[0].a[0] == pname:
                ok = None if hand or sc.eol is None else False
            else:
                ok = None
            ctx.oblige(R31L, w, ok, "the token's line is %r" % (ln,))
            if mentions(fn, lambda t: t.op == "init" and t.a[-1] == "filename" or t.op in ("P", "D") and t.a[-1] == "filename"):
                ok = True
                if mentions(fn, lambda t: t.op == "P" and t.a[0] == pname):
                    ok = False
            elif isconst(fn) or fn.op == "null":
                ok = False
            else:
                ok = None
            ctx.oblige(R31L, w, ok, "the token's file name is %r" % (fn,))
            if k in newline:
                ctx.oblige(R31L, w, None, "a token over several lines")
    for k in sorted(newline):
        if hand:
            ctx.undecide("%s: lines are counted by hand" % lx.where(k))
            break
        ctx.oblige(R31L, lx.where(k), bool(sc.eol is not None and k < len(sc.eol) and sc.eol[k]), "the rule takes %r but lines are not counted in it" % newline[k])
    ctx.extra["token_outcomes"] = n
    ctx.extra["rules_over_newlines"] = len(newline)
    if not n:
        raise Undecided("no token is understood")


def lineno(t):
    if not hasattr(t, "op") or t.op != "init":
        return False
    n = t.a[-1] if not hasattr(t.a[-1], "op") else t.a[-1].a[0] if t.a[-1].op == "P" else None
    return n in ("yy_bs_lineno", "yylineno", "yylineno_r")


def mentionsline(v):
    def see(t):
        return t.op == "upd" and any(n in ("yy_bs_lineno", "yylineno", "yylineno_r") for n, _ in t.a[1])
    return hasattr(v, "op") and mentions(v, see)


def eating(sc):
    """{rule: example} of the rules whose text can hold a newline"""
    out = {}
    start = sc.start()
    seen = {(start, False): b""}
    q = [(start, False)]
    while q:
        s, nl = q.pop(0)
        w = seen[(s, nl)]
        k = sc.accept(s)
        if w and nl and k and k <= sc.nrules:
            out.setdefault(k, w)
        for byte in [10, 32, 34, 65, 47] + [b for b in range(1, 256)]:
            t = sc.step(s, byte)
            if t is None:
                continue
            x = (t, nl or byte == 10)
            if x not in seen:
                seen[x] = w + bytes([byte])
                q.append(x)
    return out


# ---------------------------------------------------------------- messages
def canon(t):
    r = repr(t)
    r = re.sub(r"\*?mapval\(([^()]*(?:\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\)[^()]*)*), ('[^']*')\)", r"\1.at(\2).second", r)
    return r.replace("*", "")


def cut(t, drop):
    """the item a value belongs to: the place it is read from without its last fields"""
    if not hasattr(t, "op"):
        return None
    if t.op == "init":
        if len(t.a) - 1 < drop:
            return None
        return Item(mk("init", *t.a[:len(t.a) - drop]))
    while drop and t.op == "proj" and isinstance(t.a[1], str):
        t = t.a[0]
        drop -= 1
    if drop and t.op == "init":
        return cut(t, drop)
    return None if drop else Item(t)


class Item(object):
    def __init__(self, t):
        self.t = t
        self.key = canon(t)

    def __eq__(self, o):
        return isinstance(o, Item) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return re.sub("₀|lv\\d+:", "", self.key)

    def property(self):
        """an element of the properties of a construct, and not the construct"""
        return self.t.op == "init" and self.t.a[0].op == "D" and mentions(self.t, lambda x: x.op in ("mapval", "at", "elem", "lv", "ix"))

    def fixed(self):
        """an element taken by its number"""
        return mentions(self.t, lambda x: x.op in ("elem", "idx", "at") and any(hasattr(y, "op") and y.op == "i" for y in x.a))


def quoted(text):
    """the names a text puts in quotes, with {a,b} written out"""
    out = set()
    for w in re.findall(r"'([^' ]*)'", text):
        k = re.match(r"(.*)\{(.*)\}(.*)$", w)
        if k:
            out |= {k.group(1) + x + k.group(3) for x in k.group(2).split(",")}
        else:
            out.add(w)
    return out


class Message(object):
    def __init__(self, pieces, facts, line, fn):
        self.pieces, self.facts, self.line, self.fn = pieces, facts, line, fn


def unwrap(p):
    while hasattr(p, "op") and p.op in ("tostr", "fmt", "cast", "str") and len(p.a):
        p = p.a[-1] if p.op == "cast" else p.a[0]
    return p


class Messages(object):
    """collects the diagnostics of one function, a message per line"""

    def __init__(self, ctx, fn):
        self.ctx, self.fn = ctx, fn
        self.all = []
        self.logs = {}
        self.locfields = {}
        for q, r in ctx.prog.records.items():
            if q.split("::")[-1] == "Loc" and q.startswith("stl2ps"):
                for f in r["fields"]:
                    self.locfields[f["n"]] = f["t"]

    def hook(self, eng, st, loc, what, e):
        p = st.mon.get("msg", ())
        if what is None or not hasattr(what, "op"):
            what = mk("opaque", repr(what))
        if loc[0].op == "LOGS":
            if loc[0].a[0] > 2:
                return      # a broken assertion
            self.logs.setdefault(e.get("l"), []).append((what, tuple(st.facts.items())[-1:]))
            return
        p = p + ((what, e.get("l")),)
        st.mon["msg"] = p
        r = repr(what)
        if "endl" in r or what.op == "s" and what.a[0].endswith("\n") or what.op == "chr" and what.a and what.a[0] in (10, "\n") or what.op == "i" and what.a[0] == 10:
            self.all.append(Message(p, tuple(st.facts.items()), e.get("l"), self.fn))
            st.mon.pop("msg")

    def judge(self, m):
        """(verdict, text)"""
        fn = self.fn
        pieces = [(unwrap(p), l) for p, l in m.pieces]
        files = [(i, p) for i, (p, _) in enumerate(pieces) if self.lastfield(p) and self.isfile(p)]
        lines = [(i, p) for i, (p, _) in enumerate(pieces) if self.lastfield(p) and not self.isfile(p)]
        src = [l for p, l in m.pieces if l]
        text = "".join(p.a[0] for p, _ in m.pieces if p.op == "s" and p.a[0].strip(" :()") and not p.a[0].isdigit() and not re.search(r"/.*\.(cc|h|l|y)$", p.a[0])).strip()
        say = "the diagnostic '%s'" % text
        about = self.about(m, pieces, files, lines)
        if not files and not lines:
            if about["named"] or about["decided"]:
                return False, say + " about %r names no place" % (sorted(about["named"] or about["decided"], key=repr)[0],)
            return (False, say + " names no place") if not any(vague(p) for p, _ in pieces) else (None, say + " is put together in a way beyond the rules")
        if not files or not lines:
            return False, say + " names %s" % ("a line but no file" if not files else "a file but no line")
        pf, pl = cut(files[0][1], 2), cut(lines[0][1], 2)
        if pf is None or pl is None:
            return None, say + " is placed at %r" % (files[0][1],)
        if pf != pl:
            return False, say + " names the file of %r and the line of %r" % (pf, pl)
        P = pf
        if P.fixed():
            return False, say + " is placed at a fixed element: %r" % (P,)
        if mentions(P.t, lambda x: x.op in ("opaque", "call", "bcall", "out", "after")):
            return None, say + " is placed at %r" % (P,)
        if about["decided"] and P not in about["decided"]:
            return False, say + " is about %r but placed at %r" % (sorted(about["decided"], key=repr)[0], P)
        if about["named"] and P not in about["named"]:
            return False, say + " names %r but is placed at %r" % (sorted(about["named"], key=repr)[0], P)
        if P.property() and not about["named"] and not about["decided"] and not self.mentioned(m, P):
            k = re.search(r"'([^']*)'\)*(?:\.second)?₀?$", P.key)
            words = quoted(text)
            keys = {str(y.a[0]) for a, _ in m.facts for x in subterms(a) if x.op in ("has", "mapval", "at") for y in x.a if hasattr(y, "op") and y.op == "s"}
            if k and k.group(1) in words:
                return True, ""
            if k and words & keys:
                return False, say + " is placed at %r" % (P,)
            return None, say + " is placed at %r" % (P,)
        return True, ""

    def lastfield(self, p):
        n = self.name(p)
        return n in self.locfields and self.name(self.up(p)) is not None

    def name(self, p):
        if not hasattr(p, "op"):
            return None
        if p.op == "init" and len(p.a) > 1:
            return p.a[-1]
        if p.op == "proj" and isinstance(p.a[1], str):
            return p.a[1]
        return None

    def up(self, p):
        if p.op == "init":
            return mk("init", *p.a[:-1])
        return p.a[0]

    def isfile(self, p):
        return "string" in self.locfields[self.name(p)]

    def about(self, m, pieces, files, lines):
        skip = {id(p) for _, p in files + lines}
        named = set()
        for p, _ in pieces:
            if id(p) in skip or not hasattr(p, "op"):
                continue
            if p.op == "typename":
                named.add(Item(mk("init", mk("D", p.a[0]))))
            elif self.name(p) in ("name", "source", "name_", "value"):
                c = cut(p, 1)
                if c is not None:
                    named.add(c)
        decided = set()
        if m.facts:
            a, v = m.facts[-1]
            if v is False and a.op == "isa":
                decided.add(Item(mk("init", mk("D", a.a[0]))))
            elif v is False and mentions(a, lambda x: x.op in ("pfnew", "viewname")):
                for x in subterms(a):
                    if x.op == "init" and len(x.a) > 1 and x.a[-1] == "value":
                        decided.add(cut(x, 1))
        return {"named": named, "decided": decided}

    def mentioned(self, m, P):
        for a, v in m.facts[-1:]:
            if P.key.rstrip("₀") in canon(a):
                return True
        return False


def messages(ctx):
    n = 0
    for fn, con in c_flow.steps(ctx):
        short = fn["q"].split("::")[-2:]
        about_item = fn["q"].endswith(("DrawToPage::operator()", "::Invoke", "::LoadFiles", "::GeneratePages"))
        ms = Messages(ctx, fn)
        ctx.run(fn, con, diag_hook=ms.hook)
        for m in ms.all:
            if not about_item and not any(ms.lastfield(unwrap(p)) for p, _ in m.pieces):
                continue
            n += 1
            ok, msg = ms.judge(m)
            ctx.oblige(R31D, "%s:%s (%s)" % (fn.get("file", "").replace(ctx.tree.repo + "/", ""), where_of(m), fn["q"].split("::", 1)[-1]), ok, msg)
        for line, ps in sorted(ms.logs.items(), key=str):
            m = Message(tuple((p, line) for p, _ in ps), ps[-1][1], line, fn)
            pieces = [(unwrap(p), l) for p, l in m.pieces]
            ab = ms.about(m, pieces, [], [])
            if ab["named"] and not any(ms.lastfield(p) for p, _ in pieces):
                ctx.oblige(R31D, "%s:%s (%s)" % (fn.get("file", "").replace(ctx.tree.repo + "/", ""), line, fn["q"].split("::", 1)[-1]), False,
                           "the diagnostic about %r names no place" % (sorted(ab["named"], key=repr)[0],))
    ctx.extra["messages"] = n
    if not n:
        raise Undecided("no diagnostic was found")


def where_of(m):
    ls = [l for _, l in m.pieces if isinstance(l, int)]
    return ls[-2] if len(ls) > 1 else ls[-1] if ls else "?"


def c31(ctx):
    ctx.rule("provenance: the forms of C28 are built symbolically and the place of every node is traced to the symbol it was taken from; no assignment outside of constructors reaches a place; "
             "every outcome of every scanner rule sets the line and file of its token and flex counts lines in every rule that can match a newline; "
             "every diagnostic of every step is collected piece by piece and its place compared with the item whose name, type or value it is about")
    partial(ctx, nodes)
    partial(ctx, kept)
    partial(ctx, scanner)
    partial(ctx, messages)
