"""C29: every object the parser makes has exactly one owner, on every way through a script."""
import re
from common import *
from c_syntax import Actions, Lexer, Terminals, Undecided
from c_parse import ends, opaque
from grammar import Lalr

R29 = "every object made while parsing is handed on exactly once"
RDEL = "discarding a symbol deletes its object exactly once"
RVIRT = "objects are deleted through a virtual destructor"
RTOK = "a token carries a new object exactly when its symbol has one"


def ptrs(t, out):
    """heap objects and parts of the right hand side a term points to"""
    if t.op == "ptr" and t.a[0].op in ("H", "P"):
        out.add(t)
    return out


class Owners(object):
    """who owns what along one path of an action"""

    def __init__(self, given, doc):
        self.s = dict((p, "raw") for p in given)
        self.doc = doc
        self.why = []
        self.unclear = []
        self.lines = {}

    def name(self, p):
        n = repr(p)
        m = re.match(r"&o(\d+)$", n)
        return "$%s" % m.group(1) if m else "the object made at line %s" % self.lines.get(p, "?")

    def run(self, trace, deep=False):
        for e in trace:
            if e[0] == "loop":
                if any(x[0] in ("new", "delete", "adopt", "release") for x in e[3]):
                    self.unclear.append("objects change hands in a loop")
                continue
            if e[0] == "call":
                for p in list(self.s):
                    if any(hasattr(y, "op") and mentions(y, lambda z: z is p) for y in list(e[3]) + [e[2]]):
                        self.unclear.append("%s is passed to %s" % (self.name(p), e[1]))
                continue
            if e[0] not in ("new", "delete", "adopt", "release"):
                continue
            p = e[1]
            if not hasattr(p, "op") or p.op == "null":
                continue
            if e[0] == "new":
                self.s[p] = "raw"
                self.lines[p] = e[3]
                continue
            if p in self.doc:
                if e[0] in ("delete", "adopt"):
                    self.why.append("line %s: the caller's document is %s" % (e[-1], "deleted" if e[0] == "delete" else "handed to a smart pointer, which deletes it"))
                continue
            if p not in self.s:
                self.unclear.append("line %s: %s of %r" % (e[-1], e[0], p))
                continue
            a = self.s[p]
            if e[0] == "delete":
                if a == "gone":
                    self.why.append("line %s: %s is deleted twice" % (e[-1], self.name(p)))
                elif a == "owned":
                    self.why.append("line %s: %s is deleted although a smart pointer owns it" % (e[-1], self.name(p)))
                self.s[p] = "gone"
            elif e[0] == "adopt":
                if a == "gone":
                    self.why.append("line %s: a smart pointer takes %s, which is already deleted" % (e[-1], self.name(p)))
                elif a == "owned":
                    self.why.append("line %s: two smart pointers own %s" % (e[-1], self.name(p)))
                self.s[p] = "owned"
            elif e[0] == "release":
                if a == "owned":
                    self.s[p] = "raw"


def hidden(v):
    return mentions(v, lambda x: x.op in ("call", "opaque", "join", "phi", "ite"))


def owndtor(ctx):
    """classes with a destructor of their own that does something"""
    out = set()
    for f in ctx.prog.functions.values():
        n = f["q"].rsplit("::", 1)
        if len(n) == 2 and n[1].startswith("~") and "body" in f and f["body"].get("b") and not f.get("dflt"):
            out.add(n[0])
    return out


def final(o, x, field, how, dtors):
    """what is wrong at the end of an action"""
    st = x.st
    kept = None
    if how in (None, "accept"):
        v = x.value
        if field is not None:
            if v.op in ("rec", "upd"):
                f = [y for n, y in v.a[1] if n == field[0]]
                kept = f[-1] if f else v.a[1][-1][1] if v.a[1] else None
            else:
                o.unclear.append("value %r" % (v,))
            if field[1] is None:
                kept = None
    if how == "accept":
        kept = None
    for p, s in o.s.items():
        if p is kept:
            if s == "owned":
                o.why.append("%s is the value of the construct and owned by a smart pointer too" % o.name(p))
            elif s == "gone":
                o.why.append("%s is the value of the construct but deleted" % o.name(p))
        elif s == "raw":
            inside = [r for r, v in st.store.items() if r is not p.a[0] and r.op in ("P", "H") and r.a[0] not in ("$", "lhs") and
                      mentions(v, lambda y: y is p)]
            if any(r.op == "H" and str(r.a[0]) in dtors for r in inside):
                o.unclear.append("%s is kept in a class with a destructor of its own" % o.name(p))
            elif kept is not None and hidden(kept):
                o.unclear.append("value %r" % (kept,))
            else:
                o.why.append("%s is neither kept nor deleted%s" % (o.name(p), " when the construct is rejected here" if how == "reject" else ""))
    for r, v in st.store.items():
        if r.op in ("P", "H") and mentions(v, lambda y: y.op == "freed") and not (v.op == "freed"):
            o.why.append("a deleted object is read afterwards")
    return o


def c29(ctx):
    ctx.rule("ownership typestate (raw, owned by a smart pointer, gone) over every path of every grammar action: each object on the right hand side or made by the action ends as the value of the construct, "
             "owned by one smart pointer, or deleted once; a path that rejects disposes of the whole right hand side; the generated parser's discard function deletes exactly the member that holds the "
             "symbol's object; scanner rules store a new object exactly for tokens that carry one. With the skeleton's own discipline this covers every token sequence by induction over the rules.")
    A = Actions(ctx)
    lalr = Lalr(ctx.tree.tmp + "/parser.xml")
    dtors = owndtor(ctx)
    npaths = 0
    for l, r, n in lalr.rules:
        if l == "$accept" or n in lalr.useless:
            continue
        where = A.where(n, l)
        syms = opaque(A, r)
        given, doc = [], set()
        for i, s in enumerate(r):
            f = A.field(s)
            if f and f[1]:
                p = mk("ptr", mk("P", "o%d" % (i + 1)))
                if f[1] == "stl2ps::Document":
                    doc.add(p)
                else:
                    given.append(p)
        try:
            res = A.run(A.fresh(), n, syms)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (where, gaveup(x)))
            continue
        for x in res:
            npaths += 1
            how = ends(x)
            o = Owners(given, doc)
            o.run(x.st.trace)
            if x.ctl is not None and x.ctl[0] == "throw":
                ctx.undecide("%s: the action throws" % where)
                continue
            if how == "odd":
                if x.ctl[0] == "ret" and not hasattr(x.ctl[1], "op") or x.ctl[1] is VOID or x.ctl[1].op in ("i", "b"):
                    left = [p for p, s in o.s.items() if s == "raw"]
                    ctx.oblige(R29, where, False if left or l not in ("input",) else None, "the action returns out of the parser, which leaves what is on its stack undeleted")
                else:
                    ctx.undecide("%s: the action leaves by %r" % (where, x.ctl))
                continue
            final(o, x, A.field(l), how, dtors)
            if o.why:
                ctx.oblige(R29, where, False, "; ".join(o.why), describe(x.st, 4))
            elif o.unclear:
                ctx.oblige(R29, where, None, "; ".join(o.unclear))
            else:
                ctx.oblige(R29, where, True)
    ctx.extra["action paths"] = npaths
    ctx.account(A.eng, [])
    partial(ctx, discard, A, lalr)
    partial(ctx, virtuals, A)
    partial(ctx, tokens29, A)


def partial(ctx, f, *a):
    try:
        f(ctx, *a)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (f.__name__, gaveup(x)))


def symbols(tree):
    import xml.etree.ElementTree as ET
    r = ET.parse(tree.tmp + "/parser.xml").getroot()
    return dict((t.get("name"), int(t.get("symbol-number"))) for kind in ("terminal", "nonterminal") for t in r.iter(kind))


def discard(ctx, A, lalr):
    """%destructor: the generated yy_destroy_, evaluated for each symbol"""
    fs = [f for f in ctx.prog.functions.values() if f["q"].endswith("parser::yy_destroy_") and "body" in f]
    if not fs:
        raise Undecided("no discard function in the generated parser")
    live = set(s for l, r, n in lalr.rules if n not in lalr.useless for s in (l,) + r)
    nums = dict((a, b) for a, b in symbols(ctx.tree).items() if a in live)
    for f in fs:
        sws = [n for n in walk(f["body"]) if n.get("k") == "switch"]
        cases, dflt = {}, []
        cur = []
        if sws:
            for x in sws[0]["b"]["b"]:
                fresh = True
                while x is not None and x["k"] in ("case", "default"):
                    if fresh:
                        cur = [] if not cur or cur[-1] == "end" else cur
                        fresh = False
                    if x["k"] == "case":
                        cases[x.get("v")] = cur
                    else:
                        dflt = cur
                    x = x["s"]
                if x is None:
                    continue
                if x["k"] == "break":
                    cur.append("end")
                    cur = ["end"]
                else:
                    if cur and cur[-1] == "end":
                        continue
                    cur.append(x)
        for name, no in sorted(nums.items(), key=lambda z: z[1]):
            fld = A.field(name)
            body = [x for x in cases.get(no, dflt) if x != "end"]
            dels = [n for x in body for n in walk(x) if n.get("k") == "del"]
            other = [n for x in body for n in walk(x) if n.get("k") in ("call", "new", "if", "for", "while")]
            where = "stl-to-ps/parser.y (discarding %s)" % name
            if dels and dels[0].get("l"):
                where = "stl-to-ps/parser.y:%s (discarding %s)" % (dels[0]["l"], name)
            members = []
            odd = bool(other)
            for d in dels:
                e = d["e"]
                while e.get("k") in ("cast", "paren"):
                    e = e["e"]
                if e.get("k") == "mem":
                    members.append(e.get("n"))
                else:
                    odd = True
            if fld is None or fld[1] is None or fld[1] == "stl2ps::Document":
                what = "has no object" if fld is None else "holds a number" if fld[1] is None else "is the caller's document"
                ctx.oblige(RDEL, where, False if dels else None if odd else True, "the symbol %s, but discarding it deletes value.%s" % (what, ",".join(members)))
            elif members == [fld[0]] and not odd:
                ctx.oblige(RDEL, where, True)
            elif odd:
                ctx.oblige(RDEL, where, None, "the discard action does something else")
            elif not dels:
                ctx.oblige(RDEL, where, False, "discarding this symbol after an error leaks its object")
            elif len(members) > 1:
                ctx.oblige(RDEL, where, False, "discarding this symbol deletes %s" % " and ".join("value." + m for m in members))
            else:
                ctx.oblige(RDEL, where, False, "the symbol's object is in value.%s but value.%s is deleted" % (fld[0], members[0]))


def virtuals(ctx, A):
    rec_ = ctx.prog.records
    used = set(f[1] for f in A.types.values() if f[1])
    for r in rec_.values():
        for f in r.get("fields", []):
            used.update(re.findall(r"std::unique_ptr<([\w:]+)>", f["t"]))
    derived = dict((q, [d for d, r in rec_.items() if q in r.get("bases", [])]) for q in rec_)

    def virt(q):
        r = rec_.get(q)
        if r is None:
            return None
        for m in r["methods"]:
            if m["n"].startswith("~") and m.get("virt"):
                return True
        return any(virt(b) for b in r.get("bases", []))
    for q in sorted(used):
        if q not in rec_:
            continue
        poly = any(m.get("virt") for m in rec_[q]["methods"])
        if not poly and not derived[q]:
            continue
        if not derived[q] and not rec_[q].get("abstract"):
            continue
        where = "%s (%s)" % (short_loc(rec_[q]["loc"]), q)
        ctx.oblige(RVIRT, where, bool(virt(q)), "objects of derived classes are deleted through %s, whose destructor is not virtual" % q)


def istextbyte(t):
    """a character of the text itself: such tokens are punctuation, which carries nothing"""
    return hasattr(t, "op") and "yytext_r" in repr(t) and not mentions(t, lambda x: x.op in ("call", "decoded", "bytes"))


def short_loc(l):
    return l[l.find("stl-to-ps/"):] if "stl-to-ps/" in l else l


def tokens29(ctx, A):
    lx = Lexer(ctx)
    tm = Terminals(ctx.tree)
    for k in sorted(lx.lines, key=lambda z: (z is None, z)):
        if k is None or k < 1 or k > lx.sc.nrules:
            continue
        try:
            os = lx.outcomes(k)
        except GIVEUP as x:
            ctx.undecide("%s: %s" % (lx.where(k), gaveup(x)))
            continue
        for o in os or []:
            name = tm.byno.get(o.ret) if isinstance(o.ret, int) else None
            if o.ret is not None and not isinstance(o.ret, int) and not istextbyte(o.ret):
                ctx.undecide("%s: returns %r" % (lx.where(k), o.ret))
                continue
            fld = A.field(name) if name else None
            own = Owners([], set())
            own.run(o.st.trace)
            news = list(own.s)
            if own.unclear:
                ctx.oblige(RTOK, lx.where(k), None, "; ".join(own.unclear))
                continue
            why = list(own.why)
            for p, s in own.s.items():
                stored = o.val is p
                if fld and fld[1] and stored:
                    if s != "raw":
                        why.append("the token's object is %s when the token is handed over" % ("owned by a smart pointer too" if s == "owned" else "deleted"))
                elif s == "raw":
                    why.append("the object made at line %s is lost: %s" % (own.lines.get(p, "?"), "no token is returned" if o.ret is None else "the token does not carry one"))
            if fld and fld[1]:
                if o.val is None or o.val.op == "null":
                    why.append("the token's symbol owns an object but none is stored: what an earlier token stored would be deleted twice")
                elif o.field != fld[0]:
                    why.append("the object is stored in %s, the symbol's is %s" % (o.field, fld[0]))
                elif o.val not in own.s:
                    if o.val.op == "ptr" and repr(o.val).startswith("&static"):
                        why.append("the stored pointer is to a static object, which the parser deletes")
                    elif o.val.op == "ptr" and o.val.a[0].op in ("D", "P"):
                        ctx.oblige(RTOK, lx.where(k), None, "stores %r" % (o.val,))
                        continue
                    if not why:
                        ctx.oblige(RTOK, lx.where(k), None, "stores %r" % (o.val,))
                        continue
            ctx.oblige(RTOK, lx.where(k), not why, "; ".join(why), describe(o.st, 3))
