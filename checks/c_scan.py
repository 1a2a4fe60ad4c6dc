"""C30, C31, C32, C39: driving the scanner, places in diagnostics, string literals, odd input."""
import re
from common import *
from engine import Undecided

R30 = "a parse uses a fresh scanner over exactly the script and releases it once"
RTOKEN = "the parser gets exactly the scanner's tokens"

PRE = "stl2ps"
LEXFNS = {"lex_init", "lex_init_extra", "_scan_bytes", "_scan_string", "_scan_buffer", "set_lineno", "set_column", "set_extra", "_delete_buffer", "lex_destroy",
          "_switch_to_buffer", "push_buffer_state", "pop_buffer_state", "_create_buffer", "restart", "set_in", "_flush_buffer", "set_debug", "set_out", "set_lval", "set_lloc"}


def isparam(v, fn, i):
    r = mk("P", fn["params"][i]["n"])
    return v is mk("init", r) or v is mk("ptr", r)


def partial(ctx, f, *a):
    try:
        f(ctx, *a)
    except GIVEUP as x:
        ctx.undecide("%s: %s" % (f.__name__, gaveup(x)))


def c_lex(name):
    def f(eng, st, fn, ol, args, e):
        vs = [eng.argval(st, a) for a in args]
        n = st.mon.get("lexcalls", 0)
        st.mon["lexcalls"] = n + 1
        if name in ("lex_init", "lex_init_extra"):
            h = mk("scanner", n)
            eng.write(st, eng.deref(st, vs[-1]), h)
            eng.event(st, "lex", name, (h,) + tuple(vs[:-1]), e.get("l"))
            return [(st, I(0))]
        if name in ("_scan_bytes", "_scan_string", "_scan_buffer", "_create_buffer"):
            b = mk("buffer", n)
            eng.event(st, "lex", name, tuple(vs) + (b,), e.get("l"))
            return [(st, b)]
        eng.event(st, "lex", name, tuple(vs), e.get("l"))
        return [(st, I(0) if name == "lex_destroy" else VOID)]
    return f


def c_parser(eng, st, f, ol, args, e):
    vs = [eng.argval(st, a) for a in args]
    return [(st, mk("parserobj", *vs))]


def c_parse(eng, st, f, ol, args, e):
    p = eng.read(st, ol)
    n = st.mon.get("lexcalls", 0)
    st.mon["lexcalls"] = n + 1
    snap = {}
    ex = p.a[2] if p.op == "parserobj" and len(p.a) > 2 else None
    r = mk("parsed", n)
    eng.event(st, "parse", p, content(eng, st, ex), r, e.get("l"), tuple((repr(k), extra_name(eng, st, v)) for k, v in st.mon.get("extras", ())))
    return [(st, r)]


def content(eng, st, ex):
    """what the file name of a ScannerExtra reads as"""
    if ex is None:
        return None
    v = eng.read(st, eng.deref(st, ex))
    fn = proj(v, "filename")
    if fn.op == "null":
        return fn
    return eng.read(st, eng.deref(st, fn))


def extra_name(eng, st, v):
    return content(eng, st, v)


def c_setextra(eng, st, fn, ol, args, e):
    vs = [eng.argval(st, a) for a in args]
    st.mon["extras"] = st.mon.get("extras", ()) + ((vs[1], vs[0]),)
    eng.event(st, "lex", "set_extra", tuple(vs), e.get("l"))
    return [(st, VOID)]


def c_initextra(eng, st, fn, ol, args, e):
    vs = [eng.argval(st, a) for a in args]
    n = st.mon.get("lexcalls", 0)
    st.mon["lexcalls"] = n + 1
    h = mk("scanner", n)
    eng.write(st, eng.deref(st, vs[1]), h)
    st.mon["extras"] = st.mon.get("extras", ()) + ((h, vs[0]),)
    eng.event(st, "lex", "lex_init", (h,), e.get("l"))
    eng.event(st, "lex", "set_extra", (vs[0], h), e.get("l"))
    return [(st, I(0))]


def contracts30():
    con = dict((PRE + n, c_lex(n)) for n in LEXFNS)
    con[PRE + "set_extra"] = c_setextra
    con[PRE + "lex_init_extra"] = c_initextra
    con["ctor stl2ps_parser::parser"] = c_parser
    con["stl2ps_parser::parser::parse"] = c_parse
    con["stl2ps_parser::parser::operator()"] = c_parse
    for n in ("set_debug_level", "set_debug_stream"):
        con["stl2ps_parser::parser::" + n] = lambda eng, st, f, ol, args, e: [(st, VOID)]
    return con


class Session(object):
    """typestate of the scanner handles of one call of Parse"""

    def __init__(self, name, text, doc):
        self.name, self.text, self.doc = name, text, doc
        self.h = {}
        self.why = []
        self.unclear = []
        self.parsed = []

    def handle(self, h, line, what):
        if h not in self.h:
            if h.op == "scanner" or h is UNDEF or h.op == "null":
                self.why.append("line %s: %s on a scanner that was never made" % (line, what))
            else:
                self.why.append("line %s: %s on a scanner this call did not make (%r)" % (line, what, h))
            self.h[h] = dict(made=False, buf=None, line=None, col=None, extra=None, gone=False, freed=set(), used=False)
        s = self.h[h]
        if s["gone"]:
            self.why.append("line %s: %s after the scanner was released" % (line, what))
        return s

    def run(self, trace):
        for e in trace:
            if e[0] == "loop":
                if any(x[0] in ("lex", "parse") for x in e[3]):
                    self.unclear.append("the scanner is driven in a loop")
                continue
            if e[0] == "lex":
                self.lex(e[1], e[2], e[3])
            elif e[0] == "parse":
                self.parse(e)

    def lex(self, name, a, line):
        if name == "lex_init":
            self.h[a[0]] = dict(made=True, buf=None, line=None, col=None, extra=None, gone=False, freed=set(), used=False)
            return
        if name in ("_scan_bytes", "_scan_string", "_scan_buffer"):
            s = self.handle(a[-2], line, "scanning")
            s["buf"] = (name, a[:-2], a[-1])
            s["line"] = s["col"] = None
            return
        if name in ("set_lineno", "set_column"):
            s = self.handle(a[1], line, name)
            if s["buf"] is None:
                self.why.append("line %s: %s before there is a buffer ends the program" % (line, name))
            s["line" if name == "set_lineno" else "col"] = a[0]
            return
        if name == "set_extra":
            self.handle(a[1], line, name)["extra"] = a[0]
            return
        if name == "_delete_buffer":
            s = self.handle(a[1], line, "deleting the buffer")
            if a[0] in s["freed"]:
                self.why.append("line %s: the buffer is released twice" % line)
            s["freed"].add(a[0])
            if s["buf"] and a[0] is s["buf"][2]:
                s["buf"] = s["buf"][:2] + (None,)
            return
        if name == "lex_destroy":
            s = self.handle(a[0], line, "releasing")
            s["gone"] = True
            return
        if name in ("set_debug", "set_out", "set_lval", "set_lloc"):
            return
        self.unclear.append("line %s: calls %s%s" % (line, PRE, name))

    def parse(self, e):
        p, name, r, line, extras = e[1], e[2], e[3], e[4], dict(e[5])
        self.parsed.append(r)
        if p.op != "parserobj" or len(p.a) != 3:
            self.unclear.append("line %s: the parser is made as %r" % (line, p))
            return
        h, doc, ex = p.a
        s = self.handle(h, line, "parsing")
        if s["used"]:
            self.why.append("line %s: the scanner parses a second time" % line)
        s["used"] = True
        if doc not in (self.doc, mk("ptr", self.doc.a[0])):
            self.why.append("line %s: the parser fills %r, not the caller's document" % (line, doc))
        self.filename(name, line, "the parser's diagnostics")
        if s["extra"] is None:
            self.why.append("line %s: the scanner is given no file name" % line)
        elif repr(h) in extras:
            self.filename(extras[repr(h)], line, "the scanner")
        if s["buf"] is None:
            self.why.append("line %s: the scanner has nothing to scan: it reads standard input" % line)
        else:
            f, a, b = s["buf"]
            if b is None:
                self.why.append("line %s: the buffer is released before the parse" % line)
            self.source(f, a, line)
        for k, n, want in (("line", "line", 1), ("col", "column", 0)):
            v = s[k]
            if v is None:
                self.why.append("line %s: the %s number is not set for this buffer: it is not initialised" % (line, n))
            elif v.op == "i":
                if v.a[0] != want:
                    self.why.append("line %s: %s numbers start at %s" % (line, n, v.a[0]))
            else:
                self.unclear.append("%s numbers start at %r" % (n, v))

    def filename(self, v, line, who):
        if v is self.name or v is None:
            return
        if v.op == "null":
            self.why.append("line %s: %s has no file name" % (line, who))
        elif v.op == "moved" or mentions(v, lambda x: x.op == "moved"):
            self.why.append("line %s: the file name %s uses was moved away" % (line, who))
        elif vague(v):
            self.unclear.append("file name %r" % (v,))
        else:
            self.why.append("line %s: %s uses the file name %r, not the script's" % (line, who, v))

    def source(self, f, a, line):
        t = self.text
        if f == "_scan_string":
            self.why.append("line %s: the script is scanned as a C string, which ends at its first zero byte" % line)
            return
        d, n = a[0], a[1]
        while n.op in ("cast", "int", "trunc"):
            n = n.a[-1]
        sd, sn = repr(d), repr(n)
        if f == "_scan_buffer":
            self.unclear.append("line %s: scans in place" % line)
            return
        isdata = d is t or d.op in ("data", "cstr", "c_str") and d.a[0] is t
        issize = n is size_(t)
        if isdata and issize:
            return
        if not mentions(d, lambda x: x is t):
            if vague(d):
                self.unclear.append("scans %r" % (d,))
            else:
                self.why.append("line %s: scans %s, not the script" % (line, sd))
            return
        if isdata and not issize:
            if n.op == "call" and n.a[0] in ("strlen", "std::strlen"):
                self.why.append("line %s: the script is cut at its first zero byte" % line)
            elif vague(n):
                self.unclear.append("scans %s bytes" % sn)
            else:
                self.why.append("line %s: scans %s bytes of the script, not all of it" % (line, sn))
            return
        self.unclear.append("scans %s, %s bytes" % (sd, sn))


def size_(t):
    import terms
    return terms.size(t)


def c30(ctx):
    ctx.rule("typestate of the scanner handle along every path of Parse: made, given the whole script as its only buffer, line 1, column 0 and the script's file name, handed to one parser with the "
             "caller's document, parsed once, its buffer released at most once before it, released exactly once and not used afterwards; the parser's result is returned. The functions between the parser "
             "and the generated scanner pass every token on.")
    ctx.load()
    partial(ctx, drive)
    partial(ctx, feed)


def drive(ctx):
    fn = ctx.fn("stl2ps::Parse")
    eng, ex = ctx.run(fn, contracts30())
    if ex is None:
        return
    name, text, doc = param(fn, 0), param(fn, 1), param(fn, 2)
    for x in ex:
        s = Session(name, text, doc)
        where = ctx.where(fn)
        s.run(x.st.trace)
        for h, y in s.h.items():
            if y["made"] and not y["gone"]:
                s.why.append("the scanner is not released on a way out")
        if not s.parsed:
            s.why.append("the script is not parsed")
        elif len(s.parsed) > 1:
            s.why.append("the script is parsed more than once")
        else:
            result(x, eng, s)
        if s.why:
            ctx.oblige(R30, where, False, "; ".join(s.why), describe(x.st, 4))
        elif s.unclear:
            ctx.oblige(R30, where, None, "; ".join(s.unclear))
        else:
            ctx.oblige(R30, where, True)


def result(x, eng, s):
    r, v = s.parsed[0], x.val
    if v is r:
        return
    if hasattr(v, "op") and v.op == "ite" and len(v.a) == 3:
        s.unclear.append("returns %r" % (v,))
        return
    if not hasattr(v, "op"):
        s.unclear.append("returns %r" % (v,))
        return
    zero = eng.truth(x.st, eq(r, I(0)))
    if v.op == "i" or v is TRUE or v is FALSE:
        bad = v is TRUE or v.op == "i" and v.a[0] != 0
        if zero is None:
            s.why.append("returns %r whatever the parser said" % (v,))
        elif bad == bool(zero):
            s.why.append("returns %r when the parser %s the script" % (v, "accepts" if zero else "rejects"))
        return
    if v is eq(r, I(0)):
        s.why.append("returns whether the parser accepts the script, which callers read as failure")
    elif v is neg_bool(eq(r, I(0))):
        return
    elif not mentions(v, lambda z: z is r) and not vague(v):
        s.why.append("returns %r, not the parser's result" % (v,))
    else:
        s.unclear.append("returns %r" % (v,))


def c_token(eng, st, f, ol, args, e):
    vs = [eng.argval(st, a) for a in args]
    n = st.mon.get("tok", 0)
    st.mon["tok"] = n + 1
    r = mk("token", n)
    eng.event(st, "token", r, tuple(vs), e.get("l"))
    return [(st, r)]


def feed(ctx):
    """the functions between parser::parse and the scanner"""
    inner = "stl2pslex_inner"
    fs = [f for f in ctx.prog.functions.values() if "body" in f and not f["q"].startswith("stl2ps_parser::") and f["q"].split("::")[-1] in ("stl2pslex", "stl2ps_parserlex")]
    for f in fs:
        if len(f["params"]) != 3:
            ctx.undecide("%s takes %d parameters" % (f["q"], len(f["params"])))
            continue
        eng, ex = ctx.run(f, {inner: c_token})
        if ex is None:
            continue
        for x in ex:
            toks = [e for e in x.st.trace if e[0] == "token"]
            if any(e[0] == "loop" and any(z[0] == "token" for z in e[3]) for e in x.st.trace):
                ctx.oblige(RTOKEN, ctx.where(f), None, "takes tokens in a loop")
                continue
            why = []
            if len(toks) != 1:
                why.append("%d tokens are taken for one that is passed on" % len(toks))
            else:
                if not all(isparam(v, f, i) for i, v in enumerate(toks[0][2])):
                    if any(vague(v) for v in toks[0][2]):
                        ctx.oblige(RTOKEN, ctx.where(f), None, "%r" % (toks[0][2],))
                        continue
                    why.append("the token's value or place goes to %r" % (toks[0][2],))
                if x.val is not toks[0][1]:
                    if hasattr(x.val, "op") and mentions(x.val, lambda z: z is toks[0][1]):
                        ctx.oblige(RTOKEN, ctx.where(f), None, "returns %r" % (x.val,))
                        continue
                    why.append("%r is passed on instead of the token" % (x.val,))
            ctx.oblige(RTOKEN, ctx.where(f), not why, "; ".join(why), describe(x.st, 4))
