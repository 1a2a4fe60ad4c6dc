"""PostScript templates: text with holes, split into tokens and interpreted on abstract values."""
from terms import *
from poly import poly, padd, pmul, const

WS = " \t\n\r\f\0"
DELIM = "()<>[]{}/%"
OPERATORS = set("""abs add aload anchorsearch and arc arcn arct arcto array ashow astore atan awidthshow begin bind bitshift bytesavailable cachestatus ceiling
charpath clear cleartomark clip clippath closefile closepath colorimage concat concatmatrix copy copypage cos count countdictstack countexecstack counttomark
currentcolor currentdash currentdict currentflat currentfont currentgray currentlinewidth currentmatrix currentpagedevice currentpoint curveto cvi cvlit cvn cvr
cvrs cvs cvx def defaultmatrix definefont dict dictstack div dtransform dup echo end eoclip eofill eq erasepage errordict exch exec executeonly exit exp
false file fill findfont findresource flattenpath floor flush flushfile FontDirectory for forall ge get getinterval grestore grestoreall gsave gt idiv idtransform if
ifelse image imagemask index initclip initgraphics initmatrix itransform invertmatrix known kshow le length lineto ln load log loop lt makefont mark matrix maxlength
mod moveto mul ne neg newpath noaccess not null or pathbbox pathforall pop print prompt pstack put putinterval quit rand rcurveto read readhexstring readline readonly
readstring rectclip rectfill rectstroke repeat resetfile restore reversepath rlineto rmoveto roll rotate round rrand run save scale scalefont search selectfont
setcachedevice setcharwidth setcolor setcolorspace setdash setflat setfont setgray sethsbcolor setlinecap setlinejoin setlinewidth setmatrix setmiterlimit setpagedevice
setrgbcolor setcmykcolor setscreen show showpage sin sqrt srand stack StandardEncoding status stop stopped store string stringwidth stroke strokepath sub systemdict
token transform translate true truncate type undef userdict usertime vmstatus wcheck where widthshow write writehexstring writestring xcheck xor glyphshow
xshow yshow xyshow currentglobal setglobal languagelevel product version""".split())


class Bad(Exception):
    """the text is definitely wrong"""


class Dunno(Exception):
    """no rule"""


def number(s):
    try:
        return float(s)
    except ValueError:
        return None


def isnumber(t):
    return t.op == "tostr" or t.op == "i" or t.op == "f"


def expand(ps):
    """printf-like pieces with a literal format are split at their conversions"""
    out = []
    for p in ps:
        if isinstance(p, T) and p.op == "s":
            out.append(p.a[0])
        elif isinstance(p, T) and p.op == "fmt" and p.a[0].op == "pflit":
            f, args = p.a[0].a[0], list(p.a[1])
            f = f.a[0] if isinstance(f, T) else f
            i, lit = 0, ""
            while i < len(f):
                if f[i] == "%" and f[i + 1:i + 2] == "%":
                    lit += "%"
                    i += 2
                elif f[i] == "%":
                    j = i + 1
                    while j < len(f) and f[j] in "0123456789.+-# lhzjtL":
                        j += 1
                    if not args:
                        raise Dunno("format %r" % f)
                    out.append(lit)
                    lit = ""
                    a = args.pop(0)
                    k = f[j:j + 1]
                    if k in "feEgGdiuv" and not isstring(a):
                        out.append(mk("tostr", a))
                    else:
                        out.append(a)
                    i = j + 1
                else:
                    lit += f[i]
                    i += 1
            out.append(lit)
        else:
            out.append(p)
    r = []
    for p in out:
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        elif p != "":
            r.append(p)
    return r


def isstring(t):
    return t.op in ("s", "cat", "chr", "fmt", "replall", "mapped", "flag")


class Tok(object):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


def tokens(ps, holes):
    """-> tokens; holes receives (context, term) for every hole"""
    seq = []
    for p in expand(ps):
        seq += list(p) if isinstance(p, str) else [p]
    i, n = 0, len(seq)
    out = []
    while i < n:
        c = seq[i]
        if isinstance(c, str) and c in WS:
            i += 1
        elif c == "%":
            while i < n and not (isinstance(seq[i], str) and seq[i] in "\n\r\f"):
                if not isinstance(seq[i], str):
                    holes.append(("comment", seq[i]))
                i += 1
            if i >= n:
                out.append(Tok("opencomment", None))
        elif c == "(":
            d, parts = 1, []
            i += 1
            while True:
                if i >= n:
                    raise Bad("a string literal is not closed")
                c = seq[i]
                if not isinstance(c, str):
                    holes.append(("string", c))
                elif c == "\\":
                    parts.append(c)
                    i += 1
                    if i < n and not isinstance(seq[i], str):
                        raise Bad("a value follows a backslash inside a string literal")
                elif c == "(":
                    d += 1
                elif c == ")":
                    d -= 1
                    if not d:
                        i += 1
                        break
                parts.append(seq[i] if i < n else "")
                i += 1
            out.append(Tok("str", parts))
        elif isinstance(c, str) and c in "[]{}":
            out.append(Tok(c, c))
            i += 1
        elif c == "<" or c == ">":
            if seq[i + 1:i + 2] == [c]:
                out.append(Tok(c + c, c + c))
                i += 2
            else:
                raise Dunno("hexadecimal string")
        elif c == ")":
            raise Bad("an unmatched ) outside any string literal")
        else:
            lit = c == "/"
            if lit:
                i += 1
            parts = []
            while i < n and not (isinstance(seq[i], str) and (seq[i] in WS or seq[i] in DELIM)):
                parts.append(seq[i])
                i += 1
            hs = [p for p in parts if not isinstance(p, str)]
            if not hs:
                w = "".join(parts)
                out.append(Tok("name" if lit else "num" if number(w) is not None else "op", w if lit or number(w) is None else mk("f", number(w)) if number(w) != int(number(w)) else I(int(number(w)))))
                continue
            for h in hs:
                holes.append(("code", h))
            if len(parts) > 1 or lit:
                raise Bad("the value %r runs into its neighbours %r" % (hs[0], "".join(p if isinstance(p, str) else "..." for p in parts)))
            if hs[0].op == "tostr":
                out.append(Tok("num", hs[0].a[0]))
            elif isstring(hs[0]) or hs[0].op in ("init", "proj", "lv", "elem"):
                raise Bad("text appears outside any string literal: %r" % hs[0])
            else:
                raise Dunno("the value %r" % hs[0])
    return out


class Machine(object):
    """operand stack, path and dictionary"""

    def __init__(self, defs=None):
        self.st = []
        self.defs = dict(defs or {})
        self.path = None       # None: none, "new": empty, "pt": has a current point
        self.font = None
        self.begun = 0
        self.log = []          # painted things
        self.pending = []
        self.used = set()
        self.pages = 0
        self.depth = 0

    def pop(self, kind, what):
        if not self.st:
            raise Bad("%s finds nothing on the operand stack" % what)
        k, v = self.st.pop()
        if kind and k != kind:
            raise Bad("%s needs a %s but finds a %s" % (what, kind, k))
        return v if kind else (k, v)

    def nums(self, n, what):
        r = [self.pop("number", what) for _ in range(n)]
        return r[::-1]

    def run(self, toks):
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.k == "num":
                self.st.append(("number", t.v))
            elif t.k == "str":
                self.st.append(("string", t.v))
            elif t.k == "name":
                self.st.append(("name", t.v))
            elif t.k == "{":
                d, j = 1, i + 1
                while j < len(toks) and d:
                    d += (toks[j].k == "{") - (toks[j].k == "}")
                    j += 1
                if d:
                    raise Bad("a { is not closed")
                self.st.append(("procedure", toks[i + 1:j - 1]))
                i = j - 1
            elif t.k == "}":
                raise Bad("an unmatched }")
            elif t.k in ("[", "<<"):
                self.st.append(("mark", t.k))
            elif t.k in ("]", ">>"):
                items = []
                while self.st and self.st[-1] != ("mark", "[" if t.k == "]" else "<<"):
                    items.insert(0, self.st.pop())
                if not self.st:
                    raise Bad("an unmatched %s" % t.k)
                self.st.pop()
                if t.k == ">>" and (len(items) % 2 or any(items[k][0] != "name" for k in range(0, len(items), 2))):
                    raise Bad("a dictionary without proper keys and values")
                self.st.append(("array" if t.k == "]" else "dictionary", items))
            elif t.k == "opencomment":
                pass
            else:
                self.op(t.v)
            i += 1

    def op(self, o):
        P = self.pop
        if o in self.defs:
            self.used.add(o)
            k, v = self.defs[o]
            if k == "procedure":
                self.depth += 1
                if self.depth > 30:
                    raise Dunno("recursion")
                self.run(v)
                self.depth -= 1
            else:
                self.st.append((k, v))
            return
        if o == "newpath":
            self.path, self.pending = "new", []
        elif o == "moveto":
            self.pending.append(("moveto",) + tuple(self.nums(2, o)))
            self.path = "pt"
        elif o in ("rmoveto", "rlineto", "lineto"):
            v = self.nums(2, o)
            if self.path != "pt":
                raise Bad("%s without a current point" % o)
            self.pending.append((o,) + tuple(v))
        elif o in ("arc", "arcn"):
            self.pending.append((o,) + tuple(self.nums(5, o)))
            self.path = "pt"
        elif o == "curveto":
            v = self.nums(6, o)
            if self.path != "pt":
                raise Bad("%s without a current point" % o)
            self.pending.append((o,) + tuple(v))
        elif o == "closepath":
            pass
        elif o in ("stroke", "fill"):
            if self.path != "pt":
                raise Bad("%s without a path" % o)
            self.log.append((o, tuple(self.pending)))
            self.path, self.pending = None, []
        elif o == "show":
            v = P("string", o)
            if self.path != "pt":
                raise Bad("show without a current point")
            self.log.append((o, tuple(self.pending), v))
            self.path, self.pending = "shown", []
        elif o == "showpage":
            self.pages += 1
            self.log.append((o, ()))
        elif o in ("setlinewidth", "setgray", "setlinecap", "setlinejoin", "setflat", "setmiterlimit", "rotate"):
            self.nums(1, o)
        elif o in ("translate", "scale"):
            self.nums(2, o)
        elif o == "setrgbcolor":
            self.nums(3, o)
        elif o == "setpagedevice":
            P("dictionary", o)
        elif o == "def":
            v = P(None, o)
            self.defs[P("name", o)] = v
        elif o == "findfont":
            P("name", o)
            self.st.append(("font", None))
        elif o == "scalefont":
            self.nums(1, o)
            P("font", o)
            self.st.append(("font", None))
        elif o == "setfont":
            P("font", o)
            self.font = True
        elif o == "selectfont":
            self.nums(1, o)
            P("name", o)
            self.font = True
        elif o == "dup":
            v = P(None, o)
            self.st += [v, v]
        elif o == "pop":
            P(None, o)
        elif o == "exch":
            b, a = P(None, o), P(None, o)
            self.st += [b, a]
        elif o in ("div", "mul", "add", "sub"):
            a, b = self.nums(2, o)
            self.st.append(("number", mk({"div": "/", "mul": "*", "add": "+", "sub": "-"}[o], a, b)))
        elif o == "neg":
            self.st.append(("number", mk("-", I(0), self.nums(1, o)[0])))
        elif o == "roll":
            n, j = self.nums(2, o)
            if n.op != "i" or j.op != "i":
                raise Dunno("roll by a computed amount")
            n, j = n.a[0], j.a[0]
            if n > len(self.st) or n < 0:
                raise Bad("roll needs %d operands" % n)
            if n:
                top = self.st[-n:]
                j %= n
                self.st[-n:] = top[-j:] + top[:-j] if j else top
        elif o in ("index", "copy"):
            n = self.nums(1, o)[0]
            if n.op != "i":
                raise Dunno(o)
            n = n.a[0]
            if n + (o == "index") > len(self.st):
                raise Bad("%s reaches below the operand stack" % o)
            if o == "index":
                self.st.append(self.st[-1 - n])
            elif n:
                self.st += self.st[-n:]
        elif o == "stringwidth":
            P("string", o)
            self.st += [("number", mk("psw")), ("number", mk("psh"))]
        elif o == "currentfont":
            self.st.append(("dictionary", "font"))
        elif o == "begin":
            if P("dictionary", o) == "font":
                self.begun += 1
        elif o == "end":
            if not self.begun:
                raise Bad("end without begin")
            self.begun -= 1
        elif o == "FontBBox":
            if not self.begun:
                raise Bad("FontBBox outside the font's dictionary")
            self.st += [("number", mk("psbb", i)) for i in range(4)]
        elif o in ("gsave", "grestore"):
            pass
        elif o in OPERATORS:
            raise Dunno("operator %s" % o)
        else:
            raise Bad("%s is not defined" % o)
