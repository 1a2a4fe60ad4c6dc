"""C26-C32, C39: the scanner, the grammar and what the parser builds."""
from collections import deque
from common import *
from c_flow import NS
from engine import State, Undecided, walk
import lextab
import rx

YYLEX = "stl2pslex_inner"
PUNCT = "{}[]()=;:,@"
KEYWORDS = ("angle", "dia", "dim", "draw", "load", "page", "rad", "text")
# in order of precedence among lexemes of equal length
TOKENS = ([("'%s'" % c, rx.lit(c)) for c in PUNCT] + [(k, rx.lit(k)) for k in KEYWORDS] + [
    ("ID", rx.rx(r"[a-zA-Z_][a-zA-Z0-9_]*")),
    ("NUM", rx.rx(r"[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")),
    ("STRING", rx.rx(r'"([^"\\\n]|\\[' + "'" + r'"?\\n])*"')),
    ("skip", rx.rx(r"[ \t\n\r]|//.*")),
    ("error", rx.rx(r".")),
])
SAMPLE = {"ID": b"x", "NUM": b"1", "STRING": b'""', "skip": b" ", "error": b"$"}
for _k in KEYWORDS:
    SAMPLE[_k] = _k.encode()
for _c in PUNCT:
    SAMPLE["'%s'" % _c] = _c.encode()


class Spec(object):
    """the documented scanner with the interface of lextab.Scanner; accept gives a class or None"""

    def __init__(self):
        self.memo = {}

    def start(self):
        return tuple(l.start() for _, l in TOKENS)

    def step(self, s, b):
        k = (s, b)
        if k not in self.memo:
            n = tuple(None if x is None else l.step(x, b) for x, (_, l) in zip(s, TOKENS))
            n = tuple(x if x is not None and live(l, x) else None for x, (_, l) in zip(n, TOKENS))
            self.memo[k] = None if all(x is None for x in n) else n
        return self.memo[k]

    def accept(self, s):
        for x, (n, l) in zip(s, TOKENS):
            if x is not None and l.acc(x):
                return n
        return None


_live = {}


def live(l, s):
    """can a member still be reached"""
    k = (id(l), s)
    if k not in _live:
        seen, q = {s}, [s]
        r = False
        while q and not r:
            x = q.pop()
            r = l.acc(x)
            for _, b in rx.partition([l]):
                y = l.step(x, b)
                if y is not None and y not in seen:
                    seen.add(y)
                    q.append(y)
        _live[k] = r
    return _live[k]


class Outcome(object):
    def __init__(self, ret, facts, field, val, content, diag, odd, st):
        self.ret, self.facts, self.field, self.val, self.content, self.diag, self.odd, self.st = ret, facts, field, val, content, diag, odd, st


def c_quote(eng, st, f, ol, args, e):
    v = eng.argval(st, args[0])
    r = mk("H", "std::string", e["_id"], st.depth)
    st.store[r] = mk("decoded", v)
    eng.event(st, "new", mk("ptr", r), "std::string", e.get("l"))
    return [(st, mk("ptr", r))]


def c_lineno(eng, st, f, ol, args, e):
    return [(st, mk("init", mk("P", "yylineno")))]


def c_column(eng, st, f, ol, args, e):
    return [(st, mk("init", mk("P", "yycolumn")))]


def c_nothing(eng, st, f, ol, args, e):
    return [(st, VOID)]


def c_lexerror(eng, st, f, ol, args, e):
    eng.event(st, "reported", e.get("l"))
    return [(st, VOID)]


LEXCON = {"stl2ps::NewQuote": c_quote, "stl2psget_lineno": c_lineno, "stl2psget_column": c_column, "stl2psset_column": c_nothing,
          "parser_support::Error": c_lexerror}


class Lexer(object):
    def __init__(self, ctx, **opts):
        self.ctx, self.opts = ctx, opts
        self.aborts = {}
        ctx.load()
        self.text = open(ctx.tree.gen + "/stl-to-ps/lexer.yy.cc", errors="surrogateescape").read()
        try:
            self.sc = lextab.Scanner(self.text)
        except (lextab.Odd, AttributeError, ValueError) as x:
            raise Undecided("the generated scanner is not understood: %s" % x)
        fs = [f for f in ctx.prog.functions.values() if f["q"].endswith("lex_inner") or f["q"] == YYLEX]
        fs = [f for f in fs if "body" in f and any(n.get("k") == "switch" and n["c"].get("n") == "yy_act" for n in walk(f["body"]))]
        if not fs:
            fs = [f for f in ctx.prog.functions.values() if "body" in f and f.get("file", "").endswith("lexer.yy.cc") and
                  any(n.get("k") == "switch" and n["c"].get("n") == "yy_act" for n in walk(f["body"]))]
        if not fs:
            raise Undecided("no scanner function")
        self.fn = fs[0]
        self.sw = [n for n in walk(self.fn["body"]) if n.get("k") == "switch" and n["c"].get("n") == "yy_act"][0]
        self.lines = {}
        for x in self.sw["b"]["b"]:
            if x["k"] == "case":
                self.lines[x.get("v")] = action_line(self.sw["b"]["b"], x)
        self.memo = {}

    def where(self, k):
        return "stl-to-ps/lexer.l:%s (rule %d)" % (self.lines.get(k, "?"), k)

    def outcomes(self, k):
        if k not in self.memo:
            self.memo[k] = self.run(k)
        return self.memo[k]

    def run(self, k):
        fn, sw = self.fn, self.sw
        pre = []
        for s in fn["body"]["b"]:
            if s["k"] == "if":
                break
            pre.append(s)
        s2 = dict(sw)
        s2["c"] = {"k": "int", "v": k, "t": "int", "l": 0, "_id": sw["c"]["_id"]}
        g = dict(fn)
        g["body"] = dict(fn["body"], b=pre + [s2])
        eng, ex = self.ctx.run(g, dict(LEXCON), own=True, **self.opts)
        if ex is None:
            return None
        self.aborts[k] = list(eng.aborts)
        self.inlined = set(eng.calls_inlined)
        out = []
        for x in ex:
            st = x.st
            odd = []
            field = val = content = None
            for root, v in st.store.items():
                if root.op != "P":
                    continue
                if root.a[0] == fn["params"][0]["n"]:
                    if v.op == "upd":
                        ch = [(n, y) for n, y in v.a[1]]
                        if len(ch) == 1:
                            field, val = ch[0]
                        elif ch:
                            odd.append("several values are stored")
                elif root.a[0] == fn["params"][1]["n"]:
                    pass
                elif v.op == "upd":
                    for n, y in v.a[1]:
                        if n not in ("yylval_r", "yylloc_r"):
                            odd.append("writes %s" % (n,))
            if val is not None and val.op == "ptr":
                content = st.store.get(val.a[0])
            ret = None if x.val is VOID else x.val.a[0] if hasattr(x.val, "op") and x.val.op == "i" else x.val
            diag = any(e[0] == "reported" for e in st.trace) or st.mon.get("diag", 0) > 0
            for e in st.trace:
                if e[0] == "call" and e[1] in ("fwrite", "putchar", "printf", "fputs", "puts", "fprintf", "exit", "abort", "yy_fatal_error"):
                    odd.append("calls " + e[1])
                if e[0] == "out" and "cerr" not in repr(e[1]):
                    odd.append("prints")
            out.append(Outcome(ret, st.facts, field, val, content, diag, odd, st))
        return out


def action_line(stmts, case):
    """line of the rule in lexer.l: the first statement of the case that came from there"""
    i = stmts.index(case)
    for x in stmts[i + 1:i + 3]:
        return x.get("l", "?")
    return case.get("l", "?")


# ---------------------------------------------------------------- C26
R26 = "scripts split into exactly the documented tokens"
GOODNUM = {"strtof", "strtod", "strtold", "atof", "stof", "stod", "stold", "std::stof", "std::stod", "std::strtof", "std::strtod", "std::atof"}
BADNUM = {"atoi", "strtol", "strtoul", "strtoll", "stoi", "stol", "std::stoi", "std::stol", "std::atoi", "std::strtol"}


def istext(t):
    return t is not None and t.op == "init" and t.a[-1] == "yytext_r"


def isleng(t):
    return t.op == "init" and t.a[-1] == "yyleng_r"


def firstbyte(t):
    """yytext[0]"""
    if not hasattr(t, "op"):
        return False
    while t.op in ("cast", "uchar", "int"):
        t = t.a[-1]
    if t.op in ("init", "proj", "elem") and hasattr(t.a[-1], "op") and t.a[-1].op == "idx" and t.a[-1].a[0].op == "i" and t.a[-1].a[0].a[0] == 0:
        r = repr(t)
        return "yytext_r" in r
    if t.op == "init" and t.a[0].op == "D":
        return istext(t.a[0].a[0]) and len(t.a) == 1
    return False


class Terminals(object):
    """what the generated parser calls the numbers the scanner returns"""

    def __init__(self, tree):
        import xml.etree.ElementTree as ET
        r = ET.parse(tree.tmp + "/parser.xml").getroot()
        self.root = r
        self.byno = {int(t.get("token-number")): t.get("name") for t in r.iter("terminal")}
        self.sym = {t.get("name"): int(t.get("symbol-number")) for t in r.iter("terminal")}

    def real(self, no):
        n = self.byno.get(no)
        return n is not None and n not in ("error", "\"invalid token\"", "$undefined", "\"end of file\"", "$end")


def label(lx, tm, k, word=None):
    """('tok', code) | ('skip',) | ('error',) | ('odd', why) | None when beyond the rules"""
    if not k:
        return ("none",)
    oc = lx.outcomes(k)
    if not oc:
        return None
    good = []
    for o in oc:
        if o.odd:
            return ("odd", o.odd[0])
        if o.ret is None:
            good.append(("skip",))
        elif firstbyte(o.ret):
            good.append(("tok", word[0]) if word else None)
        elif not isinstance(o.ret, int):
            return None
        elif not tm.real(o.ret):
            if o.ret == 0:
                good.append(("odd", "ends the script"))
            elif o.diag:
                if converts(o):
                    continue     # a number that cannot be represented
                good.append(("error",))
            else:
                good.append(("odd", "is rejected without a word") if o.ret == 256 else ("error",))
        else:
            good.append(("tok", o.ret))
    if not good:
        return ("error",)
    if len(set(good)) != 1:
        return None
    return good[0]


def converts(o):
    """does this outcome depend on the numeric value of the text (and on nothing else)"""
    fs = [f for f in o.facts if mentions(f, lambda x: istext(x))]
    return bool(fs) and all(mentions(f, lambda x: x.op == "call" and x.a[0] in GOODNUM or x.op == "errno") for f in fs)


def tokens(start, step, accept, data, lab):
    """longest match: [(label, lexeme)] without what is skipped; stops at the first error"""
    out, i = [], 0
    while i < len(data):
        s, j, last = start(), i, None
        while j < len(data) and s is not None:
            s = step(s, data[j])
            j += 1
            if s is not None and accept(s):
                last = (j, accept(s))
        if last is None:
            out.append((("stuck",), data[i:]))
            return out
        w = data[i:last[0]]
        l = lab(last[1], w)
        if l is None:
            return None
        if l == ("error",):
            out.append((l, data[i:i + 1]))
            return out
        if l != ("skip",):
            out.append((l, w))
        i = last[0]
    return out


def c26(ctx):
    ctx.rule("the tables of the generated scanner are read back as an automaton and explored in product with the automaton of the documented tokens over all bytes; "
             "in every reachable pair of states the rule that fires must have the documented effect, which is taken from the paths of its action.")
    lx = Lexer(ctx)
    tm = Terminals(ctx.tree)
    sp, sc = Spec(), lx.sc
    if len(sc.conditions) > 1:
        ctx.undecide("start conditions %s: the product covers INITIAL only" % ", ".join(sc.conditions[1:]))
    code = {}
    where = {}
    for cls, w in SAMPLE.items():
        s = sc.start()
        for b in w:
            s = sc.step(s, b)
        k = sc.accept(s)
        where[cls] = lx.where(k) if k else "stl-to-ps/lexer.l"
        code[cls] = label(lx, tm, k, w)
    what = {}
    for cls in code:
        c = code[cls]
        if cls in ("skip", "error"):
            ctx.oblige(R26, where[cls], None if c is None else c == (cls,), "%r has to be %s but %s" % (
                SAMPLE[cls].decode(), "skipped" if cls == "skip" else "reported and rejected", saylabel(c, tm)))
            code[cls] = (cls,)
            continue
        ok = None if c is None else c[0] == "tok"
        ctx.oblige(R26, where[cls], ok, "%r has to be a token but %s" % (SAMPLE[cls].decode(), saylabel(c, tm)))
        if ok:
            ctx.oblige("different tokens are told apart", where[cls], c not in what, "%r and %r are the same token to the parser" % (
                SAMPLE[cls].decode(), SAMPLE.get(what.get(c), b"").decode()))
            what.setdefault(c, cls)
            n = tm.byno.get(c[1], "")
            other = [k for k in code if k != cls and names(k, n)]
            ctx.oblige("a token is what its name says", where[cls], not other or names(cls, n), "%r becomes the token %s" % (SAMPLE[cls].decode(), n))
    # product
    start = (sp.start(), sc.start())
    seen = {start: b""}
    q = deque([start])
    rules = {}
    bad = []
    classes = rx.partition([l for _, l in TOKENS])
    npairs = 0
    while q:
        a, b = q.popleft()
        w = seen[(a, b)]
        npairs += 1
        if w:
            want = sp.accept(a) if a is not None else None
            k = sc.accept(b)
            got = label(lx, tm, k, w)
            wl = ("none",) if want is None else code[want]
            if want is not None:
                rules.setdefault((k, want), w)
            if got != wl:
                bad.append((w, want, k, got))
        ext = {}
        for byte in order(classes):
            x = None if a is None else sp.step(a, byte)
            y = None if b is None else sc.step(b, byte)
            if (x is None and y is None) or (x, y) in seen:
                continue
            seen[(x, y)] = w + bytes([byte])
            q.append((x, y))
    ctx.extra["pairs_of_states"] = npairs
    ctx.extra["rules"] = sc.nrules
    splab = lambda c, w: code[c]
    lxlab = lambda k, w: label(lx, tm, k, w)
    left = []
    done = set()
    for w, want, k, got in sorted(bad, key=lambda x: len(x[0])):
        if got is None:
            ctx.undecide("%s: the action for %r is beyond the rules" % (lx.where(k), w))
            continue
        if (want, k) in done:
            continue
        hit = None
        for suf in (b"", b" ", b"a", b"1", b"\n", b'"', b".", b"\n1", b"a\n1", b'" 1', b" 1", b"/", b"\\", b"=", b"\\\"", b"n\""):
            t = w + suf
            x, y = tokens(sp.start, sp.step, sp.accept, t, splab), tokens(sc.start, sc.step, sc.accept, t, lxlab)
            if x is not None and y is not None and x != y:
                hit = (t, x, y)
                break
        if hit:
            done.add((want, k))
            ctx.oblige(R26, lx.where(k) if k else "stl-to-ps/lexer.l", False, "the script %r must split into %s but splits into %s" % (
                hit[0], saytokens(hit[1], tm), saytokens(hit[2], tm)))
        else:
            left.append((w, want, k, got))
    if left and not ctx.violations:
        why = skipproof(sp, sc, lx, tm, left)
        if why:
            ctx.undecide("%s: lexeme %r differs from the documented one in a way that is not decided: %s" % (lx.where(left[0][2]), left[0][0], why))
    if not bad:
        ctx.oblige(R26, "stl-to-ps/lexer.l", True)
    # values
    for (k, cls), w in sorted(rules.items(), key=lambda x: (x[0][0], x[0][1])):
        if cls in ("ID", "NUM", "STRING") and k and lx.outcomes(k):
            value(ctx, lx, tm, k, cls)
    # end of input
    eof = sc.eob + 1
    oc = lx.outcomes(eof)
    if oc:
        ctx.oblige("the end of the script ends the tokens", "stl-to-ps/lexer.l (end of file)", all(o.ret == 0 for o in oc), "the end of the script returns %r" % ([o.ret for o in oc],))
    for f in ctx.prog.functions.values():
        if f["q"].split("::")[-1] == "stl2pswrap" and "body" in f:
            _, ex = ctx.run(f, {})
            for x in ex or []:
                ctx.oblige("the end of the script ends the tokens", ctx.where(f), x.val.op == "i" and x.val.a[0] != 0 if hasattr(x.val, "op") else None,
                           "after the end of the script scanning goes on: %r" % (x.val,))


def order(classes):
    """one byte per class first, then every byte: the flex table may be finer than the documented classes"""
    reps = [r for _, r in classes]
    return reps + [b for b in range(256) if b not in reps]


def names(cls, n):
    return n.strip("'\"").lower() == cls.strip("'").lower() or (cls == "STRING" and "STRING" in n.upper())


def saylabel(l, tm):
    if l is None:
        return "its action is beyond the rules"
    if l[0] == "tok":
        return "is the token %s" % tm.byno.get(l[1], l[1])
    return {"skip": "is skipped", "error": "is rejected", "none": "matches no rule", "odd": "its action " + str(l[-1])}.get(l[0], str(l))


def saytokens(ts, tm):
    return " ".join("%s(%s)" % (tm.byno.get(l[1], l[1]) if l[0] == "tok" else l[0], w.decode("latin1").replace("\n", "\\n")) for l, w in ts) or "nothing"


def skipproof(sp, sc, lx, tm, left):
    """None when what is skipped differs only in how it is cut into lexemes"""
    for w, want, k, got in left:
        if not (want in (None, "skip") and got in (("skip",), ("none",))):
            return "it is not only about what is skipped"
    gap = rx.rx(r"([ \t\n\r]|//[^\n]*\n)*(//.*)?")
    incom = rx.rx(r"([ \t\n\r]|//[^\n]*\n)*//.*")
    start = (gap.start(), incom.start(), sc.start())
    seen, q = {start: b""}, deque([start])
    while q:
        g, c, b = q.popleft()
        w = seen[(g, c, b)]
        if w and label(lx, tm, sc.accept(b), w) == ("skip",):
            if g is None or not gap.acc(g):
                return "%r is skipped" % w
            if c is not None and incom.acc(c):
                for byte in range(256):
                    if byte != 10:
                        y = sc.step(b, byte)
                        if y is None or label(lx, tm, sc.accept(y), w + bytes([byte])) != ("skip",):
                            return "a comment is cut off at %r" % (w + bytes([byte]))
        for byte in range(256):
            y = sc.step(b, byte)
            if y is None:
                continue
            n = (None if g is None else gap.step(g, byte), None if c is None else incom.step(c, byte), y)
            if n not in seen:
                seen[n] = w + bytes([byte])
                q.append(n)
    # everything to be skipped is skipped: one blank, and a comment from its first two characters on
    for w in (b" ", b"\t", b"\n", b"\r", b"//", b"//x"):
        s = sc.start()
        for byte in w:
            s = None if s is None else sc.step(s, byte)
        if s is None or label(lx, tm, sc.accept(s), w) != ("skip",):
            return "%r is not skipped" % w
    return None


def value(ctx, lx, tm, k, cls):
    for o in lx.outcomes(k):
        if not isinstance(o.ret, int) or not tm.real(o.ret):
            continue
        t = o.content if cls != "NUM" else o.val
        ok, msg = None, "the value of the token is %r" % (t,)
        if t is None:
            t = o.content or o.val
            ok, msg = (False, "no value is stored for the token") if t is None else (None, msg)
        elif cls == "ID":
            if istext(t) or t.op == "bytes" and istext(t.a[0]) and isleng(t.a[1]):
                ok = True
            elif isconst(t) or not mentions(t, istext) or t.op in ("bytes", "substr", "cat", "decoded"):
                ok = False
        elif cls == "NUM":
            while t.op in ("cast", "float", "tofloat") and len(t.a):
                t = t.a[-1]
            if t.op == "call" and len(t.a) > 1 and istext(t.a[1]):
                ok = True if t.a[0] in GOODNUM else False if t.a[0] in BADNUM else None
            elif isconst(t) or not mentions(t, istext) or t.op in ("+", "-", "neg", "abs", "*"):
                ok = False
        else:
            if t.op == "decoded":
                x = t.a[0]
                if x.op == "bytes" and istext(x.a[0]) and isleng(x.a[1]):
                    ok = True
                elif istext(x):
                    ok, msg = False, "a string with a NUL byte in it is cut there: the value is that of the text up to its first NUL"
                elif x.op in ("bytes", "substr", "cat"):
                    ok = False
            elif istext(t) or t.op in ("bytes", "substr") or isconst(t):
                ok, msg = False, "the string is not decoded: its value is %r" % (t,)
        ctx.oblige("a token's value is its own text", lx.where(k), ok, msg)


# ---------------------------------------------------------------- the actions of the grammar
def c_stack(eng, st, f, ol, args, e):
    i = eng.argval(st, args[0])
    if i.op != "i":
        raise Undecided("stack index %r" % (i,))
    n = st.mon.get("rhs", 0)
    return [(st, mk("ptr", mk("P", "$", n - int(i.a[0]))))]


def c_report(eng, st, f, ol, args, e):
    vs = [eng.argval(st, a) for a in args]
    eng.event(st, "reported", e.get("l"), *vs)
    return [(st, VOID)]


def symboltypes(tree):
    import re
    import xml.etree.ElementTree as ET
    h = open(tree.gen + "/stl-to-ps/parser.tab.h", errors="replace").read()
    m = re.search(r"union value_type\s*\{(.*?)\n    \};", h, re.S)
    if not m:
        raise Undecided("the parser's values are no union")
    body = re.sub(r"#line.*|//.*|/\*.*?\*/", "", m.group(1))
    fs = {}
    for d in body.split(";"):
        k = re.match(r"\s*(.*?[\s*&])\s*(\w+)\s*$", d, re.S)
        if k:
            t = " ".join(k.group(1).split())
            fs[k.group(2)] = t[:-1].strip() if t.endswith("*") else None
    out = {}
    r = ET.parse(tree.tmp + "/parser.xml").getroot()
    for kind in ("terminal", "nonterminal"):
        for t in r.iter(kind):
            f = t.get("type")
            if f in fs:
                out[t.get("name")] = (f, fs[f])
    return out


class Result(object):
    """what the action of one rule did on one path"""

    def __init__(self, st, ctl, value, loc):
        self.st, self.ctl, self.value, self.loc = st, ctl, value, loc


class Actions(object):
    def __init__(self, ctx, contracts=None):
        self.ctx = ctx
        ctx.load()
        fs = [f for f in ctx.prog.functions.values() if "body" in f and f["q"].endswith("parser::parse") and f.get("file", "").endswith("parser.tab.cc")]
        self.sw = None
        for f in fs:
            for n in walk(f["body"]):
                if n.get("k") == "switch" and n["c"].get("n") == "yyn":
                    self.fn, self.sw = f, n
        if self.sw is None:
            raise Undecided("no switch over the rules in the generated parser")
        self.cases = {}
        cur = None
        for x in self.sw["b"]["b"]:
            while x is not None and x["k"] in ("case", "default"):
                cur = self.cases.setdefault(x.get("v") if x["k"] == "case" else None, [])
                x = x["s"]
            if x is None:
                continue
            if x["k"] == "break":
                cur = None
            elif cur is not None:
                cur.append(x)
        self.lhs = [v for n in walk(self.fn["body"]) if n.get("k") == "decl" for v in n["v"] if v.get("n") == "yylhs" or v["id"].startswith("yylhs#")]
        if not self.lhs:
            raise Undecided("no yylhs in the generated parser")
        self.types = symboltypes(ctx.tree)
        self.con = dict(contracts or {})
        self.con["stl2ps_parser::parser::stack::operator[]"] = c_stack
        self.con["parser_support::Error"] = c_report
        self.eng = ctx.engine(self.con, own=True)
        self.locblock = self.find_locblock()

    def field(self, sym):
        """(member of the semantic value, pointee type or None) of a grammar symbol, None without one"""
        return self.types.get(sym)

    def find_locblock(self):
        """the block that computes the location of the left hand side"""
        for n in walk(self.fn["body"]):
            if n.get("k") == "block" and n["b"] and n["b"][0].get("k") == "decl" and any(v["id"].startswith("range#") for v in n["b"][0]["v"]):
                if any(m.get("k") == "var" and m.get("n") == "yylhs" for m in walk(n)):
                    return n
        return None

    def line(self, n):
        b = self.cases.get(n + 1)
        return b[0].get("l", "?") if b else "?"

    def where(self, n, lhs=None):
        return "stl-to-ps/parser.y:%s (rule %d%s)" % (self.line(n), n, ", " + lhs if lhs else "")

    def fresh(self):
        st = State()
        st.depth = 1
        st.env = {"this": (mk("P", "this", "stl2ps_parser::parser"), ())}
        st.mon["diag"] = 0
        return st

    def run(self, st, n, syms):
        """action of rule n with the symbols [(value, location)] on the right -> [Result]"""
        eng = self.eng
        st = st.clone()
        for r in [r for r in st.store if r.op == "P" and r.a[0] in ("$", "lhs")]:
            del st.store[r]
        for i, (v, l) in enumerate(syms):
            st.store[mk("P", "$", i + 1)] = rec("sym", (("value", v), ("location", l)))
        st.mon["rhs"] = len(syms)
        lhs = mk("P", "lhs")
        st.store[lhs] = rec("sym", (("value", syms[0][0] if syms else mk("init", mk("P", "$", 0, "value"))), ("location", UNDEF)))
        st.env = {"this": (mk("P", "this", "stl2ps_parser::parser"), ())}
        for v in self.lhs:
            st.env[v["id"]] = (lhs, ())
        eng.fnstack = [self.fn["key"]]
        eng.calls_inlined.add(self.fn["key"])
        states = [(st, None)]
        out = []
        loc = None
        if self.locblock is not None:
            try:
                states = self.defaultloc(st.clone(), len(syms))
            except GIVEUP:
                states = [(st, None)]
                loc = UNDEF
        for s, c in states:
            for s2, ctl in eng.run_list(s, self.cases.get(n + 1, [])):
                v = s2.store[lhs]
                out.append(Result(s2, ctl, proj(v, "value"), proj(v, "location")))
        eng.fnstack = []
        return out

    def defaultloc(self, st, n):
        for m in walk(self.locblock):
            if m.get("k") == "var" and m.get("n") in ("yylen", "yyerror_range"):
                r = mk("P", m["n"])
                st.env[m["id"]] = (r, ())
                if m["n"] == "yylen":
                    st.store[r] = I(n)
        return [x for x in self.eng.ex(st, self.locblock)]
