"""Character-wise transducers: what a loop (or a replace-all) makes of each single byte of a string."""
from terms import *

ESC = {"(": "\\(", ")": "\\)", "\\": "\\\\"}


def byteval(c):
    return c - 256 if c >= 128 else c


class Unknown(Exception):
    pass


def ev(t, env):
    """The concrete value of a term under {term: int}; Unknown when there is no rule."""
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o in ("i", "b", "f"):
        return a[0]
    if o == "s":
        return a[0]
    if o == "null":
        return 0
    if o == "eq":
        return ev(a[0], env) == ev(a[1], env)
    if o == "lt":
        return ev(a[0], env) < ev(a[1], env)
    if o == "le":
        return ev(a[0], env) <= ev(a[1], env)
    if o == "not":
        return not ev(a[0], env)
    if o == "bcall":
        return bool(ev(a[0], env))
    if o == "+":
        return ev(a[0], env) + ev(a[1], env)
    if o == "-":
        return ev(a[0], env) - ev(a[1], env)
    if o == "chr":
        return chr(ev(a[0], env) & 255)
    if o == "nonnull":
        x = ev(a[0], env)
        return x != 0 and x is not None
    if o in ("npos",):
        return NPOS
    if o in ("call", "conv", "find0", "find", "strfind"):
        f = a[0] if isinstance(a[0], str) else None
        args = [x for x in a[1:] if isinstance(x, T)]
        n = (f or o).rsplit("::", 1)[-1]
        if n in CTYPE and args:
            c = ev(args[-1], env) & 255
            return CTYPE[n](chr(c)) if c < 128 else False
        if n in ("strchr", "find", "find0", "find_first_of", "find_last_of", "rfind", "memchr", "index"):
            s, c = [ev(x, env) for x in ([y for y in a if isinstance(y, T)])[:2]]
            if isinstance(s, str):
                c = c if isinstance(c, str) else chr(c & 255)
                if n == "strchr" and c == "\0":
                    return len(s) + 1
                i = s.find(c)
                if n == "strchr":
                    return i + 1 if i >= 0 else 0
                return i if i >= 0 else NPOS
    raise Unknown(t)


NPOS = 18446744073709551615
CTYPE = {"isdigit": lambda c: c.isdigit(), "isspace": lambda c: c in " \t\n\r\f\v", "isalpha": lambda c: c.isalpha(), "isalnum": lambda c: c.isalnum(),
         "iscntrl": lambda c: ord(c) < 32 or ord(c) == 127, "isprint": lambda c: 32 <= ord(c) < 127, "isblank": lambda c: c in " \t",
         "isupper": lambda c: c.isupper(), "islower": lambda c: c.islower(), "ispunct": lambda c: 32 < ord(c) < 127 and not c.isalnum(),
         "ascii_isdigit": lambda c: c.isdigit(), "ascii_isspace": lambda c: c in " \t\n\r\f\v", "ascii_isalpha": lambda c: c.isalpha(),
         "ascii_isalnum": lambda c: c.isalnum(), "ascii_iscntrl": lambda c: ord(c) < 32 or ord(c) == 127, "ascii_isprint": lambda c: 32 <= ord(c) < 127}


def compatible(st, el, c, base=None):
    """Can the facts of a state hold when el is the byte c?  True, False, or None when some fact about el has no rule."""
    env = {el: byteval(c)}
    res = True
    for f, v in st.facts.items():
        if base is not None and base.facts.get(f) == v:
            continue
        if not mentions(f, lambda x: x is el):
            continue
        try:
            if bool(ev(f, env)) != v:
                return False
        except Unknown:
            res = None
        except TypeError:
            res = None
    return res


class Image(object):
    """src and, for each byte, the set of strings it can become (None among them: not known)."""

    def __init__(self, src, outs, early=False, where=None):
        self.src = src
        self.outs = outs
        self.early = early
        self.where = where

    def then(self, o):
        r = {}
        for c, ss in self.outs.items():
            acc = set()
            for s in ss:
                if s is None:
                    acc.add(None)
                    continue
                cur = {""}
                for ch in s:
                    cur = {None if x is None or y is None else x + y for x in cur for y in o.outs[ord(ch) & 255]}
                acc |= cur
            r[c] = acc
        return Image(self.src, r, self.early or o.early, self.where or o.where)


IDENT = {c: {chr(c)} for c in range(256)}


def image(eng, t, depth=0):
    """t as the character-wise image of some string, or None"""
    if depth > 8:
        return None
    if t.op == "mapped":
        r = eng.loops.get(t.a[1])
        if r is None:
            return None
        key = mk("each", r["key"])
        outs = {c: set() for c in range(256)}
        loc = r["contloc"]
        cont = r["cont"]
        if cont is None or loc is None:
            return None
        el = mk("elem", cont, r["key"])
        for h, b in r["steps"]:
            v = eng.read(b, (loc[0], loc[1] + (key,)))
            for c in range(256):
                k = compatible(b, el, c)
                if k is False:
                    continue
                outs[c].add(None if k is None else one(v, el, c))
        base = image(eng, t.a[0], depth + 1) or Image(t.a[0], IDENT)
        return base.then(Image(cont, outs, bool(r["early"]), r["line"]))
    if t.op == "lv":
        r = eng.loops.get(t.a[0])
        if r is None:
            return None
        loc = (t.a[1], tuple(t.a[2:]))
        cont = r["cont"]
        if cont is None:
            return None
        pre = eng.read(r["pre"], loc)
        if not (pre.op == "s" and pre.a[0] == ""):
            return None
        el = mk("elem", cont, r["key"])
        outs = {c: set() for c in range(256)}
        for h, b in r["steps"]:
            v0, v1 = eng.read(h, loc), eng.read(b, loc)
            p = pieces(v1)
            if v1 is v0:
                add_ = []
            elif p and p[0] is v0:
                add_ = p[1:]
            else:
                add_ = None
            for c in range(256):
                k = compatible(b, el, c)
                if k is False:
                    continue
                if k is None or add_ is None:
                    outs[c].add(None)
                    continue
                s = ""
                for x in add_:
                    y = one(x, el, c)
                    s = None if y is None or s is None else s + y
                outs[c].add(s)
        base = image(eng, cont, depth + 1) or Image(cont, IDENT)
        return base.then(Image(cont, outs, bool(r["early"]) or bool(r["rev"]), r["line"]))
    if t.op == "replall" and isinstance(t.a[1], tuple):
        outs = {c: {chr(c)} for c in range(256)}
        for k, v in t.a[1]:
            if k.op != "s" or v.op != "s" or len(k.a[0]) != 1:
                return None
            outs[ord(k.a[0]) & 255] = {v.a[0]}
        base = image(eng, t.a[0], depth + 1) or Image(t.a[0], IDENT)
        return base.then(Image(t.a[0], outs))
    return None


def one(v, el, c):
    """the text of one appended piece"""
    try:
        x = ev(v, {el: byteval(c)})
    except (Unknown, TypeError):
        return None
    if isinstance(x, bool):
        return None
    if isinstance(x, int):
        return chr(x & 255)
    return x if isinstance(x, str) else None


def escapes(eng, t):
    """Is t some string with exactly ( ) and backslash escaped?  (True, src) / (False, why) / (None, why)"""
    im = image(eng, t)
    if im is None:
        return None, "%r is not understood" % (t,)
    if im.early:
        return False, "the loop over the characters (line %s) is left early or runs backwards" % im.where
    unknown = False
    for c in range(256):
        want = ESC.get(chr(c), chr(c))
        for o in im.outs[c]:
            if o is None:
                unknown = True
            elif o != want:
                return False, "character %d becomes %r%s" % (c, o, " (line %s)" % im.where if im.where else "")
        if not im.outs[c]:
            unknown = True
    if unknown:
        return None, "%r is not understood for every character" % (t,)
    return True, im.src
