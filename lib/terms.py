"""Hash-consed value terms used by the dataflow engine.

A term stands for the value of an expression (value numbering): two equal terms
denote equal values.  Terms are interned, so equality is identity.
"""

_tab = {}


class T(object):
    __slots__ = ("op", "a", "id", "deps")

    def __repr__(self):
        return show(self)

    # identity semantics
    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + tuple((x if isinstance(x, T) else (type(x), x)) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.deps = None
        _tab[k] = t
    return t


def I(n):
    return mk("i", int(n))


def Fl(x):
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return mk("i", int(x))
    return mk("f", x)


def S(s):
    return mk("s", s)


def B(b):
    return mk("b", bool(b))


TRUE = B(True)
FALSE = B(False)
NULL = mk("null")
UNDEF = mk("undef")
VOID = mk("void")
EMPTYMAP = mk("map", None, ())
EMPTYSEQ = mk("seq", None, ())


def isconst(t):
    return t.op in ("i", "f", "s", "b", "null")


def cval(t):
    return t.a[0] if t.a else None


def subterms(t, seen=None):
    """All T's inside t (including nested tuples)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.a)
    return seen


_subcache = {}


def subs(t):
    r = _subcache.get(t)
    if r is None:
        r = frozenset(subterms(t))
        _subcache[t] = r
    return r


def mentions(t, pred):
    for x in subs(t):
        if pred(x):
            return True
    return False


def replace(t, m, cache=None):
    """Replace subterms per dict m (no re-normalisation)."""
    if cache is None:
        cache = {}
    if isinstance(t, tuple):
        return tuple(replace(x, m, cache) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in cache:
        return cache[t]
    r = mk(t.op, *[replace(x, m, cache) for x in t.a])
    cache[t] = r
    return r


def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.a
    if o in ("i", "f"):
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "b":
        return "true" if a[0] else "false"
    if o in ("null", "undef", "void"):
        return o
    if o in ("+", "-", "*", "/", "lt", "le", "eq", "mm") and len(a) == 2:
        n = {"lt": "<", "le": "<=", "eq": "=="}.get(o, o)
        return "(" + show(a[0], d + 1) + " " + n + " " + show(a[1], d + 1) + ")"
    if o == "proj":
        return show(a[0], d + 1) + "." + show(a[1], d + 1)
    if o == "L":
        return str(a[1]).split("#")[0]
    if o in ("P", "G"):
        return str(a[0])
    if o == "init":
        return show(a[0], d + 1) + "".join("." + show(x, d + 1) for x in a[1:]) + "\u2080"
    if o == "lv":
        return "lv%s:" % a[0] + show(a[1], d + 1) + "".join("." + show(x, d + 1) for x in a[2:])
    if o == "ptr":
        return "&" + show(a[0], d + 1) + "".join("." + show(x, d + 1) for x in a[1:])
    if o == "D":
        return "*" + show(a[0], d + 1)
    if o == "elem":
        return "elem%s(%s)" % (a[1], show(a[0], d + 1))
    if o == "rec":
        return a[0].split("::")[-1] + "{" + ", ".join("%s:%s" % (f, show(v, d + 1)) for f, v in a[1]) + "}"
    return o + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


# ------------------------------------------------------------------ arithmetic
def add(a, b):
    if a.op == "i" and b.op == "i":
        return I(a.a[0] + b.a[0])
    if a.op in "if" and b.op in "if" and a.op in ("i", "f") and b.op in ("i", "f"):
        return Fl(a.a[0] + b.a[0])
    if b.op == "i" and b.a[0] == 0:
        return a
    if a.op == "i" and a.a[0] == 0:
        return b
    if a.op == "i":
        a, b = b, a
    if b.op == "i" and a.op == "+" and a.a[1].op == "i":
        return add(a.a[0], I(a.a[1].a[0] + b.a[0]))
    return mk("+", a, b)


def sub(a, b):
    if b.op == "i":
        return add(a, I(-b.a[0]))
    if a is b:
        return I(0)
    if a.op == "+" and a.a[1].op == "i" and a.a[0] is b:
        return a.a[1]
    if isconst(a) and isconst(b) and a.op in ("i", "f") and b.op in ("i", "f"):
        return Fl(a.a[0] - b.a[0])
    return mk("-", a, b)


def num(t):
    return t.a[0] if t.op in ("i", "f") else None


# ------------------------------------------------------------------ strings
def cat(*ps):
    out = []
    for p in ps:
        if p.op == "cat":
            out.extend(p.a)
        elif p.op == "s" and p.a[0] == "":
            continue
        else:
            out.append(p)
    r = []
    for p in out:
        if p.op == "s" and r and r[-1].op == "s":
            r[-1] = S(r[-1].a[0] + p.a[0])
        else:
            r.append(p)
    if not r:
        return S("")
    if len(r) == 1 and r[0].op not in ("chr", "tostr"):
        return r[0]
    return mk("cat", *r)


def pieces(t):
    if t.op == "cat":
        return list(t.a)
    if t.op == "s" and t.a[0] == "":
        return []
    return [t]


def chr_(c):
    if c.op == "i":
        return S(chr(c.a[0] & 0xFF))
    return mk("chr", c)


def tostr(v):
    if v.op == "i":
        return S(str(v.a[0]))
    if v.op == "s":
        return v
    if v.op == "b":
        return S("1" if v.a[0] else "0")
    return mk("tostr", v)


# ------------------------------------------------------------------ aggregates
def rec(cls, fields):
    return mk("rec", cls, tuple(fields))


def vec(*c):
    return rec("vec", zip("xyzw", c))


COMP = {"x": 0, "y": 1, "z": 2}


def proj(v, f):
    o = v.op
    if o == "rec":
        for n, x in v.a[1]:
            if n == f:
                return x
        if isinstance(f, T) and f.op == "idx" and f.a[0].op == "i":
            for n, x in v.a[1]:
                if n == str(f.a[0].a[0]):
                    return x
        return UNDEF if v.a[0] != "vec" else mk("proj", v, f)
    if o == "upd":
        for n, x in v.a[1]:
            if n is f or n == f:
                return x
        return proj(v.a[0], f)
    if o in ("init", "lv"):
        if isinstance(f, T) and f.op == "each":
            return mk("elem", v, f.a[0])
        if isinstance(f, T) and f.op == "idx" and f.a[0].op == "ix":
            return mk("elem", v, f.a[0].a[0])
        return mk(o, *(v.a + (f,)))
    if o == "undef":
        return UNDEF
    if o == "dflt":
        return mk("dflt", "comp")
    if isinstance(f, T):
        if f.op == "each":
            return mk("elem", v, f.a[0])
        if f.op == "idx":
            i = f.a[0]
            if i.op == "ix":
                return mk("elem", v, i.a[0])
            if o == "seq":
                base, items = v.a
                if base is None and i.op == "i" and 0 <= i.a[0] < len(items):
                    return items[i.a[0]]
                if base is None and i.op == "i":
                    return mk("oob", v, i)
                if base is not None:
                    d = sub(i, size(base))
                    if d.op == "i" and 0 <= d.a[0] < len(items):
                        return items[d.a[0]]
                    return proj(base, f)
            if o == "s" and i.op == "i" and 0 <= i.a[0] <= len(v.a[0]):
                s = v.a[0]
                return I(ord(s[i.a[0]]) if i.a[0] < len(s) else 0)
        if f.op == "at" and o == "map":
            k = f.a[0]
            for kk, x in v.a[1]:
                if kk is k:
                    return rec("entry", (("first", k), ("second", x)))
            return rec("entry", (("first", k), ("second", mk("mapval", v.a[0] if v.a[0] is not None else v, k))))
        if f.op == "at":
            k = f.a[0]
            return rec("entry", (("first", k), ("second", mk("mapval", v, k))))
    if f in COMP:
        # component of a vector expression
        if o in ("+", "-") and len(v.a) == 2:
            x, y = proj(v.a[0], f), proj(v.a[1], f)
            return add(x, y) if o == "+" else sub(x, y)
        if o == "neg":
            return mk("neg", proj(v.a[0], f))
        if o == "sv":  # scalar * vector
            return mk("*", v.a[0], proj(v.a[1], f))
        if o == "vs":  # vector / scalar
            return mk("/", proj(v.a[0], f), v.a[1])
    return mk("proj", v, f)


def upd(v, f, x):
    if proj(v, f) is x:
        return v
    if v.op == "rec":
        fs = list(v.a[1])
        for i, (n, _) in enumerate(fs):
            if n == f:
                fs[i] = (n, x)
                return mk("rec", v.a[0], tuple(fs))
        return mk("rec", v.a[0], tuple(fs + [(f, x)]))
    if isinstance(f, T):
        if f.op == "at":
            val = proj(x, "second")
            if v.op != "map":
                v = mk("map", v, ())
            return mapset(v, f.a[0], val)
        if f.op == "idx" and v.op == "seq":
            base, items = v.a
            d = f.a[0] if base is None else sub(f.a[0], size(base))
            if d.op == "i" and 0 <= d.a[0] < len(items):
                it = list(items)
                it[d.a[0]] = x
                return mk("seq", base, tuple(it))
        if f.op == "idx" and v.op == "s" and f.a[0].op == "i" and x.op == "i":
            s = v.a[0]
            i = f.a[0].a[0]
            if 0 <= i < len(s):
                return S(s[:i] + chr(x.a[0] & 255) + s[i + 1:])
    if v.op == "upd":
        fs = [(n, y) for n, y in v.a[1] if not (n is f or n == f)]
        if isinstance(f, T) and f.op == "idx" and any(isinstance(n, T) and n.op == "idx" for n, _ in fs):
            # possibly overlapping element writes: keep order by nesting
            return mk("upd", v, ((f, x),))
        fs.append((f, x))
        fs.sort(key=lambda p: (0, p[0]) if isinstance(p[0], str) else (1, str(p[0].id)))
        if proj(v.a[0], f) is x:
            fs = [p for p in fs if not (p[0] is f or p[0] == f)]
            if not fs:
                return v.a[0]
        return mk("upd", v.a[0], tuple(fs))
    return mk("upd", v, ((f, x),))


def size(v):
    if v.op == "seq":
        base, items = v.a
        if base is None:
            return I(len(items))
        return add(size(base), I(len(items)))
    if v.op == "s":
        return I(len(v.a[0]))
    if v.op == "map" and v.a[0] is None:
        ks = [x for _, x in v.a[1] if x is not ABSENT]
        if all(isconst(k) for k, _ in v.a[1]) or not ks:
            return I(len(ks))
    if v.op == "cat":
        r = I(0)
        for p in v.a:
            if p.op == "chr":
                r = add(r, I(1))
            else:
                r = add(r, size(p))
        return r
    if v.op == "upd" and all(isinstance(n, T) and n.op in ("idx", "each") for n, _ in v.a[1]):
        return size(v.a[0])
    if v.op == "mapped":
        return size(v.a[0])
    if v.op == "arr":
        return v.a[1]
    if v.op == "resized":
        return v.a[1]
    if v.op == "prepend":
        return add(size(v.a[1]), I(1))
    if v.op == "sorted":
        return size(v.a[1])
    if v.op == "emptyset":
        return I(0)
    if v.op == "repeat":
        return v.a[0]
    return mk("size", v)


ABSENT = mk("absent")


def mapset(m, k, val):
    if m.op != "map":
        m = mk("map", m, ())
    ks = [(a, b) for a, b in m.a[1] if a is not k]
    ks.append((k, val))
    if all(isconst(a) for a, _ in ks):
        ks.sort(key=lambda p: (p[0].op, p[0].a))
    return mk("map", m.a[0], tuple(ks))


def seq_append(v, *items):
    if v.op == "seq":
        return mk("seq", v.a[0], v.a[1] + tuple(items))
    return mk("seq", v, tuple(items))


def neg_bool(t):
    if t.op == "b":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def eq(a, b):
    if a is b:
        return TRUE
    if isconst(a) and isconst(b):
        return B(a.op == b.op and a.a == b.a)
    # boolean comparisons with constants
    if b.op == "b":
        a, b = b, a
    if a.op == "b" and b.op in BOOLOPS:
        return b if a.a[0] else neg_bool(b)
    if isconst(a) and not isconst(b):
        a, b = b, a
    if not isconst(b) and b.id < a.id:
        a, b = b, a
    # linear: x + c == d
    if b.op == "i" and a.op == "+" and a.a[1].op == "i":
        return eq(a.a[0], I(b.a[0] - a.a[1].a[0]))
    if b.op == "s" and b.a[0] == "":
        return eq(size(a), I(0))
    return mk("eq", a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if a.op in ("i", "f") and b.op in ("i", "f"):
        return B(a.a[0] < b.a[0])
    if a.op == "+" and a.a[1].op == "i" and b.op == "i":
        return lt(a.a[0], I(b.a[0] - a.a[1].a[0]))
    if b.op == "+" and b.a[1].op == "i" and a.op == "i":
        return lt(I(a.a[0] - b.a[1].a[0]), b.a[0])
    return mk("lt", a, b)


def le(a, b, integral):
    if a is b and integral:
        return TRUE
    if integral:
        return neg_bool(lt(b, a))
    if a.op in ("i", "f") and b.op in ("i", "f"):
        return B(a.a[0] <= b.a[0])
    return mk("le", a, b)


BOOLOPS = {"b", "not", "eq", "lt", "le", "isa", "nonnull", "has", "bcall", "iofail", "starts", "more", "ioget"}


def isbool(t):
    return t.op in BOOLOPS
