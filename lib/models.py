"""Library models: the meaning of std, absl, Eigen and RE2 calls as value terms."""
import re
from terms import *
import terms as TM

IOFAIL = "iofail"


def tname(f):
    return f["q"]


def split_targs(s):
    """template arguments of the outermost <...> of s"""
    i = s.find("<")
    if i < 0:
        return []
    d = 0
    out = []
    cur = ""
    for c in s[i + 1:]:
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    out.append(cur.strip())
    return out


def base_type(t):
    from engine import base_type as b
    return b(t)


def is_eigen(t):
    return "Eigen::" in t[:60] or "Eigen::" in t and not t.startswith("std::")


def is_stringy(t):
    t = base_type(t)
    return t.startswith("std::basic_string") or "string_view" in t or t.rstrip().endswith("char *") or t.startswith("char[") or "char[" in t


# ------------------------------------------------------------------ engine callbacks
def deref_value(eng, st, p):
    return None


def it_step(eng, st, v, up):
    pos = v.a[1]
    if isinstance(pos, T) and pos.op == "idx":
        return mk("it", v.a[0], mk("idx", add(pos.a[0], I(1 if up else -1))))
    return mk("it", v.a[0], mk("step", pos, up))


def size_of(eng, st, ptr):
    return TM.size(eng.read(st, (ptr.a[0], tuple(ptr.a[1:])) if ptr.op == "ptr" else (mk("D", ptr), ())))


def begin_of(eng, st, loc):
    v = eng.read(st, loc)
    return mk("it", mkptr(loc), mk("idx", I(0)))


def mkptr(loc):
    return mk("ptr", loc[0], *loc[1])


def canon_eq(eng, st, t):
    if len(t.a) != 2:
        return t
    a, b = t.a
    for a, b in ((a, b), (b, a)):
        if a.op == "end" and b.op == "it" and a.a[0] is b.a[0]:
            pos = b.a[1]
            if pos.op == "idx":
                n = size_of(eng, st, a.a[0])
                r = eq(pos.a[0], n)
                return r
            if pos.op == "at":
                return FALSE
            if pos.op in ("each", "key"):
                return FALSE
            if pos.op == "first":
                return eq(size_of(eng, st, a.a[0]), I(0))
        if a.op == "find" and b.op == "i" and b.a[0] == 0 and len(a.a) == 2:
            return mk("starts", a.a[0], a.a[1])
        if a.op == "find0" and b.op == "i":
            return mk("starts", a.a[0], a.a[1]) if b.a[0] == 0 else neg_bool(mk("starts", a.a[0], a.a[1]))
        if a.op == "proj" and isinstance(a.a[1], T) and a.a[1].op == "idx" and a.a[1].a[0].op == "i" and \
                a.a[1].a[0].a[0] == 0 and b.op == "i" and 0 < b.a[0] < 128 and a.a[0].op != "mat":
            return mk("starts", a.a[0], S(chr(b.a[0])))
        if a.op in ("init", "lv") and len(a.a) > 1 and isinstance(a.a[-1], T) and a.a[-1].op == "idx" and \
                a.a[-1].a[0].op == "i" and a.a[-1].a[0].a[0] == 0 and b.op == "i" and 0 < b.a[0] < 128:
            return mk("starts", mk(a.op, *a.a[:-1]), S(chr(b.a[0])))
        if a.op == "strcmp" and b.op == "i" and b.a[0] == 0:
            return canon_eq(eng, st, eq(a.a[0], a.a[1]))
        if a.op == "iostate" and b.op == "i" and b.a[0] == 0:
            return io_good(a.a[0])
        if a.op == "substr" and b.op == "s" and a.a[1].op == "i" and a.a[1].a[0] == 0 and a.a[2].op == "i" and \
                a.a[2].a[0] == len(b.a[0]):
            return mk("starts", a.a[0], b)
    return t


def canon_lt(eng, t):
    if t.op != "lt":
        return t
    a, b = t.a
    if a.op == "i" and a.a[0] == 0 and b.op == "size":
        return neg_bool(eq(b, I(0)))
    if b.op == "i" and b.a[0] == 1 and a.op == "size":
        return eq(a, I(0))
    return t


def empty_atom(eng, st, cont):
    return eq(TM.size(cont), I(0))


# ------------------------------------------------------------------ streams
def io_fail(v):
    return mk(IOFAIL, v)


def is_input(v):
    return v.op in ("getl", "ext", "rdall") or (v.op == "lv")


def io_good(v):
    if v.op in ("open", "closed", "wr", "flushed") or v.op == "rec":
        return neg_bool(io_fail(v))
    return mk("ioget", "good", v)


def stream_base(v):
    while v.op in ("wr", "flushed"):
        v = v.a[1] if v.op == "wr" else v.a[0]
    return v


def written(eng, st, loc, e):
    if loc[0].op in ("G", "LOGS"):
        return
    v = eng.read(st, loc)
    eng.write(st, loc, mk("wr", e.get("_id", 0), stream_base(v)))


def is_diag_root(root):
    return (root.op == "G" and root.a[0] in ("std::cerr", "std::clog", "stderr")) or (root.op == "LOGS" and root.a[0] >= 2)


def emit(eng, st, loc, what, e):
    if loc[0].op == "LOGS" and loc[0].a[0] < 2:
        return
    if is_diag_root(loc[0]):
        st.mon["diag"] = 1
        if eng.diag_hook is not None:
            eng.diag_hook(eng, st, loc, what, e)
        if not eng.trace_diag:
            return
    eng.event(st, "out", mkptr(loc), what, e.get("l"))
    written(eng, st, loc, e)


def out_piece(eng, st, v, t):
    t = base_type(t)
    if is_stringy(t):
        if t.rstrip().endswith("char *") and v.op == "ptr":
            return v
        return v
    if t in ("char", "signed char", "unsigned char"):
        return chr_(v)
    return tostr(v)


# ------------------------------------------------------------------ containers
def vec_elem_type(f):
    a = split_targs(f.get("cls") or f["q"])
    return a[0] if a else "?"


def make_elem(eng, st, t, args, e):
    """Construct a T from call arguments: [(state, value)]"""
    t = base_type(t)
    if t.startswith("Eigen::"):
        r = eigen_ctor(eng, st, t, args, e)
        return [(st, r)]
    if t in eng.p.records:
        if len(args) == 1 and base_type(args[0][3]) == t:
            return [(st, eng.argval(st, args[0]))]
        fn = pick_ctor(eng, t, args)
        h = eng.contracts.get("ctor " + t)
        if h:
            r = h(eng, st, fn["f"] if fn else None, None, list(args), e)
            if r is not None:
                return r
        if fn is not None:
            out = []
            for s, a in convert_args(eng, st, fn, args, e):
                out.extend(eng.construct_fn(s, fn, a, e))
            return out
        if not args:
            return [(st, eng.default_value(st, t, e))]
        # a constructor taken over from a base
        bs = list(eng.p.records[t]["bases"])
        while bs:
            b = bs.pop(0)
            if b not in eng.p.records:
                continue
            fn = pick_ctor(eng, b, args)
            if fn is not None:
                d = eng.record_default(st, t)
                out = []
                for s, a in convert_args(eng, st, fn, args, e):
                    for s2, v in eng.construct_fn(s, fn, a, e):
                        got = dict(v.a[1]) if v.op == "rec" else {}
                        out.append((s2, rec(t, [(n, got.get(n, x)) for n, x in d.a[1]]) if got else v))
                return out
            bs.extend(eng.p.records[b]["bases"])
        return [(st, mk("new", t, *[eng.argval(st, a) for a in args]))]
    if t.startswith(("std::unique_ptr<", "std::shared_ptr<")) and len(args) == 1 and israw(args[0][3]):
        v = eng.argval(st, args[0])
        adopt(eng, st, v, e)
        return [(st, v)]
    if t.startswith("std::pair<") and len(args) == 2:
        return [(st, rec("pair", (("first", eng.argval(st, args[0])), ("second", eng.argval(st, args[1])))))]
    if t.startswith("std::tuple<"):
        return [(st, rec("pair", [("get%d" % i, eng.argval(st, a)) for i, a in enumerate(args)]))]
    if t.startswith("std::basic_string") and len(args) == 2 and "int" in args[0][3]:
        return [(st, mk("repeat", eng.argval(st, args[0]), eng.argval(st, args[1])))]
    if len(args) == 1:
        return [(st, eng.argval(st, args[0]))]
    if not args:
        return [(st, eng.default_value(st, t, e))]
    return [(st, mk("new", t, *[eng.argval(st, a) for a in args]))]


def convert_args(eng, st, fn, args, e):
    """the user's conversions of call arguments to the parameter types (the call is not in the tree): [(state, args)]"""
    states = [(st, [])]
    for p, a in zip(fn["params"], args):
        pt, at = base_type(p["tt"]), base_type(a[3])
        conv = None
        if pt in eng.p.records and simp(pt) != simp(at) and at in eng.p.records or pt in eng.p.records and at.endswith("location"):
            d, derived = [at], False
            while d:
                x = d.pop()
                derived = derived or x == pt
                d.extend(eng.p.records.get(x, {}).get("bases", ()))
            if not derived:
                conv = pick_ctor(eng, pt, [a])
        if conv is None:
            states = [(s, acc + [a]) for s, acc in states]
        else:
            states = [(s2, acc + [("v", v, False, p["tt"])]) for s, acc in states for s2, v in eng.construct_fn(s, conv, [a], e)]
    return states


def simp(t):
    return base_type(t).replace("const ", "").replace(" ", "")


def pick_ctor(eng, t, args):
    q = eng.p.records[t]["q"]
    name = q.split("::")[-1]
    if name.startswith("("):
        return None
    cands = []
    for k, f in eng.p.functions.items():
        if f["q"] == t + "::" + name.split("<")[0] or f["q"] == q + "::" + name:
            if base_type(f["f"].get("cls", "")) == t and len(f["params"]) == len(args) and "body" in f and not f.get("dflt"):
                cands.append(f)
    if not cands:
        return None

    def score(f):
        s = 0
        for p, a in zip(f["params"], args):
            x, y = simp(p["tt"]), simp(a[3])
            if x == y:
                s += 3
            elif "Eigen" in x and "Eigen" in y:
                for d in ("1,2", "1,3", "3,3"):
                    if d in x and d in y:
                        s += 2
            elif ("unique_ptr" in x) == ("unique_ptr" in y):
                s += 1
        return s
    return max(cands, key=score)


def map_lookup(eng, st, m, k):
    """[(state, present, value)]"""
    out = []
    if m.op == "moved":
        m = m.a[0]
    if m.op == "mapped":
        m = m.a[0]
    if m.op != "map":
        m = mk("map", m, ())
    base, items = m.a

    def known(s, x):
        return (s, x is not ABSENT, x)
    rest = [st]
    for kk, x in reversed(items):
        nxt = []
        for s in rest:
            if kk is k:
                out.append(known(s, x))
                continue
            if isconst(kk) and isconst(k):
                nxt.append(s)
                continue
            for s2, b in eng.decide(s, eq(kk, k)):
                if b:
                    out.append(known(s2, x))
                else:
                    nxt.append(s2)
        rest = nxt
    for s in rest:
        if base is None or base is EMPTYMAP:
            out.append((s, False, ABSENT))
        elif base.op == "init" and False:
            pass
        else:
            for s2, b in eng.decide(s, mk("has", base, k)):
                out.append((s2, b, mk("mapval", base, k) if b else ABSENT))
    return out


def map_put(eng, st, loc, k, v):
    m = eng.read(st, loc)
    eng.write(st, loc, mapset(m, k, v))


def seq_of(v):
    if v.op == "moved":
        return mk("moved", v.a[0])
    return v


def index_arg(v):
    return v if isinstance(v, T) else I(v)


def array_size(f, e):
    """N of the std::array<T, N> whose member is called, else None."""
    for t in ((e.get("o") or {}).get("t"), f.get("cls")):
        m = re.match(r"(?:const )?std::array<.*,\s*(\d+)[UuLl]*>\s*(?:const)?\s*&?$", t or "")
        if m:
            return int(m.group(1))
    return None


def vec_method(eng, st, f, name, ol, args, e):
    av = eng.argval
    v = eng.read(st, ol)
    t = vec_elem_type(f)
    if name in ("push_back",):
        x = av(st, args[0])
        x = coerce(t, x, args[0][3])
        eng.write(st, ol, seq_append(v, x))
        return [(st, VOID)]
    if name == "emplace_back":
        out = []
        for s, x in make_elem(eng, st, t, args, e):
            v2 = eng.read(s, ol)
            n = TM.size(v2)
            eng.write(s, ol, seq_append(v2, x))
            out.append((s, mk("ptr", ol[0], *(ol[1] + (mk("idx", n),)))))
        return out
    if name in ("size", "length", "max_size") and array_size(f, e) is not None:
        return [(st, I(array_size(f, e)))]
    if name in ("size", "length"):
        n = TM.size(v)
        eng.markint(n)
        return [(st, n)]
    if name == "empty" and array_size(f, e) is not None:
        return [(st, B(array_size(f, e) == 0))]
    if name == "empty":
        return [(st, eq(TM.size(v), I(0)))]
    if name == "clear":
        eng.write(st, ol, EMPTYSEQ)
        return [(st, VOID)]
    if name in ("operator[]", "at"):
        i = av(st, args[0])
        eng.access(st, ol, i, e)
        l = (ol[0], ol[1] + (mk("idx", i),))
        return [(st, mkptr(l))]
    if name == "front":
        return [(st, mk("ptr", ol[0], *(ol[1] + (mk("idx", I(0)),))))]
    if name == "back":
        return [(st, mk("ptr", ol[0], *(ol[1] + (mk("idx", sub(TM.size(v), I(1))),))))]
    if name in ("begin", "cbegin"):
        return [(st, mk("it", mkptr(ol), mk("idx", I(0))))]
    if name in ("end", "cend"):
        return [(st, mk("end", mkptr(ol)))]
    if name in ("rbegin", "crbegin"):
        return [(st, mk("it", mkptr(ol), mk("idx", sub(TM.size(v), I(1)))))]
    if name in ("rend", "crend"):
        return [(st, mk("rend", mkptr(ol)))]
    if name in ("reserve", "shrink_to_fit"):
        return [(st, VOID)]
    if name == "capacity":
        return [(st, mk("call", "capacity", v))]
    if name == "data":
        return [(st, mk("ptr", ol[0], *(ol[1] + (mk("idx", I(0)),))))]
    if name == "resize":
        n = av(st, args[0])
        if v.op == "seq" and v.a[0] is None and n.op == "i" and n.a[0] <= len(v.a[1]):
            eng.write(st, ol, mk("seq", None, v.a[1][:n.a[0]]))
        elif n.op == "i" and n.a[0] == 0:
            eng.write(st, ol, EMPTYSEQ)
        else:
            fill = av(st, args[1]) if len(args) > 1 else UNDEF
            eng.write(st, ol, mk("resized", v, n, fill))
        return [(st, VOID)]
    if name == "pop_back":
        if v.op == "seq" and v.a[1]:
            eng.write(st, ol, mk("seq", v.a[0], v.a[1][:-1]))
        else:
            eng.write(st, ol, mk("resized", v, sub(TM.size(v), I(1)), UNDEF))
        return [(st, VOID)]
    if name == "insert" and len(args) == 2:
        it, x = av(st, args[0]), av(st, args[1])
        if it.op == "it" and it.a[1].op == "idx" and it.a[1].a[0].op == "i" and it.a[1].a[0].a[0] == 0:
            if v.op == "seq" and v.a[0] is None:
                eng.write(st, ol, mk("seq", None, (x,) + v.a[1]))
            else:
                eng.write(st, ol, mk("prepend", x, v))
            return [(st, mk("it", mkptr(ol), mk("idx", I(0))))]
        if it.op == "end":
            eng.write(st, ol, seq_append(v, x))
            return [(st, mk("it", mkptr(ol), mk("idx", TM.size(v))))]
        return None
    if name == "emplace" and len(args) >= 1:
        it = av(st, args[0])
        front = it.op == "it" and it.a[1].op == "idx" and it.a[1].a[0] is I(0)
        if not front and it.op != "end":
            return None
        out = []
        for s, x in make_elem(eng, st, t, args[1:], e):
            v2 = eng.read(s, ol)
            if not front:
                eng.write(s, ol, seq_append(v2, x))
            elif v2.op == "seq" and v2.a[0] is None:
                eng.write(s, ol, mk("seq", None, (x,) + v2.a[1]))
            else:
                eng.write(s, ol, mk("prepend", x, v2))
            out.append((s, mk("it", mkptr(ol), mk("idx", I(0) if front else TM.size(v2)))))
        return out
    if name == "insert" and len(args) == 3:
        it, a, b = [av(st, x) for x in args]
        if it.op == "end" and a.op == "it" and b.op == "end" and a.a[0] is b.a[0] and a.a[1].op == "idx" and a.a[1].a[0] is I(0):
            o = eng.read(st, eng.deref(st, a.a[0]))
            eng.write(st, ol, concat(v, o))
            return [(st, mk("it", mkptr(ol), mk("idx", TM.size(v))))]
        return None
    if name == "swap":
        l2 = args[0][1]
        a, b = eng.read(st, ol), eng.read(st, l2)
        eng.write(st, ol, b)
        eng.write(st, l2, a)
        return [(st, VOID)]
    if name in ("operator=", "assign") and len(args) == 1:
        eng.write(st, ol, av(st, args[0]))
        return [(st, mkptr(ol))]
    if name == "fill":
        return None
    return None


def concat(v, o):
    if o.op == "seq" and o.a[0] is None:
        return seq_append(v, *o.a[1])
    if v is EMPTYSEQ:
        return o
    return mk("concat", v, o)


def coerce(t, x, at):
    return x


def str_method(eng, st, f, name, ol, args, e):
    av = eng.argval
    v = eng.read(st, ol)
    if name == "push_back":
        eng.write(st, ol, cat(v, chr_(av(st, args[0]))))
        return [(st, VOID)]
    if name in ("operator+=", "append"):
        if len(args) == 1:
            x = av(st, args[0])
            p = out_piece(eng, st, x, args[0][3])
            eng.write(st, ol, cat(v, p))
            return [(st, mkptr(ol))]
        if len(args) == 2 and base_type(args[1][3]) == "char":
            n, c = av(st, args[0]), av(st, args[1])
            eng.write(st, ol, cat(v, S(chr(c.a[0]) * n.a[0]) if n.op == "i" and c.op == "i" else mk("repeat", n, c)))
            return [(st, mkptr(ol))]
        if len(args) == 2:
            s_, n = av(st, args[0]), av(st, args[1])
            if s_.op == "s" and n.op == "i":
                eng.write(st, ol, cat(v, S(s_.a[0][:n.a[0]])))
            else:
                eng.write(st, ol, cat(v, mk("substr", s_, I(0), n)))
            return [(st, mkptr(ol))]
        return None
    if name == "insert" and len(args) == 2 and eng.isint(av(st, args[0])):
        # insert(position, string)
        i, x = av(st, args[0]), out_piece(eng, st, av(st, args[1]), args[1][3])
        if i is I(0):
            n = cat(x, v)
        elif i is TM.size(v):
            n = cat(v, x)
        else:
            n = mk("inserted" if i.op == "i" else "call", *([v, i, x] if i.op == "i" else [S(f["q"]), v, i, x]))
        eng.write(st, ol, n)
        return [(st, mkptr(ol))]
    if name in ("operator=", "assign"):
        if len(args) == 1:
            x = av(st, args[0])
            if base_type(args[0][3]) == "char":
                x = chr_(x)
            eng.write(st, ol, x)
            return [(st, mkptr(ol))]
        return None
    if name in ("size", "length"):
        n = TM.size(v)
        eng.markint(n)
        return [(st, n)]
    if name == "empty":
        return [(st, eq(TM.size(v), I(0)))]
    if name == "clear":
        eng.write(st, ol, S(""))
        return [(st, VOID)]
    if name in ("c_str", "data"):
        return [(st, v)]
    if name in ("operator[]", "at"):
        i = av(st, args[0])
        eng.access(st, ol, i, e)
        l = (ol[0], ol[1] + (mk("idx", i),))
        if f["rt"].endswith("&"):
            return [(st, mkptr(l))]
        return [(st, proj(v, mk("idx", i)))]
    if name in ("front", "back"):
        i = I(0) if name == "front" else sub(TM.size(v), I(1))
        l = (ol[0], ol[1] + (mk("idx", i),))
        if f["rt"].endswith("&"):
            return [(st, mkptr(l))]
        return [(st, proj(v, mk("idx", i)))]
    if name in ("find", "rfind", "find_first_of"):
        x = av(st, args[0])
        if base_type(args[0][3]) == "char":
            x = chr_(x)
        if x.op == "chr" or x.op == "s":
            pass
        pos = av(st, args[1]) if len(args) > 1 else I(0)
        if name == "rfind":
            if len(args) > 1 and pos is I(0):
                return [(st, mk("find0", v, x))]
            return [(st, mk("rfind", v, x))]
        if name == "find_first_of" and not (x.op == "s" and len(x.a[0]) == 1):
            return [(st, mk("findof", v, x, pos))]
        if v.op == "s" and x.op == "s" and pos.op == "i":
            n = v.a[0].find(x.a[0], pos.a[0])
            return [(st, I(n if n >= 0 else (1 << 64) - 1))]
        r = mk("find", v, x) if pos is I(0) else mk("find", v, x, pos)
        eng.markint(r)
        return [(st, r)]
    if name == "compare" and len(args) == 1:
        return [(st, mk("strcmp", v, av(st, args[0])))]
    if name == "compare" and len(args) == 3:
        a, n, x = [av(st, z) for z in args]
        return [(st, mk("strcmp", mk("substr", v, a, n), x))]
    if name == "substr":
        a = av(st, args[0]) if args else I(0)
        n = av(st, args[1]) if len(args) > 1 else I((1 << 64) - 1)
        if a is I(0) and n.op == "i" and n.a[0] == (1 << 64) - 1:
            return [(st, v)]
        if v.op == "s" and a.op == "i" and n.op == "i":
            return [(st, S(v.a[0][a.a[0]:a.a[0] + n.a[0]]))]
        return [(st, mk("substr", v, a, n))]
    if name in ("begin", "cbegin"):
        return [(st, mk("it", mkptr(ol), mk("idx", I(0))))]
    if name in ("end", "cend"):
        return [(st, mk("end", mkptr(ol)))]
    if name in ("reserve", "shrink_to_fit"):
        return [(st, VOID)]
    if name == "capacity":
        return [(st, mk("call", "capacity", v))]
    if name == "resize":
        n = av(st, args[0])
        if v.op == "s" and n.op == "i" and n.a[0] <= len(v.a[0]):
            eng.write(st, ol, S(v.a[0][:n.a[0]]))
        elif n.op == "i" and n.a[0] == 0:
            eng.write(st, ol, S(""))
        else:
            eng.write(st, ol, mk("resized", v, n))
        return [(st, VOID)]
    if name == "pop_back":
        eng.write(st, ol, mk("resized", v, sub(TM.size(v), I(1))))
        return [(st, VOID)]
    if name in ("starts_with",):
        return [(st, mk("starts", v, av(st, args[0])))]
    if name.startswith("operator") and "basic_string" in name:
        return [(st, v)]
    if name == "swap":
        l2 = args[0][1]
        b = eng.read(st, l2)
        eng.write(st, ol, b)
        eng.write(st, l2, v)
        return [(st, VOID)]
    return None


def map_method(eng, st, f, name, ol, args, e):
    av = eng.argval
    P = mkptr(ol)
    if name == "find":
        k = av(st, args[0], False)
        eng.mapkey(st, ol, k, name, e)
        out = []
        for s, pres, v in map_lookup(eng, st, eng.read(st, ol), k):
            eng.event(s, "lookup", P, k, pres) if False else None
            out.append((s, mk("it", P, mk("at", k)) if pres else mk("end", P)))
        return out
    if name in ("count", "contains"):
        k = av(st, args[0], False)
        eng.mapkey(st, ol, k, name, e)
        return [(s, I(1 if p else 0) if name == "count" else B(p)) for s, p, v in map_lookup(eng, st, eng.read(st, ol), k)]
    if name == "at":
        k = av(st, args[0], False)
        eng.mapkey(st, ol, k, name, e)
        out = []
        for s, pres, v in map_lookup(eng, st, eng.read(st, ol), k):
            if pres:
                out.append((s, mk("ptr", ol[0], *(ol[1] + (mk("at", k), "second")))))
            else:
                eng.aborts.append(("throw", s, e.get("l")))
        return out
    if name == "operator[]":
        k = av(st, args[0])
        eng.mapkey(st, ol, k, name, e)
        out = []
        for s, pres, v in map_lookup(eng, st, eng.read(st, ol), k):
            if not pres:
                ta = split_targs(f.get("cls") or f["q"])
                t = ta[1] if len(ta) > 1 else "?"
                from engine import is_int_type, is_ptr_type, is_float_type
                if is_ptr_type(t):
                    dv = NULL
                elif is_int_type(t) or is_float_type(t):
                    dv = I(0)
                else:
                    dv = eng.default_value(s, base_type(t), e)
                map_put(eng, s, ol, k, dv)
            else:
                m = eng.read(s, ol)
                note_dup(s, m, k)
            out.append((s, mk("ptr", ol[0], *(ol[1] + (mk("at", k), "second")))))
        return out
    if name in ("emplace", "try_emplace", "insert", "insert_or_assign", "emplace_hint"):
        from engine import is_ptr_type
        if name == "emplace_hint":
            args = args[1:]
        if name == "insert" and len(args) != 1:
            return None
        if len(args) == 1:
            kv = av(st, args[0])
            k, v = proj(kv, "first"), proj(kv, "second")
            states = [(st, k, v)]
        elif len(args) >= 2:
            k = av(st, args[0])
            ta = split_targs(f.get("cls") or f["q"])
            vt = base_type(ta[1]) if len(ta) > 1 else "?"
            states = []
            if len(args) == 2 and not (vt in eng.p.records and base_type(args[1][3]) != vt):
                states = [(st, k, av(st, args[1]))]
            else:
                for s, x in make_elem(eng, st, vt, args[1:], e):
                    states.append((s, k, x))
        else:
            return None
        out = []
        for s0, k, v in states:
            eng.mapkey(s0, ol, k, name, e)
            for s, pres, old in map_lookup(eng, s0, eng.read(s0, ol), k):
                if not pres or name == "insert_or_assign":
                    if pres:
                        note_dup(s, eng.read(s, ol), k)
                    map_put(eng, s, ol, k, v)
                else:
                    note_dup(s, eng.read(s, ol), k)
                out.append((s, rec("pair", (("first", mk("it", P, mk("at", k))), ("second", B(not pres))))))
        return out
    if name == "erase":
        x = av(st, args[0], False)
        if x.op == "it" and x.a[1].op in ("at",):
            map_put(eng, st, ol, x.a[1].a[0], ABSENT)
            return [(st, mk("it", x.a[0], mk("after", x.a[1])))]
        if x.op in ("it", "end", "it+"):
            m = eng.read(st, ol)
            eng.write(st, ol, mk("erased", m, x))
            return [(st, mk("it", P, mk("after", x)))]
        out = []
        for s, pres, v in map_lookup(eng, st, eng.read(st, ol), x):
            if pres:
                map_put(eng, s, ol, x, ABSENT)
            out.append((s, I(1 if pres else 0)))
        return out
    if name == "end" or name == "cend":
        return [(st, mk("end", P))]
    if name in ("begin", "cbegin"):
        return [(st, mk("it", P, mk("first")))]
    if name in ("rbegin", "crbegin"):
        return [(st, mk("it", P, mk("last")))]
    if name == "empty":
        return [(st, eq(TM.size(eng.read(st, ol)), I(0)))]
    if name == "size":
        n = TM.size(eng.read(st, ol))
        eng.markint(n)
        return [(st, n)]
    if name == "clear":
        eng.write(st, ol, EMPTYMAP)
        return [(st, VOID)]
    if name == "swap":
        l2 = args[0][1]
        a, b = eng.read(st, ol), eng.read(st, l2)
        eng.write(st, ol, b)
        eng.write(st, l2, a)
        return [(st, VOID)]
    if name == "operator=":
        eng.write(st, ol, av(st, args[0]))
        return [(st, mkptr(ol))]
    return None


def note_dup(st, m, k):
    """an insertion met an equal key of an earlier element"""
    if mentions(k, lambda x: x.op == "elem"):
        st.mon["dup"] = 1


def set_method(eng, st, f, name, ol, args, e):
    av = eng.argval
    P = mkptr(ol)
    v = eng.read(st, ol)
    if name in ("insert", "emplace"):
        x = [av(st, a) for a in args]
        multi = "multi" in f["q"][:24]
        if multi and len(x) == 2:
            x = [rec("pair", (("first", x[0]), ("second", x[1])))]
        if len(x) != 1:
            return None
        eng.write(st, ol, mk("sins", v, x[0]))
        it = mk("it", P, mk("key", x[0]))
        if multi:
            return [(st, it)]
        return [(s, rec("pair", (("first", it), ("second", B(b))))) for s, b in eng.decide(st, neg_bool(mk("has", v, x[0])))]
    if name == "find":
        k = av(st, args[0], False)
        if v.op == "emptyset":
            return [(st, mk("end", P))]
        return [(s, mk("it", P, mk("key", k)) if b else mk("end", P)) for s, b in eng.decide(st, mk("has", v, k))]
    if name in ("count", "contains"):
        k = av(st, args[0], False)
        return [(s, I(1 if b else 0) if name == "count" else B(b)) for s, b in eng.decide(st, mk("has", v, k))]
    if name in ("end", "cend"):
        return [(st, mk("end", P))]
    if name in ("begin", "cbegin"):
        return [(st, mk("it", P, mk("first")))]
    if name in ("rbegin", "crbegin"):
        return [(st, mk("it", P, mk("last")))]
    if name == "empty":
        return [(st, eq(TM.size(v), I(0)))]
    if name == "size":
        n = TM.size(v)
        eng.markint(n)
        return [(st, n)]
    if name == "clear":
        eng.write(st, ol, mk("emptyset"))
        return [(st, VOID)]
    if name == "erase":
        eng.write(st, ol, mk("erased", v, av(st, args[0])))
        return [(st, mk("it", P, mk("after", v)))]
    if name == "equal_range":
        k = av(st, args[0])
        return [(st, rec("pair", (("first", mk("it", P, mk("lower", k))), ("second", mk("it", P, mk("upper", k))))))]
    if name == "operator=":
        eng.write(st, ol, av(st, args[0]))
        return [(st, mkptr(ol))]
    return None


def uptr_method(eng, st, f, name, ol, args, e):
    v = eng.read(st, ol)
    if name in ("get", "operator->"):
        return [(st, v)]
    if name == "operator*":
        return [(st, v)]
    if name == "operator bool":
        if v.op in ("ptr",):
            return [(st, TRUE)]
        if v.op == "null":
            return [(st, FALSE)]
        return [(st, mk("nonnull", v))]
    if name == "release":
        eng.write(st, ol, NULL)
        eng.event(st, "release", v, e.get("l"))
        return [(st, v)]
    if name == "reset":
        x = eng.argval(st, args[0]) if args else NULL
        adopt(eng, st, x, e)
        eng.write(st, ol, x)
        return [(st, VOID)]
    if name == "operator=":
        x = eng.argval(st, args[0])
        eng.write(st, ol, x)
        return [(st, mkptr(ol))]
    if name == "swap":
        l2 = args[0][1]
        b = eng.read(st, l2)
        eng.write(st, ol, b)
        eng.write(st, l2, v)
        return [(st, VOID)]
    return None


def ptr_first(p):
    """pointer to member first etc"""
    return p


def iter_method(eng, st, f, name, ol, args, e):
    v = eng.read(st, ol)
    if name in ("operator->", "operator*"):
        if v.op in ("it", "ptr", "D"):
            return [(st, v)]
        return [(st, v)]
    if name in ("operator++", "operator--"):
        up = name == "operator++"
        if v.op == "it":
            nv = it_step(eng, st, v, up)
        elif v.op == "end" and not up:
            nv = mk("it", v.a[0], mk("last"))
        else:
            nv = mk("itstep", v, up)
        eng.write(st, ol, nv)
        if args:
            return [(st, v)]
        return [(st, mkptr(ol))]
    if name in ("operator+", "operator-", "operator+=", "operator-=") and len(args) == 1:
        x = eng.argval(st, args[0])
        if v.op == "it" and v.a[1].op == "idx":
            nv = mk("it", v.a[0], mk("idx", add(v.a[1].a[0], x) if "+" in name else sub(v.a[1].a[0], x)))
        elif v.op == "end" and name[8:9] == "-" and x is I(1):
            n = size_of(eng, st, v.a[0])
            nv = mk("it", v.a[0], mk("idx", sub(n, I(1))))
        else:
            return None
        if name.endswith("="):
            eng.write(st, ol, nv)
            return [(st, mkptr(ol))]
        return [(st, nv)]
    if name in ("operator==", "operator!=") and len(args) == 1:
        r = eqv(eng, st, v, eng.argval(st, args[0], False))
        return [(st, r if name == "operator==" else neg_bool(r))]
    if name == "operator=":
        eng.write(st, ol, eng.argval(st, args[0]))
        return [(st, mkptr(ol))]
    return None


def eqv(eng, st, a, b):
    r = eq(a, b)
    if r.op == "eq":
        r = canon_eq(eng, st, r)
    return r


# ------------------------------------------------------------------ Eigen
def dims(t):
    m = re.match(r"(?:const )?Eigen::Matrix<double, (-?\d+), (-?\d+)", t)
    return (int(m.group(1)), int(m.group(2))) if m else None


def eigen_ctor(eng, st, t, args, e):
    d = dims(t)
    vals = [eng.argval(st, a) for a in args]
    if not vals:
        return mk("dflt", "m" if d == (3, 3) else "v")
    if len(vals) == 1:
        if is_eigen(args[0][3]) or vals[0].op in ("vec", "rec", "mat", "dflt"):
            return vals[0]
        return mk("dyn", *vals)
    if d and (d[0] == -1 or d[1] == -1):
        return mk("dyn", *vals)
    if d and 1 in d and len(vals) == max(d):
        return vec(*vals)
    return mk("new", t, *vals)


def smul(s, v):
    n = num(s)
    if n == 1:
        return v
    if v.op == "rec" and v.a[0] == "vec":
        return vec(*[arith_mul(s, x) for _, x in v.a[1]])
    return mk("sv", s, v)


def arith_mul(a, b):
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        return Fl(na * nb)
    if na == 1:
        return b
    if nb == 1:
        return a
    return mk("*", a, b)


def sdiv(v, s):
    n = num(s)
    if n == 1:
        return v
    if v.op == "rec" and v.a[0] == "vec":
        return vec(*[mk("/", x, s) if not (num(x) is not None and n) else Fl(num(x) / n) for _, x in v.a[1]])
    return mk("vs", v, s)


def vadd(a, b, op):
    if a.op == "rec" and a.a[0] == "vec" and b.op == "rec" and b.a[0] == "vec":
        return vec(*[(add if op == "+" else sub)(x, y) for (_, x), (_, y) in zip(a.a[1], b.a[1])])
    return mk(op, a, b)


def eigen_binop(eng, st, op, a, ta, b, tb):
    ea, eb = is_eigen(ta), is_eigen(tb)
    if op in ("+", "-"):
        return vadd(a, b, op)
    if op == "*":
        if ea and eb:
            return mk("mm", a, b)
        if ea:
            return smul(b, a)
        return smul(a, b)
    if op == "/":
        return sdiv(a, b)
    return None


def eigen_method(eng, st, f, name, ol, args, e):
    av = eng.argval
    ot = e["o"]["t"] if e.get("o") else f.get("cls", "")
    if name in ("x", "y", "z", "w"):
        if f["rt"].endswith("&"):
            return [(st, mk("ptr", ol[0], *(ol[1] + (name,))))]
        return [(st, proj(eng.read(st, ol), name))]
    v = eng.read(st, ol) if ol is not None else None
    if name in ("operator()", "operator[]", "coeff", "coeffRef"):
        idx = [av(st, a) for a in args]
        d = dims(ot)
        comp = None
        if d and 1 in d and max(d) in (2, 3, 4) and idx[-1].op == "i":
            i = idx[-1] if len(idx) == 1 or d[0] == 1 else idx[0]
            if i.op == "i" and 0 <= i.a[0] < 4:
                comp = "xyzw"[i.a[0]]
        path = (comp,) if comp else (mk("idx2", *idx),)
        if f["rt"].endswith("&"):
            return [(st, mk("ptr", ol[0], *(ol[1] + path)))]
        return [(st, proj(v, path[0]))]
    if name in ("operator+", "operator-", "operator*", "operator/"):
        if len(args) == 0:
            return [(st, eng.neg(v))]
        if ol is None and len(args) == 2:
            r = eigen_binop(eng, st, name[8:], av(st, args[0]), args[0][3], av(st, args[1]), args[1][3])
        else:
            r = eigen_binop(eng, st, name[8:], v, ot, av(st, args[0]), args[0][3])
        return [(st, r)] if r is not None else None
    if name in ("operator+=", "operator-=", "operator*=", "operator/="):
        r = eigen_binop(eng, st, name[8:9], v, ot, av(st, args[0]), args[0][3])
        eng.write(st, ol, r)
        return [(st, mkptr(ol))]
    if name == "operator=":
        eng.write(st, ol, av(st, args[0]))
        return [(st, mkptr(ol))]
    if name in ("operator==", "operator!="):
        if ol is None:
            r = eq(av(st, args[0]), av(st, args[1]))
        else:
            r = eq(v, av(st, args[0]))
        return [(st, r if name == "operator==" else neg_bool(r))]
    if name in ("dot", "cross"):
        return [(st, mk(name, v, av(st, args[0])))]
    if name in ("norm", "squaredNorm", "normalized", "transpose", "inverse", "determinant"):
        if name == "normalized" and v.op == "normalized":
            return [(st, v)]
        return [(st, mk(name, v))]
    if name == "normalize":
        eng.write(st, ol, mk("normalized", v))
        return [(st, VOID)]
    if name in ("eval", "array", "matrix", "noalias", "derived"):
        if f["rt"].endswith("&"):
            return [(st, mkptr(ol))]
        return [(st, v)]
    if name == "operator<<" and ol is not None:
        x = av(st, args[0])
        eng.write(st, ol, mat((x,)))
        return [(st, mk("comma", mkptr(ol), (x,)))]
    if name == "operator,":
        if v.op == "comma":
            items = v.a[1] + (av(st, args[0]),)
            nv = mk("comma", v.a[0], items)
            eng.write(st, ol, nv)
            eng.write(st, eng.deref(st, v.a[0]), mat(items))
            return [(st, mkptr(ol))]
        return None
    if name == "finished":
        if v.op == "comma":
            return [(st, v.a[0])]
        return None
    if name in ("setZero", "Zero", "setIdentity", "Identity"):
        z = mk("const", name.replace("set", ""), base_type(ot or f["rt"]))
        d = dims(ot or f.get("cls", ""))
        if d and 1 in d and max(d) in (2, 3) and "Zero" in name:
            z = vec(*[I(0)] * max(d))
        if name.startswith("set"):
            eng.write(st, ol, z)
            return [(st, mkptr(ol))]
        return [(st, z)]
    if name in ("head", "segment", "leftCols", "topRows"):
        return None
    if name in ("cwiseMin", "cwiseMax") and len(args) == 1:
        d = dims(ot or f.get("cls", ""))
        if d and 1 in d and max(d) in (2, 3):
            w = av(st, args[0])
            if "Eigen::" not in str(args[0][3]):
                return [(st, vec(*[mk(name[5:].lower(), TM.proj(v, c), w) for c in "xyz"[:max(d)]]))]
            return [(st, vec(*[mk(name[5:].lower(), TM.proj(v, c), TM.proj(w, c)) for c in "xyz"[:max(d)]]))]
    if name in ("minCoeff", "maxCoeff", "sum", "cwiseMin", "cwiseMax", "cwiseProduct", "cwiseAbs"):
        return [(st, mk(name, v, *[av(st, a) for a in args]))]
    if name in ("operator basic_ostream",):
        return None
    return None


def mat(items):
    items = tuple(items)
    if len(items) == 9 and all(not (x.op == "rec") for x in items):
        items = tuple(vec(*items[i:i + 3]) for i in (0, 3, 6))
    return mk("mat", *items)


# ------------------------------------------------------------------ text formatting
def subst(fmt, args):
    out = []
    i = 0
    s = fmt
    lit = ""
    while i < len(s):
        c = s[i]
        if c == "$" and i + 1 < len(s):
            d = s[i + 1]
            if d == "$":
                lit += "$"
            elif d.isdigit():
                if lit:
                    out.append(S(lit))
                    lit = ""
                n = int(d)
                out.append(args[n] if n < len(args) else mk("noarg", n))
            else:
                lit += c + d
            i += 2
            continue
        lit += c
        i += 1
    if lit:
        out.append(S(lit))
    return cat(*out)


def printf_pieces(fmt, args, types):
    """pieces of a printf format; None if it cannot be split"""
    out = []
    lit = ""
    i = 0
    n = 0
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            lit += c
            i += 1
            continue
        m = re.match(r"%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", fmt[i:])
        if not m:
            return None
        i += m.end()
        if m.group(5) == "%":
            lit += "%"
            continue
        if m.group(2) == "*" or m.group(3) == "*":
            return None
        if lit:
            out.append(S(lit))
            lit = ""
        if n >= len(args):
            out.append(mk("noarg", n))
        else:
            v = args[n]
            spec = m.group(0)
            if spec in ("%d", "%i", "%u", "%ld", "%lu", "%zu"):
                out.append(tostr(v))
            elif spec == "%s":
                out.append(v)
            elif spec == "%c":
                out.append(chr_(v))
            else:
                out.append(mk("fmt", S(spec), (v,)))
        n += 1
    if lit:
        out.append(S(lit))
    return out


def text_arg(eng, st, a):
    """string form of an argument of StrCat / Substitute"""
    v = eng.argval(st, a, False)
    t = base_type(a[3])
    if v.op in ("s", "cat", "tostr", "chr", "fmt", "escape"):
        return v
    if "AlphaNum" in t or "substitute_internal::Arg" in t:
        return v
    if is_stringy(t):
        return v
    if t in ("char",):
        return chr_(v)
    if v.op in ("tostr",):
        return v
    return tostr(v)


# ------------------------------------------------------------------ dispatch
def m_GetFlag(eng, st, f, ol, args, e):
    a = args[0]
    name = a[1][0].a[0] if a[0] == "l" and a[1][0].op == "G" else "?"
    t = mk("flag", name.replace("FLAGS_", ""))
    if f["rt"] == "bool":
        t = mk("bcall", t)
    return [(st, t)]


def m_move(eng, st, f, ol, args, e):
    return [(st, mkptr(eng.argloc(st, args[0], e)))]


def m_minmax(name):
    def m(eng, st, f, ol, args, e):
        if len(args) != 2:
            if len(args) == 1:
                v = eng.argval(st, args[0])
                return [(st, mk(name, v))]
            return None
        a, b = eng.argval(st, args[0]), eng.argval(st, args[1])
        if num(a) is not None and num(b) is not None:
            v = Fl((min if name == "min" else max)(num(a), num(b)))
        elif a is b:
            v = a
        else:
            v = mk(name, a, b)
        if f["rt"].endswith("&"):
            return [(st, mkptr(eng.tmp(st, e, v, "mm")))]
        return [(st, v)]
    return m


def m_clamp(eng, st, f, ol, args, e):
    if len(args) != 3:
        return None
    v, lo, hi = [eng.argval(st, a) for a in args]
    r = mk("min", mk("max", v, lo), hi)
    if f["rt"].endswith("&"):
        return [(st, mkptr(eng.tmp(st, e, r, "mm")))]
    return [(st, r)]


def m_swap(eng, st, f, ol, args, e):
    l1, l2 = args[0][1], args[1][1]
    a, b = eng.read(st, l1), eng.read(st, l2)
    eng.write(st, l1, b)
    eng.write(st, l2, a)
    return [(st, VOID)]


def m_exchange(eng, st, f, ol, args, e):
    l1 = args[0][1]
    a = eng.read(st, l1)
    eng.write(st, l1, eng.argval(st, args[1]))
    return [(st, a)]


def m_pair(eng, st, f, ol, args, e):
    return [(st, rec("pair", (("first", eng.argval(st, args[0])), ("second", eng.argval(st, args[1])))))]


def m_get(eng, st, f, ol, args, e):
    ta = f.get("ta") or split_targs(f["q"])
    i = None
    for x in ta:
        if re.match(r"^\d+", str(x)):
            i = int(re.match(r"^\d+", str(x)).group(0))
            break
    if i is None:
        return None
    t = args[0][3]
    if "array<" in t[:20]:
        p = mk("idx", I(i))
    elif "pair<" in t[:20]:
        p = ("first", "second")[i]
    else:
        p = "get%d" % i
    l = eng.argloc(st, args[0], e)
    return [(st, mk("ptr", l[0], *(l[1] + (p,))))]


def m_StrSplit(eng, st, f, ol, args, e):
    d = eng.argval(st, args[1])
    if d.op == "i":
        d = S(chr(d.a[0]))
    return [(st, mk("split", eng.argval(st, args[0]), d, *[eng.argval(st, a) for a in args[2:]]))]


def m_StrCat(eng, st, f, ol, args, e):
    return [(st, cat(*[text_arg(eng, st, a) for a in args]))]


def m_StrAppend(eng, st, f, ol, args, e):
    l = eng.deref(st, eng.argval(st, args[0]))
    eng.write(st, l, cat(eng.read(st, l), *[text_arg(eng, st, a) for a in args[1:]]))
    return [(st, VOID)]


def m_Substitute(eng, st, f, ol, args, e):
    fmt = eng.argval(st, args[0], False)
    vals = [text_arg(eng, st, a) for a in args[1:]]
    if fmt.op != "s":
        return [(st, mk("subst", fmt, *vals))]
    return [(st, subst(fmt.a[0], vals))]


def m_StrFormat(eng, st, f, ol, args, e):
    fmt = eng.argval(st, args[0], False)
    vals = tuple(eng.argval(st, a, False) for a in args[1:])
    if fmt.op == "s":
        p = printf_pieces(fmt.a[0], vals, None)
        if p is not None:
            return [(st, cat(*p))]
    return [(st, mk("fmt", fmt, vals))]


def m_StrJoin(eng, st, f, ol, args, e):
    v, d = eng.argval(st, args[0], False), eng.argval(st, args[1], False)
    if v.op == "seq" and v.a[0] is None:
        out = []
        for i, x in enumerate(v.a[1]):
            if i:
                out.append(d)
            out.append(x)
        return [(st, cat(*out))]
    return [(st, mk("join", v, d))]


def m_StrReplaceAll(eng, st, f, ol, args, e):
    v, r = eng.argval(st, args[0], False), eng.argval(st, args[1], False)
    pairs = None
    if r.op == "seq" and r.a[0] is None:
        pairs = []
        for x in r.a[1]:
            a, b = proj(x, "first"), proj(x, "second")
            if x.op == "seq":
                a, b = x.a[1][0], x.a[1][1]
            pairs.append((a, b))
    return [(st, mk("replall", v, tuple(pairs) if pairs is not None else r))]


def m_FullMatch(eng, st, f, ol, args, e, op="fullmatch"):
    line, rex = eng.argval(st, args[0], False), eng.argval(st, args[1], False)
    out = []
    if rex.op == "s":
        rex = mk("re2", rex)
    kinds = tuple({"double": "d", "float": "f", "int": "i", "long": "i", "std::string": "s"}.get(
        re.sub(r"\b(const|\*|&)\b|[*&]", "", a[3]).strip() if len(a) > 3 and isinstance(a[3], str) else "?", "?") for a in args[2:])
    for s, b in eng.decide(st, mk("bcall", mk(op, line, rex, kinds))):
        if b:
            for i, a in enumerate(args[2:]):
                p = eng.argval(s, a, False)
                if p.op == "ptr":
                    eng.write(s, eng.deref(s, p), mk("cap", line, rex, i))
        out.append((s, B(b)))
    return out


def m_lazyre(eng, st, f, ol, args, e):
    v = eng.read(st, ol)
    p = proj(v, "pattern_") if v.op == "rec" else v.a[1][0] if v.op == "seq" and v.a[1] else None
    if p is None or p.op != "s":
        return None
    root = mk("G", "lazyre2:" + p.a[0])
    st.store[root] = mk("re2", p)
    return [(st, mkptr((root, ())))]


def m_PartialMatch(eng, st, f, ol, args, e):
    return m_FullMatch(eng, st, f, ol, args, e, "partmatch")


def m_getline(eng, st, f, ol, args, e):
    il, sl = args[0][1], args[1][1]
    prev = eng.read(st, il)
    nv = mk("getl", e["_id"], prev)
    delim = tuple(eng.argval(st, a) for a in args[2:])
    eng.write(st, il, nv)
    eng.write(st, sl, mk("line", nv, *delim))
    return [(st, mkptr(il))]


def m_fprintf(eng, st, f, ol, args, e):
    tgt = eng.argval(st, args[0], False)
    fmt = eng.argval(st, args[1], False)
    vals = [eng.argval(st, a, False) for a in args[2:]]
    if tgt.op == "init" and tgt.a[0].op == "G":
        root = tgt.a[0]
    else:
        root = mk("FILE", tgt)
    p = printf_pieces(fmt.a[0], vals, None) if fmt.op == "s" else None
    what = cat(*p) if p is not None else mk("fmt", fmt, tuple(vals))
    if is_diag_root(root):
        st.mon["diag"] = 1
        if eng.diag_hook is not None:
            eng.diag_hook(eng, st, loc, what, e)
        if not eng.trace_diag:
            return [(st, mk("call", "print"))]
    eng.event(st, "out", mk("ptr", root), what, e.get("l"))
    return [(st, mk("call", "fprintf"))]


def m_printf(eng, st, f, ol, args, e):
    fmt = eng.argval(st, args[0], False)
    vals = [eng.argval(st, a, False) for a in args[1:]]
    p = printf_pieces(fmt.a[0], vals, None) if fmt.op == "s" else None
    eng.event(st, "out", mk("ptr", mk("G", "stdout")), cat(*p) if p is not None else mk("fmt", fmt, tuple(vals)), e.get("l"))
    return [(st, mk("call", "printf"))]


def m_fputs(eng, st, f, ol, args, e):
    v = eng.argval(st, args[0], False)
    tgt = eng.argval(st, args[1], False)
    root = tgt.a[0] if tgt.op == "init" and tgt.a[0].op == "G" else mk("FILE", tgt)
    if is_diag_root(root):
        st.mon["diag"] = 1
    what = chr_(v) if e["f"]["q"] in ("fputc", "putc") else v
    eng.event(st, "out", mk("ptr", root), what, e.get("l"))
    return [(st, mk("call", "fputs"))]


def m_shl(eng, st, f, ol, args, e):
    """ostream << x, both member and free form"""
    if ol is not None:
        loc, x = ol, args[0]
    else:
        if len(args) != 2:
            return None
        loc, x = (args[0][1] if args[0][0] == "l" else eng.tmp(st, e, args[0][1], "os")), args[1]
    v = eng.argval(st, x, False)
    if v.op == "fn":
        n = v.a[1].split("<")[0]
        if n == "std::endl":
            emit(eng, st, loc, S("\n"), e)
        elif n in ("std::flush", "std::hex", "std::dec", "std::fixed", "std::scientific", "std::boolalpha"):
            if n != "std::flush":
                eng.event(st, "manip", mkptr(loc), n, e.get("l"))
        return [(st, mkptr(loc))]
    emit(eng, st, loc, out_piece(eng, st, v, x[3]), e)
    return [(st, mkptr(loc))]


def m_abort(eng, st, f, ol, args, e):
    eng.aborts.append(("abort", st, e.get("l")))
    eng.event(st, "abort", e.get("l"))
    return []


def m_numeric(eng, st, f, ol, args, e):
    q = f["q"]
    n = q.split("::")[-1]
    v = [eng.argval(st, a, False) for a in args]
    import math
    x = [num(t) for t in v]
    if all(y is not None for y in x):
        try:
            r = {"sin": math.sin, "cos": math.cos, "sqrt": math.sqrt, "acos": math.acos, "abs": abs, "fabs": abs,
                 "pow": math.pow, "atan2": math.atan2}[n](*x)
            return [(st, Fl(r))]
        except Exception:
            pass
    if n == "pow" and x[1] == 2:
        return [(st, mk("*", v[0], v[0]))]
    if n in ("sin", "cos") and v[0].op == "neg":
        r = mk(n, v[0].a[0])
        return [(st, r if n == "cos" else eng.neg(r))]
    return [(st, mk(n, *v))]


def m_make_unique(eng, st, f, ol, args, e):
    t = split_targs(f["rt"])[0]
    out = []
    for s, v in make_elem(eng, st, t, args, e):
        root = mk("H", base_type(t), e["_id"], s.depth)
        k = 0
        while root in s.store and k < 8:
            k += 1
            root = mk("H", base_type(t), e["_id"], s.depth, k)
        s.store[root] = v
        eng.event(s, "new", mk("ptr", root), base_type(t), e.get("l"))
        adopt(eng, s, mk("ptr", root), e)
        out.append((s, mk("ptr", root)))
    return out


def adopt(eng, st, v, e):
    """a smart pointer takes over (recorded for the checks that count owners)"""
    if eng.own and v.op != "null":
        eng.event(st, "adopt", v, e.get("l"))


def m_wrap_unique(eng, st, f, ol, args, e):
    v = eng.argval(st, args[0])
    adopt(eng, st, v, e)
    return [(st, v)]


def narrow(eng, st, t, a):
    """an argument converted to type t inside the library"""
    from engine import is_int_type, is_float_type
    v = eng.argval(st, a)
    if is_int_type(base_type(t)) and base_type(t) != "bool" and is_float_type(base_type(a[3])):
        v = I(int(v.a[0])) if v.op in ("f", "i") else mk("trunc", v)
        eng.markint(v)
    return v


def israw(t):
    return t.replace("const", "").rstrip().endswith("*")


def m_starts(eng, st, f, ol, args, e):
    return [(st, mk("starts", eng.argval(st, args[0], False), eng.argval(st, args[1], False)))]


def m_sort(eng, st, f, ol, args, e):
    a = eng.argval(st, args[0], False)
    p = a.a[0] if a.op in ("it", "end") else (mk("ptr", *a.a[:-1]) if a.op == "ptr" and a.a[1:] and isinstance(a.a[-1], T) and a.a[-1].op == "idx" else a)
    if p.op != "ptr":
        return None
    l = eng.deref(st, p)
    eng.write(st, l, mk("sorted", e["_id"], eng.read(st, l)))
    return [(st, VOID)]


def range_of(eng, st, a, b):
    if a.op == "it" and b.op == "end" and a.a[0] is b.a[0]:
        p = a.a[1]
        if p.op == "first" or (p.op == "idx" and p.a[0] is I(0)):
            return eng.deref(st, a.a[0])
    return None


def m_for_each(eng, st, f, ol, args, e):
    a, b, fn = [eng.argval(st, x, False) for x in args]
    l = range_of(eng, st, a, b)
    if l is None or fn.op != "lam":
        return None
    et = "?"

    def body(z, el):
        return [(s, None) for s, _ in eng.apply_value(z, fn, [("l", el, False, et)], e)]
    r = eng.iterate(st, l, e, body)
    return [(s, fn) for s, c in r]


def m_anyall(kind):
    def m(eng, st, f, ol, args, e):
        a, b, fn = [eng.argval(st, x, False) for x in args]
        l = range_of(eng, st, a, b)
        if l is None or fn.op not in ("lam", "fn"):
            return None

        def body(z, el):
            out = []
            for s, v in eng.apply_value(z, fn, [("l", el, False, "?")], e):
                for s2, x in eng.decide(s, eng.tobool(v)):
                    if kind == "all":
                        out.append((s2, None if x else ("ret", FALSE)))
                    elif kind == "any":
                        out.append((s2, ("ret", TRUE) if x else None))
                    else:
                        out.append((s2, ("ret", FALSE) if x else None))
            return out
        r = eng.iterate(st, l, e, body)
        d = {"all": TRUE, "any": FALSE, "none": TRUE}[kind]
        return [(s, d if c is None else c[1]) for s, c in r]
    return m


def out_dest(eng, d, v):
    """Write v through an output iterator: fn(state, value), or None"""
    if d.op == "backins":
        def put(s, x):
            l = eng.deref(s, d.a[0])
            b = eng.read(s, l)
            if d.a[1] == "s":
                eng.write(s, l, cat(b, chr_(x)))
            else:
                eng.write(s, l, seq_append(b, x))
        return put
    return None


def m_back_inserter(eng, st, f, ol, args, e):
    a = args[0]
    if a[0] != "l":
        return None
    return [(st, mk("backins", mkptr(a[1]), "s" if is_stringy(a[3]) else "v"))]


def m_replace(kind):
    """std::replace / std::replace_if, in place"""
    def m(eng, st, f, ol, args, e):
        a, b, p, nv = [eng.argval(st, x, False) for x in args]
        l = range_of(eng, st, a, b)
        if l is None or (kind == "if" and p.op not in ("lam", "fn")):
            return None

        def body(z, el):
            if kind == "if":
                rs = [(s2, x) for s, v in eng.apply_value(z, p, [("l", el, False, "?")], e) for s2, x in eng.decide(s, eng.tobool(v))]
            else:
                rs = eng.decide(z, eq(eng.read(z, el), p))
            out = []
            for s, x in rs:
                if x:
                    eng.write(s, el, nv)
                out.append((s, None))
            return out
        return [(s, VOID) for s, c in eng.iterate(st, l, e, body)]
    return m


def m_transform(eng, st, f, ol, args, e):
    if len(args) != 4:
        return None
    a, b, d, fn = [eng.argval(st, x, False) for x in args]
    l = range_of(eng, st, a, b)
    if l is None or fn.op not in ("lam", "fn"):
        return None
    inplace = d is a
    put = None if inplace else out_dest(eng, d, None)
    if not inplace and put is None:
        return None

    def body(z, el):
        out = []
        for s, v in eng.apply_value(z, fn, [("l", el, False, "?")], e):
            if inplace:
                eng.write(s, el, v)
            else:
                put(s, v)
            out.append((s, None))
        return out
    return [(s, mk("backins", *d.a) if d.op == "backins" else d) for s, c in eng.iterate(st, l, e, body)]


def m_copy(eng, st, f, ol, args, e):
    if len(args) != 3:
        return None
    a, b, d = [eng.argval(st, x, False) for x in args]
    l = range_of(eng, st, a, b)
    put = out_dest(eng, d, None)
    if l is None or put is None:
        return None

    def body(z, el):
        put(z, eng.read(z, el))
        return [(z, None)]
    return [(s, d) for s, c in eng.iterate(st, l, e, body)]


def m_isfinite(eng, st, f, ol, args, e):
    return [(st, mk("bcall", mk("isfinite", eng.argval(st, args[0], False))))]


def m_to_string(eng, st, f, ol, args, e):
    from engine import is_int_type
    if not is_int_type(base_type(args[0][3])) or base_type(args[0][3]) == "bool":
        return None
    return [(st, tostr(eng.argval(st, args[0], False)))]


FREE = {
    "absl::GetFlag": m_GetFlag, "std::to_string": m_to_string, "std::__cxx11::to_string": m_to_string,
    "std::move": m_move, "std::forward": m_move, "std::as_const": m_move,
    "std::clamp": m_clamp, "std::min": m_minmax("min"), "std::max": m_minmax("max"), "std::fmin": m_minmax("min"), "std::fmax": m_minmax("max"),
    "std::swap": m_swap, "swap": m_swap, "std::iter_swap": None,
    "std::exchange": m_exchange,
    "std::make_pair": m_pair, "std::get": m_get,
    "absl::StrSplit": m_StrSplit, "absl::StrCat": m_StrCat, "absl::StrAppend": m_StrAppend,
    "absl::Substitute": m_Substitute, "absl::StrFormat": m_StrFormat, "absl::StrJoin": m_StrJoin,
    "absl::StrReplaceAll": m_StrReplaceAll,
    "RE2::FullMatch": m_FullMatch, "RE2::PartialMatch": m_PartialMatch, "LazyRE2::operator*": m_lazyre, "std::getline": m_getline,
    "fprintf": m_fprintf, "absl::FPrintF": m_fprintf, "std::fprintf": m_fprintf, "printf": m_printf, "std::printf": m_printf,
    "fputs": m_fputs, "fputc": m_fputs, "std::fputs": m_fputs,
    "abort": m_abort, "std::abort": m_abort, "exit": m_abort, "std::exit": m_abort, "_exit": m_abort,
    "std::terminate": m_abort, "__assert_fail": m_abort,
    "std::make_unique": m_make_unique, "absl::make_unique": m_make_unique,
    "absl::WrapUnique": m_wrap_unique,
    "absl::StartsWith": m_starts,
    "std::sort": m_sort, "std::stable_sort": m_sort,
    "std::for_each": m_for_each, "absl::c_for_each": None,
    "std::back_inserter": m_back_inserter, "std::replace": m_replace("eq"), "std::replace_if": m_replace("if"),
    "std::transform": m_transform, "std::copy": m_copy,
    "std::all_of": m_anyall("all"), "std::any_of": m_anyall("any"), "std::none_of": m_anyall("none"),
    "std::isfinite": m_isfinite, "isfinite": m_isfinite,
}
for n in ("sin", "cos", "sqrt", "acos", "atan2", "pow", "abs", "fabs", "hypot", "tan", "asin", "atan"):
    FREE[n] = m_numeric
    FREE["std::" + n] = m_numeric

SPECIAL = {}

SEQCLS = ("std::vector", "std::array", "std::deque", "std::initializer_list", "std::list")
MAPCLS = ("std::map", "std::unordered_map", "absl::flat_hash_map", "absl::btree_map", "absl::node_hash_map")
SETCLS = ("std::set", "std::multimap", "std::multiset", "std::unordered_set", "absl::flat_hash_set")
ITCLS = ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator", "std::reverse_iterator",
         "std::_Bit_iterator", "std::istreambuf_iterator", "std::move_iterator", "std::back_insert_iterator")
OPT = ("std::optional", "absl::optional")


def io_method(eng, st, f, name, ol, args, e):
    v = eng.read(st, ol)
    if name == "open":
        a = [eng.argval(st, x, False) for x in args]
        if v.op == "open" or v.op == "closed" or v.op == "rec":
            pass
        nv = mk("open", a[0], a[1] if len(a) > 1 else I(0), e["_id"], mk("null") if True else v)
        eng.event(st, "open", mkptr(ol), a[0], a[1] if len(a) > 1 else NULL, v, e.get("l"))
        eng.write(st, ol, nv)
        return [(st, VOID)]
    if name == "close":
        eng.write(st, ol, mk("closed", v))
        eng.event(st, "close", mkptr(ol), e.get("l"))
        return [(st, VOID)]
    if name in ("operator bool",):
        return [(st, neg_bool(io_fail(v)))]
    if name in ("operator!", "fail"):
        return [(st, io_fail(v))]
    if name == "good":
        return [(st, io_good(v))]
    if name == "bad":
        return [(st, mk("ioget", "bad", v))]
    if name == "eof":
        return [(st, mk("ioget", "eof", v))]
    if name == "is_open":
        return [(st, neg_bool(io_fail(v))) if v.op == "open" else (st, mk("ioget", "is_open", v))]
    if name == "rdstate":
        return [(st, mk("iostate", v))]
    if name in ("flush",):
        if v.op == "wr":
            eng.write(st, ol, mk("flushed", v))
        return [(st, mkptr(ol))]
    if name in ("clear", "setstate"):
        eng.write(st, ol, mk("cleared", e["_id"], v))
        return [(st, VOID)]
    if name in ("put", "write"):
        x = eng.argval(st, args[0], False)
        if name == "put":
            emit(eng, st, ol, chr_(x), e)
        else:
            n = eng.argval(st, args[1], False)
            if n is TM.size(x):
                emit(eng, st, ol, x, e)
            else:
                emit(eng, st, ol, mk("substr", x, I(0), n), e)
        return [(st, mkptr(ol))]
    if name == "str" and not args:
        return [(st, mk("strof", v))]
    if name in ("exceptions", "imbue", "precision", "width", "setf", "unsetf", "fill"):
        eng.event(st, "manip", mkptr(ol), name, e.get("l"))
        return [(st, VOID)]
    if name == "rdbuf":
        return [(st, mk("call", "rdbuf", v))]
    return None


IOCLS = ("std::basic_ios", "std::ios_base", "std::basic_ostream", "std::basic_istream", "std::basic_ifstream",
         "std::basic_ofstream", "std::basic_fstream", "std::basic_stringstream", "std::basic_ostringstream",
         "std::basic_istringstream", "std::basic_iostream")


def model(eng, st, f, q, ol, args, e):
    if q.startswith("std::type_info::"):
        return [(st, mk("call", q, *([eng.read(st, ol)] if ol is not None else []), *[eng.argval(st, a, False) for a in args]))]
    h = FREE.get(q)
    if h:
        return h(eng, st, f, ol, args, e)
    i = q.rfind("::")
    if "operator" in q:
        j = q.find("::operator")
        if j >= 0:
            i = j
        elif q.startswith("operator"):
            i = -2
    cls, name = (q[:i], q[i + 2:]) if i >= 0 else ("", q)
    if q.startswith("Eigen::"):
        if name == "operator<<" and ol is None:
            return m_shl(eng, st, f, ol, args, e)
        if ol is None and name in ("operator*", "operator+", "operator-", "operator/"):
            return eigen_method(eng, st, f, name, None, args, e)
        return eigen_method(eng, st, f, name, ol, args, e)
    if cls in SEQCLS:
        if f.get("op") == "=" or name == "operator=":
            eng.write(st, ol, eng.argval(st, args[0]))
            return [(st, mkptr(ol))]
        return vec_method(eng, st, f, name, ol, args, e)
    if cls == "std::basic_string" or cls in ("absl::string_view", "std::basic_string_view"):
        return str_method(eng, st, f, name, ol, args, e)
    if cls in MAPCLS:
        return map_method(eng, st, f, name, ol, args, e)
    if cls in SETCLS:
        return set_method(eng, st, f, name, ol, args, e)
    if cls == "std::unique_ptr" or cls == "std::shared_ptr" or cls in OPT:
        return uptr_method(eng, st, f, name, ol, args, e)
    if cls in ITCLS:
        return iter_method(eng, st, f, name, ol, args, e)
    if cls in ("std::pair", "std::tuple") and name == "operator=":
        eng.write(st, ol, eng.argval(st, args[0]))
        return [(st, mkptr(ol))]
    if name == "operator<<":
        t0 = args[0][3] if ol is None and args else (e["o"]["t"] if e.get("o") else "")
        if "stream" in t0 or cls in IOCLS:
            return m_shl(eng, st, f, ol, args, e)
    if cls in IOCLS:
        return io_method(eng, st, f, name, ol, args, e)
    if q.startswith("absl::str_format_internal::ExtendedParsedFormat") or cls == "absl::str_format_internal::ExtendedParsedFormat":
        if name in ("New", "NewAllowIgnored"):
            return [(st, mk("pfnew", name, S(f["q"]), eng.argval(st, args[0], False)))]
        if name == "operator=":
            eng.write(st, ol, eng.argval(st, args[0]))
            return [(st, mkptr(ol))]
    if name.startswith("operator ") and ol is not None:
        # a conversion of a library type keeps the value
        if cls.startswith("absl::strings_internal") or cls in ("absl::string_view", "absl::AlphaNum"):
            return [(st, eng.read(st, ol))]
    if ol is None and len(args) == 2 and name in ("operator==", "operator!=", "operator<", "operator+", "operator>"):
        a, b = eng.argval(st, args[0], False), eng.argval(st, args[1], False)
        ta, tb = args[0][3], args[1][3]
        if name in ("operator==", "operator!="):
            r = eqv(eng, st, a, b)
            return [(st, r if name == "operator==" else neg_bool(r))]
        if name == "operator+" and (is_stringy(ta) or is_stringy(tb)):
            return [(st, cat(out_piece(eng, st, a, ta), out_piece(eng, st, b, tb)))]
        if name in ("operator<", "operator>"):
            if name == "operator>":
                a, b = b, a
            return [(st, lt(a, b))]
    if ol is None and name == "operator|" and len(args) == 2:
        a, b = eng.argval(st, args[0], False), eng.argval(st, args[1], False)
        return [(st, eng.arith("|", a, b, True))]
    if q in ("absl::log_shim::LogMessage::stream", "absl::log_shim::FatalMessage::stream"):
        v = eng.read(st, ol)
        sev = 3 if "Fatal" in q else (v.a[1].a[0] if v.op == "log" and v.a[1].op == "i" else 4)
        if sev >= 2:
            st.mon["diag"] = 1
            if eng.trace_diag:
                eng.event(st, "out", mk("ptr", mk("LOGS", sev)), S(""), e.get("l"))
        if sev == 3:
            st.mon["fatal"] = 1
        return [(st, mk("ptr", mk("LOGS", sev)))]
    if cls == "absl::log_shim::Voidify":
        # the message has been written: the process ends here
        eng.aborts.append(("check", st, e.get("l")))
        eng.event(st, "abort", e.get("l"))
        return []
    return None


def construct(eng, st, f, c, args, e):
    t = base_type(e.get("t", "?"))
    av = eng.argval
    full = base_type(f.get("cls", t))
    if c.startswith("Eigen::Matrix"):
        return [(st, eigen_ctor(eng, st, full if full.startswith("Eigen::Matrix<") else t, args, e))]
    if c.startswith("Eigen::"):
        if len(args) == 1:
            return [(st, av(st, args[0]))]
        return None
    if c == "std::basic_string" or c in ("absl::string_view", "std::basic_string_view"):
        vals = args
        if vals and "allocator" in vals[-1][3]:
            vals = vals[:-1]
        if not vals:
            return [(st, S(""))]
        if len(vals) == 1:
            return [(st, av(st, vals[0]))]
        if len(vals) == 2:
            a, b = av(st, vals[0]), av(st, vals[1])
            if "istreambuf" in vals[0][3]:
                return [(st, mk("readall", a))]
            if a.op == "s" and b.op == "i":
                return [(st, S(a.a[0][:b.a[0]].ljust(b.a[0], "\0")))]
            if a.op == "i" and b.op == "i":
                return [(st, S(chr(b.a[0]) * a.a[0]))]
            if a.op == "it" and b.op == "end" and a.a[0] is b.a[0] and a.a[1] is mk("idx", I(0)):
                return [(st, eng.read(st, eng.deref(st, a.a[0])))]
            if a.op in ("i", "size") or eng.isint(a):
                return [(st, mk("repeat", a, b))]
            if b is TM.size(a):
                return [(st, a)]
            return [(st, mk("bytes", a, b))]
        return [(st, mk("new", "string", *[av(st, x) for x in vals]))]
    if c == "std::unique_ptr" or c == "std::shared_ptr":
        if not args:
            return [(st, NULL)]
        v = av(st, args[0])
        if israw(args[0][3]):
            adopt(eng, st, v, e)
        return [(st, v)]
    if c in SEQCLS:
        vals = [a for a in args if "allocator" not in a[3]]
        if not vals:
            return [(st, EMPTYSEQ)]
        if len(vals) == 1:
            x = av(st, vals[0])
            if "initializer_list" in vals[0][3] or is_seq_type(vals[0][3]) or x.op in ("seq", "split"):
                return [(st, x)]
            return [(st, mk("resized", EMPTYSEQ, x, UNDEF))]
        a, b = av(st, vals[0]), av(st, vals[1])
        if a.op == "it" and b.op == "end":
            l = range_of(eng, st, a, b)
            if l is not None:
                return [(st, eng.read(st, l))]
        return [(st, mk("resized", EMPTYSEQ, a, b))]
    if c in MAPCLS:
        if not args:
            return [(st, EMPTYMAP)]
        x = av(st, args[0])
        if x.op == "seq" and x.a[0] is None:
            m = EMPTYMAP
            for p in x.a[1]:
                k = proj(p, "first")
                if not any(kk is k for kk, _ in m.a[1]):
                    m = mapset(m, k, proj(p, "second"))
            return [(st, m)]
        return [(st, x)]
    if c in SETCLS:
        if not args:
            return [(st, mk("emptyset"))]
        return [(st, av(st, args[0]))]
    if c in ITCLS or c.endswith("_iterator"):
        if len(args) == 1:
            return [(st, av(st, args[0]))]
        return [(st, mk("iter0"))]
    if c == "std::pair":
        if len(args) == 2:
            ts = split_targs(full) if full.startswith("std::pair<") else ["?", "?"]
            return [(st, rec("pair", (("first", narrow(eng, st, ts[0], args[0])), ("second", narrow(eng, st, ts[1], args[1])))))]
        if len(args) == 1:
            return [(st, av(st, args[0]))]
        return [(st, eng.default_value(st, t, e))]
    if c == "std::tuple":
        if len(args) == 1 and "tuple" in args[0][3]:
            return [(st, av(st, args[0]))]
        return [(st, rec("pair", [("get%d" % i, av(st, a)) for i, a in enumerate(args)]))]
    if c in ("absl::AlphaNum", "absl::substitute_internal::Arg"):
        return [(st, text_arg(eng, st, args[0]))]
    if c in ("std::function",) and len(args) == 1:
        return [(st, av(st, args[0]))]
    if c.startswith("absl::str_format_internal::") and len(args) == 1:
        x = av(st, args[0], False)
        if c.endswith("ExtendedParsedFormat") and x.op == "s":
            return [(st, mk("pflit", x))]
        if c.endswith("ExtendedParsedFormat"):
            return [(st, mk("pflit", x) if is_stringy(args[0][3]) else x)]
        return [(st, x)]
    if c.startswith("absl::strings_internal::") and len(args) == 1:
        return [(st, av(st, args[0], False))]
    if c in ("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream"):
        if not args:
            return [(st, rec("stream", ()))]
        a = [av(st, x, False) for x in args]
        nv = mk("open", a[0], a[1] if len(a) > 1 else I(0), e["_id"], NULL)
        eng.event(st, "open", NULL, a[0], a[1] if len(a) > 1 else NULL, NULL, e.get("l"))
        return [(st, nv)]
    if c in IOCLS:
        return [(st, mk("sstream", *[av(st, x, False) for x in args]))]
    if c == "RE2":
        return [(st, mk("re2", *[av(st, x, False) for x in args]))]
    if c == "absl::log_shim::LogMessage":
        return [(st, mk("log", e["_id"], av(st, args[2])))]
    if c == "absl::log_shim::FatalMessage":
        return [(st, mk("log", e["_id"], I(3)))]
    if c == "absl::TimeZone" and not args:
        return [(st, mk("tz"))]
    if len(args) == 1 and simp(args[0][3]) == simp(t):
        return [(st, av(st, args[0]))]
    return None


def is_seq_type(t):
    t = base_type(t)
    return t.startswith(SEQCLS)


def default_value(eng, st, t, e):
    t = base_type(t)
    if t.startswith("std::basic_string") or "string_view" in t[:24]:
        return S("")
    if t.startswith(("std::vector", "std::deque")):
        return EMPTYSEQ
    if t.startswith(MAPCLS):
        return EMPTYMAP
    if t.startswith(SETCLS):
        return mk("emptyset")
    if t.startswith(("std::unique_ptr", "std::shared_ptr")):
        return NULL
    if t.startswith("Eigen::Matrix<"):
        return mk("dflt", "m" if dims(t) == (3, 3) else "v")
    if t.startswith("std::pair<"):
        a = split_targs(t)
        return rec("pair", (("first", zero_of(eng, st, a[0], e)), ("second", zero_of(eng, st, a[1], e))))
    if t.startswith(("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream")):
        return rec("stream", ())
    if t.endswith("]") or t.startswith("std::array<"):
        m = re.search(r"\[(\d+)\]$", t) or re.search(r", (\d+)>$", t)
        if m:
            return mk("arr", mk("obj", e.get("_id", 0)), I(int(m.group(1))))
    if t.endswith("*"):
        return UNDEF
    return mk("dflt", t)


def zero_of(eng, st, t, e):
    from engine import is_int_type, is_float_type, is_ptr_type
    if is_ptr_type(t):
        return NULL
    if is_int_type(t) or is_float_type(t):
        return I(0)
    return eng.default_value(st, base_type(t), e)


def call_bound(eng, st, fv, args, e):
    return [(st, mk("call", "?bound", fv))]
