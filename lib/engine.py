"""Path-sensitive abstract interpretation over the exported syntax trees.

States are (store of value-numbering terms, branch facts, typestate flags, effect
trace).  Branches split a state and record the fact they establish, calls into the
repository are inlined, loops over unknown data are solved to a fixpoint by widening
every location the body changes to a loop-variant term (booleans, null-ness and
property maps stay disjunctive).  Nothing is executed and no solver is used: a
condition is decided only by constant folding, a recorded fact, or an interval.
"""
import re
import sys
import time
from terms import *

sys.setrecursionlimit(20000)


READONLY = {"find", "find_if", "find_if_not", "find_first_of", "find_end", "count", "count_if", "distance", "accumulate", "equal", "search", "mismatch",
            "all_of", "any_of", "none_of", "is_sorted", "min_element", "max_element", "lexicographical_compare", "lower_bound", "upper_bound", "binary_search",
            "adjacent_find", "next", "prev", "begin", "end", "cbegin", "cend", "operator==", "operator!=", "operator-", "operator<", "operator*", "inner_product"}


DEADLINE = [0]


# take their arguments by forwarding reference and only read numbers
FORWARDS = ("emplace", "try_emplace", "emplace_back", "emplace_hint", "make_pair", "make_tuple", "make_unique", "insert_or_assign")


class Undecided(Exception):
    """The analysed code uses something the engine has no rule for."""


class Budget(Undecided):
    pass


def strip_targs(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == "<":
            if q.startswith("operator<", max(0, i - 8)) and q[max(0, i - 8):i] == "operator" or (
                    i >= 9 and q[i - 9:i + 1] == "operator<<"):
                out.append(c)
                i += 1
                continue
            d += 1
        elif c == ">":
            if d == 0:
                out.append(c)
            else:
                d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_stripcache = {}


def short(q):
    r = _stripcache.get(q)
    if r is None:
        r = _stripcache[q] = strip_targs(q)
    return r


class State(object):
    __slots__ = ("env", "store", "facts", "rng", "mon", "trace", "temps", "depth")

    def __init__(self):
        self.env = {}
        self.store = {}
        self.facts = {}
        self.rng = {}
        self.mon = {}
        self.trace = ()
        self.temps = ()
        self.depth = 0

    def clone(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.temps = self.temps
        s.depth = self.depth
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)


class Exit(object):
    """A way out of an analysed function."""

    def __init__(self, st, val):
        self.st = st
        self.val = val


class Program(object):
    """Facts of all translation units, merged."""

    def __init__(self, jsons):
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.byq = {}
        self.n = 0
        self.units = []
        for name, d in jsons:
            self.units.append(name)
            for k, f in d["functions"].items():
                if k not in self.functions or ("body" in f and "body" not in self.functions[k]):
                    self.functions[k] = f
                    f["unit"] = name
            self.records.update(d["records"])
            for k, g in d["globals"].items():
                if k not in self.globals or "i" in g:
                    self.globals[k] = g
        for k, f in self.functions.items():
            f["key"] = k
            self.byq.setdefault(f["q"], []).append(f)
            self.number(f)
        for g in self.globals.values():
            self.number(g)
        for g in self.records.values():
            self.number(g)
        self.overriders = {}
        for k, f in self.functions.items():
            for o in f.get("over") or []:
                self.overriders.setdefault(o, []).append(f)

    def number(self, n):
        if isinstance(n, dict):
            self.n += 1
            n["_id"] = self.n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.number(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    self.number(v)

    def find(self, q, pred=None):
        """Functions with this qualified name that have a body."""
        r = [f for f in self.byq.get(q, []) if "body" in f and (pred is None or pred(f))]
        return r


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(x)


MAPCLS = ("std::map", "std::unordered_map", "absl::flat_hash_map", "absl::btree_map", "absl::node_hash_map")
SETCLS = ("std::set", "std::unordered_set", "absl::flat_hash_set", "absl::btree_set")


ERRNO = re.compile(r"(std::)?(strto|sto(i|l|f|d|ul|ll|ull|ld)$|pow|exp|log)")


def is_ptr_type(t):
    return t.endswith("*") or t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<") or t.endswith("*const")


def is_int_type(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "signed char",
                 "unsigned char", "long long", "unsigned long long", "bool", "std::size_t") or t.startswith("enum ")


def is_float_type(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("float", "double", "long double")


def is_eigen(t):
    return "Eigen::" in t[:60]


def base_type(t):
    t = t.strip()
    for _ in range(4):
        if t.endswith("&"):
            t = t[:-1].strip()
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
    return t


import models  # noqa: E402


class Engine(object):
    def __init__(self, prog, budget=400000):
        self._sn = {}
        self.p = prog
        self.loops = {}
        self.loopkeys = {}
        self.aborts = []
        self.opaque = {}
        self.budget = budget
        self.steps = 0
        self.calls_inlined = set()
        self.contracts = {}     # qualified name -> handler(engine, st, call, obj, args)
        self.nodeline = {}
        self.fnstack = []
        self.hooks = []         # callables (engine, st, event)
        self.vartype = {}
        self.noinline = set()
        self.globcache = {}
        self.assumptions = set()
        self.inl_depth = 60
        self.widened_types = {}
        self.unroll = 16
        self.unroll_states = 32
        self.unroll_arrays = False
        self.lamvars = {}
        self.loopstack = ()
        self.keystack = {}
        self.trace_diag = False  # record the text of diagnostics in the trace
        self.diag_hook = None
        self.keyfacts = ("has", "isa")  # facts that keep states apart
        self.keychars = False    # ... and those about single characters

    # ------------------------------------------------------------ utilities
    def note(self, what):
        self.opaque[what] = self.opaque.get(what, 0) + 1

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exceeded")
        if not self.steps & 4095 and DEADLINE[0] and time.monotonic() > DEADLINE[0]:
            raise Budget("the time for this check is used up")

    def event(self, st, *ev):
        st.emit(*ev)
        for h in self.hooks:
            h(self, st, ev)

    # ------------------------------------------------------------ memory
    def loc(self, root, *path):
        return (root, tuple(path))

    def getroot(self, st, root):
        v = st.store.get(root)
        if v is not None:
            return v
        if root.op == "G":
            v = self.global_value(st, root)
            if v is not None:
                return v
        if root.op == "D":
            # an object that was found through a pointer value we know more about
            v = models.deref_value(self, st, root.a[0])
            if v is not None:
                return v
        return mk("init", root)

    def read(self, st, loc):
        v = self.getroot(st, loc[0])
        for f in loc[1]:
            v = proj(v, f)
        return v

    def write(self, st, loc, val):
        root, path = loc
        if not path:
            st.store[root] = val
            return

        def go(v, i):
            if i == len(path):
                return val
            return upd(v, path[i], go(proj(v, path[i]), i + 1))
        st.store[root] = go(self.getroot(st, root), 0)

    def ptr(self, loc):
        if loc[0].op == "D" and not loc[1]:
            return loc[0].a[0]
        return mk("ptr", loc[0], *loc[1])

    def nullcheck(self, st, v, e):
        if v.op == "null":
            st.mon["nullderef"] = e.get("l")

    def deref(self, st, v):
        """pointer value -> location"""
        if v.op == "ptr":
            return (v.a[0], tuple(v.a[1:]))
        if v.op == "it":
            return (v.a[0].a[0], tuple(v.a[0].a[1:]) + (v.a[1],))
        return (mk("D", v), ())

    def global_value(self, st, root):
        name = root.a[0]
        if name in self.globcache:
            return self.globcache[name]
        g = self.p.globals.get(name)
        if not g or "i" not in g or not g["t"].startswith("const "):
            return None
        self.globcache[name] = None
        s = State()
        s.depth = 1000
        try:
            r = self.ev(s, g["i"])
        except Undecided:
            return None
        if len(r) == 1:
            v = r[0][1]
            v = self.resolve_temps(r[0][0], v)
            self.globcache[name] = v
            return v
        return None

    def resolve_temps(self, st, v):
        return v

    def tmp(self, st, node, val, tag=""):
        root = mk("Tmp", st.depth, node.get("_id", 0), tag)
        st.store[root] = val
        return (root, ())

    # ------------------------------------------------------------ facts
    def norm_atom(self, st, t):
        """-> (atom, polarity)"""
        pol = True
        while t.op == "not":
            t = t.a[0]
            pol = not pol
        return t, pol

    def truth(self, st, t):
        """Decide a boolean term from what is known, or None."""
        t, pol = self.norm_atom(st, t)
        r = self._truth(st, t)
        if r is None:
            return None
        return r if pol else not r

    def _truth(self, st, t):
        if t.op == "b":
            return t.a[0]
        if t.op in ("i", "f"):
            return t.a[0] != 0
        if t.op == "null":
            return False
        if t.op in ("ptr", "s", "lam", "fn"):
            return True
        f = st.facts.get(t)
        if f is not None:
            return f
        if t.op == "nonnull":
            x = t.a[0]
            if x.op == "null":
                return False
            if x.op in ("ptr", "it"):
                return True
            if self.stored_nonnull(x):
                return True
            return None
        if t.op == "starts":
            x = t.a[0]
            for y in (mk("eq", size(x), I(0)), mk("eq", mk("find", x, t.a[1]), I((1 << 64) - 1)), mk("eq", mk("find", x, t.a[1]), I(-1))):
                if st.facts.get(y):
                    return False
            return None
        if t.op == "isa":
            p, c = t.a
            dyn = p.a[0].a[0] if p.op == "ptr" and p.a[0].op == "H" else None
            for (k, v) in st.facts.items():
                if v and k.op == "isa" and k.a[0] is p and k.a[1] != c:
                    return False
            return None
        if t.op == "eq":
            a, b = t.a
            if b.op == "null":
                n = self._truth(st, mk("nonnull", a))
                return None if n is None else not n
            if isconst(b):
                if b.op in ("i", "f"):
                    r = self.range(st, a)
                    if r[0] == r[1] and r[0] is not None:
                        return r[0] == b.a[0]
                    if (r[0] is not None and b.a[0] < r[0]) or (r[1] is not None and b.a[0] > r[1]):
                        return False
                for (k, v) in st.facts.items():
                    if v and k.op == "eq" and k.a[0] is a and isconst(k.a[1]) and k.a[1] is not b:
                        return False
            else:
                d = sub(a, b)
                if d.op == "i":
                    return d.a[0] == 0
                ra, rb = self.range(st, a), self.range(st, b)
                if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
                    return False
                if rb[1] is not None and ra[0] is not None and rb[1] < ra[0]:
                    return False
                if ra[0] is not None and ra == rb and ra[0] == ra[1]:
                    return True
                if st.facts.get(mk("lt", a, b)) or st.facts.get(mk("lt", b, a)):
                    return False
            return None
        if t.op in ("lt", "le"):
            a, b = t.a
            d = sub(a, b)
            if d.op in ("i", "f"):
                return d.a[0] < 0 if t.op == "lt" else d.a[0] <= 0
            ra, rb = self.range(st, a), self.range(st, b)
            if t.op == "lt":
                if ra[1] is not None and rb[0] is not None and ra[1] < rb[0]:
                    return True
                if ra[0] is not None and rb[1] is not None and ra[0] >= rb[1]:
                    return False
            else:
                if ra[1] is not None and rb[0] is not None and ra[1] <= rb[0]:
                    return True
                if ra[0] is not None and rb[1] is not None and ra[0] > rb[1]:
                    return False
            if st.facts.get(mk("lt", b, a)):
                return False
            if t.op == "lt" and st.facts.get(mk("eq", *sorted((a, b), key=lambda x: x.id))):
                return False
            return None
        return None

    NONNEG = ("size", "ix")

    def range(self, st, t):
        if t.op in ("i", "f"):
            return (t.a[0], t.a[0])
        if t.op == "+" and t.a[1].op == "i":
            r = self.range(st, t.a[0])
            c = t.a[1].a[0]
            return (None if r[0] is None else r[0] + c, None if r[1] is None else r[1] + c)
        r = st.rng.get(t)
        if t.op == "+" and r is None and len(t.a) == 2:
            x, y = self.range(st, t.a[0]), self.range(st, t.a[1])
            return (None if x[0] is None or y[0] is None else x[0] + y[0], None if x[1] is None or y[1] is None else x[1] + y[1])
        lo, hi = r if r else (None, None)
        if t.op == "size" and (lo is None or lo < 1) and (t.a[0].op == "tostr" or t.a[0].op == "call" and t.a[0].a[0] == "absl::FormatTime"
                                                          and t.a[0].a[1].op == "s" and t.a[0].a[1].a[0]):
            lo = 1
        if t.op in self.NONNEG and (lo is None or lo < 0):
            lo = 0
        return (lo, hi)

    def setrange(self, st, t, lo, hi):
        if t.op == "+" and t.a[1].op == "i":
            c = t.a[1].a[0]
            return self.setrange(st, t.a[0], None if lo is None else lo - c, None if hi is None else hi - c)
        a, b = self.range(st, t)
        if lo is not None and (a is None or lo > a):
            a = lo
        if hi is not None and (b is None or hi < b):
            b = hi
        # facts "t != c" at the ends of the interval
        ch = True
        while ch:
            ch = False
            if a is not None and st.facts.get(mk("eq", t, I(a)) if isinstance(a, int) else t) is False:
                a += 1
                ch = True
            if b is not None and st.facts.get(mk("eq", t, I(b)) if isinstance(b, int) else t) is False:
                b -= 1
                ch = True
        st.rng[t] = (a, b)
        return not (a is not None and b is not None and a > b)

    def stored_nonnull(self, x):
        """A value of a map filled by a loop that stores only elements of a list of owned nodes.
        (Assumption: the lists of the document hold no null pointers.)"""
        if x.op == "mapval" and x.a[0].op == "lv":
            lv = x.a[0]
            key, root, path = lv.a[0], lv.a[1], tuple(lv.a[2:])
        elif x.op == "lv" and len(x.a) >= 4 and x.a[-1] == "second" and isinstance(x.a[-2], T) and x.a[-2].op == "at":
            key, root, path = x.a[0], x.a[1], tuple(x.a[2:-2])
        else:
            return False
        k = (key, root, path)
        r = self._sn.get(k)
        if r is None:
            rec_ = self.loops.get(key)
            if rec_ is None:
                return False
            r = bool(rec_["steps"])
            for h, b in rec_["steps"]:
                v = self.read(b, (root, path))
                if v.op == "lv":
                    continue
                if v.op != "map" or any(y.op not in ("elem", "ptr") and y is not ABSENT for _, y in v.a[1]):
                    r = False
            pre = self.read(rec_["pre"], (root, path))
            if not (pre.op == "map" and not pre.a[1]):
                r = False
            self._sn[k] = r
        return r

    def assume(self, st, t, val):
        """Record that t is val. False if that contradicts what is known."""
        t, pol = self.norm_atom(st, t)
        if not pol:
            val = not val
        k = self._truth(st, t)
        if k is not None:
            return k == val
        if t.op == "eq" and t.a[1].op == "null":
            return self.assume(st, mk("nonnull", t.a[0]), not val)
        st.facts[t] = val
        if t.op == "lt":
            a, b = t.a
            integral = True
            if b.op in ("i", "f"):
                if val:
                    hi = b.a[0] - 1 if b.op == "i" and self.isint(a) else None
                    if hi is not None and not self.setrange(st, a, None, hi):
                        return False
                else:
                    if self.isint(a) and not self.setrange(st, a, b.a[0], None):
                        return False
            if a.op in ("i", "f"):
                if val:
                    if self.isint(b) and a.op == "i" and not self.setrange(st, b, a.a[0] + 1, None):
                        return False
                else:
                    if self.isint(b) and not self.setrange(st, b, None, a.a[0]):
                        return False
            if val:
                ra, rb = self.range(st, a), self.range(st, b)
                if self.isint(a) and self.isint(b):
                    if ra[0] is not None and b.op not in ("i", "f") and not self.setrange(st, b, ra[0] + 1, None):
                        return False
                    if rb[1] is not None and a.op not in ("i", "f") and not self.setrange(st, a, None, rb[1] - 1):
                        return False
        elif t.op == "eq":
            a, b = t.a
            if b.op == "i":
                if val:
                    if not self.setrange(st, a, b.a[0], b.a[0]):
                        return False
                else:
                    r = self.range(st, a)
                    if r[0] is not None or r[1] is not None:
                        if not self.setrange(st, a, None, None):
                            return False
        return True

    def isint(self, t):
        if t.op in ("i", "size", "ix", "find"):
            return True
        if t.op in ("+", "-") and len(t.a) == 2:
            return self.isint(t.a[0]) and self.isint(t.a[1])
        return t in self.intterms

    intterms = set()
    backhooks = ()

    def decide(self, st, t):
        """[(state, bool)]"""
        k = self.truth(st, t)
        if k is not None:
            return [(st, k)]
        s2 = st.clone()
        out = []
        if self.assume(st, t, True):
            out.append((st, True))
        if self.assume(s2, t, False):
            out.append((s2, False))
        return out

    def tobool(self, v, ty="bool"):
        """value -> boolean term"""
        if isbool(v):
            return v
        if v.op in ("i", "f"):
            return B(v.a[0] != 0)
        if v.op == "null":
            return FALSE
        if v.op in ("ptr", "fn", "lam", "s"):
            return TRUE
        if is_ptr_type(ty):
            return mk("nonnull", v)
        if is_int_type(ty) and ty != "bool":
            return neg_bool(eq(v, I(0)))
        return mk("bcall", v)

    # ------------------------------------------------------------ branching on AST conditions
    def cond(self, st, e):
        """Evaluate a condition: [(state, bool)]"""
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(s, not b) for s, b in self.cond(st, e["e"])]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s, b in self.cond(st, e["lhs"]):
                if b == (e["op"] == "||"):
                    out.append((s, b))
                else:
                    out.extend(self.cond(s, e["rhs"]))
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(st, e["c"]):
                out.extend(self.cond(s, e["a"] if b else e["b"]))
            return out
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(st, e["lhs"]):
                out.extend(self.cond(s, e["rhs"]))
            return out
        if k == "cast" and e.get("ck") in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "UserDefinedConversion"):
            ty = e["e"]["t"]
            out = []
            for s, v in self.ev(st, e["e"]):
                out.extend(self.decide(s, self.tobool(v, ty)))
            return out
        out = []
        for s, v in self.ev(st, e):
            out.extend(self.decide(s, self.tobool(v, e.get("t", "bool"))))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, st, e):
        """[(state, value)]"""
        self.tick()
        if e is None:
            return [(st, UNDEF)]
        m = getattr(self, "ev_" + e["k"], None)
        if m is None:
            self.note("expr:" + e["k"])
            return [(st, mk("opaque", e["_id"]))]
        return m(st, e)

    def ev_int(self, st, e):
        return [(st, I(e["v"]))]

    def ev_bool(self, st, e):
        return [(st, B(e["v"]))]

    def ev_flt(self, st, e):
        return [(st, Fl(e["v"]))]

    def ev_str(self, st, e):
        return [(st, S(e["v"]))]

    def ev_null(self, st, e):
        return [(st, NULL)]

    def ev_zero(self, st, e):
        t = e["t"]
        if t == "bool":
            return [(st, FALSE)]
        if is_ptr_type(t):
            return [(st, NULL)]
        if is_int_type(t) or is_float_type(t):
            return [(st, I(0))]
        return [(st, self.default_value(st, base_type(t), e))]

    def ev_this(self, st, e):
        loc = st.env.get("this")
        return [(st, self.ptr(loc) if loc else mk("ptr", mk("P", "this")))]

    def ev_fnref(self, st, e):
        return [(st, mk("fn", e["f"]["m"], e["f"]["q"]))]

    def lvread(self, st, e):
        return [(s, self.read(s, l)) for s, l in self.lv(st, e)]

    def ev_var(self, st, e):
        return self.lvread(st, e)

    def ev_idx(self, st, e):
        return self.lvread(st, e)

    def ev_mem(self, st, e):
        if not e.get("arrow") and not self.is_lvalue(e["b"]):
            return [(s, proj(v, e["n"])) for s, v in self.ev(st, e["b"])]
        return self.lvread(st, e)

    def is_lvalue(self, e):
        k = e["k"]
        if k in ("var", "idx", "str"):
            return True
        if k == "mem":
            return e.get("arrow") or self.is_lvalue(e["b"])
        if k == "un":
            return e["op"] in ("*", "++", "--")
        if k == "asg":
            return True
        if k == "cond":
            return self.is_lvalue(e["a"]) and self.is_lvalue(e["b"])
        if k == "call":
            f = e.get("f")
            if f:
                return f["rt"].endswith("&")
            return False
        if k == "cast":
            return e.get("ck") == "BaseToDerived" and self.is_lvalue(e["e"])
        if k == "bin" and e["op"] == ",":
            return self.is_lvalue(e["rhs"])
        return False

    # lvalues: [(state, loc)]
    def lv(self, st, e):
        self.tick()
        k = e["k"]
        if k == "var":
            return [(st, self.varloc(st, e))]
        if k == "mem":
            out = []
            if e.get("arrow"):
                for s, v in self.ev(st, e["b"]):
                    self.nullcheck(s, v, e)
                    r, p = self.deref(s, v)
                    out.append((s, (r, p + (e["n"],))))
            elif self.is_lvalue(e["b"]):
                for s, (r, p) in self.lv(st, e["b"]):
                    out.append((s, (r, p + (e["n"],))))
            else:
                for s, v in self.ev(st, e["b"]):
                    r, p = self.tmp(s, e["b"], v)
                    out.append((s, (r, p + (e["n"],))))
            if e.get("fref"):
                out = [(s, self.deref(s, self.read(s, l))) for s, l in out]
            return out
        if k == "un":
            if e["op"] == "*":
                out = []
                for s, v in self.ev(st, e["e"]):
                    self.nullcheck(s, v, e)
                    out.append((s, self.deref(s, v)))
                return out
            if e["op"] in ("++", "--"):
                out = []
                for s, l in self.lv(st, e["e"]):
                    self.incdec(s, l, e)
                    out.append((s, l))
                return out
        if k == "asg":
            return self.assign(st, e)
        if k == "idx":
            out = []
            if e["b"]["t"].rstrip("]").endswith("*") or is_ptr_type(e["b"]["t"]):
                for s, v in self.ev(st, e["b"]):
                    for s2, i in self.ev(s, e["i"]):
                        r, p = self.deref(s2, v)
                        if p and isinstance(p[-1], T) and p[-1].op == "idx":
                            self.access(s2, (r, p[:-1]), add(p[-1].a[0], i), e)
                            out.append((s2, (r, p[:-1] + (mk("idx", add(p[-1].a[0], i)),))))
                        else:
                            self.access(s2, (r, p), i, e)
                            out.append((s2, (r, p + (mk("idx", i),))))
                return out
            for s, (r, p) in self.lv(st, e["b"]):
                for s2, i in self.ev(s, e["i"]):
                    self.access(s2, (r, p), i, e)
                    out.append((s2, (r, p + (mk("idx", i),))))
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(st, e["c"]):
                out.extend(self.lv(s, e["a"] if b else e["b"]))
            return out
        if k == "cast" and e.get("ck") == "BaseToDerived":
            return self.lv(st, e["e"])
        if k == "bin" and e["op"] == ",":
            out = []
            for s, _ in self.ev(st, e["lhs"]):
                out.extend(self.lv(s, e["rhs"]))
            return out
        if k == "call":
            f = e.get("f")
            rt = f["rt"] if f else ""
            if rt.endswith("&") or (not f and self.call_rref(e)):
                out = []
                for s, v in self.call(st, e):
                    out.append((s, self.deref(s, v)))
                return out
        if k == "dcast" and e["t"].find("*") < 0:
            return self.lv(st, e["e"])
        # a temporary
        out = []
        for s, v in self.ev(st, e):
            out.append((s, self.tmp(s, e, v)))
        return out

    def call_rref(self, e):
        return False

    def access(self, st, loc, i, e):
        """hook: array element access"""
        for h in self.hooks:
            h(self, st, ("access", loc, i, e.get("l"), e))

    def mapkey(self, st, loc, k, name, e):
        """hook: a map is looked at or changed under a key"""
        for h in self.hooks:
            h(self, st, ("mapkey", loc, k, name, e.get("l")))

    def varloc(self, st, e):
        id_ = e["id"]
        if e.get("glob"):
            l = st.env.get(id_)
            if l is not None:
                return l
            root = mk("G", id_)
            if id_.startswith("static:") or id_ not in self.p.globals:
                v = st.store.get(root)
                if v is not None and e.get("ref") and v.op == "ref":
                    return self.deref(st, v.a[0])
                return (root, ())
            return (root, ())
        l = st.env.get(id_)
        if l is None:
            l = (mk("L", st.depth, id_), ())
            st.env[id_] = l
        return l

    def incdec(self, st, l, e):
        v = self.read(st, l)
        up = e["op"].startswith("++")
        if v.op == "it":
            self.write(st, l, models.it_step(self, st, v, up))
            return
        nv = add(v, I(1 if up else -1))
        if self.isint(v) or is_int_type(e["e"].get("t", "")):
            self.markint(v)
            self.markint(nv)
        self.write(st, l, nv)

    def markint(self, t):
        self.intterms.add(t)

    def ev_un(self, st, e):
        op = e["op"]
        if op in ("++", "--"):
            return self.lvread(st, e)
        if op in ("++post", "--post"):
            out = []
            for s, l in self.lv(st, e["e"]):
                v = self.read(s, l)
                self.incdec(s, l, e)
                out.append((s, v))
            return out
        if op == "*":
            if "(" in e["t"] and e["t"].endswith(")"):
                return self.ev(st, e["e"])
            return self.lvread(st, e)
        if op == "&":
            if e["e"]["k"] == "fnref":
                return self.ev(st, e["e"])
            return [(s, self.ptr(l)) for s, l in self.lv(st, e["e"])]
        if op == "!":
            if e["e"]["k"] == "bin" and e["e"]["op"] in ("&&", "||"):
                return [(s, B(not b)) for s, b in self.cond(st, e["e"])]
            return [(s, neg_bool(self.tobool(v, e["e"]["t"]))) for s, v in self.ev(st, e["e"])]
        if op == "-":
            return [(s, self.neg(v)) for s, v in self.ev(st, e["e"])]
        if op in ("+", "__extension__", "__real"):
            return self.ev(st, e["e"])
        return [(s, mk("un" + op, v)) for s, v in self.ev(st, e["e"])]

    def neg(self, v):
        n = num(v)
        if n is not None:
            return Fl(-n) if v.op == "f" else I(-n)
        if v.op == "rec" and v.a[0] == "vec":
            return vec(*[self.neg(x) for _, x in v.a[1]])
        if v.op == "neg":
            return v.a[0]
        return mk("neg", v)

    def ev_bin(self, st, e):
        op = e["op"]
        if op in ("&&", "||"):
            return [(s, B(b)) for s, b in self.cond(st, e)]
        if op == ",":
            out = []
            for s, _ in self.ev(st, e["lhs"]):
                out.extend(self.ev(s, e["rhs"]))
            return out
        out = []
        for s, a in self.ev(st, e["lhs"]):
            for s2, b in self.ev(s, e["rhs"]):
                out.append((s2, self.binop(s2, op, a, b, e["lhs"]["t"], e["rhs"]["t"], e.get("t", ""))))
        return out

    def binop(self, st, op, a, b, ta, tb, t):
        integral = is_int_type(base_type(ta)) and is_int_type(base_type(tb))
        if op in ("==", "!=", "<", ">", "<=", ">=") and integral:
            self.markint(a)
            self.markint(b)
        if op == "==" or op == "!=":
            if a.op == "b" or b.op == "b" or isbool(a) or isbool(b):
                pass
            r = eq(a, b)
            if r.op == "eq":
                r = models.canon_eq(self, st, r)
            return r if op == "==" else neg_bool(r)
        if op == "<":
            return models.canon_lt(self, lt(a, b))
        if op == ">":
            return models.canon_lt(self, lt(b, a))
        if op == "<=":
            if is_ptr_type(ta):
                integral = True
            return le(a, b, integral)
        if op == ">=":
            if is_ptr_type(ta):
                integral = True
            return le(b, a, integral)
        return self.arith(op, a, b, is_int_type(base_type(t)))

    def arith(self, op, a, b, integral=False):
        na, nb = num(a), num(b)
        if op == "+":
            if a.op == "ptr" and self.isint(b) or a.op == "it":
                if a.op == "it":
                    return mk("it", a.a[0], mk("idx", add(a.a[1].a[0], b))) if a.a[1].op == "idx" else mk("it+", a, b)
                if a.a[1:] and isinstance(a.a[-1], T) and a.a[-1].op == "idx":
                    return mk("ptr", *(a.a[:-1] + (mk("idx", add(a.a[-1].a[0], b)),)))
                return mk("ptr", *(a.a + (mk("idx", b),)))
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            if na is not None and nb is not None:
                r = Fl(na * nb)
            elif na == 1:
                r = b
            elif nb == 1:
                r = a
            else:
                r = mk("*", a, b)
        elif op == "/":
            if na is not None and nb not in (None, 0):
                if integral:
                    q = abs(int(na)) // abs(int(nb))
                    r = I(q if (na < 0) == (nb < 0) else -q)
                else:
                    r = Fl(na / nb)
            elif nb == 1:
                r = a
            else:
                r = mk("idiv" if integral else "/", a, b)
        elif na is not None and nb is not None and a.op == "i" and b.op == "i":
            try:
                r = I({"%": lambda: int(abs(na) % abs(nb)) * (1 if na >= 0 else -1), "&": lambda: na & nb,
                       "|": lambda: na | nb, "^": lambda: na ^ nb, "<<": lambda: na << nb,
                       ">>": lambda: na >> nb}[op]())
            except Exception:
                r = mk("op" + op, a, b)
        else:
            r = mk("op" + op, a, b)
        if integral:
            self.markint(r)
            self.markint(a)
            self.markint(b)
        return r

    def ev_asg(self, st, e):
        return [(s, self.read(s, l)) for s, l in self.assign(st, e)]

    def assign(self, st, e):
        """[(state, loc)]"""
        op = e["op"]
        out = []
        if op == "=":
            for s, v in self.ev_consume(st, e["rhs"]):
                for s2, l in self.lv(s, e["lhs"]):
                    self.write(s2, l, v)
                    out.append((s2, l))
            return out
        bop = op[:-1]
        for s, b in self.ev(st, e["rhs"]):
            for s2, l in self.lv(s, e["lhs"]):
                a = self.read(s2, l)
                if e["lhs"]["t"] == "bool" and bop in ("&", "|", "^"):
                    for s3, r in self.boolop(s2, bop, a, self.tobool(b, e["rhs"]["t"])):
                        self.write(s3, l, r)
                        out.append((s3, l))
                    continue
                integral = is_int_type(base_type(e.get("ct", e["t"])))
                v = self.arith(bop, a, b, integral)
                if is_int_type(base_type(e["lhs"]["t"])) and not integral:
                    v = mk("trunc", v)
                self.write(s2, l, v)
                out.append((s2, l))
        return out

    def boolop(self, st, op, a, b):
        a = self.tobool(a)
        ka, kb = self.truth(st, a), self.truth(st, b)
        if op == "&":
            if ka is False or kb is False:
                return [(st, FALSE)]
            if ka is True:
                return [(st, B(kb) if kb is not None else b)]
            if kb is True:
                return [(st, a)]
        if op == "|":
            if ka is True or kb is True:
                return [(st, TRUE)]
            if ka is False:
                return [(st, B(kb) if kb is not None else b)]
            if kb is False:
                return [(st, a)]
        out = []
        for s, x in self.decide(st, a):
            for s2, y in self.decide(s, b):
                out.append((s2, B({"&": x and y, "|": x or y, "^": x != y}[op])))
        return out

    def ev_cond(self, st, e):
        out = []
        for s, b in self.cond(st, e["c"]):
            out.extend(self.ev(s, e["a"] if b else e["b"]))
        return out

    def ev_cast(self, st, e):
        ck = e.get("ck")
        out = []
        for s, v in self.ev(st, e["e"]):
            if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean"):
                v = self.tobool(v, e["e"]["t"])
            elif ck == "FloatingToIntegral":
                if v.op == "f" or v.op == "i":
                    v = I(int(v.a[0]))
                else:
                    v = mk("trunc", v)
                    self.markint(v)
            elif ck == "IntegralCast":
                if v.op == "i":
                    t = base_type(e["t"])
                    n = v.a[0]
                    bits = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16,
                            "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64}.get(t)
                    if bits:
                        n &= (1 << bits) - 1
                        if not t.startswith("unsigned") and n >= 1 << (bits - 1):
                            n -= 1 << bits
                        v = I(n)
                elif v.op == "b":
                    v = I(1 if v.a[0] else 0)
                elif base_type(e["t"]) in ("char", "signed char", "unsigned char", "short", "unsigned short") and \
                        base_type(e["e"]["t"]) not in ("char", "signed char", "unsigned char", "bool"):
                    v = mk("narrow", base_type(e["t"]), v)
            elif ck == "FloatingCast" and self.floatcasts and base_type(e["t"]) == "float" and v.op not in ("f", "i"):
                v = mk("tofloat", v)
            out.append((s, v))
        return out

    def ev_dcast(self, st, e):
        out = []
        for s, v in self.ev(st, e["e"]):
            to = base_type(e["to"])
            src = base_type(e["e"]["t"].rstrip("* "))
            if v.op == "null":
                out.append((s, NULL))
                continue
            for s2, b in self.decide(s, mk("isa", v, to)):
                out.append((s2, v if b else NULL))
        return out

    def ev_typeid(self, st, e):
        return [(st, mk("typeid", e.get("to") or e["_id"]))]

    def ev_opaque(self, st, e):
        self.note("opaque:" + e.get("cls", "?"))
        return [(st, mk("opaque", e["_id"]))]

    def ev_throw(self, st, e):
        out = []
        if e.get("e"):
            r = self.ev(st, e["e"])
        else:
            r = [(st, UNDEF)]
        for s, v in r:
            self.aborts.append(("throw", s, e.get("l")))
            self.event(s, "throw", v)
        return []

    def ev_lam(self, st, e):
        caps = []
        states = [(st, ())]
        for c in e["caps"]:
            nxt = []
            for s, acc in states:
                if c.get("this"):
                    nxt.append((s, acc + (("this", self.ptr(s.env.get("this", (mk("P", "this"), ()))), True),)))
                elif c.get("ref"):
                    if c.get("init"):
                        for s2, l in self.lv(s, c["e"]):
                            nxt.append((s2, acc + ((c["id"], self.ptr(l), True),)))
                    else:
                        l = s.env.get(c["id"])
                        if l is None:
                            l = (mk("L", s.depth, c["id"]), ())
                            s.env[c["id"]] = l
                        nxt.append((s, acc + ((c["id"], self.ptr(l), True),)))
                else:
                    if c.get("e"):
                        for s2, v in self.ev(s, c["e"]):
                            nxt.append((s2, acc + ((c["id"], v, False),)))
                    else:
                        l = s.env.get(c["id"])
                        nxt.append((s, acc + ((c["id"], self.read(s, l) if l else UNDEF, False),)))
            states = nxt
        return [(s, mk("lam", e["fn"], acc)) for s, acc in states]

    def ev_list(self, st, e):
        states = [(st, ())]
        for a in e["a"]:
            nxt = []
            for s, acc in states:
                for s2, v in self.ev_consume(s, a) if a is not None else [(s, UNDEF)]:
                    nxt.append((s2, acc + (v,)))
            states = nxt
        out = []
        for s, vs in states:
            if e.get("fields") is not None and not e.get("il"):
                t = base_type(e["t"])
                f = e["fields"]
                if t.startswith("std::array<") and len(vs) == 1:
                    out.append((s, vs[0]))
                    continue
                out.append((s, rec(t, list(zip(f, vs)))))
            else:
                t = e["t"]
                m = re.search(r"\[(\d+)\]$", t)
                if m and len(vs) < int(m.group(1)) and int(m.group(1)) <= 64:
                    vs = vs + (UNDEF if "fill" not in e else self.default_value(s, base_type(t[:t.rindex("[")]), e),) * (int(m.group(1)) - len(vs))
                if not m and len(vs) == 1 and (is_int_type(base_type(t)) or is_float_type(t) or is_ptr_type(t)):
                    out.append((s, vs[0]))
                elif not m and len(vs) == 0 and not e.get("il"):
                    out.extend(self.ev_zero(s, e))
                else:
                    out.append((s, mk("seq", None, vs)))
        return out

    def default_value(self, st, t, e):
        """Value of a default constructed object of type t."""
        if t in self.p.records:
            return self.record_default(st, t)
        return models.default_value(self, st, t, e)

    def record_default(self, st, t):
        r = self.p.records[t]
        fs = []
        for b in r["bases"]:
            if b in self.p.records:
                v = self.record_default(st, b)
                fs.extend(v.a[1] if v.op == "rec" else [])
        for f in r["fields"]:
            if "i" in f:
                res = self.ev(st.clone(), f["i"])
                fs.append((f["n"], res[0][1] if len(res) == 1 else mk("opaque", f["_id"])))
            else:
                ft = f["t"]
                if is_int_type(ft) or is_float_type(ft) or ft.endswith("*"):
                    fs.append((f["n"], UNDEF))
                else:
                    fs.append((f["n"], self.default_value(st, base_type(ft), f)))
        return rec(t, fs)

    def ev_new(self, st, e):
        out = []
        t = base_type(e["of"])
        if e.get("init"):
            rs = self.ev_consume(st, e["init"])
        else:
            rs = [(st, self.default_value(st, t, e))]
        for s, v in rs:
            n = s.mon.get("heap", 0)
            root = mk("H", t, e["_id"], s.depth)
            k = 0
            while root in s.store and k < 8:
                k += 1
                root = mk("H", t, e["_id"], s.depth, k)
            s.store[root] = v
            self.event(s, "new", mk("ptr", root), t, e.get("l"))
            out.append((s, mk("ptr", root)))
        return out

    def ev_del(self, st, e):
        out = []
        for s, v in self.ev(st, e["e"]):
            self.event(s, "delete", v, e.get("l"))
            if self.own and v.op == "ptr":
                s.store[v.a[0]] = mk("freed", v)
            out.append((s, VOID))
        return out

    def ev_inhctor(self, st, e):
        # an inherited constructor: the base constructor runs with the same arguments
        f = self.p.functions.get(e["f"]["m"])
        args = st.env.get("__inhargs")
        if f and "body" in f and args is not None:
            return self.construct_fn(st, f, list(args), e)
        return [(st, mk("new", base_type(e["t"]), *(args or ())))]

    def ev_consume(self, st, e):
        """Value of e where the object is copied or moved into a new place."""
        if e is None:
            return [(st, UNDEF)]
        x = e
        while x["k"] == "ctor" and x.get("cp") and len(x["a"]) == 1 and not x["f"].get("in_user"):
            x = x["a"][0]
        if x["k"] == "call" and x.get("f") and short(x["f"]["q"]) in ("std::move", "std::exchange") and len(x["a"]) == 1:
            return self.moveout(st, x["a"][0])
        if x["k"] == "cast" and x["e"]["k"] == "call" and x["e"].get("f") and short(x["e"]["f"]["q"]) == "std::move":
            return self.moveout(st, x["e"]["a"][0])
        return self.ev(st, x)

    def moveout(self, st, a):
        out = []
        if not self.is_lvalue(a):
            return self.ev(st, a)
        t = base_type(a["t"])
        for s, l in self.lv(st, a):
            v = self.read(s, l)
            if t.startswith("std::unique_ptr<"):
                self.write(s, l, NULL)
            elif t.startswith("std::basic_string") or t.startswith("std::vector<") or t.startswith("std::map<") or t.startswith("std::set<"):
                self.write(s, l, mk("moved", v))
            out.append((s, v))
        return out

    # ------------------------------------------------------------ calls
    def evargs(self, st, f, args):
        """Evaluate call arguments according to how they are passed.
        -> [(state, [arg])], arg = ('v', value) | ('l', loc)"""
        pk = f.get("pk", "") if f else ""
        states = [(st, ())]
        for i, a in enumerate(args):
            kind = pk[i] if i < len(pk) and pk[i] != "*" else "v"
            nxt = []
            for s, acc in states:
                if kind in "mr" or (kind == "x"):
                    src = a
                    moved = False
                    if a is not None and a["k"] == "call" and a.get("f") and short(a["f"]["q"]) in ("std::move", "std::forward") and len(a["a"]) == 1:
                        src = a["a"][0]
                        moved = short(a["f"]["q"]) == "std::move"
                    if src is not None and self.is_lvalue(src):
                        for s2, l in self.lv(s, src):
                            nxt.append((s2, acc + (("l", l, moved, src["t"]),)))
                    else:
                        for s2, v in self.ev(s, src):
                            nxt.append((s2, acc + (("v", v, False, src["t"] if src else "?"),)))
                else:
                    for s2, v in self.ev_consume(s, a):
                        nxt.append((s2, acc + (("v", v, False, a["t"] if a else "?"),)))
            states = nxt
        return [(s, list(acc)) for s, acc in states]

    def argval(self, st, a, consume=True):
        if a[0] == "v":
            return a[1]
        v = self.read(st, a[1])
        if consume and a[2]:
            t = base_type(a[3])
            if t.startswith("std::unique_ptr<"):
                self.write(st, a[1], NULL)
            elif t.startswith("std::basic_string") or t.startswith("std::vector<") or t.startswith("std::map<"):
                self.write(st, a[1], mk("moved", v))
        return v

    def argloc(self, st, a, node, i=0):
        if a[0] == "l":
            return a[1]
        return self.tmp(st, node, a[1], "a%d" % i)

    def ev_call(self, st, e):
        f = e.get("f")
        out = []
        rref = f and f["rt"].endswith("&")
        for s, v in self.call(st, e):
            if rref:
                v = self.read(s, self.deref(s, v))
            out.append((s, v))
        return out

    def call(self, st, e):
        """[(state, value)] - for functions returning a reference the value is a pointer."""
        self.tick()
        f = e.get("f")
        if not f:
            return self.call_indirect(st, e)
        q = short(f["q"])
        # short cuts that need the AST
        sp = models.SPECIAL.get(q)
        if sp:
            r = sp(self, st, e)
            if r is not None:
                return r
        # object
        states = []
        if "o" in e and e["o"] is not None:
            o = e["o"]
            if e.get("arrow") and is_ptr_type(o["t"]):
                for s, v in self.ev(st, o):
                    self.nullcheck(s, v, e)
                    states.append((s, self.deref(s, v)))
            elif self.is_lvalue(o):
                states = self.lv(st, o)
            else:
                for s, v in self.ev(st, o):
                    states.append((s, self.tmp(s, o, v)))
        else:
            states = [(st, None)]
        out = []
        for s, ol in states:
            for s2, args in self.evargs(s, f, e["a"]):
                out.extend(self.apply(s2, f, ol, args, e))
        return out

    def call_indirect(self, st, e):
        out = []
        fe = e.get("fe")
        for s, fv in self.ev(st, fe) if fe is not None else [(st, UNDEF)]:
            for s2, args in self.evargs(s, {"pk": "v" * len(e["a"])}, e["a"]):
                out.extend(self.apply_value(s2, fv, args, e))
        return out

    def apply_value(self, st, fv, args, e):
        """Call a function value (function, lambda, functor)."""
        if fv.op == "lam":
            f = self.p.functions.get(fv.a[0])
            if f and "body" in f:
                return self.inline(st, f, None, args, e, caps=fv.a[1])
        if fv.op == "fn":
            f = self.p.functions.get(fv.a[0])
            if f:
                return self.apply(st, f["f"], None, args, e)
        if fv.op == "bound":
            return models.call_bound(self, st, fv, args, e)
        self.note("indirect call")
        return [(st, mk("call", "?indirect", fv, *[self.argval(st, a) for a in args]))]

    def apply(self, st, f, ol, args, e):
        q = short(f["q"])
        c = self.contracts.get(q)
        if c:
            r = c(self, st, f, ol, args, e)
            if r is not None:
                return r
        key = f["m"]
        fn = self.p.functions.get(key)
        if f.get("virt") and not e.get("nonvirt"):
            # dynamic dispatch
            fn2 = self.resolve_virtual(st, f, ol, e)
            if fn2 is None:
                self.event(st, "vcall", q, self.ptr(ol) if ol else NULL, e.get("l"))
                self.note("virtual:" + q)
                return self.opaque_call(st, f, ol, args, e, q)
            fn = fn2
        if f.get("lam"):
            if ol is not None:
                fv = self.read(st, ol)
                if fv.op == "lam":
                    fn = self.p.functions.get(fv.a[0]) or fn
                    return self.inline(st, fn, None, args, e, caps=fv.a[1])
        if fn is not None and fn.get("dflt"):
            r = self.defaulted(st, fn, f, ol, args, e)
            if r is not None:
                return r
        if fn is not None and "body" in fn and q not in self.noinline:
            return self.inline(st, fn, ol, args, e)
        if f.get("dflt") and f.get("asg"):
            r = self.defaulted(st, f, f, ol, args, e)
            if r is not None:
                return r
        r = models.model(self, st, f, q, ol, args, e)
        if r is not None:
            return r
        return self.opaque_call(st, f, ol, args, e, q)

    def defaulted(self, st, fn, f, ol, args, e):
        if f.get("asg") and ol is not None and len(args) == 1:
            self.write(st, ol, self.argval(st, args[0]))
            return [(st, self.ptr(ol))]
        return None

    def resolve_virtual(self, st, f, ol, e):
        cands = []
        seen = set()

        def add_over(k):
            for g in self.p.overriders.get(k, []):
                if g["key"] not in seen:
                    seen.add(g["key"])
                    cands.append(g)
                    add_over(g["key"])
        base = self.p.functions.get(f["m"])
        dyn = None
        if ol is not None:
            r = ol[0]
            if r.op == "H" and not ol[1]:
                dyn = r.a[0]
            elif r.op == "D" and not ol[1]:
                for k, v in st.facts.items():
                    if v and k.op == "isa" and k.a[0] is r.a[0]:
                        dyn = k.a[1]
            elif r.op == "P" and len(r.a) > 1:
                dyn = r.a[1]
        add_over(f["m"])
        if base is not None and "body" in base:
            cands.append(base)
        if dyn:
            for g in cands:
                if base_type(g["f"].get("cls", "")) == dyn:
                    return g
            d = dyn
            while d in self.p.records and self.p.records[d]["bases"]:
                d = self.p.records[d]["bases"][0]
                for g in cands:
                    if base_type(g["f"].get("cls", "")) == d:
                        return g
        if len(cands) == 1:
            return cands[0]
        return None

    def opaque_call(self, st, f, ol, args, e, q):
        vals = [self.argval(st, a) for a in args]
        ov = [self.read(st, ol)] if ol is not None else []
        t = mk("call", q, *(ov + vals))
        self.note("call:" + q)
        self.havoc_call(st, f, ol, args, t)
        if ERRNO.match(q):
            r = mk("D", mk("call", "__errno_location"))
            if r in st.store:
                v = mk("errno", t)
                self.markint(v)
                st.store[r] = v
        self.event(st, "call", q, self.ptr(ol) if ol is not None else NULL, tuple(vals), e.get("l"))
        rt = f.get("rt", "")
        if rt == "void":
            return [(st, VOID)]
        if rt.endswith("&"):
            if ol is not None and base_type(rt) == base_type(f.get("cls", "?")):
                return [(st, self.ptr(ol))]
            loc = self.tmp(st, e, t, "r")
            return [(st, self.ptr(loc))]
        if is_int_type(rt) and rt != "bool":
            self.markint(t)
        if rt == "bool":
            t = mk("bcall", t)
        return [(st, t)]

    def havoc_call(self, st, f, ol, args, t):
        pk = f.get("pk", "")
        for i, a in enumerate(args):
            k = pk[i] if i < len(pk) else "v"
            if k == "m" and a[0] == "l":
                self.write(st, a[1], mk("out", t, i))
            elif k == "p" and a[0] == "v" and a[1].op == "ptr":
                self.write(st, self.deref(st, a[1]), mk("out", t, i))
            else:
                self.havoc_value(st, a, t, i, short(f.get("q", "")))
        if ol is not None and f.get("cls") and not f.get("const") and not f.get("static"):
            if not q_pure(short(f["q"])):
                self.write(st, ol, mk("out", t, "this"))

    def havoc_value(self, st, a, t, i, q):
        """What an unknown callee can change through an iterator or a function value it is given."""
        v = a[1] if a[0] == "v" else None
        if v is None:
            v = self.argval(st, a, False)
        if not isinstance(v, T):
            return
        if v.op in ("it", "end", "backins") and v.a[0].op == "ptr":
            if q.rsplit("::", 1)[-1] not in READONLY:
                self.write(st, self.deref(st, v.a[0]), mk("out", t, i))
        elif v.op == "lam":
            for id_, x, byref in v.a[1]:
                if byref and x.op == "ptr" and id_ != "this":
                    l = self.deref(st, x)
                    w = self.read(st, l)
                    if w.op == "lam":
                        continue
                    if q.rsplit("::", 1)[-1] not in READONLY:
                        self.write(st, l, mk("out", t, i, str(id_)))

    def param_env(self, st, fn, args, e):
        env = {}
        d = st.depth + 1
        for i, p in enumerate(fn["params"]):
            if i >= len(args):
                break
            a = args[i]
            pk = p["pk"]
            if pk in "mrx":
                if a[0] == "l":
                    env[p["id"]] = a[1]
                else:
                    root = mk("L", d, p["id"])
                    st.store[root] = a[1]
                    env[p["id"]] = (root, ())
            else:
                root = mk("L", d, p["id"])
                st.store[root] = self.argval(st, a)
                env[p["id"]] = (root, ())
                if is_int_type(p["tt"]):
                    self.markint(st.store[root])
        return env

    def inline(self, st, fn, ol, args, e, caps=None):
        """Analyse the body of fn with these arguments: [(state, value)]"""
        if len(self.fnstack) > self.inl_depth or self.fnstack.count(fn["key"]) > 3:
            raise Undecided("recursion through " + fn["q"])
        self.calls_inlined.add(fn["key"])
        saved_env, saved_temps = st.env, st.temps
        env = self.param_env(st, fn, args, e)
        if ol is not None:
            env["this"] = ol
        elif caps is not None:
            for id_, v, byref in caps:
                if id_ == "this":
                    env["this"] = self.deref(st, v)
                elif byref:
                    env[id_] = self.deref(st, v)
                else:
                    root = mk("L", st.depth + 1, id_)
                    st.store[root] = v
                    env[id_] = (root, ())
        st.env = env
        st.temps = ()
        st.depth += 1
        d = st.depth
        self.fnstack.append(fn["key"])
        try:
            res = self.ex(st, fn["body"])
        finally:
            self.fnstack.pop()
        out = []
        for s, ctl in res:
            v = VOID
            if ctl is not None and ctl[0] == "ret":
                v = ctl[1]
            elif ctl is not None:
                raise Undecided("control flow leaves " + fn["q"])
            s.env = dict(saved_env)
            s.temps = saved_temps
            s.depth = d - 1
            keep = None
            if v.op == "ptr":
                keep = v.a[0]
            dead = [r for r in s.store if r.op in ("L", "Tmp") and r.a[0] == d and r is not keep]
            for r in dead:
                del s.store[r]
            out.append((s, v))
        return self.merge(out)

    implied = ("starts",)
    own = False         # record who takes over raw pointers
    floatcasts = False  # narrowing to float gives a term of its own
    exact = False       # never join states whose facts differ

    def join_facts(self, t, s):
        """The facts that hold in both states (those of 'implied' also when one state only implies them)."""
        out = {}
        for a, b in t.facts.items():
            o = s.facts.get(a)
            if o is None and a.op in self.implied:
                o = self._truth(s, a)
            if o == b:
                out[a] = b
        for a, b in s.facts.items():
            if a.op in self.implied and a not in out and self._truth(t, a) == b:
                out[a] = b
        return out

    @staticmethod
    def charfact(a):
        return a.op in ("eq", "lt") and any(x.op == "elem" or x.op == "byte" for x in a.a) and any(x.op == "i" for x in a.a)

    def merge(self, res):
        """Drop duplicate states."""
        if len(res) < 2:
            return res
        seen = {}
        out = []
        for s, v in res:
            k = (v, s.trace, frozenset(s.store.items()), frozenset(s.mon.items()),
                 () if s.mon.get("diag") else frozenset(f for f in s.facts.items() if self.exact or f[0].op in self.keyfacts or self.keychars and self.charfact(f[0])))
            o = seen.get(k)
            if o is None:
                seen[k] = (s, v)
                out.append((s, v))
            else:
                # join: keep the facts both have
                t = o[0]
                if t.facts != s.facts:
                    t.facts = self.join_facts(t, s)
                    t.rng = {a: self.joinr(b, s.rng.get(a)) for a, b in t.rng.items() if a in s.rng}
                elif t.rng != s.rng:
                    t.rng = {a: self.joinr(b, s.rng.get(a)) for a, b in t.rng.items() if a in s.rng}
        return out

    @staticmethod
    def joinr(a, b):
        if b is None:
            return (None, None)
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        return (lo, hi)

    # constructors
    def ev_ctor(self, st, e):
        f = e["f"]
        c = short(e["c"])
        if e.get("cp") and len(e["a"]) >= 1:
            fn = self.p.functions.get(f["m"])
            if not (fn and "body" in fn and not fn.get("dflt")):
                if e["cp"] == "move":
                    return self.ev_consume(st, {"k": "ctor", "cp": "move", "a": e["a"][:1], "f": f, "_id": e["_id"], "t": e["t"]}) \
                        if e["a"][0]["k"] == "call" else self.ev(st, e["a"][0])
                return self.ev(st, e["a"][0])
        out = []
        for s, args in self.evargs(st, f, e["a"]):
            out.extend(self.construct(s, f, c, args, e))
        return out

    def construct(self, st, f, c, args, e):
        """Construct an object with constructor f: [(state, value)]"""
        h = self.contracts.get("ctor " + c)
        if h:
            r = h(self, st, f, None, args, e)
            if r is not None:
                return r
        fn = self.p.functions.get(f["m"])
        if fn is not None and "body" in fn and (not fn.get("dflt") or fn.get("inits")):
            return self.construct_fn(st, fn, args, e)
        r = self.inherited(st, f, args, e)
        if r is not None:
            return r
        t = base_type(e.get("t", "?"))
        r = models.construct(self, st, f, c, args, e)
        if r is not None:
            return r
        if not args:
            return [(st, self.default_value(st, t, e))]
        return [(st, mk("new", t, *[self.argval(st, a) for a in args]))]

    def inherited(self, st, f, args, e):
        """a constructor taken over from a base by a using declaration"""
        cls, name = base_type(f.get("cls", "")), f["q"].split("::")[-1]
        r = self.p.records.get(cls)
        if r is None or name.startswith("~") or r["q"].split("::")[-1] == name:
            return None
        part = f["m"].split("|")
        if len(part) != 3:
            return None
        bs = list(r["bases"])
        while bs:
            b = bs.pop(0)
            br = self.p.records.get(b)
            if br is None:
                continue
            if br["q"].split("::")[-1] == name:
                fn = self.p.functions.get("S:%s::%s|%s|%s" % (br["q"], name, part[1], b))
                if fn is None or "body" not in fn:
                    return None
                d = self.record_default(st, cls)
                out = []
                for s, v in self.construct_fn(st, fn, args, e):
                    if v.op != "rec":
                        return None
                    got = dict(v.a[1])
                    out.append((s, rec(cls, [(n, got.pop(n, x)) for n, x in d.a[1]])))
                return out
            bs.extend(br["bases"])
        return None

    def construct_fn(self, st, fn, args, e, this=None):
        self.calls_inlined.add(fn["key"])
        if len(self.fnstack) > self.inl_depth:
            raise Undecided("recursion through " + fn["q"])
        saved_env, saved_temps = st.env, st.temps
        env = self.param_env(st, fn, args, e)
        d = st.depth + 1
        cls = base_type(fn["f"].get("cls", fn["q"]))
        root = this[0] if this else mk("L", d, "this:%s" % e.get("_id", 0))
        path = this[1] if this else ()
        env["this"] = (root, path)
        env["__inhargs"] = tuple(args)
        st.env = env
        st.temps = ()
        st.depth = d
        if not this:
            st.store[root] = rec(cls, [])
        states = [st]
        self.fnstack.append(fn["key"])
        try:
            for i in fn.get("inits", []):
                nxt = []
                for s in states:
                    if "field" in i:
                        tgt = (root, path + (i["field"],))
                        if i.get("ref"):
                            for s2, l in self.lv(s, i["e"]):
                                self.write(s2, tgt, self.ptr(l))
                                nxt.append(s2)
                        elif i["e"] is None:
                            nxt.append(s)
                        else:
                            for s2, v in self.ev_consume(s, i["e"]):
                                self.write(s2, tgt, v)
                                nxt.append(s2)
                    else:
                        # base class or delegation: splice the fields in
                        for s2, v in self.ev_consume(s, i["e"]):
                            if v.op == "rec":
                                for n, x in v.a[1]:
                                    self.write(s2, (root, path + (n,)), x)
                            else:
                                for n in self.fields_of(base_type(i.get("base", cls))):
                                    self.write(s2, (root, path + (n,)), proj(v, n))
                            nxt.append(s2)
                states = nxt
            out = []
            for s in states:
                for s2, ctl in self.ex(s, fn["body"]):
                    out.append(s2)
        finally:
            self.fnstack.pop()
        res = []
        for s in out:
            v = self.read(s, (root, path))
            s.env = dict(saved_env)
            s.temps = saved_temps
            s.depth = d - 1
            for r in [r for r in s.store if r.op in ("L", "Tmp") and r.a[0] == d]:
                del s.store[r]
            if not this:
                dt = self.dtor(cls)
                if dt is not None:
                    loc = self.tmp(s, e, v, "obj")
                    s.temps = s.temps + ((loc, dt["key"]),)
            res.append((s, v))
        return res

    def fields_of(self, cls):
        out = []
        r = self.p.records.get(cls)
        if r:
            for b in r["bases"]:
                out.extend(self.fields_of(b))
            out.extend(f["n"] for f in r["fields"])
        return out

    def dtor(self, cls):
        r = self.p.records.get(cls)
        if not r:
            return None
        n = "~" + r["q"].split("::")[-1]
        for f in self.p.byq.get(r["q"] + "::" + n, []):
            if "body" in f and not f.get("dflt") and f["body"].get("b"):
                if base_type(f["f"].get("cls", "")) == cls:
                    return f
        return None

    def end_full_expr(self, st):
        """Destroy the temporaries of a full expression: [state]"""
        if not st.temps:
            return [self.drop_tmps(st)]
        temps, st.temps = st.temps, ()
        states = [st]
        for loc, key in reversed(temps):
            fn = self.p.functions[key]
            nxt = []
            for s in states:
                if loc[0].op == "Tmp" and loc[0] not in s.store:
                    s.store[loc[0]] = mk("init", loc[0])
                for s2, _ in self.inline(s, fn, loc, [], {"_id": 0}):
                    nxt.append(s2)
            states = nxt
        return [self.drop_tmps(s) for s in states]

    def drop_tmps(self, st):
        """Forget temporaries nothing refers to any more."""
        d = st.depth
        t = [r for r in st.store if r.op == "Tmp" and r.a[0] == d and r.a[2] != "rng"]
        if t:
            used = set(l[0] for l in st.env.values() if type(l) is tuple and l and isinstance(l[0], T))
            for r in t:
                if r in used:
                    continue
                for q, v in st.store.items():
                    if q is not r and r in subs(v):
                        break
                else:
                    del st.store[r]
        return st

    # ------------------------------------------------------------ statements
    def ex(self, st, s):
        """[(state, ctl)], ctl None | ('brk',) | ('cont',) | ('ret', value)"""
        self.tick()
        if s is None:
            return [(st, None)]
        m = getattr(self, "ex_" + s["k"], None)
        if m is None:
            self.note("stmt:" + s["k"] + ":" + str(s.get("cls")))
            raise Undecided("statement " + s["k"] + " " + str(s.get("cls")))
        return m(st, s)

    def ex_block(self, st, s):
        return self.run_list(st, s["b"])

    def run_list(self, st, stmts):
        live = [st]
        done = []
        scoped = []
        for x in stmts:
            nxt = []
            for s in live:
                for s2, ctl in self.ex(s, x):
                    if ctl is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, ctl))
            live = [a for a, _ in self.merge(nxt)]
            if x["k"] == "decl":
                for v in x["v"]:
                    if not v.get("ref") and not v.get("static"):
                        dt = self.dtor(base_type(v["tt"]))
                        if dt is not None:
                            scoped.append((v["id"], dt))
        res = [(s, None) for s in live] + done
        for id_, dt in reversed(scoped):
            nxt = []
            for s, ctl in res:
                if id_ in s.env:
                    l = s.env[id_]
                    sv = s.temps
                    for s2, _ in self.inline(s, dt, l, [], {"_id": 0}):
                        nxt.append((s2, ctl))
                else:
                    nxt.append((s, ctl))
            res = nxt
        return res

    def fin(self, res):
        """Finish full expressions."""
        out = []
        for s, v in res:
            for s2 in self.end_full_expr(s):
                out.append((s2, v))
        return out

    def ex_expr(self, st, s):
        return self.merge([(x, None) for x, _ in self.fin(self.ev(st, s["e"]))])

    def ex_nop(self, st, s):
        return [(st, None)]

    def ex_label(self, st, s):
        return self.ex(st, s["s"])

    def ex_ret(self, st, s):
        fn = self.p.functions.get(self.fnstack[-1]) if self.fnstack else None
        if "e" not in s:
            return [(st, ("ret", VOID))]
        if fn is not None and (fn.get("rref") or fn["rt"].endswith("&")):
            return self.fin([(x, ("ret", self.ptr(l))) for x, l in self.lv(st, s["e"])])
        if fn is not None and fn["rt"] == "bool" and s["e"]["k"] in ("bin", "un", "cond"):
            if s["e"]["k"] == "bin" and s["e"]["op"] in ("&&", "||"):
                return self.fin([(x, ("ret", B(b))) for x, b in self.cond(st, s["e"])])
        return self.fin([(x, ("ret", v)) for x, v in self.ev_consume(st, s["e"])])

    def ex_decl(self, st, s):
        states = [st]
        for v in s["v"]:
            nxt = []
            for x in states:
                nxt.extend(self.declare(x, v))
            states = nxt
        return [(x, None) for x in states]

    def declare(self, st, v):
        id_ = v["id"]
        if v.get("static"):
            return self.declare_static(st, v)
        out = []
        if v.get("ref"):
            if v["i"]["k"] == "list" or not self.is_lvalue(v["i"]):
                root = mk("L", st.depth, id_)
                for s, x in self.ev(st, v["i"]):
                    s.store[root] = x
                    s.env[id_] = (root, ())
                    out.append(s)
            else:
                for s, l in self.lv(st, v["i"]):
                    s.env[id_] = l
                    out.append(s)
        else:
            root = mk("L", st.depth, id_)
            if is_int_type(base_type(v["t"])):
                self.vartype[root] = "int"
            if base_type(v["t"]) == "bool":
                self.vartype[root] = "bool"
            if v.get("i") is not None:
                for s, x in self.ev_consume(st, v["i"]):
                    if base_type(v["t"]) == "bool":
                        x = self.tobool(x, v["i"]["t"]) if not isbool(x) else x
                    elif is_int_type(base_type(v["t"])):
                        self.markint(x)
                    s.store[root] = x
                    s.env[id_] = (root, ())
                    out.append(s)
            else:
                st.store[root] = self.uninit(st, v)
                st.env[id_] = (root, ())
                out.append(st)
        if v.get("binds"):
            for s in out:
                l = s.env[id_]
                names = self.bind_names(base_type(v["tt"]), len(v["binds"]))
                for b, n in zip(v["binds"], names):
                    s.env[b["id"]] = (l[0], l[1] + (n,))
        res = []
        for s in out:
            dt = self.dtor(base_type(v["tt"])) if v.get("i") and not v.get("ref") else None
            if dt is not None:
                # the object now lives in the variable, not in a temporary
                root = mk("L", s.depth, id_)
                cur = s.store.get(root)
                s.temps = tuple(t for t in s.temps if t[1] != dt["key"] or s.store.get(t[0][0]) is not cur)
            res.extend(self.end_full_expr(s))
        return res

    def bind_names(self, t, n):
        if t in self.p.records:
            return self.fields_of(t)
        if n == 2:
            return ["first", "second"]
        return ["get%d" % i for i in range(n)]

    def uninit(self, st, v):
        t = base_type(v["t"])
        if is_int_type(t) or is_float_type(t) or t.endswith("*") or t.endswith("]"):
            m = re.search(r"\[(\d+)\]$", t)
            if m:
                return mk("arr", mk("L", st.depth, v["id"]), I(int(m.group(1))))
            return UNDEF
        return self.default_value(st, t, v)

    def declare_static(self, st, v):
        root = mk("G", v["id"])
        t = v["t"]
        const = v.get("ref") or t.startswith("const ") or t.endswith("const")
        if v["id"] in st.env:
            return [st]
        if root in st.store:
            if const and st.store[root].op == "lv" and v.get("i") is not None:
                # a constant whose value the loop summary has forgotten
                rs = self.ev(st.clone(), v["i"])
                if len(rs) == 1 and not mentions(rs[0][1], lambda x: x.op in ("lv", "init", "call", "ptr", "getl")):
                    st.store[root] = rs[0][1]
            return [st]
        out = []
        if v.get("ref"):
            for s, l in self.lv(st, v["i"]):
                s.env[v["id"]] = l
                out.append(s)
        else:
            if not const:
                s2 = st.clone()
                s2.store[root] = mk("init", root)
                out.append(s2)
            rs = self.ev(st, v["i"]) if v.get("i") is not None else [(st, self.uninit(st, v))]
            for s, x in rs:
                s.store[root] = x
                out.append(s)
        res = []
        for s in out:
            res.extend(self.end_full_expr(s))
        return res

    def ex_if(self, st, s):
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.ex(st, s["init"])]
        if s.get("cv"):
            nxt = []
            for x in states:
                nxt.extend(self.declare(x, s["cv"]))
            states = nxt
        out = []
        ts, fs = [], []
        for x in states:
            for x2, b in self.fin(self.cond(x, s["c"])):
                (ts if b else fs).append((x2, None))
        for x, _ in self.merge(ts):
            out.extend(self.ex(x, s["a"]))
        for x, _ in self.merge(fs):
            out.extend(self.ex(x, s["b"]) if s.get("b") else [(x, None)])
        return self.mergectl(out)

    def mergectl(self, res):
        if len(res) < 2:
            return res
        groups = {}
        for s, c in res:
            groups.setdefault(c, []).append((s, VOID))
        out = []
        for c, g in groups.items():
            for s, _ in self.merge(g):
                out.append((s, c))
        return out

    def ex_try(self, st, s):
        # exceptions are treated as aborts
        return self.ex(st, s["b"])

    def ex_break(self, st, s):
        return [(st, ("brk",))]

    def ex_goto(self, st, s):
        # only generated code jumps; whoever analyses a part of it takes the label for a result
        return [(st, ("ret", mk("goto", s["n"])))]

    def ex_continue(self, st, s):
        return [(st, ("cont",))]

    def ex_case(self, st, s):
        return self.ex(st, s["s"])

    ex_default = ex_case

    def ex_switch(self, st, s):
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.ex(st, s["init"])]
        if s.get("cv"):
            nxt = []
            for x in states:
                nxt.extend(self.declare(x, s["cv"]))
            states = nxt
        body = s["b"]
        stmts = body["b"] if body["k"] == "block" else [body]
        # labels at top level of the body
        flat = []
        labels = []   # (value or range or None, index)
        for x in stmts:
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "default":
                    labels.append((None, None, len(flat)))
                else:
                    labels.append((x.get("v"), x.get("v2"), len(flat)))
                x = x["s"]
            flat.append(x)
        out = []
        for x in states:
            for x2, v in self.fin(self.ev(x, s["c"])):
                rest = x2
                dflt = None
                for lo, hi, idx in labels:
                    if lo is None:
                        dflt = idx
                        continue
                    if rest is None:
                        break
                    if hi is None:
                        atom = models.canon_eq(self, rest, eq(v, I(lo)))
                    else:
                        atom = mk("bcall", mk("inrange", v, I(lo), I(hi)))
                    nr = None
                    for y, b in self.decide(rest, atom):
                        if b:
                            out.extend(self.run_switch(y, flat[idx:]))
                        else:
                            nr = y
                    rest = nr
                if rest is not None:
                    if dflt is not None:
                        out.extend(self.run_switch(rest, flat[dflt:]))
                    else:
                        out.append((rest, None))
        return self.mergectl(out)

    def run_switch(self, st, stmts):
        return [(s, None if c == ("brk",) else c) for s, c in self.run_list(st, stmts)]

    # ------------------------------------------------------------ loops
    def loopkey(self, st, node, extra=()):
        k = (node["_id"], st.depth, frozenset(st.store.items()), frozenset(st.facts.items()), tuple(sorted(st.mon.items(), key=str)), extra, self.loopstack)
        n = self.loopkeys.get(k)
        if n is None:
            n = self.loopkeys[k] = len(self.loopkeys) + 1
            self.keystack[n] = self.loopstack
        return n

    def ex_range(self, st, s):
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.ex(st, s["init"])]
        out = []
        for x in states:
            r = s["r"]
            if self.is_lvalue(r):
                rs = self.lv(x, r)
            else:
                rs = []
                for y, v in self.ev(x, r):
                    rs.append((y, self.tmp(y, r, v, "rng")))
            for y, cl in rs:
                for y2 in self.end_full_expr(y):
                    out.extend(self.iterate(y2, cl, s, lambda z, el: self.range_body(z, s, el)))
        return self.mergectl(out)

    def range_body(self, st, s, el):
        """one iteration; el is the element location"""
        v = s["v"]
        if v.get("ref"):
            st.env[v["id"]] = el
            l = el
        else:
            root = mk("L", st.depth, v["id"])
            st.store[root] = self.read(st, el)
            l = (root, ())
            st.env[v["id"]] = l
        if v.get("binds"):
            names = self.bind_names(base_type(v["tt"]), len(v["binds"]))
            for b, n in zip(v["binds"], names):
                st.env[b["id"]] = (l[0], l[1] + (n,))
        return self.ex(st, s["b"])

    def iterate(self, st, cl, node, body, rev=False):
        """Visit every element of the container at cl: [(state, ctl)]"""
        cv = self.read(st, cl)
        if cv.op == "moved":
            cv = cv
        if cv.op == "upd" and all(isinstance(n, T) and n.op == "idx" for n, _ in cv.a[1]) and cv.a[0].op == "arr":
            cv2 = cv.a[0]
            n = cv2.a[1]
            if n.op == "i" and n.a[0] <= self.unroll:
                return self.unrolled(st, [(cl[0], cl[1] + (mk("idx", I(i)),)) for i in range(n.a[0])], body)
        if cv.op == "seq" and cv.a[0] is None and len(cv.a[1]) <= self.unroll:
            idx = range(len(cv.a[1]))
            if rev:
                idx = reversed(idx)
            return self.unrolled(st, [(cl[0], cl[1] + (mk("idx", I(i)),)) for i in idx], body)
        if cv.op == "arr" and cv.a[1].op == "i" and cv.a[1].a[0] <= self.unroll:
            return self.unrolled(st, [(cl[0], cl[1] + (mk("idx", I(i)),)) for i in range(cv.a[1].a[0])], body)
        if cv.op == "map" and cv.a[0] is None and (all(isconst(k) for k, _ in cv.a[1]) or len(cv.a[1]) == 1):
            ks = [k for k, x in cv.a[1] if x is not ABSENT]
            return self.unrolled(st, [(cl[0], cl[1] + (mk("at", k),)) for k in ks], body)
        n = self.fixed_len(cv)
        if n is None and self.unroll_arrays and node.get("k") == "range":
            m = re.search(r"\[(\d+)\]$", node["r"].get("t", ""))
            n = int(m.group(1)) if m else None
        if n is not None and n <= self.unroll:
            return self.unrolled(st, [(cl[0], cl[1] + (mk("idx", I(i)),)) for i in range(n)], body)
        return self.symbolic_loop(st, node, body, cont=cv, contloc=cl, rev=rev)

    def fixed_len(self, cv):
        return None

    def unrolled(self, st, locs, body):
        live = [st]
        out = []
        for l in locs:
            nxt = []
            for s in live:
                for s2, ctl in body(s, l):
                    if ctl is None or ctl == ("cont",):
                        nxt.append((s2, None))
                    elif ctl == ("brk",):
                        out.append((s2, None))
                    else:
                        out.append((s2, ctl))
            live = [s for s, _ in self.merge(nxt)]
        return [(s, None) for s in live] + out

    def finite(self, v):
        return v.op in ("b", "null", "undef") or (v.op == "not") or isbool(v)

    def symbolic_loop(self, st, node, body, cont=None, contloc=None, cond=None, rev=False, bound=None, start=None, post=None):
        key = self.loopkey(st, node, (cont, bound, start))
        saved = self.loopstack
        self.loopstack = saved + (key,)
        try:
            return self.symbolic_loop1(st, node, body, key, cont, contloc, cond, rev, bound, start, post)
        finally:
            self.loopstack = saved

    def symbolic_loop1(self, st, node, body, key, cont, contloc, cond, rev, bound, start, post):
        """Fixpoint for a loop over unknown data.

        body(state, elemloc) -> [(state, ctl)]
        cont: container value for element loops (zero iterations iff it is empty)
        bound/start: counted loop, the element is the index value
        cond(state) -> [(state, bool)]: loops with an explicit condition
        """
        pre_trace = st.trace
        rec_ = dict(node=node, key=key, cont=cont, contloc=contloc, fn=self.fnstack[-1] if self.fnstack else None,
                    rev=rev, bound=bound, start=start, pre=st, line=node.get("l"), cond=cond is not None, early=[])
        changed = {}   # (root, path) -> True : widened locations
        elemroots = None
        arith_vars = self.loop_arith_vars(node)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Undecided("loop at line %s does not stabilise" % node.get("l"))
            heads = {}
            work = []
            h0 = st.clone()
            h0.trace = ()
            first = True
            for (root, path) in sorted(changed, key=lambda c: (c[0].id, len(c[1]))):
                self.write(h0, (root, path), mk("lv", key, root, *path))
                if self.intloc(st, root, path):
                    self.markint(mk("lv", key, root, *path))
            self.add_head(heads, work, h0, True)
            steps = []
            exits = []
            restart = False
            mapped = {}
            while work and not restart:
                self.tick()
                hs, isfirst = work.pop()
                h = hs.clone()
                # ---- loop test
                if cond is not None:
                    tests = cond(h)
                elif cont is not None:
                    if isfirst:
                        tests = [(a, not b) for a, b in self.decide(h, models.empty_atom(self, h, cont))]
                    else:
                        ok = self.assume(h, models.empty_atom(self, h, cont), False)
                        h2 = h.clone()
                        tests = [(h, True), (h2, False)] if ok else []
                else:
                    if isfirst:
                        tests = self.decide(h, lt(start, bound))
                    else:
                        if not self.assume(h, lt(start, bound), True):
                            continue
                        h2 = h.clone()
                        tests = [(h, True), (h2, False)]
                for b0, go in tests:
                    if not go:
                        exits.append((b0, None, isfirst))
                        continue
                    if cond is not None:
                        el = None
                    elif cont is not None:
                        el = (contloc[0], contloc[1] + (mk("each", key),))
                    else:
                        el = mk("ix", key)
                        self.setrange(b0, el, num(start) if start.op == "i" else None, None)
                        self.assume(b0, lt(el, bound), True)
                    headst = b0.clone()
                    back = []
                    for b, ctl in body(b0, el):
                        if ctl is None or ctl == ("cont",):
                            if post is not None:
                                for b2 in post(b):
                                    back.append(b2)
                            else:
                                back.append(b)
                        elif ctl == ("brk",):
                            exits.append((b, None, "brk"))
                        else:
                            exits.append((b, ctl, "ret"))
                    for b in back:
                        for b in self.settle_bools(b, h0):
                            for hk in self.backhooks:
                                hk(self, b, rec_)
                            nb, newch = self.back_edge(b, hs, st, key, changed, cont, contloc, arith_vars, mapped)
                            if newch:
                                for c in newch:
                                    changed[c] = True
                                restart = True
                                break
                            steps.append((headst, b))
                            self.add_head(heads, work, nb, False)
                        if restart:
                            break
                    if restart:
                        break
                if len(heads) > 48 and not restart:
                    raise Undecided("too many loop states at line %s" % node.get("l"))
            if not restart:
                break
        rec_["steps"] = steps
        rec_["changed"] = [(r, p) for r, p in changed]
        rec_["mapped"] = mapped
        self.loops[key] = rec_
        out = []
        for s, ctl, how in exits:
            tag = "0" if how is True else ("+" if how is False else how)
            if how in ("brk", "ret"):
                rec_["early"].append((s, ctl))
                s.trace = pre_trace + (("loop", key, tag, s.trace),)
            else:
                s.trace = pre_trace + (("loop", key, tag, ()),)
            # element-wise updates of the container become a summary
            if how is not True:
                for loc in mapped:
                    self.write(s, loc, mk("mapped", self.read(st, loc), key))
            if how in (True, False):
                self.drop_scope(s, st)
            out.append((s, ctl))
        return self.mergectl(out)

    def intloc(self, st, root, path):
        if self.vartype.get(root) == "int" and not path:
            return True
        v = self.read(st, (root, path))
        return self.isint(v)

    def loop_arith_vars(self, node):
        r = set()
        nodes = self.with_lambdas(node)
        for n in nodes:
            if n.get("k") == "un" and n["op"].startswith(("++", "--")) and n["e"].get("k") == "var":
                r.add(n["e"]["id"])
            if n.get("k") == "asg" and n["op"] != "=" and n["lhs"].get("k") == "var" and n["lhs"].get("t") != "bool":
                r.add(n["lhs"]["id"])
        return r

    def settle_bools(self, st, h0):
        """Booleans that change in a loop are kept as constants."""
        out = [st]
        for root in list(st.store):
            nxt = []
            for s in out:
                v = s.store.get(root)
                if v is not None and v is not h0.store.get(root) and v.op != "b" and isbool(v):
                    for s2, b in self.decide(s, v):
                        s2.store[root] = B(b)
                        nxt.append(s2)
                else:
                    nxt.append(s)
            out = nxt
        return out

    def drop_scope(self, s, st):
        for r in list(s.store):
            if r.op in ("L", "Tmp") and r not in st.store:
                del s.store[r]
        s.env = dict(st.env)
        s.temps = st.temps

    def diff(self, a, b, path):
        """Paths at which two values differ."""
        if a is b:
            return []
        if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0] and a.a[0] != "vec":
            out = []
            fa, fb = dict(a.a[1]), dict(b.a[1])
            for n in list(fa) + [x for x in fb if x not in fa]:
                out.extend(self.diff(fa.get(n, UNDEF), fb.get(n, UNDEF), path + (n,)))
            return out

        def base(v):
            return v.a[0] if v.op == "upd" else v
        if (a.op == "upd" or b.op == "upd") and base(a) is base(b):
            names = []
            for v in (a, b):
                if v.op == "upd":
                    for n, _ in v.a[1]:
                        if n not in names:
                            names.append(n)
            if all(isinstance(n, str) or n.op == "each" for n in names):
                out = []
                for n in names:
                    out.extend(self.diff(proj(a, n), proj(b, n), path + (n,)))
                return out
        return [path]

    def back_edge(self, b, head, st, key, changed, cont, contloc, arith_vars, mapped):
        """Abstract the state at a back edge into a head state."""
        newch = []
        nb = b.clone()
        nb.trace = ()
        ix = mk("ix", key)

        def own(k):
            return k == key or key in self.keystack.get(k, ())

        def local(t):
            return mentions(t, lambda x: (x.op in ("elem", "mapped") and own(x.a[1]))
                            or (x.op in ("lv", "each", "ix") and own(x.a[0])))
        for root in list(nb.store):
            if root.op in ("L", "Tmp") and root not in st.store:
                del nb.store[root]
                continue
            v = nb.store[root]
            old = st.store.get(root)
            if old is None:
                if mentions(root, lambda x: x.op == "elem" and x.a[1] == key):
                    del nb.store[root]   # an object owned by the element
                    continue
                if root.op == "H":
                    del nb.store[root]   # an object made by an earlier iteration
                    continue
                old = self.getroot(st, root)
            for p in self.diff(old, v, ()):
                if any(isinstance(x, T) and x.op == "each" and x.a[0] == key for x in p):
                    i = [j for j, x in enumerate(p) if isinstance(x, T) and x.op == "each"][0]
                    cl = (root, p[:i])
                    mapped.setdefault(cl, []).append((b, self.read(b, (root, p[:i + 1]))))
                    self.write(nb, cl, self.read(head, cl))
                    continue
                cov = [c for c in changed if c[0] is root and p[:len(c[1])] == c[1]]
                if cov:
                    c = cov[0]
                    self.write(nb, c, mk("lv", key, root, *c[1]))
                    continue
                nv = self.read(b, (root, p))
                ov = self.read(st, (root, p))
                idn = root.a[1] if root.op == "L" else root.a[0] if root.op == "G" else None
                if (self.finite(nv) and (self.finite(ov) or ov.op in ("init", "lv"))) or \
                        (nv.op in ("i", "s") and ov.op in ("i", "s") and idn not in arith_vars) or \
                        (self.finite(nv) and ov.op not in ("seq", "map")):
                    if not local(nv):
                        continue   # stays disjunctive
                # widen; drop finer entries
                newch.append((root, p))
        # store entries that vanished cannot happen (locals of outer scopes persist)
        dead = [a for a in nb.facts if local(a)]
        for a in dead:
            del nb.facts[a]
        for a in [a for a in nb.rng if local(a)]:
            del nb.rng[a]
        nb.env = dict(head.env)
        nb.temps = head.temps
        return nb, newch

    def add_head(self, heads, work, h, first):
        k = (first, frozenset(h.store.items()), frozenset(h.mon.items()))
        o = heads.get(k)
        if o is None:
            heads[k] = h
            work.append((h, first))
            return
        nf = self.join_facts(o, h)
        nr = {}
        for a, b in o.rng.items():
            if a in h.rng:
                j = self.joinr(b, h.rng[a])
                # widen unstable bounds
                j = (j[0] if j[0] == b[0] else None, j[1] if j[1] == b[1] else None)
                if j != (None, None):
                    nr[a] = j
        if nf != o.facts or nr != o.rng:
            o.facts = nf
            o.rng = nr
            work.append((o, first))

    # -- while / for / do
    def ex_while(self, st, s):
        def cond(x):
            if s.get("cv"):
                ys = self.declare(x, s["cv"])
            else:
                ys = [x]
            out = []
            for y in ys:
                out.extend(self.fin(self.cond(y, s["c"])))
            return out
        return self.generic_loop(st, s, cond, lambda x, el: self.ex(x, s["b"]), None)

    def ex_do(self, st, s):
        out = []
        for x, ctl in self.ex(st, s["b"]):
            if ctl is None or ctl == ("cont",):
                c = s["c"]
                if c["k"] in ("bool", "int") and not c["v"]:
                    out.append((x, None))
                    continue
                out.extend(self.generic_loop(x, s, lambda y: self.fin(self.cond(y, c)), lambda y, el: self.ex(y, s["b"]), None))
            elif ctl == ("brk",):
                out.append((x, None))
            else:
                out.append((x, ctl))
        return self.mergectl(out)

    def generic_loop(self, st, s, cond, body, post):
        # bounded exact unrolling as long as the condition stays decided
        r = self.try_unroll(st, s, cond, body, post)
        if r is not None:
            return r
        return self.symbolic_loop(st, s, body, cond=cond, post=post)

    def try_unroll(self, st, s, cond, body, post):
        """Unroll while every test is decided by constants; None if it is not."""
        saved = (dict(self.loops), len(self.aborts))
        live = [st.clone()]
        out = []
        for n in range(self.unroll + 1):
            nxt = []
            for x in live:
                nf = len(x.facts)
                ts = cond(x)
                if len(ts) != 1 or len(ts[0][0].facts) != nf:
                    return None
                y, b = ts[0]
                if not b:
                    out.append((y, None))
                    continue
                if n == self.unroll:
                    return None
                for z, ctl in body(y, None):
                    if ctl is None or ctl == ("cont",):
                        nxt.extend((w, None) for w in (post(z) if post else [z]))
                    elif ctl == ("brk",):
                        out.append((z, None))
                    else:
                        out.append((z, ctl))
            live = [a for a, _ in self.merge(nxt)]
            if not live:
                return self.mergectl(out)
            if len(live) + len(out) > self.unroll_states:
                return None
        return None

    def ex_for(self, st, s):
        pat = self.for_pattern(s)
        if pat:
            r = self.ex_for_pattern(st, s, pat)
            if r is not None:
                return r
        states = [st]
        if s.get("init"):
            states = [x for x, _ in self.ex(st, s["init"])]

        def cond(x):
            if "c" not in s:
                return [(x, True)]
            return self.fin(self.cond(x, s["c"]))

        def post(x):
            if not s.get("inc"):
                return [x]
            return [y for y, _ in self.fin(self.ev(x, s["inc"]))]
        out = []
        for x in states:
            out.extend(self.generic_loop(x, s, cond, lambda y, el: self.ex(y, s["b"]), post))
        return self.mergectl(out)

    def modified_in(self, node, id_):
        for n in walk(node):
            k = n.get("k")
            if k == "un" and (n["op"].startswith(("++", "--")) or n["op"] == "&") and n["e"].get("id") == id_:
                return True
            if k == "asg" and n["lhs"].get("id") == id_:
                return True
            if k == "call" and n.get("f") and n["f"]["q"].rsplit("::", 1)[-1] not in FORWARDS:
                pk = n["f"].get("pk", "")
                for i, a in enumerate(n["a"]):
                    if a and a.get("id") == id_ and i < len(pk) and pk[i] in "mp":
                        return True
                if n.get("op") in ("++", "--", "+=", "-=", "=") and n.get("o") and n["o"].get("id") == id_:
                    return True
            if k == "lam":
                for c in n["caps"]:
                    if c.get("id") == id_ and c.get("ref"):
                        f = self.p.functions.get(n["fn"])
                        if f and self.modified_in(f.get("body"), id_):
                            return True
        return False

    def for_pattern(self, s):
        """for (i = a; i < n; ++i) / for (it = c.begin(); it != c.end(); ++it)"""
        init, c, inc = s.get("init"), s.get("c"), s.get("inc")
        if not init or not c or not inc or init["k"] != "decl":
            return None
        v = init["v"][0]
        if v.get("i") is None or v.get("ref"):
            return None
        # increment
        if inc["k"] == "un" and inc["op"] in ("++", "++post") and inc["e"].get("id") == v["id"]:
            pass
        elif inc["k"] == "call" and inc.get("op") == "++" and inc.get("o") and inc["o"].get("id") == v["id"]:
            pass
        elif inc["k"] == "asg" and inc["op"] == "+=" and inc["lhs"].get("id") == v["id"] and inc["rhs"].get("v") == 1:
            pass
        else:
            return None
        if self.modified_in(s["b"], v["id"]):
            return None

        def strip(x):
            while x is not None and (x["k"] == "cast" or (x["k"] == "ctor" and len(x["a"]) == 1)):
                x = x["e"] if x["k"] == "cast" else x["a"][0]
            return x
        if c["k"] == "bin" and c["op"] in ("<", "!=", ">"):
            l, r = strip(c["lhs"]), strip(c["rhs"])
            if c["op"] == ">" or (r.get("id") == v["id"] and c["op"] == "!="):
                l, r = r, l
            if l.get("id") == v["id"] and is_int_type(base_type(v["t"])):
                return ("index", v, r)
        if c["k"] == "un" and c["op"] == "!" and c["e"]["k"] == "call" and c["e"].get("op") == "==":
            c = dict(c["e"])
            c["op"] = "!="
        if c["k"] == "call" and c.get("op") == "!=":
            ops = ([c["o"]] if c.get("o") else []) + c["a"]
            if len(ops) == 2:
                l, r = strip(ops[0]), strip(ops[1])
                if r.get("id") == v["id"]:
                    l, r = r, l
                if l.get("id") == v["id"]:
                    return ("iter", v, r)
        return None

    def ex_for_pattern(self, st, s, pat):
        kind, v, lim = pat
        if kind == "iter":
            b = v["i"]
            while b["k"] in ("cast", "ctor") and (b["k"] == "cast" or len(b["a"]) == 1):
                b = b["e"] if b["k"] == "cast" else b["a"][0]
            if b["k"] != "call" or lim["k"] != "call" or not b.get("f") or not lim.get("f"):
                # end iterator kept in a variable
                if lim["k"] == "var" and b["k"] == "call" and b.get("f"):
                    rs = self.ev(st.clone(), lim)
                    if len(rs) != 1 or rs[0][1].op != "end":
                        return None
                    mb = short(b["f"]["q"]).split("::")[-1]
                    if mb not in ("begin", "cbegin") or not b.get("o"):
                        return None
                    cst = self.lv(st, b["o"])
                    if len(cst) != 1 or rs[0][1].a[0] is not self.ptr(cst[0][1]):
                        return None
                    x, cl = cst[0]
                    return self.iter_loop(x, cl, s, v, False)
                return None
            mb, me = short(b["f"]["q"]).split("::")[-1], short(lim["f"]["q"]).split("::")[-1]
            if (mb, me) not in (("begin", "end"), ("cbegin", "cend"), ("begin", "cend"), ("cbegin", "end"), ("rbegin", "rend")):
                return None
            o1 = b.get("o") or (b["a"][0] if b["a"] else None)
            o2 = lim.get("o") or (lim["a"][0] if lim["a"] else None)
            if o1 is None or o2 is None or not self.is_lvalue(o1):
                return None
            x = st
            if b.get("arrow") and is_ptr_type(o1["t"]):
                rs = [(y, self.deref(y, val)) for y, val in self.ev(x, o1)]
            else:
                rs = self.lv(x, o1)
            out = []
            for y, cl in rs:
                if lim.get("arrow") and is_ptr_type(o2["t"]):
                    r2 = [(z, self.deref(z, val)) for z, val in self.ev(y, o2)]
                else:
                    r2 = self.lv(y, o2)
                if len(r2) != 1 or r2[0][1] != cl:
                    return None
                out.extend(self.iter_loop(y, cl, s, v, mb == "rbegin"))
            return self.mergectl(out)
        # index loop: the bound must not change in the body
        rs = self.ev(st, v["i"])
        if len(rs) != 1:
            return None
        x, start = rs[0]
        probe = self.ev(x.clone(), lim)
        if len(probe) != 1:
            return None
        bound = probe[0][1]
        # other variables declared in the init stay ordinary locals
        for extra in s["init"]["v"][1:]:
            xs = self.declare(x, extra)
            if len(xs) != 1:
                return None
            x = xs[0]
        if start.op == "i" and bound.op == "i" and bound.a[0] - start.a[0] <= self.unroll:
            return None  # exact unrolling through the generic path
        if not self.invariant(s, lim):
            return None
        self.markint(start)
        self.markint(bound)

        def body(y, el):
            root = mk("L", y.depth, v["id"])
            y.store[root] = el
            y.env[v["id"]] = (root, ())
            return self.ex(y, s["b"])
        return self.symbolic_loop(x, s, body, bound=bound, start=start)

    def iter_loop(self, st, cl, s, v, rev):
        def body(z, el):
            root = mk("L", z.depth, v["id"])
            z.store[root] = mk("it", mk("ptr", el[0], *el[1][:-1]), el[1][-1]) if el[1] else mk("ptr", el[0])
            z.env[v["id"]] = (root, ())
            return self.ex(z, s["b"])
        return self.iterate(st, cl, s, body, rev)

    def invariant(self, s, lim):
        """The bound expression keeps its value while the loop runs."""
        for n in walk(lim):
            if n.get("k") == "var" and self.modified_in(s["b"], n["id"]):
                return False
            if n.get("k") == "mem" and self.member_modified(s["b"], n["n"], set()):
                return False
            if n.get("k") == "call":
                f = n.get("f")
                if not f or short(f["q"]).split("::")[-1] not in ("size", "length"):
                    return False
                o = n.get("o")
                root = o
                while root is not None and root["k"] in ("mem",):
                    root = root["b"]
                for m in self.with_lambdas(s["b"]):
                    if m.get("k") == "call" and m.get("f") and m.get("o") and self.same_expr(m["o"], o) and \
                            short(m["f"]["q"]).split("::")[-1] in ("push_back", "emplace_back", "clear", "resize", "erase", "insert", "pop_back", "append", "assign", "operator=", "operator+="):
                        return False
        return True

    def with_lambdas(self, node):
        """The nodes of a loop body and of the lambdas it may call."""
        nodes, seen = list(walk(node)), set()
        fn = self.p.functions.get(self.fnstack[-1]) if self.fnstack else None
        if not (isinstance(fn, dict) and "body" in fn):
            return nodes
        held = self.lambdas_of(fn)
        i = 0
        while i < len(nodes):
            n = nodes[i]
            i += 1
            k = n["fn"] if n.get("k") == "lam" else held.get(n.get("id")) if n.get("k") == "var" else None
            if k is None or k in seen:
                continue
            seen.add(k)
            lf = self.p.functions.get(k)
            if lf and "body" in lf:
                nodes.extend(walk(lf["body"]))
        return nodes

    def lambdas_of(self, fn):
        """{variable: lambda it is set to} of a function"""
        r = self.lamvars.get(fn["key"])
        if r is None:
            r = {}
            for n in walk(fn["body"]):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if isinstance(v.get("i"), dict):
                            for m in walk(v["i"]):
                                if m.get("k") == "lam":
                                    r[v["id"]] = m["fn"]
            self.lamvars[fn["key"]] = r
        return r

    def member_modified(self, node, name, seen):
        """Is a member of this name (of whatever object) set in the body or in what it calls?"""
        def hit(x):
            return isinstance(x, dict) and x.get("k") == "mem" and x.get("n") == name
        for n in self.with_lambdas(node) if not seen else walk(node):
            k = n.get("k")
            if k == "un" and (n["op"].startswith(("++", "--")) or n["op"] == "&") and hit(n["e"]):
                return True
            if k == "asg" and hit(n["lhs"]):
                return True
            if k == "call" and n.get("f"):
                f = n["f"]
                pk = f.get("pk", "")
                for i, a in enumerate(n["a"]):
                    if hit(a) and i < len(pk) and pk[i] in "mp" and f["q"].rsplit("::", 1)[-1] not in FORWARDS:
                        return True
                if hit(n.get("o")) and (n.get("op") in ("++", "--", "+=", "-=", "=") or short(f["q"]).split("::")[-1] in (
                        "push_back", "emplace_back", "clear", "resize", "erase", "insert", "pop_back", "append", "assign", "swap", "emplace")):
                    return True
                c = self.p.functions.get(f.get("m"))
                if c and "body" in c and c["key"] not in seen and len(seen) < 60 and not f.get("const"):
                    seen.add(c["key"])
                    if self.member_modified(c["body"], name, seen):
                        return True
        return False

    def same_expr(self, a, b):
        if a is None or b is None or a.get("k") != b.get("k"):
            return False
        if a["k"] == "var":
            return a["id"] == b["id"]
        if a["k"] == "mem":
            return a["n"] == b["n"] and self.same_expr(a["b"], b["b"])
        if a["k"] == "this":
            return True
        return False

    # ------------------------------------------------------------ entry points
    def run(self, fn, this_cls=None, params=None, setup=None, boolret=True):
        """Analyse one function for arbitrary arguments. -> [Exit]"""
        st = State()
        env = {}
        args = params or {}
        for p in fn["params"]:
            root = mk("P", p["n"])
            if p["pk"] in "mrx":
                env[p["id"]] = (root, ())
            else:
                lroot = mk("L", 1, p["id"])
                v = args.get(p["n"])
                if v is None:
                    if p["t"].endswith("*") or p["tt"].endswith("*"):
                        v = mk("ptr", root)
                    else:
                        v = mk("init", root)
                st.store[lroot] = v
                env[p["id"]] = (lroot, ())
                if is_int_type(p["tt"]):
                    self.markint(v)
        if "cls" in fn["f"] and not fn["f"].get("static"):
            env["this"] = (mk("P", "this", base_type(fn["f"]["cls"])), ())
        st.env = env
        st.depth = 1
        st.mon["diag"] = 0
        if setup:
            setup(self, st)
        self.fnstack = [fn["key"]]
        self.calls_inlined.add(fn["key"])
        states = [st]
        if fn.get("inits"):
            raise Undecided("constructor entry")
        res = []
        for s in states:
            res.extend(self.ex(s, fn["body"]))
        out = []
        for s, ctl in res:
            v = ctl[1] if ctl else VOID
            if fn["rt"] == "bool" and boolret:
                for s2, b in self.decide(s, self.tobool(v)):
                    out.append(Exit(s2, b))
            else:
                out.append(Exit(s, v))
        self.fnstack = []
        return out


PURE_METHODS = re.compile(r"::(begin|end|cbegin|cend|rbegin|rend|size|length|empty|at|front|back|data|c_str|find|count|get|x|y|z|"
                          r"first|second|operator\[\]|operator\*|operator->|operator bool|operator\(\)|str|stream|what|norm|squaredNorm|"
                          r"dot|cross|normalized|transpose|inverse|capacity|equal_range|lower_bound|upper_bound|contains|location)$")


def q_pure(q):
    return bool(PURE_METHODS.search(q))
