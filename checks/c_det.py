"""C21: what is written depends on nothing but the inputs and the time stamp."""
from common import *
from c_flow import flat
from c_prop import closure
import c_ps

R1 = "nothing but the inputs decides the output"
R2 = "one time for the whole run"
R3 = "each flag adds its part"

TIME = {"absl::Now", "absl::GetCurrentTimeNanos", "time", "std::time", "gettimeofday", "clock_gettime", "timespec_get", "std::timespec_get", "clock", "std::clock", "ftime", "times",
        "std::chrono::system_clock::now", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now",
        "std::chrono::high_resolution_clock::now", "std::filesystem::last_write_time", "stat", "fstat"}
RANDOM = {"rand", "std::rand", "random", "drand48", "lrand48", "mrand48", "rand_r", "arc4random", "getrandom", "getentropy", "absl::Uniform", "absl::Bernoulli",
          "std::random_device::random_device", "std::random_device::operator()", "std::this_thread::get_id", "pthread_self", "getpid", "getppid", "gettid", "getuid",
          "gethostname", "tmpnam", "std::tmpnam", "mkstemp", "getenv", "std::getenv", "secure_getenv", "getcwd", "std::filesystem::current_path",
          "std::setlocale", "setlocale", "std::locale::global", "malloc_usable_size", "sysconf", "std::thread::hardware_concurrency", "std::random_shuffle"}
WHY = {"getenv": "the environment", "setlocale": "the locale", "getpid": "the process number"}
PTRKEY = ("std::map", "std::set", "std::multimap", "std::multiset", "std::unordered_map", "std::unordered_set", "std::unordered_multimap", "std::unordered_multiset")
SEEDED = ("absl::flat_hash_map", "absl::flat_hash_set", "absl::node_hash_map", "absl::node_hash_set")


def callee(n):
    f = n.get("f")
    return short(f["q"]) if isinstance(f, dict) and "q" in f else None


def keys(n):
    """the functions an expression node may run"""
    f = n.get("f")
    if isinstance(f, dict) and f.get("m"):
        yield f["m"]
    if n.get("k") == "lam" and n.get("fn"):
        yield n["fn"]


def outside_static(body):
    """every node that is not part of the initialiser of a static variable"""
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if x.get("static") and "i" in x:
                continue
            yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))


def reach(prog, root):
    by = {}
    for k, f in prog.functions.items():
        by.setdefault(f["q"].rsplit("::", 1)[-1], []).append(k)
    seen, todo = {root["key"]: None}, [root["key"]]
    while todo:
        k = todo.pop()
        f = prog.functions.get(k)
        if not f or "body" not in f:
            continue
        nxt = []
        for n in walk([f["body"], f.get("inits", [])]):
            for m in keys(n):
                if m in prog.functions:
                    nxt.append(m)
                g = n.get("f") or {}
                if g.get("virt"):
                    nxt += by.get(g["q"].rsplit("::", 1)[-1], [])
        for m in nxt:
            if m not in seen:
                seen[m] = k
                todo.append(m)
    return seen


def c21(ctx):
    ctx.rule("every call reachable from main is looked up among the sources of randomness, environment and time; time may be read only inside the initialiser of a "
             "static variable, which is never assigned again; no iteration runs over a container ordered or hashed by address, and no address is printed; in the "
             "page header the time and the page number are inside a string exactly on the paths on which their flag is set.")
    prog = ctx.load()
    main = ctx.fn("main")
    seen = reach(prog, main)
    ncalls = nit = 0
    fresh = {}
    stat = {}
    for k in seen:
        f = prog.functions.get(k)
        if not f or "body" not in f:
            continue
        gen = not f.get("file", "").startswith(ctx.tree.repo) or f.get("file", "").endswith((".hh", ".yy.cc", ".tab.cc"))
        ctx.functions.add(k)
        for n in walk([f["body"], f.get("inits", [])]):
            c = callee(n)
            if n.get("k") in ("call", "ctor") and c:
                ncalls += 1
                w = ctx.where(f, n.get("l"))
                if c in RANDOM or c.replace("std::", "") in RANDOM:
                    ctx.oblige(R1, w, False, "%s is called: the output depends on more than the inputs" % c)
                if c.rsplit("::", 1)[-1] == "operator<<" and n.get("a") and not gen:
                    pt = (n["f"].get("m") or "")
                    if "EPKv" in pt and "lsEPKv" in pt or "const void *" in pt:
                        ctx.oblige(R1, w, False, "an address is written to a stream")
            if n.get("k") == "cast" and n.get("ck") == "PointerToIntegral" and not gen:
                ctx.oblige(R1, ctx.where(f, n.get("l")), None, "an address is used as a number")
            if n.get("k") == "range":
                nit += 1
                t = rtype(n)
                if t:
                    order(ctx, f, n, t)
            if n.get("k") == "call" and c and c.rsplit("::", 1)[-1] in ("begin", "cbegin") and n.get("o"):
                nit += 1
                order(ctx, f, n, n["o"].get("t", ""))
        for n in outside_static([f["body"], f.get("inits", [])]):
            c = callee(n)
            if n.get("k") in ("call", "ctor") and c in TIME:
                fresh[k] = (k, n.get("l"), c)
    # fresh times propagate to callers, except through static initialisers
    changed = True
    while changed:
        changed = False
        for k in seen:
            f = prog.functions.get(k)
            if k in fresh or not f or "body" not in f:
                continue
            for n in outside_static([f["body"], f.get("inits", [])]):
                hit = [m for m in keys(n) if m in fresh]
                if hit:
                    fresh[k] = fresh[hit[0]]
                    changed = True
                    break
    ctx.extra["calls_examined"] = ncalls
    ctx.extra["iterations_examined"] = nit
    nt = sum(1 for k in seen for n in walk((prog.functions.get(k) or {}).get("body")) if callee(n) in TIME)
    ctx.extra["reads_of_the_clock"] = nt
    if main["key"] in fresh:
        k, line, c = fresh[main["key"]]
        f = prog.functions[k]
        # does it reach the output?
        shown_ = writes_time(ctx)
        ctx.oblige(R2, ctx.where(f, line), False if shown_ else None, "%s is called each time, not once for the run" % c)
    else:
        ctx.oblige(R2, ctx.where(main), True)
    ctx.oblige(R1, ctx.where(main), True)
    statics(ctx, prog, seen)
    flags(ctx)


def rtype(n):
    v = n.get("r")
    return v.get("t") if isinstance(v, dict) else None


def order(ctx, f, n, t):
    t = t.replace("const ", "")
    cls = base_type(t).split("<")[0]
    w = ctx.where(f, n.get("l"))
    if cls in SEEDED:
        ctx.oblige(R1, w, False, "iterates over a %s, whose order changes from run to run" % cls)
    elif cls in PTRKEY:
        a = split(t)
        if a and (a[0].rstrip().endswith("*") or a[0].startswith(("std::unique_ptr", "std::shared_ptr"))):
            cmp_ = [x for x in a[1:] if not x.startswith(("std::less", "std::allocator", "std::equal_to", "std::hash", a[0]))]
            ctx.oblige(R1, w, None if len(cmp_) > (1 if "map" in cls else 0) else False, "iterates over a %s keyed by address" % cls)
        else:
            ctx.oblige(R1, w, True)


def split(t):
    i = t.find("<")
    if i < 0:
        return []
    d, cur, out = 0, "", []
    for c in t[i + 1:t.rfind(">")]:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def writes_time(ctx):
    for n, fn, eng, ex, st in c_ps.psfuncs(ctx):
        for p in st:
            for x in p.parts:
                if any(istime(t) for t in closure(eng, pieces(x))):
                    return True
    return False


def istime(t):
    return t.op == "call" and isinstance(t.a[0], str) and t.a[0] in TIME or t.op == "init" and "static:" in repr(t) and False


def statics(ctx, prog, seen):
    """static variables that hold a time are not assigned after their initialisation"""
    held = {}
    for k in seen:
        f = prog.functions.get(k)
        for n in walk((f or {}).get("body")):
            if n.get("static") and "i" in n and n.get("id"):
                todo, ks = [n["i"]], set()
                while todo:
                    b = todo.pop()
                    for m in walk(b):
                        if callee(m) in TIME:
                            held[n["id"]] = (f, n)
                        for q in keys(m):
                            if q in prog.functions and q not in ks:
                                ks.add(q)
                                todo.append(prog.functions[q].get("body"))
    for id_, (f, n) in held.items():
        bad = None
        if not n.get("t", "").startswith("const"):
            for k in seen:
                g = prog.functions.get(k)
                for m in walk((g or {}).get("body")):
                    t = None
                    if m.get("k") == "asg":
                        t = m.get("lhs")
                    elif m.get("k") == "call" and (m.get("f") or {}).get("op") in ("=", "+=") or callee(m) and callee(m).endswith("::operator="):
                        t = m.get("o") or (m.get("a") or [None])[0]
                    if isinstance(t, dict) and t.get("id") == id_:
                        bad = (g, m.get("l"))
        ctx.oblige(R2, ctx.where(*(bad or (f, n.get("l")))), bad is None, "the time kept in %s is changed" % n.get("n"))
    ctx.extra["static_times"] = len(held)


def flags(ctx):
    for n, fn, eng, ex, st in c_ps.psfuncs(ctx):
        if n != "PageHeader":
            continue
        ps_ = [i for i, p in enumerate(fn["params"]) if p["tt"] in ("int", "unsigned int", "long", "unsigned long", "std::size_t")]
        nums = [param(fn, i) for i in ps_]
        bystate = {}
        order_ = []
        for p in st:
            if p.loop is not None:
                toks, holes, prob = c_ps.scan(ctx, fn, p)
                if any(c == "string" for c, h in holes):
                    ctx.undecide("%s: a string is written in a loop" % ctx.where(fn, p.line))
                    return
                continue
            if id(p.st) not in bystate:
                order_.append(p.st)
            bystate.setdefault(id(p.st), []).append(p)
        for x in ex:
            if id(x.st) not in bystate:
                order_.append(x.st)
        for s in order_:
            time_ = page = total = False
            dunno = False
            for p in bystate.get(id(s), []):
                toks, holes, prob = c_ps.scan(ctx, fn, p)
                if prob:
                    dunno = True
                for c, h in holes:
                    if c != "string":
                        continue
                    cl = closure(eng, [h])
                    time_ = time_ or any(istime(t) or t.op == "init" and "static:" in repr(t) for t in cl)
                    page = page or any(t in nums for t in cl)
                    total = total or all(t in cl for t in nums)
            w = ctx.where(fn, (bystate.get(id(s)) or [None])[-1].line if bystate.get(id(s)) else None)
            if vacuous(s):
                continue
            for flag, has, what in (("timestamp", time_, "the time"), ("number_pages", page, "the page number")):
                v = known(s, flag)
                if dunno:
                    ctx.oblige(R3, w, None, "what is written is not understood")
                elif v is None:
                    used = any(mentions(f, lambda t: t.op == "flag" and flag in repr(t)) for f in s.facts)
                    ctx.oblige(R3, w, None if used else False, "%s is %s whatever --%s says" % (what, "printed" if has else "left out", flag), describe(s))
                else:
                    ctx.oblige(R3, w, has == v, "with --%s %s is %s" % (flag if v else "no" + flag, what, "printed" if has else "not printed"), describe(s))
            if page:
                ctx.oblige("the page number is shown with the number of pages", w, total, "the page number is printed without the number of pages")


def vacuous(s):
    """text that is known to be non-empty is assumed empty on this path"""
    for f, v in s.facts.items():
        if v and f.op == "eq" and f.a[1] is I(0) and f.a[0].op == "+" and mentions(f.a[0], lambda t: t.op == "size"):
            return True
        if v and f.op == "eq" and f.a[1] is I(0) and f.a[0].op == "size" and istime(f.a[0].a[0]):
            return True
    return False


def known(s, flag):
    for f, v in s.facts.items():
        if f.op == "bcall" and f.a[0].op == "flag" and repr(f.a[0].a[0]).strip("'\"") == flag:
            return v
    return None
