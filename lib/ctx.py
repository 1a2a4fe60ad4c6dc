"""Runner of the checks: turns /repo into analysable facts and collects the verdicts."""
import concurrent.futures
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
import engine  # noqa: E402
from engine import Engine, Program, Undecided, Budget  # noqa: E402

CLANGINC = "/usr/lib/llvm-18/lib/clang/18/include"


class Broken(Exception):
    """The tree cannot be analysed at all (does not parse, an anchor is gone)."""


def exporter():
    """Build the syntax tree exporter when it is missing or out of date."""
    src = os.path.join(VERIF, "tool", "exporter.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build")
    out = os.path.join(d, "astfacts-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    inc = "/usr/lib/llvm-18/include"
    tmp = out + ".%d" % os.getpid()
    cmd = ["g++", "-O1", "-std=c++17", "-fno-rtti", "-I" + inc, "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           "-L/usr/lib/x86_64-linux-gnu", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if r.returncode:
        raise Broken("the exporter does not build:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def flags(gen, repo):
    return ["-std=c++17", "-fexceptions", "-DEIGEN_INITIALIZE_MATRICES_BY_ZERO", "-I" + os.path.join(VERIF, "shim"),
            "-I" + repo, "-I" + gen, "-I/usr/include/eigen3", "-I" + CLANGINC, "-w"]


class Tree(object):
    """One checkout, its generated scanner and parser, and the facts exported from it."""

    def __init__(self, repo):
        self.repo = repo
        self.src = os.path.join(repo, "stl-to-ps")
        self.tmp = tempfile.mkdtemp(prefix="verif-")
        self.gen = os.path.join(self.tmp, "gen")
        os.makedirs(os.path.join(self.gen, "stl-to-ps"))
        self.prog = None
        self.bison_out = ""
        self.flex_out = ""

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.repo, *p)

    def text(self, rel):
        with open(self.path(rel), errors="surrogateescape") as f:
            return f.read()

    def tool(self, cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, cwd=self.tmp)
        return r.returncode, r.stdout

    def generate(self):
        g = os.path.join(self.gen, "stl-to-ps")
        rc, o = self.tool(["bison", "--defines=" + g + "/parser.tab.h", "--report=none", "--xml=" + self.tmp + "/parser.xml",
                           "-Wcounterexamples", "-o", g + "/parser.tab.cc", self.path("stl-to-ps/parser.y")])
        self.bison_out = o
        if rc:
            raise Broken("bison rejects parser.y:\n" + o[-2000:])
        rc, o = self.tool(["flex", "--header-file=" + g + "/lexer.yy.h", "-o", g + "/lexer.yy.cc", self.path("stl-to-ps/lexer.l")])
        self.flex_out = o
        if rc:
            raise Broken("flex rejects lexer.l:\n" + o[-2000:])

    def units(self):
        u = []
        for f in sorted(glob.glob(os.path.join(self.src, "*.cc"))):
            b = os.path.basename(f)
            if b.endswith("_test.cc") or b == "test_main.cc":
                continue
            u.append((b[:-3], f))
        for n in ("parser.tab", "lexer.yy"):
            u.append((n, os.path.join(self.gen, "stl-to-ps", n + ".cc")))
        return u

    def export(self, only=None):
        exe = exporter()
        units = [(n, f) for n, f in self.units() if only is None or n in only]

        def one(nf):
            n, f = nf
            out = os.path.join(self.tmp, n + ".json")
            r = subprocess.run([exe, out, self.repo + ":" + self.gen, f, "--"] + flags(self.gen, self.repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if not os.path.exists(out):
                raise Broken("%s cannot be exported:\n%s" % (f, r.stdout[-2000:]))
            d = json.load(open(out))
            if d.get("errors"):
                raise Broken("%s does not compile:\n%s" % (f, r.stdout[-2000:]))
            return n, d
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            js = list(ex.map(one, units))
        return Program(js)


# what makes the analysis of one function stop without stopping the check
GIVEUP = (Undecided, RecursionError) if os.environ.get("VERIF_DEBUG") else (Exception,)


def gaveup(x):
    if isinstance(x, Undecided):
        return str(x)
    tb = traceback.extract_tb(x.__traceback__)
    return "%s: %s (%s:%s)" % (type(x).__name__, str(x)[:200], os.path.basename(tb[-1].filename) if tb else "?", tb[-1].lineno if tb else 0)


class Ctx(object):
    def __init__(self, pid, tier, tree):
        self.pid = pid
        self.tier = tier
        self.tree = tree
        self.prog = None
        self.violations = []
        self.undecided = []
        self.obligations = []     # (rule, where, status)
        self.functions = set()
        self.npaths = 0
        self.nloops = 0
        self.steps = 0
        self.rules = []
        self.assumed = set()
        self.seen = set()
        self.extra = {}

    # -- facts
    def load(self, only=None):
        if self.prog is None:
            if self.tree.prog is None:
                self.tree.generate()
                self.tree.prog = self.tree.export(only)
            self.prog = self.tree.prog
        return self.prog

    def fns(self, q, pred=None):
        return [f for f in self.prog.find(q, pred) if "body" in f]

    def fn(self, q, pred=None):
        r = self.fns(q, pred)
        if not r:
            raise Broken("no definition of %s was found" % q)
        return r[0]

    def engine(self, contracts=None, budget=20000000, **opt):
        e = Engine(self.prog, budget)
        e.contracts = contracts or {}
        for k, v in opt.items():
            setattr(e, k, v)
        return e

    def run(self, fn, contracts=None, setup=None, boolret=True, hooks=(), **opt):
        """-> (engine, exits) or (engine, None) when the body is beyond the rules"""
        eng = self.engine(contracts, **opt)
        eng.hooks = list(hooks)
        try:
            r = eng.run(fn, setup=setup, boolret=boolret)
        except GIVEUP as x:
            self.undecide("%s: %s" % (self.where(fn), gaveup(x)))
            r = None
        self.account(eng, r)
        return eng, r

    def account(self, eng, exits):
        self.functions |= set(eng.calls_inlined)
        self.steps += eng.steps
        self.nloops += len(eng.loops)
        self.npaths += len(exits or ())
        for o in eng.opaque:
            self.assumed.add("no model for %s: its result is unconstrained" % o if not o.startswith("virtual") else o)

    # -- verdicts
    def where(self, fn, line=None):
        if fn is None:
            return "?"
        f = fn.get("file", "?")
        if f.startswith(self.tree.repo):
            f = os.path.relpath(f, self.tree.repo)
        elif f.startswith(self.tree.gen):
            f = os.path.relpath(f, self.tree.gen)
        ln = line if line is not None else fn.get("loc", ":?").rsplit(":", 1)[1]
        return "%s:%s (%s)" % (f, ln, fn["q"])

    def violation(self, rule, where, msg, detail=None):
        k = (rule, where, msg)
        if k in self.seen:
            return
        self.seen.add(k)
        self.violations.append({"rule": rule, "where": where, "what": msg, "detail": detail or []})

    def undecide(self, msg):
        if msg not in self.undecided:
            self.undecided.append(msg)

    def oblige(self, rule, where, ok, msg="", detail=None):
        """ok: True discharged, False violated, None undecided"""
        self.obligations.append((rule, where, ok))
        if ok is False:
            self.violation(rule, where, msg, detail)
        elif ok is None:
            self.undecide("%s at %s: %s" % (rule, where, msg))
        return ok

    def rule(self, text):
        self.rules.append(text)


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(l)
    return out


def evidence(ctx, t0, status):
    ob = ctx.obligations
    d = {
        "property": ctx.pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: " + " ".join(ctx.rules),
            "obligations": len(ob), "discharged": sum(1 for o in ob if o[2] is True),
            "violated": sum(1 for o in ob if o[2] is False), "undecided": len(ctx.undecided),
            "functions_analysed": len(ctx.functions), "paths": ctx.npaths, "loops_solved": ctx.nloops, "transfer_steps": ctx.steps,
            "functions": sorted("%s" % ctx.where(ctx.prog.functions[k]) for k in ctx.functions if ctx.prog and k in ctx.prog.functions)[:80],
            "samples": sorted({"%s @ %s: %s" % (o[0], o[1], {True: "holds", False: "BROKEN", None: "undecided"}[o[2]]) for o in ob})[:60],
            "undecided_items": ctx.undecided[:40],
            "status": status,
        },
        "assumptions": sorted(ctx.assumed)[:40] + [
            "library models in lib/models.py (containers, strings, streams, Eigen, absl) and contracts in lib/specs.py",
            "exceptions thrown by the standard library (out of memory) are not followed"],
        "wall_s": round(time.time() - t0, 3), "violations": len(ctx.violations),
    }
    d["coverage"].update(ctx.extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def partial(ctx, msg):
    """The check stopped part of the way: what it decided until then stands, the rest is undecided.  No answer when it decided nothing."""
    if not any(o[2] is True for o in ctx.obligations):
        return msg, 2
    ctx.undecide(msg)
    return "held on everything decided (stopped early)", 0


def main(pid, check, tier):
    t0 = time.time()
    engine.DEADLINE[0] = time.monotonic() + 600
    tree = Tree(REPO)
    ctx = Ctx(pid, tier, tree)
    try:
        try:
            check(ctx)
            status = "violated" if ctx.violations else "held on everything decided"
            rc = 1 if ctx.violations else 0
        except Broken as x:
            print("ERROR %s: %s" % (pid, x))
            status, rc = partial(ctx, "error: %s" % x)
        except Exception as x:
            traceback.print_exc()
            status, rc = partial(ctx, "internal error: " + gaveup(x))
        if ctx.violations and rc == 2:
            rc = 1
        new = 0
        known = known_findings()
        rep = os.path.join(VERIF, "evidence", pid + ".replay.txt")
        if os.path.exists(rep):
            os.remove(rep)
        lines = []
        for v in ctx.violations:
            line = "%s: %s: %s" % (v["where"], v["rule"], v["what"])
            k = [f for f in known if ("property=" + pid + " ") in f + " " and f.split("match=", 1)[-1].strip() in line]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, line))
                continue
            new += 1
            lines.append(line)
            lines.extend("    " + str(x) for x in v["detail"])
            print("  " + line)
        for u in ctx.undecided:
            print("  undecided: " + u)
        if new:
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, "w") as f:
                f.write("\n".join(lines) + "\n")
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rep, VERIF)))
            rc = 1
        elif ctx.violations:
            rc = 0
        evidence(ctx, t0, status)
        print("%s: %s (%d obligations, %d violations, %d undecided, %.1fs)" % (
            pid, status, len(ctx.obligations), new, len(ctx.undecided), time.time() - t0))
        return rc
    finally:
        tree.close()
