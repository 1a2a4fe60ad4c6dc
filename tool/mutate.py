#!/usr/bin/env python3
"""Development aid: run the checks against edited copies of /repo.

mutate.py [-c C01,C02] [-m substring] : every edit listed in tool/mutants.py, one copy of the tree each.
Each edit names the checks that must report it ([] for an edit that keeps the behaviour)."""
import argparse, concurrent.futures, contextlib, io, os, shutil, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "lib"), os.path.join(HERE, "..", "checks"), HERE]
sys.setrecursionlimit(20000)
import pickle
os.environ['VERIF_DEBUG'] = '1'
import ctx as C
import index
import mutants


def run_one(tree, pid, q):
    buf = io.StringIO()
    c = C.Ctx(pid, "quick", tree)
    try:
        index.CHECKS[pid](c)
        rc = 1 if c.violations else 0
        txt = "".join("\n      V %s: %s: %s" % (v["where"], v["rule"], v["what"]) for v in c.violations[:4]) + \
            "".join("\n      U %s" % u for u in c.undecided[:4])
    except BaseException as x:
        import traceback
        rc, txt = 2, "".join("\n      E " + l for l in traceback.format_exc().splitlines()[-4:])
    pickle.dump((pid, rc, txt, len(c.obligations)), open(q, "wb"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-c")
    ap.add_argument("-m")
    ap.add_argument("-s", help="start at the edit of this name")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="run every check on every edit, not only those of -c")
    ap.add_argument("-j", type=int, default=1, help="edits tried at a time")
    a = ap.parse_args()
    ids = a.c.split(",") if a.c else sorted(index.CHECKS)
    on = False
    part, nth = 0, -1
    if a.j > 1:
        kids = []
        for part in range(a.j):
            k = os.fork()
            if k == 0:
                break
            kids.append(k)
        else:
            for k in kids:
                os.waitpid(k, 0)
            return
    for name, edits, want in mutants.MUTANTS:
        if a.s and not on and a.s != name:
            continue
        on = True
        if a.m and a.m not in name:
            continue
        if a.c and not a.m and not a.all and want and not set(want) & set(ids):
            continue
        nth += 1
        if a.j > 1 and nth % a.j != part:
            continue
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree(C.REPO, d + "/r", ignore=shutil.ignore_patterns(".git"))
            bad = None
            for rel, old, new in edits:
                p = os.path.join(d, "r", "stl-to-ps", rel)
                s = open(p).read()
                if s.count(old) < 1:
                    bad = "%s: %r not found" % (rel, old[:50])
                    break
                open(p, "w").write(s.replace(old, new, 1))
            if bad:
                print("SKIP %s: %s" % (name, bad))
                continue
            t = C.Tree(d + "/r")
            try:
                try:
                    t.generate()
                    t.prog = t.export()
                except C.Broken as x:
                    print("SKIP %s: %s" % (name, str(x)[-1500:]))
                    continue
                todo = [i for i in ids if a.all or a.c or not want or i in want]
                run = {}
                res = {}
                t0 = time.time()
                while todo or run:
                    while todo and len(run) < 8:
                        pid = todo.pop(0)
                        out = "%s/%s.res" % (d, pid)
                        k = os.fork()
                        if k == 0:
                            try:
                                run_one(t, pid, out)
                            finally:
                                os._exit(0)
                        run[k] = (pid, out)
                    k, status = os.wait()
                    if k in run:
                        pid, out = run.pop(k)
                        try:
                            res[pid] = pickle.load(open(out, "rb"))
                        except OSError:
                            res[pid] = (pid, 2, "\n      E no result, status %d" % status, 0)
                got = {p for p in res if res[p][1] == 1}
                err = {p for p in res if res[p][1] == 2}
                und = {p for p in res if "\n      U" in res[p][2]}
                miss = set(want) & set(ids) - got
                extra = got - set(want)
                ok = not err and (not miss if want else not got)
                print("%s %-40s caught=%s missed=%s also=%s err=%s und=%s (%.0fs)" % (
                    "ok  " if ok else "FAIL", name, ",".join(sorted(got & set(want))), ",".join(sorted(miss)), ",".join(sorted(extra)),
                    ",".join(sorted(err)), ",".join(sorted(und)), time.time() - t0))
                for p in sorted(res):
                    if res[p][2] and (a.v or p in err or (not want and p in got) or (p in und and (p in miss or not want))):
                        print("   %s%s" % (p, res[p][2][:1500]))
                sys.stdout.flush()
            finally:
                t.close()
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
