#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from tool/seeds.py and tries each one in a scratch copy of /repo.

mkseed.py [-n] [ID...]: -n only writes.  A seed is kept when its demonstration passes without the patch and fails with it and the
repository's own build and tests pass with it."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import seeds


def sh(cmd, cwd, t=280):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
    return r.returncode, r.stdout


def one(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        shutil.copytree("/repo", w + "/r")
        for f, old, new in s["edits"]:
            p = os.path.join(w, "r", "stl-to-ps", f)
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "BAD: %d matches of %r in %s" % (t.count(old), old[:40], f)
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh("git diff", w + "/r")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write("#!/bin/bash\n# %s\n. \"$(dirname \"$0\")/lib.sh\"\n%s\nexit 0\n" % (s["title"], s["demo"].strip()))
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(os.path.join(H, "seed", "lib.sh"), d)
        shutil.copytree(os.path.join(V, "shim"), d + "/shim")
        for n, t in s.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "-n" in sys.argv:
            return s["id"], "written"
        shutil.copytree(d, w + "/d")
        sh("git stash -q", w + "/r")
        a, oa = sh("%s/d/demo.sh" % w, w + "/r")
        sh("git stash pop -q", w + "/r")
        b, ob = sh("%s/d/demo.sh" % w, w + "/r")
        ok = a == 0 and b == 1
        return s["id"], "%s clean=%d patched=%d\n%s%s" % ("ok  " if ok else "BAD ", a, b, "" if a == 0 else oa[-800:], "   " + ob[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [s for s in seeds.SEEDS if not ids or any(s["id"].startswith(i) for i in ids)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, todo):
            print(i, m, flush=True)
