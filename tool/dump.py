#!/usr/bin/env python3
"""Development aid: dump.py NAME [needle] - the exits of a function. VERIF_REPO chooses the tree."""
import os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "..", "lib"), os.path.join(H, "..", "checks")]
import ctx as C, c_flow, specs
from common import *
t = C.Tree(C.REPO)
c = C.Ctx("X", "quick", t)
try:
    c.load()
finally:
    t.close()
q = sys.argv[1]
for f in c.fns(q):
    if len(sys.argv) > 2 and not any(sys.argv[2] in p["tt"] for p in f["params"]):
        continue
    con = {}
    if os.environ.get("CON", "1") == "1":
        con.update(c_flow.STAGES)
    for k in os.environ.get("DROP", "").split(","):
        con.pop(k, None)
    eng, ex = c.run(f, con)
    print("==", c.where(f), "exits", ex and len(ex), "steps", eng.steps, c.undecided)
    for x in (ex or []):
        if os.environ.get("OKONLY") and not c_flow.succeeded(x):
            continue
        print("-- exit", x.val, "mon", x.st.mon)
        for a, b in x.st.facts.items():
            print("    ", "   " if b else "not", short_(a) if 0 else repr(a)[:300])
        print("   TRACE", repr(x.st.trace)[:1500])
        for r, v in x.st.store.items():
            if r.op in ("P", "D", "G") and v is not mk("init", r):
                print("   ", r, ":=", repr(v)[:3000])
