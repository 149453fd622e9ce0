"""development helper: python3 tools/devunit.py UNIT... : build from /repo and verify, print errors"""
import importlib, os, sys, json
sys.path[:0] = ["/verif/tools", "/verif/units"]
import unit as U
from rsx import Crate
import common
text = common.expand()
crate = Crate(text)
os.makedirs("/verif/.work/dev", exist_ok=True)
canary = "--canary" in sys.argv
for n in [a for a in sys.argv[1:] if not a.startswith("-")]:
    m = importlib.import_module("u_" + n)
    u = m.unit()
    t, where, sk = u.build(crate, canary)
    p = f"/verif/.work/dev/{n}.rs"
    open(p, "w").write(t)
    r = U.verus(p, rlimit=getattr(m, "RLIMIT", 30), threads=8)
    print(n, r["status"], "verified", r["verified"], "failed", r["failed"], "%.1fs" % r["wall"])
    for e in r["errors"][:7]:
        print("  *", e["message"][:400], e["lines"][:3])
        for l in e["lines"][:2]:
            print("       ", l, t.split("\n")[l - 1].strip()[:150], [w[0] for w in where if w[1] <= l <= w[2]])
        for l in e["labels"][:4]:
            print("        ->", l, flush=True)
    if r["status"] == "error": print(r.get("stderr", "")[-1500:] if not r["errors"] else "")
    for f, v in sorted(r.get("functions", {}).items(), key=lambda x: -x[1]["us"])[:5]:
        if v["us"] > 2000000: print("   slow", f, v)
