#!/usr/bin/env python3
"""rp.py LIM[;LIM2..] root... : run roots in parallel (one compile), print what is not proven."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.argv, av = [sys.argv[0]], sys.argv
import check
from concurrent.futures import ThreadPoolExecutor
check.TGT = os.environ.get("RP_TGT", "/tmp/ht_rp")
env = check.base_env(); check.build_tool(env)
args, env = check.compile_repo(env)
lims = av[1].split(";")
T = int(os.environ.get("T", "600"))
def go(r):
    out = []
    for l in lims:
        x = check.run_root(args, env, r, l, T, "d" + l.replace(",", "_"))
        if x["crashed"]:
            out.append("== %s [%s] CRASHED %s" % (r, l, x["msg"][-600:])); continue
        fl = [k for k, v in x["oblig"].items() if v[1] > 0]
        ud = [k for k, v in x["oblig"].items() if v[1] == 0 and v[2] > 0]
        ok = len(x["oblig"]) - len(fl) - len(ud)
        s = "== %s [%s] %.1fs proven %d failed %d undecided %d%s" % (r, l, x["wall"], ok, len(fl), len(ud), " TIMEOUT" if x["timed_out"] else "")
        for k in fl: s += "\n   FAIL %s %s" % (k, x["oblig"][k])
        for k in ud: s += "\n   UND  %s %s" % (k, x["oblig"][k])
        for k in ("unmodelled", "nonconv", "missing"):
            if x[k]: s += "\n   %s %s" % (k, x[k])
        out.append(s)
        if not fl and not ud and not x["timed_out"]: break
    print("\n".join(out), flush=True)
with ThreadPoolExecutor(64) as ex: list(ex.map(go, av[2:]))
