#!/usr/bin/env python3
"""Driver: check.py <property id> [quick|thorough]

Rebuilds the analyser if needed, compiles /repo's current tree to MIR, runs the
roots and rules registered for the property in parallel, climbs the precision
ladder for what stays undischarged, and writes evidence/<id>.json."""
import json, os, subprocess, sys, time, re, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from config import PROPS, LADDER, TRUSTED, ROOT_OPTS, SHARDS, ROOT_LADDER, COST

TGT = os.path.join(HERE, "harness", "target")
TOOL = os.path.join(HERE, "tool", "target", "release", "linerlint")
RUSTFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Awarnings"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LL_") or k.startswith("CARGO_PKG") or k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e

def die(msg):
    print("check error: " + msg)
    sys.exit(2)

def build_tool(env):
    e = dict(env)
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "tool", "target")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=os.path.join(HERE, "tool"), env=e)
    if r.returncode != 0:
        die("the analyser does not build\n" + r.stdout[-3000:])

def compile_repo(env):
    """cargo check of /repo (and its dependencies) with MIR for every function; captures the harness's rustc command"""
    e = dict(env)
    e.update(CARGO_TARGET_DIR=TGT, RUSTFLAGS=RUSTFLAGS, RUSTC_WRAPPER=TOOL, LL_CAPTURE=os.path.join(TGT, "capture"))
    os.makedirs(TGT, exist_ok=True)
    for f in ("capture", "capture.env"):
        p = os.path.join(TGT, f)
        if os.path.exists(p):
            os.remove(p)
    # never trust cargo's freshness of the two crates under analysis
    sh(["cargo", "+nightly", "clean", "--offline", "-p", "redox_liner", "-p", "harness"], cwd=os.path.join(HERE, "harness"), env=e)
    r = sh(["cargo", "+nightly", "check", "--offline"], cwd=os.path.join(HERE, "harness"), env=e)
    cap = os.path.join(TGT, "capture")
    if r.returncode != 0 or not os.path.exists(cap):
        die("/repo does not compile with the harness\n" + r.stdout[-4000:])
    args = open(cap).read().split("\n")[:-1]
    e2 = dict(env)
    for l in open(cap + ".env").read().split("\n"):
        if "=" in l:
            k, v = l.split("=", 1)
            e2[k] = v
    return args, e2

def run_root(args, env, root, lim, deadline, tag, cases=None):
    """one root; heavy ones are split over several processes by case"""
    n = SHARDS.get(root, 1)
    if cases is not None and len(cases) > 1:
        n = min(8, len(cases))
    if n == 1 or cases is not None and len(cases) <= 1:
        return run_one(args, dict(env, LL_CASES=cases[0]) if cases else env, root, lim, deadline, tag)
    def part(i):
        if cases is not None:
            return dict(env, LL_CASES=",".join(cases[i::n]))
        return dict(env, LL_SHARD="%d/%d" % (i, n))
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda i: run_one(args, part(i), root, lim, deadline, "%s_%d" % (tag, i)), range(n)))
    ok = [r for r in rs if not r["crashed"]]
    if not ok:
        return rs[0]
    res = ok[0]
    res["timed_out"] = res["timed_out"] or len(ok) < len(rs)
    for r in ok[1:]:
        res["wall"] = max(res["wall"], r["wall"])
        res["timed_out"] = res["timed_out"] or r["timed_out"]
        for k in ("blocks", "joins", "calls", "cases"):
            res[k] += r[k]
        for k, v in r["oblig"].items():
            o = res["oblig"].get(k, [0, 0, 0])
            res["oblig"][k] = [a + b for a, b in zip(o, v)]
        res["per_case"].update(r["per_case"])
        have = {x["key"]: x for x in res["reports"]}
        for x in r["reports"]:
            if x["key"] in have and have[x["key"]]["prop"] == x["prop"]:
                have[x["key"]]["n"] += x["n"]
            else:
                res["reports"].append(x)
        for k in ("unmodelled", "taint", "nonconv", "contracts"):
            for a, b in r[k].items():
                res[k][a] = res[k].get(a, 0) + b
        for k in ("missing", "funcs"):
            res[k] = sorted(set(res[k]) | set(r[k]))
    return res

GATE = threading.Semaphore(int(os.environ.get("LL_JOBS", "8")))
def run_one(args, env, root, lim, deadline, tag):
    t0 = time.time()
    with GATE:
        return run_one_(args, env, root, lim, int(max(20, deadline - (time.time() - t0))), tag)

def run_one_(args, env, root, lim, deadline, tag):
    out = os.path.join(TGT, "out_%s_%s.json" % (root, tag))
    if os.path.exists(out):
        os.remove(out)
    a = list(args)
    od = os.path.join(TGT, "mt_%s_%s" % (root, tag))
    os.makedirs(od, exist_ok=True)
    for i in range(len(a)):
        if a[i] == "--out-dir":
            a[i + 1] = od
        elif a[i].startswith("--emit="):
            a[i] = "--emit=metadata"
        elif a[i].startswith("incremental="):
            a[i] = "incremental=" + os.path.join(od, "inc")
    e = dict(env)
    e.update(LL_ROOTS=root, LL_LIM=lim, LL_OUT=out, LL_DEADLINE=str(deadline))
    e.update(ROOT_OPTS.get(root, {}))
    t0 = time.time()
    try:
        r = sh([TOOL] + a, env=e, cwd=os.path.join(HERE, "harness"), timeout=deadline + 60)
        msg = r.stdout[-2000:]
    except subprocess.TimeoutExpired:
        msg = "killed after the deadline"
    res = {"root": root, "lim": lim, "wall": round(time.time() - t0, 2), "crashed": True, "msg": msg}
    if os.path.exists(out):
        try:
            res.update(json.load(open(out)))
            res["crashed"] = False
        except Exception as x:
            res["msg"] = str(x)
    subprocess.run(["rm", "-rf", od])
    return res

def relevant(prop, key):
    return key.split(" ", 1)[0] in PROPS[prop].get("kinds", [prop])

def run_reach(args, env):
    """the call graph of the current tree from the reach_* roots"""
    out = os.path.join(TGT, "reach.json")
    if os.path.exists(out):
        os.remove(out)
    r = run_one_(args, dict(env, LL_REACH=out), "reach", "1,1,1", 300, "reach")
    if not os.path.exists(out):
        die("no call graph\n" + r["msg"])
    return json.load(open(out))

def path_to(g, start, hit):
    """breadth first from start: for every node that satisfies hit, the call chain to it"""
    nodes, seen, q, found = g["nodes"], {start: None}, [start], []
    for n in q:
        if hit(nodes[n]):
            found.append(n)
            continue
        for k, at in nodes[n]["edges"]:
            if k not in seen:
                seen[k] = (n, at)
                q.append(k)
    def chain(n):
        c = []
        while seen[n] is not None:
            m, at = seen[n]
            c.append("%s  (called at %s)" % (nodes[n]["name"], at))
            n = m
        c.append(nodes[n]["name"])
        return c[::-1]
    return seen, [(n, chain(n)) for n in found]

def reach_rules(rules, args, env):
    """-> (violations, obligations, instances, functions, undecided, missing)"""
    g = run_reach(args, env)
    viol, ob, inst, funcs, und, missing = [], [], 0, set(), [], []
    for r in rules:
        starts = [r["from"]] if "from" in r else [r["sub"], r["of"]]
        if any(x not in g["roots"] for x in starts):
            missing.append("reach rule %s: no root" % r["what"])
            continue
        if "forbid" in r:
            pats = [re.compile(p) for p in r["forbid"]]
            allow = [re.compile(p) for p in r.get("allow", [])]
            def hit(n):
                return any(p.search(n["def"]) or p.search(n["name"]) for p in pats) and not any(p.search(n["def"]) or p.search(n["name"]) for p in allow)
            seen, found = path_to(g, g["roots"][r["from"]], hit)
            fs = {g["nodes"][n]["name"] for n in seen if "liner::" in g["nodes"][n]["def"]}
            funcs |= fs
            inst += len(seen)
            ob += [("reach", "%s: %s" % (r["what"], f)) for f in sorted(fs)]
            if len(fs) < r.get("min", 1):
                missing.append("reach rule %s: only %d functions" % (r["what"], len(fs)))
            for n, c in found:
                viol.append(("reach:" + r["from"], "%s: %s is reached" % (r["what"], g["nodes"][n]["name"]), "\n  calls ".join(c)))
        else:
            fields = []
            for x in starts:
                seen, _ = path_to(g, g["roots"][x], lambda n: False)
                fields.append({f: n for n in seen for f in g["nodes"][n]["fields"]})
                funcs |= {g["nodes"][n]["name"] for n in seen if "liner::" in g["nodes"][n]["def"]}
                inst += len(seen)
            sub, of = fields
            if not sub:
                missing.append("reach rule %s: no field" % r["what"])
            for f, n in sorted(sub.items()):
                ob.append(("reach", "%s: %s" % (r["what"], f)))
                if f not in of:
                    _, found = path_to(g, g["roots"][r["sub"]], lambda x: f in x["fields"])
                    viol.append(("reach:" + r["sub"], "%s: %s is hashed but not compared" % (r["what"], f), "\n  calls ".join(found[0][1]) if found else ""))
    return viol, ob, inst, funcs, und, missing

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        env = base_env()
        build_tool(env)
        compile_repo(env)
        print("setup done")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in PROPS:
        die("unknown property " + prop)
    conf = PROPS[prop]
    t0 = time.time()
    env = base_env()
    build_tool(env)
    args, env = compile_repo(env)
    roots = list(conf["roots"]) + (list(conf.get("thorough_roots", [])) if tier == "thorough" else [])
    ladder = conf.get("ladder", LADDER)[tier]
    budget = conf.get("budget", {"quick": 400, "thorough": 780})[tier]
    known = load_known()
    accepted = conf.get("undecided", [])
    status = {}   # root -> {"keys": set failing, "reports": {...}, runs: []}
    todo = list(roots)
    again = {}   # root -> the cases to look at again
    runs = []
    for step in range(max([len(ROOT_LADDER.get(r, ladder)) for r in roots] + [0])):
        # what is open after the first pass is worth more time than the first pass
        left = (budget if step == 0 else max(budget, 760)) - (time.time() - t0)
        if not todo or left < 20:
            break
        lim = {r: ROOT_LADDER.get(r, ladder) for r in todo}
        todo = sorted((r for r in todo if step < len(lim[r])), key=lambda r: -COST.get(r, 0))
        with ThreadPoolExecutor(64) as ex:
            rs = list(ex.map(lambda r: run_root(args, env, r, lim[r][step], int(max(20, left)), str(step), again.get(r)), todo))
        nxt = []
        for r in rs:
            runs.append(r)
            s = status.setdefault(r["root"], {"cases": None, "reports": {}, "done": False})
            if r["crashed"]:
                continue
            if s["cases"] is None:
                s["cases"] = {}
            if r["root"] not in again and not r["timed_out"]:
                s["done"] = True
            for x in r["reports"]:
                if x["prop"] in conf.get("kinds", [prop]):
                    s["reports"][x["key"]] = x
            for c, (done, fail, und) in r["per_case"].items():
                fail = {k.split(" ", 1)[1] for k in fail if relevant(prop, k)}
                und = {k.split(" ", 1)[1] for k in und if relevant(prop, k)}
                o = s["cases"].get(c)
                if o is None:
                    s["cases"][c] = {"fail": fail, "und": und, "levels": 1 if done else 0}
                elif done:
                    # what more precision proves is proven
                    new = (o["fail"] | o["und"]) if o["levels"] else (fail | und)
                    o["und"] = {k for k in new & (fail | und) if k in und or k not in fail}
                    o["fail"] = (new & fail) - o["und"]
                    o["levels"] += 1
            # what is listed as known or as not decided is not looked at again
            def listed(c, k):
                ident = "%s@%s: %s" % (r["root"], c, k)
                return any(re.search(p, ident) for p in accepted) or any(x["property"] == prop and x["root"] == r["root"] and x["key"] == k and (x["case"] is None or re.fullmatch(x["case"], c)) for x in known)
            again[r["root"]] = sorted(c for c, o in s["cases"].items() if o["levels"] == 0 or any(not listed(c, k) for k in o["fail"] | o["und"]))
            if again[r["root"]] or not s["done"]:
                nxt.append(r["root"])
            if not s["done"]:
                again.pop(r["root"], None)
        todo = nxt
    # verdict
    viol, kf, und, acc = [], [], [], []
    missing = []
    for root, s in status.items():
        if s["cases"] is None:
            und.append("%s: the analysis gave no result" % root)
            continue
        seenk = set()
        for c, o in sorted(s["cases"].items()):
            for k in sorted(o["fail"]):
                ident = "%s@%s: %s" % (root, c, k)
                kn = [x for x in known if x["property"] == prop and x["root"] == root and x["key"] == k and (x["case"] is None or re.fullmatch(x["case"], c))]
                if kn:
                    kf.append((ident, kn[0]))
                elif any(re.search(p, ident) for p in accepted):
                    acc.append(ident)
                elif o["levels"] < min(2, len(ROOT_LADDER.get(root, ladder))):
                    und.append(ident)
                elif k not in seenk:
                    seenk.add(k)
                    viol.append((root, k, "case %s\n%s" % (c, s["reports"].get(k, {}).get("text", ""))))
            und += ["%s@%s: %s" % (root, c, u) for u in sorted(o["und"])]
        if not s["done"]:
            und.append("%s: not finished within the time budget" % root)
    oblig = set()
    failedk = set()
    npaths = 0
    funcs = set()
    unm, nonconv, contracts, taints = {}, {}, {}, {}
    for r in runs:
        if r["crashed"]:
            continue
        for k, v in r["oblig"].items():
            if relevant(prop, k):
                oblig.add((r["root"], k))
                npaths += v[0] + v[1] + v[2]
        funcs |= set(f for f in r["funcs"] if "liner::" in f)
        for d, n in (("unmodelled", unm), ("nonconv", nonconv), ("contracts", contracts), ("taint", taints)):
            for k, c in r[d].items():
                n[k] = n.get(k, 0) + c
        missing += ["%s: %s" % (r["root"], m) for m in r["missing"]]
    if conf.get("reach"):
        rv, rob, rinst, rfuncs, _, rmiss = reach_rules(conf["reach"], args, env)
        viol += rv
        oblig |= set(rob)
        npaths += rinst
        funcs |= rfuncs
        missing += rmiss
        und += rmiss
    n_ob = len(oblig)
    # a root that gave no answer is undecided, which is said above; it is not a missing anchor
    noans = any(x["cases"] is None for x in status.values()) or any(r["crashed"] or r["timed_out"] for r in runs)
    if n_ob < conf.get("floor", 1) and not noans:
        viol.append(("driver", "too few obligations were generated (%d < %d): the anchors of this property were not found" % (n_ob, conf.get("floor", 1)), "\n".join(missing + [r["root"] + ": " + r.get("msg", "") for r in runs if r["crashed"]])))
    n_bad = len(viol) + len(kf) + len(acc)
    n_und = len(set(und))
    discharged = max(0, n_ob - n_bad - len({u.split("@")[0] + u.split(": ", 1)[1] for u in und if "@" in u}))
    wall = round(time.time() - t0, 2)
    level = conf["level"]
    cov = {
        "obligations": n_ob,
        "discharged": discharged,
        "checker_cmd": "python3 check.py %s %s" % (prop, tier),
        "trusted_base": TRUSTED,
        "obligation_instances": npaths,
        "roots": [{"root": r["root"], "limits": r["lim"], "wall_s": r["wall"], "blocks": r.get("blocks"), "joins": r.get("joins"), "calls": r.get("calls"), "crashed": r["crashed"], "timed_out": r.get("timed_out")} for r in runs],
        "functions_analysed": sorted(funcs),
        "obligation_keys": sorted("%s: %s" % o for o in oblig)[:400],
        "undecided": sorted(set(und)),
        "undecided_on_the_reference_tree": sorted(set(acc)),
        "known_findings": [a for a, b in kf],
        "unmodelled": unm, "not_converged": nonconv, "contracts_used": contracts, "taint_sources": taints,
        "missing_anchors": missing,
        "explanation": conf["rule"],
        "rule": conf["rule"],
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov, "wall_s": wall, "violations": len(viol), "assumptions": conf.get("assumptions", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d obligations (%d instances) in %d roots, %d functions, %d violations, %d known, %d undecided, %.1f s" % (prop, tier, n_ob, npaths, len(status), len(funcs), len(viol), len(kf), len(set(und)) + len(acc), wall))
    for m in sorted(set(missing))[:10]:
        print("  missing anchor: " + m)
    seen = set()
    for ident, kn in kf:
        if kn["what"] not in seen:
            seen.add(kn["what"])
            print("KNOWN-FINDING: property=%s %s" % (prop, kn["what"]))
    if viol:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for root, k, text in viol:
            h = hashlib.sha1((root + k).encode()).hexdigest()[:10]
            p = os.path.join(d, "%s_%s.txt" % (prop, h))
            with open(p, "w") as f:
                f.write("property %s\nroot/rule: %s\nobligation: %s\n\n%s\n\nTo re-run the analysis of this root: LL root %s, command python3 check.py %s\n" % (prop, root, k, text, root, prop))
            print("  %s: %s" % (root, k))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    sys.exit(0)

def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        if l.startswith("known: "):
            # known: property=<id> root=<root>[@<cases>] key=<key> || <what fails>
            m = re.match(r"known: property=(\S+) root=([^@\s]+)(?:@(\S+))? key=(.*?) \|\| (.*)$", l)
            if m:
                out.append({"property": m.group(1), "root": m.group(2), "case": m.group(3), "key": m.group(4), "what": m.group(5)})
    return out

if __name__ == "__main__":
    main()
