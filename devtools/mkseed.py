#!/usr/bin/env python3
"""mkseed.py <id>: confirm a planted bug (in /repo, undone afterwards) and see whether the check catches it.
seeded/<id>/ holds patch.diff, main.rs (demo program), meta.json; demo.sh is written from a template if absent."""
import json, os, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redox_liner = { path = "$repo" }
[workspace]
E
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" SCRATCH="$d" RUST_BACKTRACE=0
cd "$d" && timeout 250 cargo run --offline -q 2>&1 < /dev/null
'''
def main():
    i = sys.argv[1]
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
    assert sh("git -C /repo status --short").stdout.strip() == "", "repo not clean"
    quick = len(sys.argv) > 2
    r = sh("bash %s/demo.sh" % d, cwd="/repo")
    print("clean demo:", r.returncode, r.stdout[-600:] if r.returncode else "")
    ap = sh("git -C /repo apply %s/patch.diff" % d)
    if ap.returncode:
        print("patch does not apply", ap.stdout); return
    try:
        b = sh("bash /opt/vp/build.sh")
        print("build:", b.returncode, b.stdout[-1500:] if b.returncode else "")
        if b.returncode: return
        if not quick:
            sh("bash /opt/vp/test.sh /tmp/seedt.json")
            base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/seedt.json"))
            def names(x):
                if isinstance(x, dict):
                    for k in ("passed", "pass", "stable", "tests"):
                        if k in x: return set(x[k] if not isinstance(x[k], dict) else [n for n in x[k]])
                return set(x)
            miss = names(base) - names(t)
            print("tests missing:", sorted(miss)[:8], len(names(t)))
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("patched demo:", r.returncode, r.stdout[-300:])
        for p in [meta["property"]] + sys.argv[3:]:
            r = sh("python3 check.py %s" % p, cwd=V)
            print("check", p, r.returncode, r.stdout[-700:])
    finally:
        sh("git -C /repo checkout -- .")
main()
