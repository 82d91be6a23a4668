#!/usr/bin/env python3
"""seed.py <id> <property> <file> : reads OLD/NEW blocks, main.rs and texts from a spec on stdin and creates seeded/<id>/.
spec sections: ===needs / ===breaks / ===file <path> / ===old / ===new / ===main"""
import sys, os, json, subprocess, shutil, tempfile
i, prop = sys.argv[1:3]
spec = sys.stdin.read()
secs = []
for l in spec.split("\n"):
    if l.startswith("==="):
        secs.append([l[3:].strip(), []])
    elif secs:
        secs[-1][1].append(l)
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t), shell=True, check=True)
meta = {"property": prop}
cur = None
old = None
for n, ls in secs:
    b = "\n".join(ls)
    if n == "needs": meta["needs"] = b.strip()
    elif n == "breaks": meta["what_it_breaks"] = b.strip()
    elif n.startswith("file"): cur = n.split()[1]
    elif n == "old": old = b.strip("\n")
    elif n == "new":
        p = os.path.join(t, cur)
        s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, b.strip("\n")))
    elif n == "main": open(d + "/main.rs", "w").write(b)
json.dump(meta, open(d + "/meta.json", "w"), indent=1)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=t, text=True))
shutil.rmtree(t)
