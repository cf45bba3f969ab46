#!/usr/bin/env python3
# seed_edit.py ID PROP < spec : spec is a python dict with edits [(file, old, new)], needs, breaks
import sys, os, subprocess, json, shutil, tempfile
sid, prop = sys.argv[1:3]
spec = eval(sys.stdin.read())
here = "/verif/seeded/" + sid
os.makedirs(here, exist_ok=True)
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x" % (w, w), shell=True)
for f, a, b in spec["edits"]:
    p = w + "/amelie/" + f
    s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
d = subprocess.check_output(["git", "-C", w, "diff"], text=True)
open(here + "/patch.diff", "w").write(d)
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(here + "/meta.json", "w"), indent=1)
if "demo" in spec: open(here + "/demo.c", "w").write(spec["demo"])
if "ldflags" in spec: open(here + "/ldflags", "w").write(spec["ldflags"])
for f in spec.get("files", []): shutil.copy(f, here)
shutil.rmtree(w)
