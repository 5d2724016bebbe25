#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<< python dict {"edits":[(file, old, new),...], "needs":..., "breaks":...}  -> seeded/ID/patch.diff, meta.json
The edit is made in a scratch worktree; nothing in /repo changes."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, pid = sys.argv[1:3]
d = eval(sys.stdin.read())
w = "/tmp/mkseed_%s" % sid
shutil.rmtree(w, True); os.makedirs(w)
out = os.path.join(V, "seeded", sid); os.makedirs(out, exist_ok=True)
patch = ""
subprocess.check_call("git -C /repo archive HEAD " + " ".join(sorted(set(e[0] for e in d["edits"]))) + " | tar x -C " + w, shell=True)
subprocess.check_call("git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x", shell=True, cwd=w)
for f, old, new in d["edits"]:
    p = os.path.join(w, f); s = open(p, newline="").read()
    if s.count(old) != 1:
        print("edit text found %d times in %s" % (s.count(old), f)); sys.exit(1)
    open(p, "w", newline="").write(s.replace(old, new))
patch = subprocess.check_output(["git", "diff"], cwd=w)
open(os.path.join(out, "patch.diff"), "wb").write(patch)
json.dump({"property": pid, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", os.path.join(out, "patch.diff")])
print(patch.decode())
