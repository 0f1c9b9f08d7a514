#!/usr/bin/env python3
"""fx.py MSG FILE <<< 'old\n====\nnew' (several blocks separated by a line of ####): edit, sync release, commit."""
import sys, subprocess
msg, f = sys.argv[1], sys.argv[2]
t = sys.stdin.read()
p = "/repo/" + f; s = open(p).read()
for blk in t.split("\n####\n"):
    old, new = blk.split("\n====\n"); new = new.rstrip("\n") if not old.endswith("\n") else new
    old = old.strip("\n"); new = new.strip("\n")
    if s.count(old) != 1: sys.exit("old text occurs %d times:\n%s" % (s.count(old), old))
    s = s.replace(old, new)
open(p, "w").write(s)
r = subprocess.run(["python3", "/verif/tools/sync_release.py"], capture_output=True, text=True); print(r.stdout, r.stderr[-500:])
if "NOT" in r.stdout or "differs" in r.stdout or r.returncode: sys.exit("sync failed")
if "--no-commit" in sys.argv: sys.exit(0)
print(subprocess.run(["git", "-C", "/repo", "commit", "-qam", msg], capture_output=True, text=True).stdout)
print(subprocess.run("git -C /repo log --oneline -1; git -C /repo show --stat HEAD | tail -4", shell=True, capture_output=True, text=True).stdout)
