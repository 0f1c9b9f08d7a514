#!/usr/bin/env python3
"""Carries an uncommitted change of /repo's sources over to the committed release/ amalgamations:
generates them from HEAD and from the working tree and applies the line difference, keeping the
committed files' blank lines."""
import subprocess, tempfile, shutil, os, difflib, re, sys
def run(c, **k): return subprocess.run(c, shell=True, check=True, capture_output=True, text=True, **k).stdout
def gen(d):
    os.makedirs(d + "/cee-utils", exist_ok=True)
    run("env -u MAKEFLAGS CC=gcc make -s -j8 release", cwd=d)
T = tempfile.mkdtemp(prefix="sync", dir="/tmp")
base = sys.argv[1] if len(sys.argv) > 1 else "HEAD"
os.makedirs(T + "/old"); run(f"git -C /repo archive {base} | tar x -C {T}/old")
run(f"rsync -a --exclude=/.git --exclude=/_build /repo/ {T}/new/")
gen(T + "/old"); gen(T + "/new")
norm = lambda l: re.sub(r"\s+", "", l)
for f in ["release/cee.c", "release/cee.h", "cee-json/release/cee-json.c", "cee-json/release/cee-json.h"]:
    o, n = open(f"{T}/old/{f}").read().split("\n"), open(f"{T}/new/{f}").read().split("\n")
    if o == n: continue
    c = open("/repo/" + f).read().split("\n")
    on = [norm(l) for l in o if norm(l)]; nn = [l for l in n if norm(l)]
    cn = [i for i, l in enumerate(c) if norm(l)]
    al = {}
    for a, b, k in difflib.SequenceMatcher(None, on, [norm(c[i]) for i in cn], autojunk=False).get_matching_blocks():
        for x in range(k): al[a + x] = cn[b + x]
    sm = difflib.SequenceMatcher(None, on, [norm(l) for l in nn], autojunk=False)
    for tag, i1, i2, j1, j2 in reversed(sm.get_opcodes()):
        if tag == "equal": continue
        if i1 == i2: at = al[i1]; c[at:at] = nn[j1:j2]
        else: c[al[i1]:al[i2 - 1] + 1] = nn[j1:j2]
    open("/repo/" + f, "w").write("\n".join(c))
    tk = lambda p: re.sub(r"\s+", " ", run(f"gcc -fpreprocessed -dD -E -P -x c {p}"))
    print("synced" if tk("/repo/" + f) == tk(f"{T}/new/{f}") else "NOT EQUAL", f)
shutil.rmtree(T)
