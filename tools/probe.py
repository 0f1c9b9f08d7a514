#!/usr/bin/env python3
"""probe.py spec [names..]: quick trials of realistic changes without a demonstration.  The spec holds '=== name CHECKS..' sections of
blocks as in seed.py; each is applied to a scratch copy, built, tested, and run against its checks until one reports a violation."""
import sys, os, re, json, shutil, concurrent.futures as cf, threading
sys.path.insert(0, os.path.dirname(__file__)); from seed import run, scratch, V
only = sys.argv[2:]
def one(sec):
    head, body = sec.split("\n", 1); name, *checks = head.split()
    if only and name not in only: return
    d, r = scratch()
    try:
        for f in re.split(r"^--- FILE ", body, flags=re.M)[1:]:
            fn, b = f.split("\n", 1); fn = fn.strip(); s = open(f"{r}/{fn}").read()
            for blk in re.split(r"^####\n", b, flags=re.M):
                old, new = re.split(r"^====\n", blk, flags=re.M); old = old.strip("\n"); new = new.strip("\n")
                if s.count(old) != 1: return print(name, f"BAD: old text occurs {s.count(old)} times in {fn}: {old}", flush=True)
                s = s.replace(old, new)
            open(f"{r}/{fn}", "w").write(s)
        b = run(f"bash {d}/build.sh")
        if b.returncode: return print(name, "BAD: build", (b.stdout + b.stderr)[-1500:], flush=True)
        t = run(f"timeout 120 bash {d}/test.sh {d}/o.json")
        try: n = len(json.load(open(f"{d}/o.json")).get("passed", []))
        except Exception: n = 0
        if n != 4: return print(name, "tests fail", n, flush=True)
        out = []
        for c in checks:
            a = run(f"timeout 900 python3 {V}/run.py check {c}", cwd=V, env=dict(os.environ, MC_REPO=r, MC_CXX=V + "/tools/cached-g++"))
            if a.returncode == 1 and f"VIOLATION property={c}" in a.stdout: return print(name, "caught by", c, flush=True)
            out.append(c + (" quiet" if a.returncode == 0 else f" NOANSWER rc={a.returncode} " + (a.stdout + a.stderr)[-800:]))
        print("MISSED" if not any("NOANSWER" in o for o in out) else "NOANSWER", name, out, flush=True)
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("W", "3"))) as ex: list(ex.map(one, re.split(r"^=== ", open(sys.argv[1]).read(), flags=re.M)[1:]))
