#!/usr/bin/env python3
"""quiet.py spec [ids..]: apply a behaviour-preserving edit (blocks as in seed.py, no header, no demo) to a scratch copy
of /repo, build it, run the stable tests and all checks (or the given ones) there; every check has to stay quiet.
Also: quiet.py @noise [ids..] adds a comment line at the end of every source file and a statement that does nothing to functions."""
import sys, os, re, json, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__)); import seed
from seed import run, scratch, V
name, ids = sys.argv[1], sys.argv[2:]
d, r = scratch()
try:
    if name == "@noise":
        for f in run(f"git -C {r} ls-files '*.c'").stdout.split():
            if f.startswith("test") or "/test/" in f or "release" in f: continue
            s = open(f"{r}/{f}").read(); k = 0
            # a statement that does nothing at the beginning of every function whose brace ends its line
            s, k = re.subn(r"^((?!struct S\(\w+\)\s*\{)(?:static |extern |enum |struct |void|bool|int|size_t|char|uint|ssize_t|SVDEF)[^;\n=#]*\)\s*\n?\{)[ \t]*$", r"\1\n  (void)0;", s, flags=re.M)
            open(f"{r}/{f}", "w").write(s + "\n/* nothing new */\n"); print(f, k)
    else:
        for f in re.split(r"^--- FILE ", open(name).read(), flags=re.M)[1:]:
            fn, body = f.split("\n", 1); s = open(f"{r}/{fn}").read()
            for blk in re.split(r"^####\n", body, flags=re.M):
                old, new = re.split(r"^====\n", blk, flags=re.M); old = old.strip("\n"); new = new.strip("\n")
                if s.count(old) != 1: sys.exit(f"old text occurs {s.count(old)} times in {fn}:\n{old}")
                s = s.replace(old, new)
            open(f"{r}/{fn}", "w").write(s)
    b = run(f"bash {d}/build.sh")
    if b.returncode: sys.exit("build: " + b.stdout[-2000:] + b.stderr[-2000:])
    t = run(f"bash {d}/test.sh {d}/o.json"); print("tests:", len(json.load(open(f"{d}/o.json")).get("passed", [])), "passed", flush=True)
    ids = ids or [l["id"] for l in map(json.loads, open(V + "/properties.jsonl"))]
    def go(i):
        a = run(f"python3 {V}/run.py check {i}", cwd=V, env=dict(os.environ, MC_REPO=r))
        return "quiet" if a.returncode == 0 else f"ALARM rc={a.returncode}\n" + (a.stdout + a.stderr)[-1200:]
    with cf.ThreadPoolExecutor(2) as ex:
        for i, o in zip(ids, ex.map(go, ids)): print(i, o, flush=True)
finally: shutil.rmtree(d)
