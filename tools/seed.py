#!/usr/bin/env python3
"""seed.py add <id> < spec   make seeded/<id> from a spec, after confirming it in a scratch copy of /repo
   seed.py confirm [id..]    confirm again: applies, builds, stable tests pass, demo passes without and fails with it
   seed.py detect [id..]     run the check of its property on a scratch copy with the change
spec:  PROP C03 / LIBS core|json|sqlite|strview.. / NEEDS text / BREAKS text, then
--- FILE path
old
====
new
####
old
====
new
--- DEMO
C code (after a common prelude; main included)"""
import sys, os, re, json, subprocess, tempfile, shutil, concurrent.futures as cf
V = os.environ.get("MC_V", "/verif"); S = "/verif/seeded"
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "demo: line %d: %s does not hold\n", __LINE__, #c); exit(1); } } while (0)
'''
SH = r'''#!/bin/bash
# exit 0 when the property holds on the inputs of demo.c, nonzero otherwise; run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; G=$R/_build/src
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
INC="-I$G/release -I$G -I$G/cee-json/release -I$G/cee-json -I$R/sqlite3 -I$R"
gcc -g -w -fsanitize=address -fno-omit-frame-pointer -std=gnu99 $INC -o "$T/demo" "$D/demo.c" @SRC@ || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 timeout 100 ./demo
'''
DBM = r'''char *cee_load_whole_file(const char *n, size_t *len) { FILE *f = fopen(n, "rb"); if (!f) return NULL; char *b = calloc(1, 1 << 20); *len = fread(b, 1, (1 << 20) - 1, f); fclose(f); return b; }
static void put(const char *n, const char *t) { FILE *f = fopen(n, "w"); CHECK(f && fputs(t, f) >= 0 && !fclose(f)); }
static char *ask(const char *f, const char *q) { static char b[8][400]; static int k; char *r = b[k++ % 8]; sqlite3 *d; sqlite3_stmt *s; strcpy(r, "-"); CHECK(!sqlite3_open(f, &d)); if (!sqlite3_prepare_v2(d, q, -1, &s, 0) && sqlite3_step(s) == SQLITE_ROW && sqlite3_column_text(s, 0)) snprintf(r, 400, "%s", sqlite3_column_text(s, 0)); sqlite3_finalize(s); sqlite3_close(d); return r; }
'''
SRC = dict(dbm='-I"$D" -Wno-implicit-function-declaration $R/sqlite3/cee_dbm.c', core="$G/release/cee.c", json="$G/cee-json/release/cee-json.c", sqlite="$R/sqlite3/cee-sqlite3.c $R/sqlite3/join.c -lsqlite3",
  strview="")
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def scratch():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp"); run(f"cp -a /repo {d}/repo"); r = d + "/repo"
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", r).replace("/opt/vp/build.sh", d + "/build.sh")
        open(f"{d}/{n}", "w").write(t)
    return d, r
def confirm(i):
    d, r = scratch(); p = f"{S}/{i}"
    try:
        x = f"{d}/demo"; shutil.copytree(p, x, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        b = run(f"bash {d}/build.sh");
        if b.returncode: return "build of the unchanged tree: " + b.stdout[-500:] + b.stderr[-500:]
        a = run(f"timeout 300 bash {x}/demo.sh", cwd=r)
        if a.returncode: return f"demo fails on the unchanged tree ({a.returncode}): " + (a.stdout + a.stderr)[-2500:]
        g = run(f"git -C {r} apply {p}/patch.diff")
        if g.returncode: return "does not apply: " + g.stderr
        t = run(f"bash {d}/test.sh {d}/o.json"); res = json.load(open(f"{d}/o.json")) if os.path.exists(f"{d}/o.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json")); want = base.get("passed") or base.get("tests") or base
        if len(res.get("passed", [])) != 4: return "stable tests: " + str(res) + (t.stdout + t.stderr)[-1500:]
        a = run(f"timeout 300 bash {x}/demo.sh", cwd=r)
        if a.returncode in (0, 2): return f"demo does not show the change ({a.returncode}) " + (a.stdout + a.stderr)[-800:]
        m = [l for l in (a.stdout + a.stderr).split("\n") if "demo:" in l or "ERROR" in l]
        return "ok %d %s" % (a.returncode, (m[0] if m else "")[:150])
    finally: shutil.rmtree(d)
def detect(i, pid=None):
    d, r = scratch(); p = f"{S}/{i}"; pid = pid or json.load(open(p + "/meta.json"))["property"]
    try:
        run(f"git -C {r} apply {p}/patch.diff")
        a = run(f"python3 {V}/run.py check {pid}", cwd=V, env=dict(os.environ, MC_REPO=r))
        o = [l for l in a.stdout.split("\n") if l.startswith("scenario ")]
        return "%s rc=%d %s" % ("CAUGHT" if a.returncode == 1 and f"VIOLATION property={pid}" in a.stdout else "MISSED", a.returncode, o[0][:200] if o else (a.stdout + a.stderr)[-300:])
    finally: shutil.rmtree(d)
def add(i, t):
    h, rest = re.split(r"^--- FILE ", t, maxsplit=1, flags=re.M); files, demo = re.split(r"^--- DEMO\n", rest, flags=re.M)
    kv = dict(l.split(" ", 1) for l in h.strip().split("\n"))
    d, r = scratch(); p = f"{S}/{i}"; os.makedirs(p, exist_ok=True)
    try:
        for f in re.split(r"^--- FILE ", files, flags=re.M):
            name, body = f.split("\n", 1); s = open(f"{r}/{name}").read()
            for blk in re.split(r"^####\n", body, flags=re.M):
                old, new = re.split(r"^====\n", blk, flags=re.M); old = old.strip("\n"); new = new.strip("\n")
                if s.count(old) != 1: shutil.rmtree(p); return f"old text occurs {s.count(old)} times in {name}:\n{old}"
                s = s.replace(old, new)
            open(f"{r}/{name}", "w").write(s)
        open(p + "/patch.diff", "w").write(run(f"git -C {r} diff").stdout)
    finally: shutil.rmtree(d)
    inc = {"core": '#include "cee.h"\n', "json": '#include "cee-json.h"\n', "sqlite": '#include "sqlite3.h"\n#include "cee-sqlite3.h"\n', "strview": '#define SV_IMPLEMENTATION\n#include "strview.c"\n'}
    libs = kv["LIBS"].split()
    pre = PRE
    if "json" in libs: pre += inc["json"]
    elif "core" in libs: pre += inc["core"]
    if "strview" in libs: pre += inc["strview"]
    if "sqlite" in libs: pre += inc["sqlite"]
    if "dbm" in libs: pre += '#include "cee_dbm.h"\n' + DBM; open(p + "/cee-utils.h", "w").write("#pragma once\n#include <stddef.h>\n#include <sys/types.h>\nextern char *cee_load_whole_file(const char *filename, size_t *len);\n")
    open(p + "/demo.c", "w").write(pre + demo)
    open(p + "/demo.sh", "w").write(SH.replace("@SRC@", " ".join(SRC[l] for l in libs) + " -lm"))
    os.chmod(p + "/demo.sh", 0o755)
    json.dump(dict(property=kv["PROP"], needs=kv["NEEDS"], what_it_breaks=kv["BREAKS"]), open(p + "/meta.json", "w"), indent=1)
    c = confirm(i)
    if not c.startswith("ok"): shutil.move(p, "/tmp/rejected-" + i) if not os.path.exists("/tmp/rejected-" + i) else shutil.rmtree(p)
    return c
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "add":
        # several specs in one input: "=== id" lines
        t = sys.stdin.read(); parts = re.split(r"^=== (\S+)\n", t, flags=re.M)[1:]
        L = list(zip(parts[::2], parts[1::2]))
        def go(x):
            try: c = add(*x)
            except Exception as e: c = "spec error: " + repr(e)
            return c + ("\n      " + detect(x[0]) if c.startswith("ok") else "")
        with cf.ThreadPoolExecutor(3) as ex:
            for x, c in zip(L, ex.map(go, L)): print(x[0] + ": " + c, flush=True)
    else:
        ids = a[1:] or sorted(os.listdir(S)); f = confirm if a[0] == "confirm" else detect
        with cf.ThreadPoolExecutor(6 if a[0] == "confirm" else 2) as ex:
            for i, c in zip(ids, ex.map(f, ids)): print(i + ": " + c, flush=True)
