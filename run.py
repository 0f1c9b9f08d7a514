#!/usr/bin/env python3
"""run.py check <id> | replay <file> | setup | manifest

Builds the harness of one property against /repo's current working tree, explores it and writes
evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION printed; 2: check error."""
import sys, os, json, subprocess, shutil, time, re, concurrent.futures as cf, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS

CXX = os.environ.get("MC_CXX", "g++").split() + [ "-std=c++17", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused", "-Wno-format-security"]
CC = ["gcc", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-fsanitize=address", "-fno-omit-frame-pointer", "-fexceptions", "-fno-builtin",
      "-ftrivial-auto-var-init=pattern"]
ALLOC = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]

class BuildError(Exception): pass

def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def tokens(path):
    """comment-free, white-space-normalised text of a C file (no macro expansion)"""
    return re.sub(r"\s+", " ", sh(["gcc", "-fpreprocessed", "-dD", "-E", "-P", "-x", "c", path]))

def generate(bd):
    """the amalgamations generated from the current sources, as build.sh makes them"""
    s = bd + "/src"
    os.makedirs(s + "/cee-utils")
    ex = []
    for e in ["/.git", "/_build", "obj", "*.out", "/cee-utils", "/cee-one.c", "/cee-json/cee-json-one.c", "/tmp.c", "/cee-json/tmp.c", "/release", "/cee-json/release"]:
        ex += ["--exclude=" + e]
    sh(["rsync", "-a"] + ex + [REPO + "/", s + "/"])
    env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "CFLAGS", "LDFLAGS", "LCOV", "VERIF_TIER", "VERIF_SEED")}
    env["CC"] = "gcc"
    sh(["make", "-s", "-j8", "release"], cwd=s, env=env)
    return s

def variants(bd, chk):
    """[(name, root)]: generated-from-sources, and the committed release files when they differ"""
    s = generate(bd)
    vs = [("generated", s)]
    libs = chk.get("libs", ["core"])
    files = []
    if "core" in libs: files += ["release/cee.c", "release/cee.h"]
    if "json" in libs: files += ["cee-json/release/cee-json.c", "cee-json/release/cee-json.h"]
    same = all(tokens(f"{s}/{f}") == tokens(f"{REPO}/{f}") for f in files)
    if files and not same: vs.append(("committed", REPO))
    return vs, (bool(files) and same)

def build_variant(bd, chk, name, root, pool, ehdr):
    libs = chk.get("libs", ["core"])
    inc = [f"-I{root}/release", f"-I{root}", f"-I{root}/cee-json/release", f"-I{root}/cee-json", f"-I{root}/sqlite3", f"-I{V}/engine", f"-I{V}/harness", f"-I{bd}"]
    jobs, objs = [], []
    def lib(src, out, flags):
        def f():
            sh(CC + flags + inc + ["-c", "-o", out, src])
            red = []
            for m in ALLOC + chk.get("redefine", []): red += ["--redefine-sym", f"{m}=mc_{m}"]
            sh(["objcopy"] + red + [out])
        objs.append(out); jobs.append(pool.submit(f))
    if "core" in libs: lib(f"{root}/release/cee.c", f"{bd}/{name}-cee.o", ["-std=c99"])
    if "json" in libs: lib(f"{root}/cee-json/release/cee-json.c", f"{bd}/{name}-json.o", [])
    if "sqlite" in libs:
        lib(f"{REPO}/sqlite3/cee-sqlite3.c", f"{bd}/{name}-sqlite.o", ["-std=gnu99"])
        lib(f"{REPO}/sqlite3/join.c", f"{bd}/{name}-join.o", ["-std=gnu99"])
    if "dbm" in libs: lib(f"{REPO}/sqlite3/cee_dbm.c", f"{bd}/{name}-dbm.o", ["-std=gnu99", f"-I{V}/harness/dbm"])
    if "strview" in libs: lib(f"{REPO}/strview.c", f"{bd}/{name}-sv.o", ["-std=gnu99", "-DSV_IMPLEMENTATION"])
    for i, h in enumerate(chk["src"]):
        o = f"{bd}/{name}-h{i}.o"; objs.append(o)
        jobs.append(pool.submit(sh, CXX + chk.get("cxxflags", []) + inc + ["-c", "-o", o, f"{V}/harness/{h}"]))
    return jobs, objs

def known_keys(pid):
    out = {}
    for l in open(f"{V}/known_findings.txt"):
        m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def asan_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:malloc_context_size=6:"
                         "handle_segv=1:handle_abort=0:allow_user_segv_handler=1:exitcode=99:detect_stack_use_after_return=0:"
                         "max_malloc_fill_size=0:allocator_may_return_null=1:fast_unwind_on_malloc=1:print_legend=0")
    return e

def build(pid, bd):
    chk = CHECKS[pid]
    with cf.ThreadPoolExecutor(8) as pool:
        eng = {}
        for f in ("mc", "memshim"):
            eng[f] = pool.submit(sh, CXX + ["-c", "-o", f"{bd}/{f}.o", f"{V}/engine/{f}.cpp"])
        vs, same = variants(bd, chk)
        plan = [(n, r) + build_variant(bd, chk, n, r, pool, None) for n, r in vs]
        for f in eng.values(): f.result()
        exes = []
        for n, r, jobs, objs in plan:
            for j in jobs: j.result()
            exe = f"{bd}/{n}.exe"
            sh(CXX + ["-o", exe, f"{bd}/mc.o", f"{bd}/memshim.o"] + objs + chk.get("ldflags", []) + ["-lm", "-lpthread"])
            exes.append((n, exe))
    return exes, same

def new_bd(pid):
    os.makedirs(f"{V}/build", exist_ok=True)
    return tempfile.mkdtemp(prefix=pid + "-", dir=f"{V}/build")

def scratch(fallback):
    """where the explored executions keep their files: in memory when there is room, else in the build directory"""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 1 << 30: return tempfile.mkdtemp(prefix="cee-mc-", dir="/dev/shm")
    except OSError: pass
    os.makedirs(fallback); return fallback

def check(pid):
    t0 = time.time(); chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    bd = new_bd(pid); rc = 0; scr = []
    try:
        try: exes, same = build(pid, bd)
        except BuildError as e:
            print("check error: " + str(e)); return 2
        known = known_keys(pid); hits = {}; viol = None; results = []
        limit = 700 if tier == "quick" else 10 * 3600
        for n, exe in exes:
            tmp = scratch(f"{bd}/{n}.tmp"); scr.append(tmp); out = f"{tmp}/result.json"
            cmd = [exe, "--out", out, "--tmp", tmp, "--workers", str(min(os.cpu_count() or 8, 8)), "--limit", str(limit / len(exes)), "--known", ",".join(known)]
            p = subprocess.run(cmd, env=asan_env(), cwd=tmp)
            try: r = json.load(open(out))
            except Exception: print(f"check error: harness {n} ended with {p.returncode} and no result"); return 2
            r["variant"] = n; results.append(r)
            for k, c in r["known"].items(): hits[k] = hits.get(k, 0) + c
            if r["harness_error"] or r["nondeterministic"]:
                print("check error: harness misbehaved:", json.dumps(r)[:3000]); return 2
            if r["violation"]: viol = (n, r["violation"]); break
            if p.returncode != 0: print(f"check error: harness {n} ended with {p.returncode}"); return 2
        tot = lambda k: sum(r[k] for r in results)
        ev = dict(property=pid, tier=tier, seed=seed, level=chk.get("level", "model_checking"),
            coverage=dict(states=tot("states"), transitions=tot("transitions") or tot("choices"), traces_validated_against_impl=tot("executions"),
                distinct_outcomes=tot("outcomes"), choice_points=tot("choices"), pruned_at_visited_state=tot("pruned"), assumption_skipped=tot("skipped"),
                max_choices_in_one_execution=max(r["max_choices"] for r in results),
                exhaustive=all(r["exhaustive"] for r in results) and not viol,
                bounds=chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
                scenarios={f'{r["variant"]}/{k}': v for r in results for k, v in r["scenarios"].items()},
                variants=[r["variant"] for r in results] + (["committed release files: same tokens as the generated ones, so the same run covers them"] if same else []),
                known_findings_hit=hits, samples=[s for r in results for s in r["samples"]][:8]),
            assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
        for k, txt in known.items():
            if hits.get(k): print(f"KNOWN-FINDING: property={pid} {txt}")
        print(f"{pid} {tier}: executions={tot('executions')} transitions={ev['coverage']['transitions']} states={tot('states')} outcomes={tot('outcomes')} "
              f"exhaustive={ev['coverage']['exhaustive']} variants={[r['variant'] for r in results]} wall={ev['wall_s']}s")
        if viol:
            n, v = viol
            os.makedirs(f"{V}/replays", exist_ok=True)
            path = f"{V}/replays/{pid}-{int(time.time())}-{os.getpid()}.json"
            json.dump(dict(property=pid, variant=n, scenario=v["scenario"], choices=v["choices"], message=v["message"],
                           history_dependent=v["history_dependent"], output=v["output"], tier=tier,
                           replay=f"python3 {V}/run.py replay {path}"), open(path, "w"), indent=1)
            print(f"scenario {v['scenario']} choices [{v['choices']}] variant {n}: {v['message']}")
            print(v["output"][-3000:])
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        return rc
    finally:
        for t in scr: shutil.rmtree(t, ignore_errors=True)
        if not os.environ.get("MC_KEEP"): shutil.rmtree(bd, ignore_errors=True)

def replay(path):
    r = json.load(open(path)); os.environ["VERIF_TIER"] = r["tier"]
    bd = new_bd(r["property"])
    try:
        exes, _ = build(r["property"], bd)
        exe = dict(exes).get(r["variant"], exes[0][1])
        return subprocess.run([exe, "--tmp", bd, "--replay", f'{r["scenario"]}:{r["choices"]}', "--known", ",".join(known_keys(r["property"]))], env=asan_env(), cwd=bd).returncode
    finally: shutil.rmtree(bd, ignore_errors=True)

def manifest():
    props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if pid in CHECKS:
            c = CHECKS[pid]
            checks.append(dict(property=pid, quick_cmd=f"VERIF_TIER=quick python3 run.py check {pid}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py check {pid}",
                technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
        else: na.append(dict(property=pid, reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
        notes="Every check rebuilds the amalgamations from /repo's working tree (and uses the committed release files too when they differ), links them under an exhaustive explorer (engine/), and enumerates all executions within the stated bounds. No hooks in /repo are needed."),
        open(f"{V}/MANIFEST.json", "w"), indent=1)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["check"]: sys.exit(check(a[1]))
    if a[:1] == ["replay"]: sys.exit(replay(a[1]))
    if a[:1] == ["setup"]:
        print(sh(["g++", "--version"]).splitlines()[0]); sys.exit(0)
    if a[:1] == ["manifest"]: manifest(); sys.exit(0)
    print(__doc__); sys.exit(2)
