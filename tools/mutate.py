#!/usr/bin/env python3
"""mutate.py N SEED OUT file...   N mutants of each file (0: all) in scratch copies: those that build and pass the stable tests are
run against the checks that cover the file, until one reports a violation.  Survivors and checks that gave no answer go to OUT."""
import sys, os, re, json, random, shutil, hashlib, time, concurrent.futures as cf, threading
sys.path.insert(0, os.path.dirname(__file__))
from seed import run, scratch, V
MAP = {"block.c": "C10 C12 C13 C11", "boxed.c": "C09 C12", "cee-common.c": "C12 C13 C14 C11 C10", "closure.c": "C15 C13 C12", "dict.c": "C07 C11 C12 C13 C14", "env.c": "C15 C13 C12 C14",
 "list.c": "C03 C11 C12 C13 C14", "map.c": "C04 C06 C11 C12 C13 C14", "musl-hsearch.c": "C07 C30", "musl-insque.c": "C30", "musl-lsearch.c": "C30", "musl-tsearch.c": "C05 C06 C04 C30 C12",
 "n_tuple.c": "C10 C11 C12 C13 C14", "quadruple.c": "C10 C11 C12 C13 C14", "set.c": "C05 C06 C11 C12 C13 C14", "singleton.c": "C10 C12 C11", "stack.c": "C08 C11 C12 C13 C14",
 "state.c": "C12 C14 C13 C11", "str.c": "C01 C02 C12 C13 C11", "strview.c": "C29", "tagged.c": "C10 C11 C12 C13 C14", "triple.c": "C10 C11 C12 C13 C14", "tuple.c": "C10 C11 C12 C13 C14", "cee-resize.h": "C01 C03 C12 C13",
 "cee-json/cee_json_merge.c": "C23 C21", "cee-json/parser.c": "C17 C16 C18 C24 C19", "cee-json/snprint.c": "C19 C25", "cee-json/tokenizer.c": "C17 C16 C18 C24 C19 C25", "cee-json/value.c": "C20 C22 C19 C17 C23 C18 C21",
 "sqlite3/cee-sqlite3.c": "C26 C31 C28 C27 C32", "sqlite3/cee_dbm.c": "C33 C32", "sqlite3/join.c": "C26 C28"}
SW = [(r"<(?![<=])", "<="), (r"<=", "<"), (r"(?<!-)>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
      (r"(?<=[ \w\])])\+(?=[ \w(])(?!\+)", "-"), (r"(?<=[ \w\])])-(?=[ \w(])(?!-|>)", "+"), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"(?<![=!<>])!(?![=])", ""),
      (r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)), (r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1)), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bNULL\b(?=[;,) ])", "(void*)1"),
      (r"\bif ?\((?=.*\)\s*\{?\s*$)", "if (1 || "), (r"\bif ?\((?=.*\)\s*\{?\s*$)", "if (0 && "), (r"\bbreak;", ";"), (r"\bcontinue;", ";")]
def mutants(s):
    code = re.sub(r"/\*.*?\*/|//[^\n]*|\"(?:\\.|[^\"\\\n])*\"", lambda m: re.sub(r"[^\n]", "\x01", m.group(0)), s, flags=re.S)
    code = re.sub(r"^#if 0.*?^#endif", lambda m: re.sub(r"[^\n]", " ", m.group(0)), code, flags=re.S | re.M)
    lines = code.split("\n"); off = 0; depth = 0; out = []
    for n, l in enumerate(lines):
        if depth > 0 and not re.search(r"n_product|mem_block_size = |cs\.(cmp|resize_method|cmp_stop_at_null) =|\bv1 |va_(start|end|list)|^\s*struct [^=]*;|gc_mark =|del_policy o\[|^\s*(fprintf|printf|perror) ?\(", l) and not l.strip().startswith("#"):
            for pat, rep in SW:
                for m in re.finditer(pat, l):
                    r = m.expand(rep) if isinstance(rep, str) else rep(m)
                    if "break" in pat and n + 1 < len(lines) and lines[n + 1].strip() == "}": continue
                    out.append((off + m.start(), off + m.end(), r, n + 1))
            if re.match(r"\s*(?=\S)(?!return|case|default|else|goto|struct|int|char|size_t|bool|void|static|const|unsigned|double|va_list|break|continue)[^{}]*;\s*$", l) and l.count("(") == l.count(")"):
                out.append((off + len(l) - len(l.lstrip()), off + len(l.rstrip()), ";", n + 1))
        if not l.strip().startswith("#"): depth += l.count("{") - l.count("}")
        off += len(l) + 1
    return out
N, seed, OUT, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
W = int(os.environ.get("MUT_JOBS", "4"))
jobs = []
for f in files:
    s = open("/repo/" + f).read(); ms = mutants(s); random.Random(seed).shuffle(ms)
    jobs += [(f, m) for m in (ms[:N] if N else ms)]
random.Random(seed).shuffle(jobs)
done = set()
if os.path.exists(OUT):
    for l in open(OUT): j = json.loads(l); done.add((j["file"], tuple(j["m"])))
lk = threading.Lock(); tl = threading.local(); dirs = []; stat = {}
def note(j):
    with lk:
        open(OUT, "a").write(json.dumps(j) + "\n"); stat[j["res"]] = stat.get(j["res"], 0) + 1
        if j["res"] in ("SURVIVED", "NOANSWER"): print(j["res"], j["file"], j["line"], j["old"].strip(), " ==> ", j["new"].strip(), flush=True)
def one(job):
    f, m = job
    if (f, tuple(m)) in done: return
    if not hasattr(tl, "d"):
        tl.d, tl.r = scratch(); dirs.append(tl.d); run(f"bash {tl.d}/build.sh")
    d, r = tl.d, tl.r; s = open("/repo/" + f).read(); t = s[:m[0]] + m[2] + s[m[1]:]; a = s.rfind("\n", 0, m[0]) + 1
    j = dict(file=f, m=list(m), line=m[3], old=s[a:s.find("\n", m[0])], new=t[a:t.find("\n", m[0])])
    open(f"{r}/{f}", "w").write(t)
    try:
        t0 = time.time()
        run(f"timeout 120 bash {d}/test.sh {d}/o.json")
        try: ok = len(json.load(open(f"{d}/o.json")).get("passed", [])) == 4
        except Exception: ok = False
        if not ok: j["res"] = "tests"; return note(j)
        if f.endswith("cee_dbm.c") and run(f"gcc -std=gnu99 -w -fsyntax-only -I{r}/sqlite3 -I{r}/_build/src/release -I{r}/_build/src/cee-json -I{r}/_build/src/cee-json/release -I{r} -I{V}/harness/dbm {r}/{f}").returncode: j["res"] = "tests"; return note(j)
        run(f"cp {r}/_build/src/release/cee.[ch] {r}/release/; cp {r}/_build/src/cee-json/release/cee-json.[ch] {r}/cee-json/release/")   # one variant to check
        j["res"] = "SURVIVED"
        near = "\n".join(s[:m[0]].split("\n")[-15:])
        for c in MAP[f].split():
            if c in ("C13", "C14") and f not in ("state.c", "cee-common.c") and not re.search("mark|trace|gc", near): continue
            p = run(f"timeout 900 python3 {V}/run.py check {c}", cwd=V, env=dict(os.environ, MC_REPO=r, MC_CXX=V + "/tools/cached-g++"))
            if p.returncode == 1 and f"VIOLATION property={c}" in p.stdout: j["res"] = "caught"; j["by"] = c; break
            if p.returncode: j["res"] = "NOANSWER"; j["by"] = c; j["why"] = (p.stdout + p.stderr)[-1500:]
        j["s"] = round(time.time() - t0); note(j)
    finally: open(f"{r}/{f}", "w").write(s); run(f"git -C {r} checkout -- release cee-json/release")
try:
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(one, jobs))
finally:
    for d in dirs: shutil.rmtree(d, ignore_errors=True)
print(stat)
