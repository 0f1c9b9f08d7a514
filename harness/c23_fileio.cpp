#include "json.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
// The library's system calls go to real scratch files; each call may deviate as the explorer decides.
static int g_budget, g_dev; static bool g_hard, g_eof, g_on;     // hard: an error was injected; eof: the file ended early
static std::string g_log; static uint64_t g_h;
static int deviation(int n, const char *what) { if (!g_on) return 0; int k = mc::deviate(n, g_budget, what); mc::state(g_h = mc::mix(mc::hash_str(what, g_h), k)); if (k) { g_dev++; mc::step("%s deviates: %d", what, k); } return k; }
static int g_mode; static unsigned g_calls;                        // every call answers alike: 1 half, 2 at most 1000 bytes, 3 interrupted every other time, 4 both 2 and 3
static size_t part(size_t n) { g_calls++; if (g_mode == 1) return (n + 1) / 2; if (g_mode == 2 || g_mode == 4) return std::min<size_t>(n, 1000); return n; }
static bool interrupted() { return g_mode >= 3 && g_calls++ % 2 == 0; }
extern "C" {
ssize_t mc_read(int fd, void *b, size_t n) { if (g_mode) { if (interrupted()) { errno = EINTR; return -1; } return read(fd, b, part(n)); } switch (deviation(6, "read")) { case 1: return read(fd, b, n ? 1 : 0); case 2: return read(fd, b, (n + 1) / 2); case 3: errno = EINTR; return -1; case 4: errno = EIO; g_hard = true; return -1; case 5: if (n) g_eof = true; return 0; default: return read(fd, b, n); } }
ssize_t mc_write(int fd, const void *b, size_t n) { if (g_mode) { if (interrupted()) { errno = EINTR; return -1; } return write(fd, b, part(n)); } switch (deviation(7, "write")) { case 1: return write(fd, b, n ? 1 : 0); case 2: return write(fd, b, (n + 1) / 2); case 3: return write(fd, b, n > 1 ? n - 1 : n); case 4: errno = EINTR; return -1; case 5: errno = ENOSPC; g_hard = true; return -1; case 6: g_hard = true; if (n > 1) { g_hard = false; ssize_t k = write(fd, b, n - 1); g_budget = 0; g_log = "full"; return k; } errno = EIO; return -1; default: if (g_log == "full") { g_hard = true; errno = ENOSPC; return -1; } return write(fd, b, n); } }
int mc_fstat(int fd, struct stat *s) { if (deviation(2, "fstat")) { errno = EIO; g_hard = true; return -1; } return fstat(fd, s); }
FILE *mc_fopen(const char *p, const char *m) { if (deviation(2, "fopen")) { errno = EMFILE; g_hard = true; return NULL; } return fopen(p, m); }
int mc_fclose(FILE *f) { bool w = (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY; if (w && deviation(2, "fclose")) { g_hard = true; fclose(f); errno = EIO; return EOF; } return fclose(f); }
int mc_fprintf(FILE *, const char *, ...) { return 0; }
void mc_perror(const char *) {}
}
static std::string file(const char *n) { return mc::fmt("f%07d-%s", (int)getpid(), n); }
static void put(const std::string &n, const std::string &t) { FILE *f = fopen(n.c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
static std::string get(const std::string &n) { std::string r; FILE *f = fopen(n.c_str(), "r"); if (!f) return "(no file)"; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k); fclose(f); return r; }
static int fds() { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void arm(int budget, const std::string &what) { g_budget = budget; g_dev = 0; g_hard = g_eof = false; g_log.clear(); g_on = true; g_h = mc::hash_str(what); }
static std::string big(int n) { std::string t = "["; for (int i = 0; i < n; i++) t += (i ? ", \"" : "\"") + std::string(i % 50, 'a' + i % 26) + "\""; return t + "]"; }
static const std::vector<std::string> &docs() { static std::vector<std::string> d = {"{\"a\":[1,2,{\"b\":null}],\"c\":\"x\\ny\"}", "12345", "true", "[]", " \n{ \"k\" : -0.5 }\n", big(10), big(300)}; return d; }
static const char *BADDOC[] = {"", " ", "[1,2", "[1] x", "{\"a\":1}}", "12 34", "nul", "\n\n[1,]x"};
static void save(int budget) {
  int d = choose(docs().size(), "document"), how = choose(2, "format"), api = choose(2, "api"); std::string n = file("s"); St st; Val v = reference(docs()[d], true).val; cee_json *j = parse(st, docs()[d], true).j; step("save document %d", d);
  int before = fds(); unlink(n.c_str()); FILE *f = fopen(n.c_str(), "w"); arm(budget, std::string(__func__) + std::to_string(d)); bool ok = api ? cee_json_save(st, j, f, how) : cee_json_save_fileno(st, j, fileno(f), how); g_on = false; fclose(f); std::string t = get(n); unlink(n.c_str());
  MC_CHECK(ok == !g_hard, "save %s although %s", ok ? "succeeds" : "fails", g_hard ? "an error occurred" : "no error occurred"); if (ok) { Ref r = reference(t, true); MC_CHECK(r.v == Ref::OK && equal(r.val, v, true), "saved as %s", mc::quote(t.substr(0, 200)).c_str()); }
  MC_CHECK(fds() == before, "descriptors leak"); MC_CHECK(same(v, j), "saving changed the value"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks remain", mc::live_blocks()); mc::outcome(ok * 2 + g_hard);
}
static void load(int budget, bool bad) {
  int d = choose(bad ? sizeof BADDOC / sizeof *BADDOC : docs().size(), "document"), api = choose(3, "api"), eof = choose(2, "force_eof"), line_p = choose(2, "line"); std::string t = bad ? BADDOC[d] : docs()[d], n = file("l"); put(n, t); Ref r = reference(t, eof); int before = fds(), line = -5; step("load %s", mc::quote(t.substr(0, 40)).c_str());
  St st; cee_json *j = (cee_json *)1; FILE *f = api < 2 ? fopen(n.c_str(), "r") : NULL; arm(budget, std::string(__func__) + std::to_string(d)); int *lp = line_p ? &line : NULL; bool trap = false;
  if (api == 0) j = cee_json_load_from_fileno(st, fileno(f), eof, lp); else if (api == 1) j = cee_json_load_from_FILE(st, f, eof, lp); else trap = mc::traps([&] { j = cee_json_load_from_file_path(st, (char *)n.c_str(), eof, lp); });
  g_on = false; if (f) fclose(f); unlink(n.c_str()); if (trap) { MC_CHECK(g_hard, "loading traps without an error"); return; }
  bool good = !g_hard && !g_eof && r.v != Ref::BAD; if (r.v == Ref::MAY && !j) good = false; MC_CHECK((j != NULL) == good, "loading %s gives %s%s%s", mc::quote(t.substr(0, 60)).c_str(), showj(j).substr(0, 100).c_str(), g_hard ? " after an error" : "", g_eof ? " of an incomplete file" : "");
  if (j) MC_CHECK(same(r.val, j), "%s loads as %s", mc::quote(t.substr(0, 60)).c_str(), showj(j).substr(0, 200).c_str()); else if (line_p && !g_hard && !g_eof && !r.may) MC_CHECK(line == r.line, "line %d reported, expected %d", line, r.line);
  MC_CHECK(fds() == before, "descriptors leak"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks remain", mc::live_blocks()); mc::outcome((j != NULL) * 4 + g_hard * 2 + g_eof);
}
static void round_trip(int budget) {
  int d = choose(docs().size(), "document"), how = choose(2, "format"); std::string n = file("r"); St st; Val v = reference(docs()[d], true).val; cee_json *j = parse(st, docs()[d], true).j; step("save and load document %d", d); FILE *f = fopen(n.c_str(), "w"); arm(budget, std::string(__func__) + std::to_string(d)); bool ok = cee_json_save(st, j, f, how); g_on = false; fclose(f);
  if (ok) { f = fopen(n.c_str(), "r"); int line; g_on = true; cee_json *k = cee_json_load_from_FILE(st, f, true, &line); g_on = false; fclose(f); MC_CHECK((k != NULL) == (!g_hard && !g_eof), "loading what was saved gives %s", showj(k).substr(0, 200).c_str()); if (k) MC_CHECK(same(v, k, true), "loaded %s", showj(k).substr(0, 200).c_str()); }
  unlink(n.c_str()); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void missing() { int k = choose(2, "path"); St st; step("missing file"); int line = 0; bool t = mc::traps([&] { cee_json *j = cee_json_load_from_file_path(st, (char *)(k ? "no-such-dir/x" : "no-such-file"), true, &line); if (!j) raise(SIGSEGV); }); MC_CHECK(t, "a missing file loads"); int r; char *fs[2] = {(char *)"no-such-file", (char *)"no-such-dir/x"}; int before = fds(); r = cee_json_merge_all(fs, 2, (char *)file("m").c_str()); MC_CHECK(r != 0 && fds() == before, "merging missing files returns %d", r); }
static Val overlay(const Val &d, const Val &s) { if (d.t == Val::OBJ && s.t == Val::OBJ) { Val r = d; for (auto &p : s.o) { Val *q = r.find(p.first); r.set(p.first, q ? overlay(*q, p.second) : p.second); } return r; } if (d.t == Val::ARR && s.t == Val::ARR) { Val r = d; r.a.insert(r.a.end(), s.a.begin(), s.a.end()); return r; } return s; }
static void merge_files(int budget) {
  static const char *D[] = {"{\"a\":1,\"b\":{\"x\":[1]}}", "{\"a\":2,\"b\":{\"x\":[2],\"y\":\"s\"}}", "{}", "{\"c\":[true]}", "{\"a\":", "[1"}; int n = 1 + choose(3, "files"); std::vector<std::string> names; std::vector<char *> p; Val v; bool bad = false; std::string out = file("out");
  for (int i = 0; i < n; i++) { int k = choose(n > 2 ? 4 : 6, "content"); names.push_back(file(("i" + std::to_string(i)).c_str())); put(names[i], D[k]); Ref r = reference(D[k], true); if (r.v == Ref::BAD) bad = true; else v = i ? overlay(v, r.val) : r.val; } for (auto &x : names) p.push_back((char *)x.c_str()); step("merge %d files", n);
  unlink(out.c_str()); int before = fds(); size_t blocks = mc::live_blocks(); arm(budget, "merge" + std::to_string(n)); int rc = cee_json_merge_all(p.data(), n, (char *)out.c_str()); g_on = false; std::string t = get(out); unlink(out.c_str()); for (auto &x : names) unlink(x.c_str());
  MC_CHECK(fds() == before, "%d descriptors leak (result %d)", fds() - before, rc); MC_CHECK(mc::live_blocks() == blocks, "%zu blocks remain (result %d)", mc::live_blocks() - blocks, rc); MC_CHECK((rc == 0) == (!bad && !g_hard && !g_eof), "merging returns %d%s%s%s", rc, bad ? " for a malformed file" : "", g_hard ? " after an error" : "", g_eof ? " for an incomplete file" : "");
  if (rc == 0) { Val o = Val::A(); for (auto &x : names) o.a.push_back(Val::S(x)); v.set("originals", o); Ref r = reference(t, true); MC_CHECK(r.v == Ref::OK && equal(r.val, v, true), "merged into %s, expected %s", mc::quote(t).c_str(), show(v).c_str()); }
}
// many files are merged, and named, in their order
static void merge_many() {
  int n = 1 + choose(mc::tier(70, 300), "files"); std::vector<std::string> names; std::vector<char *> p; Val v; std::string out = file("out"); for (int i = 0; i < n; i++) { std::string t = mc::fmt("{\"k%d\":%d,\"last\":%d,\"l\":[%d]}", i, i, i, i); names.push_back(file(("m" + std::to_string(i)).c_str())); put(names[i], t); Ref r = reference(t, true); v = i ? overlay(v, r.val) : r.val; } for (auto &x : names) p.push_back((char *)x.c_str()); step("merge %d files", n);
  unlink(out.c_str()); int before = fds(); size_t blocks = mc::live_blocks(); int rc = cee_json_merge_all(p.data(), n, (char *)out.c_str()); std::string t = get(out); unlink(out.c_str()); for (auto &x : names) unlink(x.c_str()); MC_CHECK(rc == 0, "merging %d files returns %d", n, rc); MC_CHECK(fds() == before && mc::live_blocks() == blocks, "descriptors or blocks leak");
  Val o = Val::A(); for (auto &x : names) o.a.push_back(Val::S(x)); v.set("originals", o); Ref r = reference(t, true); MC_CHECK(r.v == Ref::OK && equal(r.val, v, true), "%d files merge into %s, expected %s", n, mc::quote(t).c_str(), show(v).c_str()); mc::state(777000 + n);
}
static void large() {
  static const int N[] = {1023, 1024, 4094, 4095, 4096, 4097, 8192, 32767, 65534, 65535, 65536, 65537, 131072, 200000, (1 << 20) + 3, (1 << 21) + 70}; int n = N[choose(16, "size")], kind = choose(3, "kind"), mode = choose(5, "answers"), api = choose(3, "api"), end = choose(2, "ending"); std::string t = kind == 0 ? "[\"" + std::string(n - 4, 's') + "\"]" : kind == 1 ? "[1" + std::string(n - 3, ' ') + "]" : "[";
  if (kind == 2) { while ((int)t.size() < n - 8) t += "\"" + std::string(t.size() % (n > 1000000 ? 9000 : 90) + 1, 'c') + "\","; t += "7]"; } if (end) t.back() = ' '; std::string f = file("big"); put(f, t); Ref r = reference(t, true); St st; int line = -1, before = fds(); step("%zu bytes of kind %d, answers %d, api %d", t.size(), kind, mode, api);
  FILE *fp = fopen(f.c_str(), "r"); g_mode = mode; g_calls = 0; arm(0, "big"); cee_json *j = api == 0 ? cee_json_load_from_fileno(st, fileno(fp), true, &line) : api == 1 ? cee_json_load_from_FILE(st, fp, true, &line) : cee_json_load_from_file_path(st, (char *)f.c_str(), true, &line); fclose(fp);
  if (end) MC_CHECK(!j, "%zu bytes of no JSON load", t.size()); else { MC_CHECK(j && same(r.val, j), "%zu bytes load as %s", t.size(), showj(j).substr(0, 100).c_str()); fp = fopen(f.c_str(), "w"); bool ok = api == 1 ? cee_json_save_fileno(st, j, fileno(fp), 0) : cee_json_save(st, j, fp, api / 2); fclose(fp); std::string u = get(f); Ref q = reference(u, true); MC_CHECK(ok && q.v == Ref::OK && equal(q.val, r.val, true), "%zu bytes are saved wrong (%zu bytes)", t.size(), u.size()); }
  g_mode = 0; g_on = false; unlink(f.c_str()); MC_CHECK(fds() == before, "descriptors leak"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks remain", mc::live_blocks()); mc::outcome(t.size() * 8 + mode);
}
void mc_register() { mc::add("merge-many", merge_many, 1); mc::add("large", large, 3); mc::add("save", [] { save(mc::tier(3, 5)); }, 3); mc::add("load", [] { load(mc::tier(2, 4), false); }, 3); mc::add("load-bad", [] { load(mc::tier(2, 3), true); }, 3); mc::add("round-trip", [] { round_trip(mc::tier(2, 4)); }, 3); mc::add("missing", missing, 1); mc::add("merge-files", [] { merge_files(mc::tier(1, 2)); }, 4); }
