#include "mc.hpp"
#include <atomic>
#include <ctime>
#include <cerrno>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>

extern "C" { void *mc_malloc(size_t); void mc_free(void *); }

namespace mc {

static std::vector<Scenario> g_scen;
void add(const std::string &name, std::function<void()> fn, int split) { g_scen.push_back({name, fn, split}); }
bool thorough() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

// ------------------------------------------------------------------------------ shared memory
enum { MAXW = 16, MAXPATH = 4096, MAXSCEN = 64, NSAMP = 4, CLAIMS = 1 << 18, MSG = 4096, MAXKNOWN = 32 };
struct Samp { int scen, n; uint16_t c[256]; };
struct Worker {
  std::atomic<uint64_t> beat, execs, steps, choices, pruned, skipped;
  std::atomic<int> scen, n, failed, done, maxdepth;
  uint16_t c[MAXPATH], a[MAXPATH];
  Samp samp[NSAMP]; int nsamp;
  char msg[MSG];
};
struct Table {               // lock-free set of 64-bit fingerprints
  std::atomic<uint64_t> *t; uint64_t mask; std::atomic<uint64_t> *count;
};
struct Shared {
  Worker w[MAXW];
  std::atomic<uint64_t> nstates, nprune, noutcome, known_hit[MAXKNOWN];
  std::atomic<uint64_t> scen_execs[MAXSCEN];
  std::atomic<int> stop, overflow;
};
static Shared *S;
static std::atomic<uint8_t> *g_claim;    // [MAXSCEN][CLAIMS]
static Table T_state, T_prune, T_out;
static Worker *W;
static int g_wid, g_nw = 8;
static bool g_log;
static std::string g_logbuf;
static std::vector<std::string> g_known;

static void *shm(size_t n) {
  void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}
static Table mk_table(int bits, std::atomic<uint64_t> *count) {
  Table t; t.t = (std::atomic<uint64_t> *)shm(sizeof(uint64_t) << bits); t.mask = (1ull << bits) - 1; t.count = count; return t;
}
static bool insert(Table &t, uint64_t h) {   // true when new
  if (!h) h = 1;
  uint64_t i = h & t.mask;
  for (uint64_t k = 0; k <= t.mask; k++, i = (i + 1) & t.mask) {
    uint64_t cur = t.t[i].load(std::memory_order_relaxed);
    if (cur == h) return false;
    if (cur == 0) {
      if (t.t[i].compare_exchange_strong(cur, h)) {
        if (++*t.count > t.mask / 4 * 3) { S->overflow = 1; }
        return true;
      }
      if (cur == h) return false;
    }
  }
  S->overflow = 1; return true;
}

// ------------------------------------------------------------------------------ one execution
struct Abandon {};
static std::vector<int> g_forced;      // forced answers for this execution
static int g_pos, g_base;              // choices consumed / length below which prune checks are off
static uint64_t g_obs;                 // rolling hash of everything observed
static bool g_replay, g_owned;
static int g_split, g_scen_id; static uint64_t g_ord; static bool g_pruned_now;

static void vappend(const char *pre, const char *f, va_list ap) {
  char b[2048]; vsnprintf(b, sizeof b, f, ap); g_logbuf += pre; g_logbuf += b; g_logbuf += "\n";
}
void step(const char *f, ...) {
  W->steps.store(W->steps + 1, std::memory_order_relaxed);
  W->beat.store(W->beat + 1, std::memory_order_relaxed);
  if (!g_log) return;
  va_list ap; va_start(ap, f); vappend("", f, ap); va_end(ap);
}
void note(const char *f, ...) { if (!g_log) return; va_list ap; va_start(ap, f); vappend("  # ", f, ap); va_end(ap); }
static void write_failure(const char *m) {
  strncpy(W->msg, m, MSG - 1); W->failed = 1;
  if (g_log) { g_logbuf += "FAIL: "; g_logbuf += m; g_logbuf += "\n"; fwrite(g_logbuf.data(), 1, g_logbuf.size(), stdout); fflush(stdout); }
  _exit(77);
}
void fail(const char *f, ...) { char b[MSG]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); write_failure(b); abort(); }
void skip() { W->skipped.store(W->skipped + 1, std::memory_order_relaxed); throw Abandon(); }
bool is_known(const char *id) { for (auto &k : g_known) if (k == id) return true; return false; }
void known(const char *id, const char *f, ...) {
  char b[MSG]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  for (size_t i = 0; i < g_known.size() && i < MAXKNOWN; i++) if (g_known[i] == id) { S->known_hit[i]++; throw Abandon(); }
  write_failure(b); abort();
}
void state(uint64_t h) { g_obs = mix(g_obs, h); insert(T_state, h); }
void outcome(uint64_t h) { g_obs = mix(g_obs, h * 3 + 1); insert(T_out, h); }
void prune(uint64_t h, int remaining) {
  state(h);
  if (g_replay || !g_owned || g_pos < g_base) return;
  if (!insert(T_prune, mix(mix(h, remaining + 77), g_scen_id))) {
    W->pruned.store(W->pruned + 1, std::memory_order_relaxed); g_pruned_now = true; throw Abandon();
  }
}
int choose(int n, const char *label) {
  if (n <= 0) { fprintf(stderr, "choose(%d) %s\n", n, label); _exit(3); }
  W->beat.store(W->beat + 1, std::memory_order_relaxed);
  int v;
  if (g_pos >= MAXPATH) fail("execution does not end: more than %d choices", (int)MAXPATH);
  if (g_pos < (int)g_forced.size()) {
    v = g_forced[g_pos];
    if (v >= n) { if (g_replay) fail("replay diverged: choice %d of %d at %d (%s)", v, n, g_pos, label); fprintf(stderr, "nondeterministic harness: choice %d of %d at %d (%s)\n", v, n, g_pos, label); _exit(3); }
  } else v = 0;
  W->c[g_pos] = v; W->a[g_pos] = n; g_pos++; W->n.store(g_pos, std::memory_order_release);
  g_obs = mix(g_obs, n * 1000003ull + v);
  if (!g_replay && g_pos == g_split && !g_owned) {      // entering a subtree: claim it or leave it
    uint64_t o = g_ord++;
    bool mine = o < CLAIMS ? g_claim[(size_t)g_scen_id * CLAIMS + o].exchange(1) == 0 : (int)(o % g_nw) == g_wid;
    if (!mine) throw Abandon();
    g_owned = true;
  }
  return v;
}
int deviate(int n, int &budget, const char *label) {
  if (budget <= 0 || n <= 1) return 0;
  int v = choose(n, label);
  if (v) budget--;
  return v;
}

static void run_once(Scenario &s) {
  g_pos = 0; g_obs = 0x51ed; W->n = 0;
  try { s.fn(); } catch (Abandon &) {}
  forget_all();
  set_budget(64u << 20);
}

static void worker(int id) {
  W = &S->w[id]; g_wid = id; g_replay = false; g_log = false;
  for (size_t si = 0; si < g_scen.size(); si++) {
    Scenario &s = g_scen[si];
    W->scen = si; g_scen_id = si; g_ord = 0; g_owned = s.split == 0 && id == 0; g_split = s.split; g_forced.clear(); g_base = 0;
    if (s.split == 0 && id != 0) continue;
    uint64_t n = 0;
    for (;;) {
      bool entered_owned = g_owned;
      g_pruned_now = false;
      run_once(s);
      W->beat++;
      int len = g_pos;
      bool mine = g_owned;
      if (!g_owned && len < g_split) {     // ended above the split: count it once (claimed like a subtree)
        uint64_t o = g_ord++;
        mine = o < CLAIMS ? g_claim[(size_t)si * CLAIMS + o].exchange(1) == 0 : (int)(o % g_nw) == id;
      }
      (void)entered_owned;
      if (mine) {
        n++; W->execs++; W->choices += len; S->scen_execs[si]++;
        if (len > W->maxdepth) W->maxdepth = len;
        if (!g_pruned_now && len <= 256 && (n == 1 || n == 50 || n == 5000)) {
          Samp &sp = W->samp[W->nsamp++ % NSAMP]; sp.scen = si; sp.n = len; memcpy(sp.c, W->c, len * sizeof(uint16_t));
        }
      }
      if (S->stop) return;
      // next path
      int i = len - 1;
      while (i >= 0 && W->c[i] + 1 >= W->a[i]) i--;
      if (i < 0) break;
      g_forced.assign(W->c, W->c + i + 1); g_forced[i]++;
      g_base = i + 1;
      if (i + 1 <= g_split) g_owned = (g_split == 0);
    }
  }
  W->done = 1;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// runs one forced execution in a child; returns wait status; output goes to `out`
static int replay_child(int si, const std::vector<int> &c, const char *out, double limit, bool *hung) {
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
    W = &S->w[MAXW - 1]; g_log = true; g_replay = true; g_owned = true; g_split = 0; g_scen_id = si; g_forced = c; g_base = 0;
    run_once(g_scen[si]);
    fwrite(g_logbuf.data(), 1, g_logbuf.size(), stdout); printf("obs=%016llx\n", (unsigned long long)g_obs); fflush(stdout);
    _exit(0);
  }
  double t0 = now(); int st; *hung = false;
  while (waitpid(p, &st, WNOHANG) == 0) {
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); *hung = true; return st; }
    usleep(2000);
  }
  return st;
}
static std::string slurp(const char *f, size_t max = 20000) {
  std::string r; FILE *fp = fopen(f, "rb"); if (!fp) return r;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max) r.append(b, n);
  fclose(fp); return r;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string quote(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ------------------------------------------------------------------------------ traps
static sigjmp_buf g_trap; static volatile int g_trap_on;
static void on_trap(int) { if (g_trap_on) siglongjmp(g_trap, 1); _exit(88); }
bool traps(const std::function<void()> &f) {
  struct sigaction sa, o1, o2, o3; memset(&sa, 0, sizeof sa); sa.sa_handler = on_trap; sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, &o1); sigaction(SIGABRT, &sa, &o2); sigaction(SIGILL, &sa, &o3);
  bool t = false;
  g_trap_on = 1;
  if (sigsetjmp(g_trap, 1) == 0) f(); else t = true;
  g_trap_on = 0;
  sigaction(SIGSEGV, &o1, 0); sigaction(SIGABRT, &o2, 0); sigaction(SIGILL, &o3, 0);
  return t;
}
} // namespace mc

using namespace mc;

static std::string arg(int c, char **v, const char *k, const char *d) {
  for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], k)) return v[i + 1];
  return d;
}

// usage: harness --out result.json --replay-out FILE --tmp DIR [--workers N] [--limit S] [--known a,b]
//        harness --replay "scenario:c,c,c"
int main(int argc, char **argv) {
  std::string out = arg(argc, argv, "--out", ""), tmp = arg(argc, argv, "--tmp", "/tmp"), rep = arg(argc, argv, "--replay", ""),
              rout = arg(argc, argv, "--replay-out", "");
  g_nw = atoi(arg(argc, argv, "--workers", "8").c_str()); if (g_nw > MAXW - 1) g_nw = MAXW - 1;
  double limit = atof(arg(argc, argv, "--limit", "600").c_str()), hang = atof(arg(argc, argv, "--hang", "20").c_str());
  { std::string k = arg(argc, argv, "--known", ""); size_t p = 0; while (p < k.size()) { size_t e = k.find(',', p); if (e == std::string::npos) e = k.size(); if (e > p) g_known.push_back(k.substr(p, e - p)); p = e + 1; } }
  S = (Shared *)shm(sizeof(Shared));
  g_claim = (std::atomic<uint8_t> *)shm((size_t)MAXSCEN * CLAIMS);
  T_state = mk_table(25, &S->nstates); T_prune = mk_table(25, &S->nprune); T_out = mk_table(23, &S->noutcome);
  W = &S->w[MAXW - 1];
  mc_register();
  { std::string only = arg(argc, argv, "--only", ""); if (!only.empty()) { std::vector<Scenario> k; for (auto &s : g_scen) if (s.name.find(only) != std::string::npos) k.push_back(s); g_scen = k; } }
  if (g_scen.empty() || g_scen.size() > MAXSCEN) { fprintf(stderr, "bad number of scenarios\n"); return 2; }
  if (!rep.empty()) {
    size_t c = rep.rfind(':'); std::string name = rep.substr(0, c), l = rep.substr(c + 1); int si = -1;
    for (size_t i = 0; i < g_scen.size(); i++) if (g_scen[i].name == name) si = i;
    if (si < 0) { fprintf(stderr, "no scenario %s\n", name.c_str()); return 2; }
    std::vector<int> ch; char *p = (char *)l.c_str(); while (*p) { ch.push_back(strtol(p, &p, 10)); if (*p == ',') p++; else break; }
    bool hung; std::string f = tmp + "/replay.out";
    int st = replay_child(si, ch, f.c_str(), 60, &hung);
    std::string o = slurp(f.c_str()); fwrite(o.data(), 1, o.size(), stdout);
    printf(hung ? "=> HANG\n" : WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "=> ok\n" : "=> FAILS (status %x)\n", st);
    return hung || st != 0;
  }
  double t0 = now();
  std::string fail_msg, fail_out, fail_path; int fail_scen = -1; bool timed_out = false, harness_error = false; bool hist = false;
  for (int round = 0; round < 2; round++) {
    if (round == 1) { // rerun the whole exploration once: is an unreplayable failure reproducible at all?
      for (int i = 0; i < MAXW; i++) { Worker &w = S->w[i]; w.failed = 0; w.done = 0; w.execs = 0; w.steps = 0; w.choices = 0; w.pruned = 0; w.nsamp = 0; w.n = 0; w.msg[0] = 0; }
      memset((void *)g_claim, 0, (size_t)MAXSCEN * CLAIMS); memset((void *)T_prune.t, 0, (T_prune.mask + 1) * 8); S->nprune = 0; S->stop = 0;
      for (int i = 0; i < MAXSCEN; i++) S->scen_execs[i] = 0;
    }
    pid_t pid[MAXW]; uint64_t last[MAXW]; double lt[MAXW]; int alive = 0;
    for (int i = 0; i < g_nw; i++) {
      fflush(stdout);
      pid[i] = fork();
      if (pid[i] == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string f = tmp + "/w" + std::to_string(i) + ".err"; int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
        worker(i); _exit(0);
      }
      last[i] = ~0ull; lt[i] = now(); alive++;
    }
    int bad = -1; bool hung = false; int bst = 0;
    while (alive > 0) {
      for (int i = 0; i < g_nw; i++) if (pid[i] > 0) {
        int st; pid_t r = waitpid(pid[i], &st, WNOHANG);
        if (r == pid[i]) {
          pid[i] = 0; alive--;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && bad < 0 && !S->stop) { bad = i; bst = st; S->stop = 1; }
        } else {
          uint64_t b = S->w[i].beat; if (b != last[i]) { last[i] = b; lt[i] = now(); }
          else if (now() - lt[i] > hang && bad < 0 && !S->stop) { bad = i; hung = true; S->stop = 1; }
        }
      }
      if (S->stop) { for (int i = 0; i < g_nw; i++) if (pid[i] > 0) { kill(pid[i], SIGKILL); int st; waitpid(pid[i], &st, 0); pid[i] = 0; alive--; } break; }
      if (now() - t0 > limit) { timed_out = true; S->stop = 1; continue; }
      usleep(5000);
    }
    if (bad < 0) break;
    Worker &w = S->w[bad];
    if (WIFEXITED(bst) && WEXITSTATUS(bst) == 3 && !hung) harness_error = true;
    std::vector<int> ch; for (int i = 0; i < w.n; i++) ch.push_back(w.c[i]);
    fail_scen = w.scen;
    std::string base = w.failed ? std::string(w.msg) : hung ? "no progress (hang)" : "crash";
    std::string werr = slurp((tmp + "/w" + std::to_string(bad) + ".err").c_str());
    fail_path.clear(); for (size_t i = 0; i < ch.size(); i++) fail_path += (i ? "," : "") + std::to_string(ch[i]);
    bool h2; std::string f = tmp + "/replay.out";
    int st = replay_child(fail_scen, ch, f.c_str(), hung ? 45 : 30, &h2);
    std::string ro = slurp(f.c_str());
    Worker &rw = S->w[MAXW - 1];
    if (h2 || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      fail_msg = rw.failed ? std::string(rw.msg) : h2 ? "no progress (hang): the execution does not end" : "crash: " + base;
      if (!rw.failed && !h2) { size_t p = ro.find("ERROR: AddressSanitizer"); if (p != std::string::npos) fail_msg = ro.substr(p, ro.find('\n', p) - p); }
      fail_out = ro; hist = false; harness_error = harness_error && WIFEXITED(st) && WEXITSTATUS(st) == 3; break;
    }
    if (round == 1) { fail_msg = base + " (depends on earlier executions in the same process)"; size_t p = werr.find("ERROR: AddressSanitizer"); if (p != std::string::npos) fail_msg += " " + werr.substr(p, werr.find('\n', p) - p); fail_out = werr; hist = true; break; }
    fprintf(stderr, "failure did not replay alone (%s); exploring again\n", base.c_str());
    fail_scen = -1;
  }
  uint64_t ex = 0, stp = 0, chs = 0, pr = 0, sk = 0; int md = 0; bool alldone = true;
  for (int i = 0; i < g_nw; i++) { Worker &w = S->w[i]; ex += w.execs; stp += w.steps; chs += w.choices; pr += w.pruned; sk += w.skipped; if (w.maxdepth > md) md = w.maxdepth; if (!w.done) alldone = false; }
  // samples: replay recorded executions twice and demand identical observations
  std::string samples; int nsmp = 0; bool nondet = false;
  if (fail_scen < 0) for (int i = 0; i < g_nw && nsmp < 6; i++) { Worker &w = S->w[i]; int k = std::min(w.nsamp, (int)NSAMP);
    for (int j = 0; j < k && nsmp < 6; j++) {
      if (i > 0 && j == 0 && k > 1) continue;
      std::vector<int> ch(w.samp[j].c, w.samp[j].c + w.samp[j].n); bool h; std::string f1 = tmp + "/s1", f2 = tmp + "/s2";
      int a = replay_child(w.samp[j].scen, ch, f1.c_str(), 30, &h), b = replay_child(w.samp[j].scen, ch, f2.c_str(), 30, &h);
      std::string o1 = slurp(f1.c_str(), 3000), o2 = slurp(f2.c_str(), 3000);
      if (a != b || o1 != o2) { nondet = true; fprintf(stderr, "sample replays differ:\n%s---\n%s\n", o1.c_str(), o2.c_str()); }
      if (o1.size() > 1500) o1 = o1.substr(0, 1500) + " ...";
      samples += std::string(nsmp ? "," : "") + "{\"scenario\":" + jstr(g_scen[w.samp[j].scen].name) + ",\"trace\":" + jstr(o1) + "}"; nsmp++;
    } }
  FILE *fp = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fp, "{\"executions\":%llu,\"transitions\":%llu,\"choices\":%llu,\"pruned\":%llu,\"skipped\":%llu,\"states\":%llu,\"outcomes\":%llu,\"max_choices\":%d,\"exhaustive\":%s,\"nondeterministic\":%s,\"harness_error\":%s,\"wall\":%.3f,",
          (unsigned long long)ex, (unsigned long long)stp, (unsigned long long)chs, (unsigned long long)pr, (unsigned long long)sk,
          (unsigned long long)S->nstates, (unsigned long long)S->noutcome, md, (alldone && !timed_out && !S->overflow) ? "true" : "false", nondet ? "true" : "false", harness_error ? "true" : "false", now() - t0);
  fprintf(fp, "\"scenarios\":{"); for (size_t i = 0; i < g_scen.size(); i++) fprintf(fp, "%s%s:%llu", i ? "," : "", jstr(g_scen[i].name).c_str(), (unsigned long long)S->scen_execs[i]); fprintf(fp, "},");
  fprintf(fp, "\"known\":{"); { bool first = true; for (size_t i = 0; i < g_known.size() && i < MAXKNOWN; i++) if (S->known_hit[i]) { fprintf(fp, "%s%s:%llu", first ? "" : ",", jstr(g_known[i]).c_str(), (unsigned long long)S->known_hit[i]); first = false; } } fprintf(fp, "},");
  fprintf(fp, "\"samples\":[%s],", samples.c_str());
  if (fail_scen >= 0) fprintf(fp, "\"violation\":{\"scenario\":%s,\"choices\":%s,\"message\":%s,\"history_dependent\":%s,\"output\":%s}", jstr(g_scen[fail_scen].name).c_str(), jstr(fail_path).c_str(), jstr(fail_msg).c_str(), hist ? "true" : "false", jstr(fail_out.substr(0, 8000)).c_str());
  else fprintf(fp, "\"violation\":null");
  fprintf(fp, "}\n"); if (fp != stdout) fclose(fp);
  if (harness_error || nondet) return 2;
  if (timed_out) return 0;
  return fail_scen >= 0 ? 1 : 0;
}
