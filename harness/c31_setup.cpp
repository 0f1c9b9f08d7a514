#include "sqlfile.hpp"
// the layer's calls of the engine: counted, and the nth one fails
static int opened, closed, fail_at = -1, fail_code, calls; static sqlite3 *last;
static int hit() { return calls++ == fail_at ? fail_code : 0; }
extern "C" {
int mc_sqlite3_open(const char *p, sqlite3 **d) { if (int f = hit()) { int rc = sqlite3_open(":memory:", d); (void)rc; opened++; last = *d; return f; } int rc = sqlite3_open(p, d); if (*d) opened++; last = *d; return rc; }
int mc_sqlite3_close(sqlite3 *d) { int rc = sqlite3_close(d); if (d && !rc) closed++; return rc; }
int mc_sqlite3_exec(sqlite3 *d, const char *q, int (*cb)(void *, int, char **, char **), void *c, char **e) { if (int f = hit()) { if (e) *e = sqlite3_mprintf("fault"); return f; } return sqlite3_exec(d, q, cb, c, e); }
}
// ---- files ---------------------------------------------------------------------------------------------
static const char *const PREV[] = {"", "create table a(x); insert into a values(9)", "create table b(y unique); insert into b values(2); create index i on b(y)"};
static const char *const ST[] = {"create table a(x);", "create table b(y unique);", "insert into a values(1);", "insert into b values(2);", "create tabel c(z);", "drop table a;", "create index i on b(y);", "update a set x=x+1;"};
// what the statements do: all of them when all can be done, else none (or, without a transaction, those before)
struct Want { bool ok; Str prev, end, prefix; };
static Want reference(const char *prev, const vector<Str> &st) { Want w; sqlite3 *d; sqlite3_open(":memory:", &d); sqlite3_exec(d, prev, 0, 0, 0); w.prev = content(d); w.ok = true; for (auto &s : st) if (sqlite3_exec(d, s.c_str(), 0, 0, 0) != SQLITE_OK) { w.ok = false; break; } w.prefix = w.end = content(d); if (!w.ok) w.end = w.prev; sqlite3_close(d); return w; }
// mode: 0 no handle wanted, 1 a handle wanted, 2 an open handle given
static int child_setup(const Str &path, const char *sql, int mode, bool tx) { sqlite3 *d = nullptr; if (mode == 2 && sqlite3_open(path.c_str(), &d) != SQLITE_OK) return NOHANDLE; if (sql) cee_sqlite3_init_db(mode ? &d : nullptr, (char *)path.c_str(), (char *)sql, tx); else cee_sqlite3_drop_all_tables(mode ? &d : nullptr, (char *)path.c_str()); return mode && !d ? NOHANDLE : RETURNED; }
static vector<Str> pick(int maxn) { int n = choose(maxn + 1, "statements"); vector<Str> s; for (int i = 0; i < n; i++) s.push_back(ST[choose(8, "statement")]); return s; }
static Str join(const vector<Str> &s) { Str r; for (auto &x : s) r += x + "\n"; return r; }
static void scripts() {
  int p = choose(3, "content"), mode = choose(3, "mode"), tx = choose(2, "transaction"); auto st = pick(mc::tier(2, 3)); Str dir = fresh(), path = dir + "/x.db", sql = join(st); make(path, PREV[p]); Want w = reference(PREV[p], st); step("%s%s", sql.c_str(), tx ? " in a transaction" : "");
  int r = in_child([&] { return child_setup(path, sql.c_str(), mode, tx); }); Str got = content_of(path); MC_CHECK(r == (w.ok ? RETURNED : STOPPED), "the setup %s", how(r)); const Str &want = w.ok ? w.end : tx ? w.prev : w.prefix; if (got != want) fail("the setup %s and leaves %s instead of %s", how(r), got.c_str(), want.c_str()); mc::state(mc::hash_str(got));
}
static void handles() {                                   // successful setups in this process: the handle, descriptors
  int p = choose(3, "content"), mode = choose(3, "mode"), tx = choose(2, "transaction"), none = choose(2, "no statements"), where = choose(2, "place"); static const vector<Str> OKS[] = {{}, {ST[1], ST[3]}, {ST[0]}}; vector<Str> st = none ? vector<Str>{} : OKS[p == 0 ? 1 : p == 2 ? 2 : 0]; Str dir = fresh(), path = where ? Str(":memory:") : dir + "/x.db", sql = join(st); if (!where) make(path, PREV[p]); else if (p) mc::skip(); Want w = reference(PREV[p], st); step("mode %d", mode);
  int f0 = fds(); opened = closed = 0; sqlite3 *d = nullptr, *given = nullptr; if (mode == 2) { MC_CHECK(sqlite3_open(path.c_str(), &d) == SQLITE_OK, "harness"); given = d; }
  cee_sqlite3_init_db(mode ? &d : nullptr, cs(path.c_str()), none ? nullptr : cs(sql.c_str()), tx); if (mode == 0) MC_CHECK(opened == closed && fds() == f0, "%d connections are left open", opened - closed); if (mode == 1) MC_CHECK(d && opened == 1 && closed == 0, "no handle is returned"); if (mode == 2) MC_CHECK(d == given && opened == 0 && closed == 0, "the given handle is not used");
  if (mode) { MC_CHECK(sqlite3_get_autocommit(d), "a transaction is left open"); Str c = content(d); if (c != w.end) fail("the handle shows %s instead of %s", c.c_str(), w.end.c_str()); MC_CHECK(sqlite3_exec(d, "create table later(q); insert into later values(1)", 0, 0, 0) == SQLITE_OK, "the handle does not work"); MC_CHECK(sqlite3_close(d) == SQLITE_OK, "the database cannot be closed"); }
  if (!where) { Str got = content_of(path); MC_CHECK(mode ? got.find("later") != Str::npos : got == w.end, "the file holds %s", got.c_str()); } MC_CHECK(fds() == f0, "%d descriptors are left open", fds() - f0);
}
static void unopenable() {
  int kind = choose(4, "path"), mode = choose(2, "mode"), none = choose(2, "no statements"), tx = choose(2, "transaction"); Str dir = fresh(), path; if (kind == 0) path = dir; if (kind == 1) path = dir + "/no/x.db"; if (kind == 2 || kind == 3) { path = dir + "/g.db"; FILE *f = fopen(path.c_str(), "wb"); for (int i = 0; i < (kind == 2 ? 5000 : 50); i++) fputs("garbage ", f); fclose(f); } step("%s", kind == 0 ? "a directory" : kind == 1 ? "in a missing directory" : "no database"); Str before = kind >= 2 ? slurp(path) : Str();
  int r = in_child([&] { int f0 = fds(); opened = closed = 0; sqlite3 *d = nullptr; cee_sqlite3_init_db(mode ? &d : nullptr, cs(path.c_str()), none ? nullptr : cs("create table q(x);"), tx); if (kind < 2 && (d || opened != closed || fds() != f0)) return 7; if (mode && d && kind >= 2) sqlite3_close(d); return (int)RETURNED; }); if (kind < 2) MC_CHECK(r == RETURNED, "a database that cannot be opened: the setup %s (%d)", how(r), r); else { MC_CHECK(r == (none ? RETURNED : STOPPED), "a file that is no database: the setup %s (%d)", how(r), r); MC_CHECK(slurp(path) == before, "the file is changed"); }
}
// the layer's own calls fail in turn
static void refused() {
  static const int CODES[] = {SQLITE_ERROR, SQLITE_BUSY, SQLITE_LOCKED, SQLITE_NOMEM, SQLITE_IOERR, SQLITE_FULL, SQLITE_CORRUPT, SQLITE_CANTOPEN, SQLITE_CONSTRAINT, SQLITE_INTERRUPT, SQLITE_READONLY, SQLITE_MISUSE}; int p = choose(3, "content"), mode = choose(3, "mode"), tx = choose(2, "transaction"), at = choose(4, "call"), code = choose(12, "code"), drop = choose(2, "drop"); if (drop && !tx) mc::skip(); static const vector<Str> OKS[] = {{ST[0], ST[2]}, {ST[1], ST[3]}, {ST[0]}}; vector<Str> st = OKS[p]; Str dir = fresh(), path = dir + "/x.db", sql = join(st); make(path, PREV[p]); Want w = reference(PREV[p], st); if (drop) w.end = "";
  step("call %d answers %d", at, CODES[code]); int r = in_child([&] { calls = 0; fail_at = at; fail_code = CODES[code]; return child_setup(path, drop ? nullptr : sql.c_str(), mode, tx); }); Str got = content_of(path); int opens = mode == 2 ? 0 : 1, total = opens + (tx ? 3 : 1); bool f = at < total; if (!f) { MC_CHECK(r == RETURNED && got == w.end, "the setup %s and leaves %s", how(r), got.c_str()); return; }
  if (got != w.prev) fail("the setup fails and leaves %s instead of %s", got.c_str(), w.prev.c_str()); MC_CHECK(r == (opens && at == 0 ? (mode ? NOHANDLE : RETURNED) : STOPPED), "the setup %s though call %d fails", how(r), at);
}
// the process ends, or a file operation fails, at every point
static void broken(bool crash) {
  static const vector<Str> S[] = {{ST[0], ST[2]}, {ST[1], ST[3]}, {ST[7], ST[2]}, {ST[5], ST[1], ST[6]}, {ST[3]}, {ST[7], ST[4]}}; int p = choose(3, "content"), s = choose(7, "script"), mode = choose(3, "mode"), persist = crash ? 0 : choose(2, "persistent"), n = choose(90, "operation"); Str dir = fresh(), path = dir + "/x.db"; make(path, PREV[p]); vector<Str> st = s < 6 ? S[s] : vector<Str>{}; Want w = reference(PREV[p], st); if (s == 6) { w.end = ""; w.ok = true; } Str sql = join(st); step("%s: %s at file operation %d", s < 6 ? sql.c_str() : "drop all", crash ? "killed" : "failure", n);
  int r = in_child([&] { sqlite3_vfs_register(&myvfs, 1); io_crash = crash; io_persist = persist; io_code = SQLITE_IOERR_WRITE; io_left = n; fired = calls = 0; int x = child_setup(path, s < 6 ? sql.c_str() : nullptr, mode, true); if (x == RETURNED && !mode && calls < 2) x = NOHANDLE; return x == RETURNED && !fired ? 9 : x; }); bool reached = r != 9 && !(r == STOPPED && !w.ok); Str got = content_of(path); MC_CHECK(n < 89 || !reached, "harness: more file operations than are explored");
  if (r == 9 || r == RETURNED) { MC_CHECK(w.ok, "a failing setup returns"); if (got != w.end) fail("the setup returned and the file holds %s instead of %s", got.c_str(), w.end.c_str()); } else if (got != w.prev && got != w.end) fail("the setup %s and the file holds %s, which is neither %s nor %s", how(r), got.c_str(), w.prev.c_str(), w.end.c_str()); if (r == NOHANDLE) MC_CHECK(got == w.prev, "no handle, and the file holds %s", got.c_str());
  { sqlite3 *d; sqlite3_open(path.c_str(), &d); Table t = dump(d, "pragma integrity_check"); for (auto &row : t) MC_CHECK(row[0] == T("ok") || row[0].find("never used") != Str::npos, "after it the database is damaged: %s", showtab(t).c_str()); sqlite3_close(d); } if (r == 9) mc::skip(); mc::state(mc::hash_str(got, r));
}
// dropping everything
static void dropping() {
  static const char *const OBJ[] = {"create table t(a, b); insert into t values(1,'x'),(2,'y');", "create index i on t(a);", "create trigger tr after insert on t begin update t set b='z'; end;", "create table w(k primary key, v) without rowid; insert into w values(1,2);", "create table s(id integer primary key autoincrement, q); insert into s(q) values(1),(2);", "create table u(x unique, y default 'd' check(y<>''));", "create table big(x); with recursive c(n) as (select 1 union all select n+1 from c where n<300) insert into big select hex(zeroblob(n)) from c;"}; int set = choose(128, "objects"), mode = choose(3, "mode"), twice = choose(2, "twice"); if (!(set & 1) && set & 6) mc::skip(); Str dir = fresh(), path = dir + "/x.db", sql; for (int i = 0; i < 7; i++) if (set >> i & 1) sql += OBJ[i]; make(path, sql.c_str()); Str full = content_of(path); step("objects %d", set); opened = closed = 0; sqlite3 *d = nullptr; int f0 = fds(); if (mode == 2) sqlite3_open(path.c_str(), &d);
  for (int k = 0; k <= twice; k++) { if (mode == 1 && d) { sqlite3_close(d); d = nullptr; } cee_sqlite3_drop_all_tables(mode ? &d : nullptr, cs(path.c_str())); } sqlite3 *o = d; if (!mode) { MC_CHECK(fds() == f0, "descriptors are left open"); sqlite3_open(path.c_str(), &o); } MC_CHECK(o, "no handle"); Table m = dump(o, "select type,name from sqlite_master"); MC_CHECK(m.empty(), "after dropping all tables there is %s", showtab(m).c_str()); MC_CHECK(sqlite3_get_autocommit(o), "a transaction is left open");
  Str c2 = content_of(path); MC_CHECK(c2.empty(), "the file holds %s", c2.c_str()); char *e = nullptr; MC_CHECK(sqlite3_exec(o, "delete from sqlite_master", 0, 0, 0) != SQLITE_OK, "the schema can still be written"); if (sqlite3_exec(o, sql.c_str(), 0, 0, &e) != SQLITE_OK) fail("the tables cannot be made again: %s", e); Str c = content(o); if (c != full) fail("made again the database holds %s instead of %s", c.c_str(), full.c_str()); Table t = dump(o, "pragma integrity_check"); for (auto &row : t) MC_CHECK(row[0] == T("ok") || row[0].find("never used") != Str::npos, "the database is damaged: %s", showtab(t).c_str()); MC_CHECK(sqlite3_close(o) == SQLITE_OK, "close"); MC_CHECK(fds() == f0, "descriptors are left open");
}
// ---- attaching -----------------------------------------------------------------------------------------
struct Room { Str dir; sqlite3 *d = nullptr; ~Room() { if (d) sqlite3_close(d); } Room(int where) { dir = fresh(); mkdir((dir + "/sub").c_str(), 0755); make(dir + "/main.db", "create table m(x); insert into m values('main')"); make(dir + "/o.db", "create table t(x); insert into t values('o')"); make(dir + "/two words'.db", "create table t(x); insert into t values('two')"); make(dir + "/sub/s.db", "create table t(x); insert into t values('s')"); Str p = where == 0 ? dir + "/main.db" : where == 1 ? abspath(dir) + "/main.db" : dir + "/sub/s.db"; MC_CHECK(sqlite3_open(p.c_str(), &d) == SQLITE_OK, "harness"); sqlite3_exec(d, "select * from sqlite_master", 0, 0, 0); } };
static const char *const FILES[] = {"o.db", "two words'.db", "sub/s.db", "new.db", "no/x.db"}; static const char *const WHO[] = {"o", "two", "s", "", ""};
static map<Str, Str> attached(sqlite3 *d) { map<Str, Str> m; for (auto &r : dump(d, "select name,file from pragma_database_list where seq>1")) m[r[0].substr(2)] = r[1].substr(2); return m; }
static void attaching() {
  static const char *const AS[] = {"x", "other_name", "X1"}; int where = choose(3, "main"), f = choose(5, "file"), a = choose(3, "name"), size = choose(64, "buffer"), err = choose(2, "message"); Room room(where); Str base = where == 2 ? room.dir + "/sub" : room.dir; if (where == 2) { make(base + "/o.db", "create table t(x); insert into t values('o')"); make(base + "/two words'.db", "create table t(x); insert into t values('two')"); mkdir((base + "/sub").c_str(), 0755); make(base + "/sub/s.db", "create table t(x); insert into t values('s')"); } St st; Cs c(st, room.d); Str full = "attach database \"" + abspath(base) + "/" + FILES[f] + "\" as " + AS[a] + ";"; size_t n = size < 4 ? size : (int)full.size() + 24 - size > 0 ? full.size() + 24 - size : 0; vector<char> buf(n + 1, 'Z'); char *b = (char *)malloc(n + !n); struct Fr { char *p; ~Fr() { free(p); } } fr{b}; char *msg = nullptr; step("attach %s as %s with a buffer of %zu for %zu bytes", FILES[f], AS[a], n, full.size() + 1);
  int rc = cee_sqlite3_attach_db(c, cs(FILES[f]), cs(AS[a]), b, n, err ? &msg : nullptr); auto m = attached(room.d); bool can = f != 4; if (n > full.size()) MC_CHECK((rc == SQLITE_OK) == can, "attaching gives %d: %s", rc, msg ? msg : ""); if (rc == SQLITE_OK) { MC_CHECK(m.size() == 1 && m.count(AS[a]), "attached as %s", m.empty() ? "nothing" : m.begin()->first.c_str()); MC_CHECK(m[AS[a]] == abspath(base) + "/" + FILES[f], "%s is attached instead of %s", m[AS[a]].c_str(), FILES[f]); if (f < 3) { Table t = dump(room.d, (Str("select x from ") + AS[a] + ".t").c_str()); MC_CHECK(t == Table({{T(WHO[f])}}), "it holds %s", showtab(t).c_str()); } else MC_CHECK(sqlite3_exec(room.d, (Str("create table ") + AS[a] + ".q(z)").c_str(), 0, 0, 0) == SQLITE_OK, "cannot use it"); } else { MC_CHECK(m.empty(), "attaching fails and %s is attached", m.begin()->first.c_str()); if (err) MC_CHECK(msg, "no message"); } sqlite3_free(msg); msg = nullptr;
  // and away again, through a buffer of any size
  if (rc == SQLITE_OK) { Str dt = Str("detach database '") + AS[a] + "';"; size_t k = size % (dt.size() + 3); char *b2 = (char *)malloc(k + !k); Fr f2{b2}; rc = cee_sqlite3_detach_db(c, cs(AS[a]), b2, k, err ? &msg : nullptr); m = attached(room.d); MC_CHECK(k <= dt.size() || rc == SQLITE_OK, "detaching gives %d", rc); MC_CHECK((rc == SQLITE_OK) == m.empty(), "detaching gives %d and %zu are attached", rc, m.size()); sqlite3_free(msg); } MC_CHECK(dump(room.d, "select 1") == Table({{I(1)}}), "usable");
}
static void attach_history() {
  int depth = mc::tier(4, 6); Room room(0); St st; Cs c(st, room.d); map<Str, Str> m; static const char *const AS[] = {"x", "y"};
  for (int i = 0; i < depth; i++) { int op = choose(8, "operation"); char buf[4096], *msg = nullptr; if (op < 4) { const char *as = AS[op & 1], *f = FILES[op >> 1]; step("attach %s as %s", f, as); int rc = cee_sqlite3_attach_db(c, cs(f), cs(as), buf, sizeof buf, &msg); MC_CHECK((rc == SQLITE_OK) == !m.count(as), "attach gives %d: %s", rc, msg ? msg : ""); if (!rc) m[as] = abspath(room.dir) + "/" + f; else MC_CHECK(msg, "no message"); }
    else if (op < 6) { const char *as = AS[op & 1]; step("detach %s", as); int rc = cee_sqlite3_detach_db(c, cs(as), buf, sizeof buf, &msg); MC_CHECK((rc == SQLITE_OK) == !!m.count(as), "detach gives %d: %s", rc, msg ? msg : ""); m.erase(as); }
    else { const char *as = AS[op & 1]; step("read %s", as); bool ok = sqlite3_exec(room.d, (Str("select * from ") + as + ".t").c_str(), 0, 0, 0) == SQLITE_OK; MC_CHECK(ok == !!m.count(as), "reading %s %s", as, ok ? "works" : "fails"); } sqlite3_free(msg); auto g = attached(room.d); MC_CHECK(g == m, "%zu databases are attached instead of %zu", g.size(), m.size()); Str h; for (auto &p : m) h += p.first + p.second.substr(p.second.rfind('/')); mc::prune(mc::hash_str(h), depth - i); }
}
static void names() {                                      // the descriptor keeps what it is given, cut to its room
  int a = choose(70, "name"), b = choose(140, "path"); St st; Str n(a, 'n'), p(b, 'p'); struct cee_sqlite3 *c = (cee_sqlite3 *)malloc(sizeof *c); cee_sqlite3_init(c, cs(n.c_str()), cs(p.c_str()), st, (sqlite3 *)&st); step("%d, %d", a, b); MC_CHECK(n.substr(0, 63) == c->db_name && p.substr(0, 127) == c->db_path && c->state == st.s && c->db == (sqlite3 *)&st, "init keeps %s, %s", c->db_name, c->db_path); free(c); }
// scripts of many statements and of many bytes: all of it is done, or nothing
static void long_scripts() {
  static const int N[] = {30, 300, 1500}; int n = N[choose(3, "statements")], wide = choose(2, "long"), bad = choose(4, "failing"), mode = choose(3, "mode"), tx = choose(2, "transaction"), p = choose(3, "content"); if (!tx && n > 300) mc::skip(); vector<Str> st; for (int i = 0; i < n; i++) st.push_back(i % 4 == 0 ? mc::fmt("create table n%d(x, y);", i) : mc::fmt("insert into n%d values(%d,'%s');", i - i % 4, i, Str(wide ? i % 300 : 1, 'w').c_str())); if (bad) st[bad == 1 ? n - 1 : bad == 2 ? n / 2 : 1] = bad == 3 ? "insert into nowhere values(1);" : "create table n0(z);";
  Str dir = fresh(), path = dir + "/x.db", sql = join(st); make(path, PREV[p]); Want w = reference(PREV[p], st); step("%d statements, %zu bytes%s", n, sql.size(), tx ? " in a transaction" : ""); int r = in_child([&] { return child_setup(path, sql.c_str(), mode, tx); }); Str got = content_of(path); MC_CHECK(w.ok == !bad, "harness: the script"); MC_CHECK(r == (w.ok ? RETURNED : STOPPED), "the setup %s", how(r));
  const Str &want = w.ok ? w.end : tx ? w.prev : w.prefix; MC_CHECK(got == want, "the setup of %d statements %s and leaves %zu bytes of content instead of %zu", n, how(r), got.size(), want.size()); mc::state(mc::hash_str(got)); if (bad || !tx || mode == 2) return;
  r = in_child([&] { return child_setup(path, nullptr, mode, false); }); Table m; { sqlite3 *d; sqlite3_open(path.c_str(), &d); m = dump(d, "select name from sqlite_master"); sqlite3_close(d); } MC_CHECK(r == RETURNED && m.empty(), "dropping %d tables %s and leaves %zu", (n + 3) / 4, how(r), m.size());
}
void mc_register() { mc::add("long-scripts", long_scripts, 3);
  sqlite3_initialize(); io_setup();
  mc::add("scripts", scripts, 3); mc::add("handles", handles, 3); mc::add("unopenable", unopenable, 2); mc::add("refused", refused, 3); mc::add("killed", [] { broken(true); }, 3); mc::add("file-failures", [] { broken(false); }, 3); mc::add("dropping", dropping, 2); mc::add("attaching", attaching, 3); mc::add("attach-history", attach_history, 2); mc::add("names", names, 1);
}
