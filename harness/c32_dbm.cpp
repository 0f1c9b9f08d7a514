// C32: managed databases (cee_dbm.c): which scripts run on which file, in which order, and what is recorded.
// Every configuration and every history of openings within the bounds, against a reference manager.
#include "sqlfile.hpp"
extern "C" {
#include "cee_dbm.h"
void *mc_malloc(size_t);
// stand-in for cee-utils, which is not part of the repository
char *cee_load_whole_file(const char *f, size_t *len) { if (access(f, F_OK)) return nullptr; Str s = slurp(f); char *p = (char *)mc_malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; *len = s.size(); return p; }
static Str commands; static int command_result;
int mc_system(const char *c) { commands += Str(c) + "\n"; return command_result; }
void mc_perror(const char *) {}
}
static void write_file(const Str &p, const Str &s) { FILE *f = fopen(p.c_str(), "wb"); MC_CHECK(f, "harness: %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void make_dirs(const Str &p) { for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755); }
// ---- the reference -------------------------------------------------------------------------------------
struct Db1 { bool there = false; vector<Str> rows; int version = 0; };
struct Script { Str row; int version = -1; bool tx = false; };            // what a script does: adds a row, sets the version
using Scripts = map<Str, Script>;                                          // by path
static Str text(const Str &path, const Script &s) { bool create = path.find("_create.") != Str::npos; return Str(s.tx ? "begin;" : "") + (create ? "create table t(r);\n" : "") + "insert into t values('" + s.row + "');\n" + (s.version >= 0 ? mc::fmt("pragma user_version=%d;\n", s.version) : Str()) + (s.tx ? "commit;" : ""); }
struct World {
  Str dir, schema, data, dbs; Scripts scripts; map<Str, Db1> db; struct Entry { Str first, second, info; }; vector<Entry> log; bool log_ok = true;
  void script(const Str &path, Script s) { scripts[path] = s; write_file(path, text(path, s)); }
  explicit World(bool make_dbs = true) { dir = fresh(); schema = dir + "/schema"; data = dir + "/data"; dbs = dir + "/dbs"; mkdir(schema.c_str(), 0755); mkdir(data.c_str(), 0755); if (make_dbs) mkdir(dbs.c_str(), 0755); }
  cee_dbm_path_info info() { cee_dbm_path_info p; memset(&p, 'x', sizeof p); strcpy(p.schema_script_path, schema.c_str()); strcpy(p.data_script_path, data.c_str()); strcpy(p.db_file_path, dbs.c_str()); return p; }
  bool apply(const Str &kind, Db1 &d, const Str &path) { auto s = scripts.find(path); if (s == scripts.end()) return false; log.push_back({kind, "apply", path}); d.rows.push_back(s->second.row); if (s->second.version >= 0) d.version = s->second.version; return true; }
  // what opening a managed database does; `states`: every content the file has between two scripts
  pair<bool, int> init(const cee_dbm_db_info &s, const char *file, const char *prefix, vector<Db1> *states = nullptr) {
    Str kind = s.kind, path = dbs + "/" + (file ? file : s.file); Db1 &d = db[path]; bool fresh_db = false; auto keep = [&] { if (states) states->push_back(d); };
    keep(); log.push_back({kind, "open", path}); Str cr = schema + "/" + kind + mc::fmt("_create.%d.sql", s.create_version);
    if (!d.there || s.recreate_db) { log.push_back({kind, d.there ? "recreate" : "create"}); if (d.there) { d.rows.clear(); keep(); } d.there = true; MC_CHECK(apply(kind, d, cr), "harness: no %s", cr.c_str()); fresh_db = true; keep(); }
    int v = d.version; log.push_back({kind, "open"});
    if (fresh_db && s.restore_db) {
      log.push_back({kind, "restore"}); apply(kind, d, data + "/" + (prefix ? Str(prefix) : kind) + mc::fmt("_insert.%d.sql", v)); keep();
      if (s.customize_db) { log.push_back({kind, "restore"}); apply(kind, d, data + "/" + kind + mc::fmt("_customize.%d.sql", v)); keep(); }
    }
    if (apply(kind, d, schema + "/" + kind + mc::fmt("_migrate.%d.sql", v))) { if (d.version != v) log.push_back({kind, "migrate"}); } else log.push_back({kind, "migrate"}); keep();
    return {fresh_db, d.version};
  }
};
static sqlite3 *open_ro(const Str &p) { sqlite3 *d = nullptr; MC_CHECK(sqlite3_open_v2(p.c_str(), &d, SQLITE_OPEN_READWRITE, nullptr) == SQLITE_OK, "%s cannot be opened", p.c_str()); return d; }
static Str show(const Db1 &d) { if (!d.there) return "(no file)"; Str r = mc::fmt("version %d:", d.version); for (auto &x : d.rows) r += " [" + x + "]"; return r; }
static Db1 actual(const Str &p) { Db1 r; if (access(p.c_str(), F_OK)) return r; r.there = true; sqlite3 *d = open_ro(p); for (auto &x : dump(d, "select name from sqlite_master where name='t'")) { (void)x; for (auto &y : dump(d, "select r from t order by rowid")) r.rows.push_back(y[0].substr(2)); } r.version = atoi(dump(d, "pragma user_version")[0][0].c_str() + 2); for (auto &x : dump(d, "pragma integrity_check")) MC_CHECK(x[0] == T("ok") || x[0].find("never used") != Str::npos, "%s is damaged: %s", p.c_str(), showrow(x).c_str()); sqlite3_close(d); return r; }
static void same_files(World &w) { for (auto &p : w.db) { Db1 a = actual(p.first); if (show(a) != show(p.second)) fail("%s holds %s instead of %s", p.first.c_str(), show(a).c_str(), show(p.second).c_str()); } }
static void same_log(World &w) {
  Str f = w.dbs + "/cee_dbm_log.db", want, got; for (auto &l : w.log) want += l.first + ":" + l.second + " "; MC_CHECK(!access(f.c_str(), F_OK), "there is no log"); sqlite3 *d = open_ro(f); Table t = dump(d, "select kind, action, info, created from log order by rowid"); sqlite3_close(d);
  for (auto &r : t) { size_t at = &r - &t[0]; if (at < w.log.size()) { Str i = w.log[at].info.substr(0, w.log[at].second == "open" ? 255 : 60); if (r[2].compare(2, i.size(), i)) fail("the entry %s %s of the log tells %s instead of %s", w.log[at].first.c_str(), w.log[at].second.c_str(), mc::quote(r[2]).c_str(), mc::quote(i).c_str()); } got += r[0].substr(2) + ":" + r[1].substr(2) + " "; MC_CHECK(r[2].size() > 2 && r[3].size() > 2, "the log has the entry %s", showrow(r).c_str()); } if (want != got) fail("the log is %s instead of %s", got.c_str(), want.c_str());
}
static cee_dbm_db_info dbinfo(const char *kind, const char *file, int flags, int version) { cee_dbm_db_info s; memset(&s, 0, sizeof s); strcpy(s.kind, kind); strcpy(s.file, file); s.recreate_db = flags & 1; s.restore_db = flags >> 1 & 1; s.customize_db = flags >> 2 & 1; s.create_version = version; return s; }
static void run(World &w, cee_dbm_db_info s, const char *file, const char *prefix) {
  cee_dbm_path_info p = w.info(); size_t l0 = mc::live_blocks(); int f0 = fds(), v = -7; bool was = cee_dbm_db_exist(&p, file ? file : s.file); MC_CHECK(was == w.db[w.dbs + "/" + (file ? file : s.file)].there, "the database is said to %sexist", was ? "" : "not ");
  bool r = cee_dbm_db_init(&p, &s, file, prefix, &v); auto want = w.init(s, file, prefix); same_files(w); same_log(w); MC_CHECK(r == want.first, "the database is said to be %s", r ? "new" : "old"); MC_CHECK(v == want.second, "the version is said to be %d instead of %d", v, want.second);
  MC_CHECK(cee_dbm_db_exist(&p, file ? file : s.file), "the database is said not to exist"); MC_CHECK(mc::live_blocks() == l0, "%zu blocks are left", mc::live_blocks() - l0); MC_CHECK(fds() == f0, "%d descriptors are left", fds() - f0); Str h; for (auto &x : w.db) h += x.first.substr(w.dir.size()) + show(x.second); mc::state(mc::hash_str(h));
}
static void decoys(World &w, const Str &kind) {          // scripts that must never run: other kinds, other directories
  for (int v = 0; v < 4; v++) { for (const char *n : {"_insert", "_customize"}) w.script(w.schema + "/" + kind + n + mc::fmt(".%d.sql", v), {"decoy"}); w.script(w.data + "/" + kind + mc::fmt("_migrate.%d.sql", v), {"decoy", 9}); for (const char *n : {"_create", "_migrate"}) w.script(w.schema + "/x" + kind + n + mc::fmt(".%d.sql", v), {"decoy", 9}); for (const char *n : {"_insert", "_customize"}) w.script(w.data + "/x" + kind + n + mc::fmt(".%d.sql", v), {"decoy", 9}); }
}
static const char *const OVER[] = {nullptr, "o.db", "sub/o.db", "a/b/c.db"};
static void existing(World &w, const Str &path, int version) { size_t k = path.rfind('/'); make_dirs(path.substr(0, k)); make(path, mc::fmt("create table t(r); insert into t values('old %d'); create index i on t(r); pragma user_version=%d", version, version).c_str()); w.db[path] = {true, {mc::fmt("old %d", version)}, version}; }
// one opening, every configuration
static void configurations() {
  int before = choose(4, "database"), flags = choose(8, "flags"), cv = 1 + choose(2, "create version"), setv = choose(3, "version set"), prefix = flags & 2 ? choose(2, "prefix") : 0, ins = flags & 2 ? choose(5, "insert scripts") : 0, cus = (flags & 6) == 6 ? choose(3, "customize scripts") : 0, mig = choose(5, "migrate scripts"), sets = !mig && (ins || cus) ? choose(3, "data scripts that set the version") : 0, over = choose(mc::tier(2, 4), "file");
  World w;
  for (int v = 1; v < 3; v++) w.script(w.schema + mc::fmt("/k_create.%d.sql", v), {mc::fmt("create %d", v), setv == 0 ? v : setv == 1 ? 3 - v : -1});
  for (int v = 0; v < 3; v++) { if (ins == 4 || (ins == 1 && v == cv) || (ins == 2 && v != cv)) w.script(w.data + mc::fmt("/k_insert.%d.sql", v), {mc::fmt("insert %d", v), sets == 1 ? 5 : -1}); if (ins == 4 || (ins == 3 && v == cv)) w.script(w.data + mc::fmt("/p_insert.%d.sql", v), {mc::fmt("p %d", v), sets == 1 ? 6 : -1}); if (cus == 2 || (cus == 1 && v == cv)) w.script(w.data + mc::fmt("/k_customize.%d.sql", v), {mc::fmt("customize %d", v), sets == 2 ? 7 : -1}); if (mig >= 3 || (mig == 1 && v == cv) || (mig == 2 && v != cv)) w.script(w.schema + mc::fmt("/k_migrate.%d.sql", v), {mc::fmt("migrate %d", v), mig == 4 ? -1 : v + 1}); }
  cee_dbm_db_info s = dbinfo("k", "m.db", flags, cv); const char *o = OVER[over]; Str path = w.dbs + "/" + (o ? o : "m.db"); if (before) existing(w, path, before - 1); existing(w, w.dbs + "/other.db", 2); step("flags %d, version %d", flags, cv); run(w, s, o, prefix ? "p" : nullptr);
}
static void others() {                                     // with scripts about that must not run
  int before = choose(4, "database"), flags = choose(8, "flags"), own = choose(2, "own scripts"); World w; decoys(w, "k"); for (int v = 1; v < 3; v++) w.script(w.schema + mc::fmt("/k_create.%d.sql", v), {mc::fmt("create %d", v), v}); if (own) { w.script(w.data + "/k_insert.1.sql", {"insert"}); w.script(w.data + "/k_customize.1.sql", {"customize"}); w.script(w.schema + "/k_migrate.1.sql", {"migrate", 2}); } if (before) existing(w, w.dbs + "/m.db", before - 1); existing(w, w.dbs + "/other.db", 1); step("flags %d", flags); run(w, dbinfo("k", "m.db", flags, 1), nullptr, nullptr);
}
// several openings of two databases after one another
static void histories() {
  int depth = mc::tier(3, 4), setv = choose(2, "version set"), mig = mc::thorough() ? choose(2, "migrations") : !setv; World w; for (const char *k : {"k", "kk"}) { for (int v = 1; v < 3; v++) w.script(w.schema + mc::fmt("/%s_create.%d.sql", k, v), {mc::fmt("%s create %d", k, v), setv ? -1 : v}); for (int v = 0; v < 4; v++) { w.script(w.data + mc::fmt("/%s_insert.%d.sql", k, v), {mc::fmt("%s insert %d", k, v)}); w.script(w.data + mc::fmt("/%s_customize.%d.sql", k, v), {mc::fmt("%s customize %d", k, v)}); if (v != 3 && (mig || v == 1)) w.script(w.schema + mc::fmt("/%s_migrate.%d.sql", k, v), {mc::fmt("%s migrate %d", k, v), v + 1}); } }
  for (int i = 0; i < depth; i++) { int k = choose(2, "kind"), f = choose(2, "file"), flags = choose(4, "flags"), cv = 1 + choose(2, "create version"); int fl = flags == 0 ? 0 : flags == 1 ? 1 : flags == 2 ? 2 : 7; cee_dbm_db_info s = dbinfo(k ? "kk" : "k", k ? "n.db" : "m.db", fl, cv); step("open %s, flags %d, version %d", k ? "kk" : "k", fl, cv); run(w, s, f ? "shared.db" : nullptr, nullptr); Str h; for (auto &x : w.db) h += x.first.substr(w.dir.size()) + show(x.second); mc::prune(mc::hash_str(h, setv * 2 + mig), depth - i); }
}
// configured paths, kinds, names and prefixes of every length that fits
static void long_names() {
  static const size_t N[] = {0, 112, 127, 126, 100}; int k = mc::tier(3, 5), a = choose(k, "database path"), b = choose(k, "schema path"), c = choose(k, "data path"), kl = choose(2, "kind") ? 15 : 1, over = choose(7, "file"), prefix = choose(4, "prefix"), before = choose(2, "database"); World w; auto grow = [&](Str &p, size_t n) { if (p.size() + 2 <= n) { p += "/" + Str(n - p.size() - 1, 'd'); MC_CHECK(!mkdir(p.c_str(), 0755), "harness: %s", p.c_str()); } }; grow(w.dbs, N[a]); grow(w.schema, N[b]); grow(w.data, N[c]);
  Str kind(kl, 'k'), name = over == 1 ? Str(28, 'n') + ".db" : Str("m.db"), other = over == 2 ? Str(60, 'o') + ".db" : over == 3 ? Str("sub/") + Str(100, 's') + ".db" : over == 4 ? Str(244, 'o') + ".db" : over == 5 ? Str(100, 's') + "/" + Str(120, 't') + "/" + Str(80, 'f') + ".db" : over == 6 ? Str(127, 's') + "/" + Str(128, 'f') : Str(), pre(prefix == 3 ? 230 : prefix == 2 ? 100 : 2, 'p'); w.script(w.schema + "/" + kind + "_create.1.sql", {"create 1", 1}); w.script(w.data + "/" + (prefix ? pre : kind) + "_insert.1.sql", {"insert 1"}); w.script(w.data + "/" + kind + "_customize.1.sql", {"customize 1"}); w.script(w.schema + "/" + kind + "_migrate.1.sql", {"migrate 1", 2});
  cee_dbm_db_info s = dbinfo(kind.c_str(), name.c_str(), 7, 1); if (before) existing(w, w.dbs + "/" + (over >= 2 ? other : name), 1); step("paths of %zu, %zu and %zu bytes", w.dbs.size(), w.schema.size(), w.data.size()); run(w, s, over >= 2 ? other.c_str() : nullptr, prefix ? pre.c_str() : nullptr);
}
// directories that are not there yet
static void directories() {
  int deep = choose(4, "directory"), over = choose(4, "file"), mode = choose(3, "mask"); World w(false); static const char *const D[] = {"", "/x", "/x/y", "/x/y/z"}; w.dbs += D[deep]; w.script(w.schema + "/k_create.1.sql", {"create 1", 1}); step("dbs%s/%s", D[deep], OVER[over] ? OVER[over] : "m.db"); mode_t old = umask(mode == 0 ? 022 : mode == 1 ? 077 : 0); run(w, dbinfo("k", "m.db", 0, 1), OVER[over], nullptr); umask(old); struct stat st; Str sub = w.dbs; if (over >= 2) sub += over == 2 ? "/sub" : "/a/b"; for (; sub.size() > w.dir.size(); sub.resize(sub.rfind('/'))) MC_CHECK(!stat(sub.c_str(), &st) && (st.st_mode & 0777) == (mode == 1 ? 0700 : 0755), "the directory %s has the mode %o", sub.c_str() + w.dir.size(), st.st_mode & 0777); run(w, dbinfo("k", "m.db", 0, 1), OVER[over], nullptr);
}
// the process dies at every file operation: the file is as after some number of scripts; opening again works
static vector<Db1> plan(World &w, int conf, cee_dbm_db_info &s) {
  bool tx = true; w.script(w.schema + "/k_create.1.sql", {"create 1", 1, tx}); w.script(w.data + "/k_insert.1.sql", {"insert 1", -1, tx}); w.script(w.data + "/k_customize.1.sql", {"customize 1", -1, tx}); w.script(w.schema + "/k_migrate.1.sql", {"migrate 1", 2, tx}); s = dbinfo("k", "m.db", conf == 0 ? 0 : conf == 1 ? 6 : conf == 2 ? 7 : 0, 1); if (conf >= 2) existing(w, w.dbs + "/m.db", conf == 2 ? 2 : 1); World m = w; vector<Db1> st; m.init(s, nullptr, nullptr, &st); return st;
}
static void killed() {
  int conf = choose(4, "configuration"), n = choose(450, "operation"); World w; cee_dbm_db_info s; auto states = plan(w, conf, s); cee_dbm_path_info p = w.info(); step("killed at file operation %d", n); int r = in_child([&] { sqlite3_vfs_register(&myvfs, 1); io_crash = true; io_left = n; fired = 0; int v; cee_dbm_db_init(&p, &s, nullptr, nullptr, &v); return fired ? RETURNED : 9; });
  MC_CHECK(n < 449 || r == 9, "harness: more file operations than are explored"); MC_CHECK(r == CRASHED || r == 9, "opening %s", how(r)); Db1 a = actual(w.dbs + "/m.db"); if (r == 9) { if (show(a) != show(states.back())) fail("the database is %s instead of %s", show(a).c_str(), show(states.back()).c_str()); mc::skip(); }
  if (a.there && a.rows.empty() && !a.version) { mc::state(1); return; }        // made, but nothing applied yet
  bool ok = false; for (auto &x : states) ok = ok || show(x) == show(a); if (!ok) fail("killed there, the database is %s", show(a).c_str()); mc::state(mc::hash_str(show(a)));
  if (access((w.dbs + "/cee_dbm_log.db").c_str(), F_OK)) { MC_CHECK(show(a) == show(states[0]), "changed without a log"); return; } sqlite3 *lg = open_ro(w.dbs + "/cee_dbm_log.db"); Str c; for (auto &x : dump(lg, "pragma integrity_check")) c += x[0]; sqlite3_close(lg); MC_CHECK(c == T("ok"), "the log is damaged: %s", c.c_str()); w.db[w.dbs + "/m.db"] = a; w.log.clear(); int v = -7; bool again = cee_dbm_db_init(&p, &s, nullptr, nullptr, &v); auto want = w.init(s, nullptr, nullptr); same_files(w); MC_CHECK(again == want.first && v == want.second, "opened again, the database is said to be %s, version %d", again ? "new" : "old", v);
}
// a script that fails stops the process, before anything after it is done
static void failing() {
  int which = choose(5, "script"), conf = choose(4, "configuration"); World w; cee_dbm_db_info s; auto states = plan(w, conf, s); static const char *const N[] = {"schema/k_create.1.sql", "data/k_insert.1.sql", "data/k_customize.1.sql", "schema/k_migrate.1.sql", "schema/none.sql"}; Str path = w.dir + "/" + N[which]; write_file(path, "begin; insert into nothere values(1); commit;"); cee_dbm_path_info p = w.info(); step("%s fails", N[which]);
  World m = w; bool runs = false; vector<Db1> before; { vector<Db1> st; World q = w; q.init(s, nullptr, nullptr, &st); for (auto &x : st) { bool has = false; for (auto &r : x.rows) has = has || r == w.scripts[path].row; if (has && which < 4) { runs = true; break; } before.push_back(x); } }
  int r = in_child([&] { int v; cee_dbm_db_init(&p, &s, nullptr, nullptr, &v); return (int)RETURNED; }); MC_CHECK(r == (runs ? STOPPED : RETURNED), "opening %s", how(r)); Db1 a = actual(w.dbs + "/m.db"), want = before.back(); want.there = true; if (show(a) != show(want)) fail("the database is %s instead of %s", show(a).c_str(), show(want).c_str());
}
void mc_register() { sqlite3_initialize(); io_setup(); sqlite3_vfs_register(&myvfs, 1);
  mc::add("configurations", configurations, 4); mc::add("others", others, 2); mc::add("histories", histories, 4); mc::add("long-names", long_names, 3); mc::add("directories", directories, 2); mc::add("killed", killed, 2); mc::add("failing", failing, 2);
}
