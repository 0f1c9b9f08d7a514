// C33: opening, attaching, backing up and describing managed databases (cee_dbm.c).
#include "sqlfile.hpp"
extern "C" {
#include "cee_dbm.h"
void *mc_malloc(size_t);
char *cee_load_whole_file(const char *f, size_t *len) { if (access(f, F_OK)) return nullptr; Str s = slurp(f); char *p = (char *)mc_malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; *len = s.size(); return p; }
static vector<Str> commands; static int command_result;
int mc_system(const char *c) { commands.push_back(c); return command_result; }
void mc_perror(const char *) {}
}
static void put(char (&f)[128], const Str &s) { memset(f, 'x', sizeof f); strcpy(f, s.c_str()); }
template <class T> struct Held { T *p; Held() { p = (T *)malloc(sizeof(T)); memset(p, 'x', sizeof(T)); } ~Held() { free(p); } T *operator->() { return p; } };
// $HOME at the beginning of a path
static void home() {
  static const char *const P[] = {"", "$HOME", "/", "a", "$", "HOME", "$HOME/b", "~", "$home", "$HOM", " $HOME"}; static const int HL[] = {0, 1, 2, 5, 40, 120, 122, 123, 126, 127, 128, 300}; int fld = choose(3, "field"), hl = HL[choose(12, "home length")], n = choose(4, "pieces"), pad = choose(4, "padding"); Str path; for (int i = 0; i < n; i++) path += P[choose(11, "piece")];
  path += Str(pad == 0 ? 0 : pad == 1 ? 3 : pad == 2 ? 60 : 127 - path.size(), 'p'); Str h(hl, 'h'); if (hl) h[0] = '/'; Held<cee_dbm_path_info> i; Str other[2] = {"other one", "other two"}; char (*f[3])[128] = {&i->schema_script_path, &i->data_script_path, &i->db_file_path}; put(*f[fld], path); for (int k = 1; k < 3; k++) put(*f[(fld + k) % 3], other[k - 1]);
  bool pre = !path.compare(0, 5, "$HOME"); Str want = pre ? h + path.substr(5) : path; char *hb = (char *)malloc(h.size() + 1); strcpy(hb, h.c_str()); step("%s with a home of %d bytes", mc::quote(path).c_str(), hl); bool t = mc::traps([&] { cee_dbm_path_info_normalize(i.p, hb); }); free(hb);
  if (want.size() > 127) { MC_CHECK(t, "a path of %zu bytes is taken", want.size()); return; } MC_CHECK(!t, "%s stops the process", mc::quote(path).c_str()); MC_CHECK(strnlen(*f[fld], 128) < 128, "the path is not terminated"); if (want != *f[fld]) fail("%s becomes %s instead of %s", mc::quote(path).c_str(), mc::quote(*f[fld]).c_str(), mc::quote(want).c_str()); for (int k = 1; k < 3; k++) MC_CHECK(other[k - 1] == *f[(fld + k) % 3], "another path is changed"); mc::state(mc::hash_str(want));
}
// descriptions at every buffer size
static void texts() {
  static const int L[] = {0, 1, 7, 60, 127}; int which = choose(4, "description"), a = L[choose(5, "length")], b = L[choose(5, "length")], c = choose(2, "length") ? 127 : 3, flags = choose(4, "flags"); static const int V[] = {0, 7, -1, 2147483647}; int v = V[choose(which & 1 ? 4 : 1, "version")]; Str want; Held<cee_dbm_path_info> p; Held<cee_dbm_db_info> d; Str s(a, 's'), t(b, 't'), u(c, 'u');
  if (which & 1) { s = s.substr(0, 15); t = t.substr(0, 31); strcpy(d->kind, s.c_str()); strcpy(d->file, t.c_str()); d->recreate_db = flags & 1; d->restore_db = flags >> 1; d->customize_db = false; d->create_version = v; d->final_version = -v; } else { put(p->schema_script_path, s); put(p->data_script_path, t); put(p->db_file_path, u); }
  const char *r = flags & 1 ? "true" : "false", *e = flags >> 1 ? "true" : "false"; if (which == 0) want = "schema_script_path:" + s + ", data_script_path:" + t + ", db_file_path:" + u; if (which == 2) want = "schema_script_path:" + s + ", data_script_path:" + t + ", db_file_path:" + u + ", "; if (which == 1) want = "kind:" + s + ", file:" + t + ", recreate_db:" + r + ", restore_db:" + e + mc::fmt(", create_version:%d, final_version:%d", v, -v); if (which == 3) want = "db_kind:" + s + mc::fmt(", create_version:%d, ", v) + "recreate_db:" + r + ", restore_db:" + e + ", ";
  for (size_t n = 0; n <= want.size() + 2; n++) { char *x = (char *)malloc(n + !n); memset(x, '!', n + !n); step("%zu of %zu bytes", n, want.size()); size_t ret = want.size(); if (which == 0) cee_dbm_path_info2str(p.p, n, x); if (which == 1) cee_dbm_db_info2str(d.p, n, x); if (which == 2) ret = cee_dbm_path_info_snprint(x, n, p.p); if (which == 3) ret = cee_dbm_settings_snprint(x, n, d.p); MC_CHECK(ret == want.size(), "the size is said to be %zu instead of %zu", ret, want.size()); if (n) { Str w = want.substr(0, n - 1); MC_CHECK(!memcmp(x, w.c_str(), w.size() + 1), "%zu bytes hold %s instead of %s", n, mc::quote(Str(x, strnlen(x, n))).c_str(), mc::quote(w).c_str()); } else MC_CHECK(*x == '!', "a byte is written into no buffer"); free(x); } mc::state(mc::hash_str(want));
  if (which >= 2) { size_t ret = which == 2 ? cee_dbm_path_info_snprint(nullptr, 0, p.p) : cee_dbm_settings_snprint(nullptr, 0, d.p); MC_CHECK(ret == want.size(), "without a buffer the size is said to be %zu instead of %zu", ret, want.size()); }
}
static const char *const FILES[] = {"m.db", "two words.db", "sub/s.db", "none.db", "sub/none.db", "no/x.db"}; static const char *const WHO[] = {"m", "two", "s"};
static Str room() { Str d = fresh(); mkdir((d + "/dbs").c_str(), 0755); mkdir((d + "/dbs/sub").c_str(), 0755); mkdir((d + "/data").c_str(), 0755); for (int i = 0; i < 3; i++) make(d + "/dbs/" + FILES[i], (Str("create table t(x); insert into t values('") + WHO[i] + "'); pragma user_version=" + to_string(i)).c_str()); make(d + "/main.db", "create table t(x); insert into t values('main')"); return d; }
static Str opened_path; static sqlite3 *open_result;
static Str listing(const Str &d) { vector<Str> v; if (DIR *x = opendir(d.c_str())) { while (dirent *e = readdir(x)) { Str n = e->d_name; if (n != "." && n != "..") v.push_back(n); } closedir(x); } sort(v.begin(), v.end()); Str r; for (auto &s : v) { r += s + " "; struct stat st; if (!lstat((d + "/" + s).c_str(), &st) && S_ISDIR(st.st_mode)) r += "(" + listing(d + "/" + s) + ") "; } return r; }
static Str slashes(const Str &p, int far) { static const size_t N[] = {0, 100, 126, 127}; return p + Str(p.size() < N[far] ? N[far] - p.size() : 0, '/'); }
static void opening() {
  int f = choose(6, "file"), kl = choose(70, "kind length"), far = kl % 10 ? 0 : choose(4, "path length"); Str dir = room(), dbs = slashes(dir + "/dbs", far); Held<cee_dbm_path_info> p; put(p->schema_script_path, "schema"); put(p->data_script_path, "data"); put(p->db_file_path, dbs); St st; Held<cee_sqlite3> c; Str kind(kl, 'k'), path = dbs + "/" + FILES[f], ls = listing(dir); opened_path = ""; open_result = (sqlite3 *)&st; step("open %s", FILES[f]); MC_CHECK(cee_dbm_db_exist(p.p, FILES[f]) == (f < 3), "%s is said to%s exist", FILES[f], f < 3 ? " not" : "");
  bool t = mc::traps([&] { cee_dbm_open_db(st, c.p, p.p, cs(kind.c_str()), cs(FILES[f]), [](const char *x) { opened_path = x; return open_result; }); }); MC_CHECK(t == (f >= 3), "opening %s %s", FILES[f], t ? "stops the process" : "is done"); MC_CHECK(listing(dir) == ls, "files are made: %s", listing(dir).c_str()); if (t) { MC_CHECK(opened_path.empty(), "the missing file %s is opened", opened_path.c_str()); return; } MC_CHECK(opened_path == path, "%s is opened instead of %s", opened_path.c_str(), path.c_str()); MC_CHECK(c->db == open_result && c->state == st.s, "the handle or the state is lost"); MC_CHECK(kind.substr(0, 63) == c->db_name && path.substr(0, 127) == c->db_path, "name %s, path %s", c->db_name, c->db_path);
}
static void attaching() {
  static const int NL[] = {1, 2, 10, 60, 100, 140, 200, 230}; int f = choose(6, "file"), nl = NL[choose(8, "name length")], deep = choose(8, "path length"), uri = choose(2, "URI"); Str dir = room(), dbs = dir + "/dbs"; for (int i = 0; i < deep; i++) dbs += "/."; dbs += Str(deep == 7 ? 120 - dbs.size() : 0, '/'); Held<cee_dbm_path_info> p; put(p->db_file_path, dbs); St st; sqlite3 *d; MC_CHECK(sqlite3_open_v2((dir + "/main.db").c_str(), &d, SQLITE_OPEN_READWRITE | (uri ? SQLITE_OPEN_URI : 0), nullptr) == SQLITE_OK, "harness"); Cs c(st, d); Str as = "a" + Str(nl - 1, 'b'); step("attach %s as a name of %d bytes, path of %zu", FILES[f], nl, dbs.size());
  Str ls = listing(dir); size_t l0 = mc::live_blocks(); bool t = mc::traps([&] { cee_dbm_attach_db(c, p.p, cs(FILES[f]), cs(as.c_str())); }); map<Str, Str> m; for (auto &r : dump(d, "select name,file from pragma_database_list where seq>1")) m[r[0].substr(2)] = r[1].substr(2); MC_CHECK(listing(dir) == ls, "files are made: %s", listing(dir).c_str());
  if (t) { MC_CHECK(m.empty(), "stopped, and %s is attached", m.begin()->first.c_str()); size_t need = Str("attach 'file:" + dbs + "/" + FILES[f] + "?mode=ro' as " + as + ";").size(); MC_CHECK(f >= 3 || !uri || need > 255, "attaching %s stops the process", FILES[f]); Db::drop(d); return; } MC_CHECK(f < 3, "the missing file %s is attached", FILES[f]); MC_CHECK(mc::live_blocks() == l0, "blocks are left");
  MC_CHECK(m.size() == 1 && m.begin()->first == as, "attached as %s", m.empty() ? "nothing" : m.begin()->first.c_str()); Table tb = dump(d, ("select x from " + as + ".t").c_str()); MC_CHECK(tb.size() == 1 && tb[0][0] == T(WHO[f]), "the name shows %s", showtab(tb).c_str()); MC_CHECK(sqlite3_exec(d, ("insert into " + as + ".t values(1)").c_str(), 0, 0, 0) == SQLITE_READONLY, "the attached database can be written"); MC_CHECK(sqlite3_exec(d, "insert into t values(1)", 0, 0, 0) == SQLITE_OK, "the main database cannot be written"); MC_CHECK(sqlite3_close(d) == SQLITE_OK, "close"); mc::state(f * 10 + nl);
}
static void backups() {
  int f = choose(6, "file"), over = choose(2, "given"), prefix = choose(2, "prefix"), result = choose(3, "result"), twice = choose(2, "twice"), far = choose(4, "path length"); Str dir = room(), dbs = slashes(dir + "/dbs", far), data = slashes(dir + "/data", far); Held<cee_dbm_path_info> p; put(p->schema_script_path, dir + "/schema"); put(p->data_script_path, data); put(p->db_file_path, dbs); Held<cee_dbm_db_info> s; memset(s.p, 0, sizeof *s.p); strcpy(s->kind, "kind"); strcpy(s->file, over ? "else.db" : FILES[f]); const char *file = over ? FILES[f] : nullptr, *pre = prefix ? "pre" : nullptr; Str path = dbs + "/" + FILES[f], before[3], want; for (int i = 0; i < 3; i++) before[i] = content_of(dir + "/dbs/" + FILES[i]); command_result = result == 0 ? 0 : result == 1 ? 256 : -1; commands.clear(); int f0 = fds(); size_t l0 = mc::live_blocks();
  for (int k = 0; k <= twice; k++) { step("back up %s", FILES[f]); bool r = cee_dbm_db_backup(p.p, s.p, file, pre); MC_CHECK(r == (f < 3 && !result), "the backup is said to be %s", r ? "done" : "not done"); want += f < 3 ? result ? "open open backup_failed " : "open open backup " : "open backup_failed "; } MC_CHECK(fds() == f0, "%d descriptors are left open", fds() - f0); MC_CHECK(mc::live_blocks() == l0, "blocks are left");
  MC_CHECK(commands.size() == (f < 3 ? 1u + twice : 0), "%zu commands are run", commands.size()); for (auto &x : commands) { Str end = " " + path + " > " + data + "/" + (prefix ? "pre" : "kind") + "_insert." + to_string(f) + ".sql"; MC_CHECK(x.size() > end.size() && x.substr(x.size() - end.size()) == end, "the command is %s", x.c_str()); }
  for (int i = 0; i < 3; i++) MC_CHECK(content_of(dir + "/dbs/" + FILES[i]) == before[i], "%s is changed", FILES[i]); MC_CHECK(access(path.c_str(), F_OK) == (f < 3 ? 0 : -1), "%s is made", path.c_str()); sqlite3 *d; sqlite3_open((dir + "/dbs/cee_dbm_log.db").c_str(), &d); Str got; for (auto &r : dump(d, "select kind,action from log order by rowid")) { MC_CHECK(r[0] == T("kind"), "the log names %s", r[0].c_str()); got += r[1].substr(2) + " "; } sqlite3_close(d); MC_CHECK(got == want, "the log is %s instead of %s", got.c_str(), want.c_str()); mc::state(mc::hash_str(got, prefix));
}
// file names and prefixes of every length class, in directories of their own
static void long_files() {
  static const int L[] = {28, 31, 32, 60, 100, 127, 128, 129, 180, 200, 240, 247}; int op = choose(3, "op"), deep = choose(3, "directories"), nl = choose(12, "name length"), there = choose(2, "present"), far = choose(2, "path length") * 3, pl = op == 2 ? choose(4, "prefix length") : 0; Str dir = room(), dbs = slashes(dir + "/dbs", far), data = slashes(dir + "/data", far), name; if (deep) name = Str(deep == 1 ? 9 : 110, 'd') + "/"; Str sub = name; name += Str(L[nl] - 3, 'f') + ".db"; if (dbs.size() + name.size() > 480) mc::skip();
  if (deep) mkdir((dir + "/dbs/" + sub).c_str(), 0755); Str path = dbs + "/" + name; if (there) make(path, "create table t(x); pragma user_version=42"); else if (L[nl] > 28) make(path.substr(0, path.size() - 1), "create table t(x)"); step("%d bytes", (int)path.size()); Str before = there ? content_of(path) : Str(), ls = listing(dir); Held<cee_dbm_path_info> p; put(p->schema_script_path, dir + "/schema"); put(p->data_script_path, data); put(p->db_file_path, dbs); St st; Held<cee_sqlite3> c;
  MC_CHECK(cee_dbm_db_exist(p.p, name.c_str()) == there, "a file of %zu bytes is said to%s exist", path.size(), there ? " not" : ""); if (op == 0) { MC_CHECK(listing(dir) == ls, "files are made: %s", listing(dir).c_str()); return; }
  if (op == 1) { opened_path = ""; open_result = (sqlite3 *)&st; bool t = mc::traps([&] { cee_dbm_open_db(st, c.p, p.p, cs("k"), cs(name.c_str()), [](const char *x) { opened_path = x; return open_result; }); }); MC_CHECK(t == !there && opened_path == (there ? path : Str()), "a file of %zu bytes: %s, %s is opened", path.size(), t ? "stopped" : "done", mc::quote(opened_path).c_str()); MC_CHECK(listing(dir) == ls, "files are made: %s", listing(dir).c_str()); return; }
  Held<cee_dbm_db_info> s; memset(s.p, 0, sizeof *s.p); strcpy(s->kind, "kind"); strcpy(s->file, "else.db"); Str pre(pl * 80, 'p'); commands.clear(); command_result = 0; bool r = cee_dbm_db_backup(p.p, s.p, name.c_str(), pl ? pre.c_str() : nullptr); MC_CHECK(r == there, "the backup is said to be %s", r ? "done" : "not done"); MC_CHECK(commands.size() == (size_t)there, "%zu commands are run", commands.size());
  if (there) { Str end = " " + path + " > " + data + "/" + (pl ? pre : Str("kind")) + "_insert.42.sql"; auto &x = commands[0]; MC_CHECK(x.size() > end.size() && x.substr(x.size() - end.size()) == end, "the command is %s", x.c_str()); MC_CHECK(content_of(path) == before, "the database is changed"); } mc::state(path.size() * 4 + pl);
}
void mc_register() { mc::add("long-files", long_files, 2); sqlite3_initialize(); io_setup(); sqlite3_vfs_register(&myvfs, 1);
  mc::add("home", home, 3); mc::add("texts", texts, 2); mc::add("opening", opening, 2); mc::add("attaching", attaching, 3); mc::add("backups", backups, 2);
}
