#include "sql.hpp"
#include <unistd.h>
using namespace std;
// a table of rows (rowid, k, v); a NULL k matches nothing
struct R { int64_t id; Str k, v; bool operator==(const R &o) const { return id == o.id && k == o.k && v == o.v; } };
struct Model { vector<R> t; bool uniq, ints;
  vector<R *> match(const Str &k) { vector<R *> r; if (k != NUL) for (auto &x : t) if (x.k == k) r.push_back(&x); return r; }
  int64_t next() { if (t.empty()) return 1; int64_t m = t[0].id; for (auto &x : t) m = max(m, x.id); return m + 1; }
  // the row id, or 0 when a constraint forbids it
  int64_t insert(const Str &k, const Str &v) { if (v == T("bad") || (uniq && !match(k).empty())) return 0; int64_t id = ints && k != NUL ? strtoll(k.c_str() + 2, 0, 10) : next(); t.push_back({id, ints ? I(id) : k, v}); sort(t.begin(), t.end(), [](const R &a, const R &b) { return a.id < b.id; }); return id; }
  Table table() { Table r; for (auto &x : t) r.push_back({I(x.id), x.k, x.v}); return r; }
};
static const char *SCHEMA[] = {"create table t(k text primary key, v text default 'dflt' check (v is not 'bad'))", "create table t(k text, v text default 'dflt' check (v is not 'bad'))", "create table t(k integer primary key, v text default 'dflt' check (v is not 'bad'))"};
static const char *OTHER = "; create table u(k, v); insert into u values('a',1),(1,'b')"; static const Table U = {{I(1), T("a"), I(1)}, {I(2), I(1), T("b")}};
static const char *SEL = "select k,v from t where k=@k order by rowid", *INS = "insert into t(k,v) values(@k,@v)", *UPD = "update t set v=@v where k=@k", *DEL = "delete from t where k=@k", *TPL = "update t set %s where k=@k";
enum Op { INSERT, UPDATE, UPDATE_IF, UPSERT, SELINS, DELETE, ARRAY, BEGIN, END, ROLLBACK, NOPS }; static const char *const NAME[] = {"insert", "update", "update_if_exists", "update_or_insert", "select1_or_insert", "delete", "insert_json_array", "begin", "end", "rollback"};
enum Form { RAW, STATIC, DYNAMIC, NFORMS }; static const char *const FORM[] = {"", "_op", "_op (dynamic)"};
struct World { St st; Db db; Cs c; Model m; vector<R> saved; bool in_tx = false;
  World(int schema) : db((Str(SCHEMA[schema]) + OTHER).c_str()), c(st, db.d) { m.uniq = schema != 1; m.ints = schema == 2; }
  Str key(int i) const { static const Str A[] = {T("a"), T("b'"), T("")}, N[] = {I(1), I(-7), I(1LL << 35)}; return i == 3 ? NUL : m.ints ? N[i] : A[i]; }
  uint64_t hash() { uint64_t h = mc::hash_str(showtab(m.table()), in_tx); if (in_tx) for (auto &x : saved) h = mc::hash_str(x.k + "/" + x.v, mc::mix(h, x.id)); h = mc::mix(h, sqlite3_changes(db.d)); return mc::mix(h, sqlite3_last_insert_rowid(db.d)); }
  void same(const char *op) { Table g = dump(db.d, "select rowid,k,v from t order by rowid"), w = m.table(); if (g != w) fail("after %s the table is %s instead of %s", op, showtab(g).c_str(), showtab(w).c_str()); g = dump(db.d, "select rowid,k,v from u order by rowid"); if (g != U) fail("%s changes another table to %s", op, showtab(g).c_str()); MC_CHECK(!!sqlite3_get_autocommit(db.d) == !in_tx, "%s ends or starts a transaction", op); db.no_stmt(op); mc::state(mc::hash_str(showtab(w), in_tx)); }
};
static const Str VAL[] = {T("x"), T("'y"), NUL, T("bad"), "-"};
// how: 0 no status, 1 a fresh one, 2 one with a member of the caller
static void act(World &w, int op, int form, const Str &k, const Str &v, int how, bool key) {
  Model before = w.m; Str what = Str(NAME[op]) + FORM[form]; step("%s %s=%s%s", what.c_str(), mc::quote(k).c_str(), mc::quote(v).c_str(), how ? how == 1 ? "" : ", status given" : ", no status"); cee_state *st = w.st;
  if (op == BEGIN) { int rc = cee_sqlite3_begin_transaction(w.db.d); MC_CHECK((rc == 0) == !w.in_tx, "begin gives %d", rc); if (!w.in_tx) { w.saved = w.m.t; w.in_tx = true; } w.same("begin"); return; }
  if (op == END) { int rc = cee_sqlite3_end_transaction(w.db.d); MC_CHECK((rc == 0) == w.in_tx, "end gives %d", rc); w.in_tx = false; w.same("end"); return; }
  if (op == ROLLBACK) { if (!w.in_tx) mc::skip(); w.db.exec("rollback"); w.m.t = w.saved; w.in_tx = false; w.same("rollback"); return; }
  Str ev = v == "-" ? form == DYNAMIC || op == ARRAY ? T("dflt") : NUL : v; auto hit = w.m.match(k); int n = hit.size(); bool ok = true, inserts = false, updates = false; int64_t id = 0; int deleted = -1, updated = -1; bool warn = false; Obj row; if (n) row = {{"k", hit[0]->k}, {"v", hit[0]->v}};
  if (op == ARRAY && k == NUL && v == "-") mc::skip(); if (form == DYNAMIC && k == NUL && v == "-") mc::skip();      // no columns at all
  switch (op) { case INSERT: case ARRAY: inserts = true; break; case UPDATE: updates = n; if (!n) ok = false; break; case UPDATE_IF: updates = n; break; case UPSERT: (n ? updates : inserts) = true; break; case SELINS: inserts = !n; break; case DELETE: for (size_t i = w.m.t.size(); i--;) if (k != NUL && w.m.t[i].k == k) w.m.t.erase(w.m.t.begin() + i); deleted = n; break; }
  if (inserts) { id = w.m.insert(k, ev); ok = id != 0; }
  if (updates) { if (form == DYNAMIC && v == "-") { warn = true; if (!how) mc::skip(); } else if (ev == T("bad")) ok = false; else { for (auto *r : hit) r->v = ev; if (op != UPSERT) updated = n; } }
  Binds b; cee_sqlite3_type kt = w.m.ints ? CEE_SQLITE3_INT64 : CEE_SQLITE3_TEXT; b.add("k", kt); b.info[0].no_update = true; b.add("v", CEE_SQLITE3_TEXT); if (form == RAW) { if (k != NUL) b.val(0, k); if (v != "-") b.val(1, v); }
  cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); s.delete_stmt = cs(DEL); if (form == DYNAMIC) { s.insert_dynamic = true; s.update_template = cs(TPL); } else { s.insert_stmt = cs(INS); s.update_stmt = cs(UPD); }
  cee_json *status = nullptr; if (how == 2) { status = cee_json_object_mk(st); cee_json_object_set_i64(status, cs("mine"), 5); } cee_json **sp = how ? &status : nullptr; Obj o; if (k != NUL) o["k"] = k; if (v != "-") o["v"] = v; int rc = -77, gid = -77;
  if (form != RAW || op == ARRAY) { cee_json *in = jobj(st, o); if (op == ARRAY) { cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, in); rc = cee_sqlite3_insert_json_array(w.c, cs("t"), a); if (!rc) rc = SQLITE_DONE; } else {
      cee_sqlite3_db_op proto = {&s, b.in(), nullptr}, *d = new_cee_sqlite3_db_op(st, &proto, b.info.size() * sizeof b.info[0]); MC_CHECK(d->stmts == &s && d->info == b.in() && d->data, "new_cee_sqlite3_db_op");
      switch (op) { case INSERT: rc = cee_sqlite3_insert_op(w.c, d, in, sp); break; case UPDATE: rc = cee_sqlite3_update_op(w.c, d, in, sp); break; case UPDATE_IF: rc = cee_sqlite3_update_if_exists_op(w.c, d, in, sp); break; case UPSERT: rc = cee_sqlite3_update_or_insert_op(w.c, d, in, sp); break; default: rc = cee_sqlite3_generic_opcode(w.c, in, d->info, d->data, d->stmts, sp, cee_sqlite3_select1_or_insert); }
      if (showj(in) != showj(jobj(st, o))) fail("%s changes its input to %s", what.c_str(), showj(in).c_str()); } }
  else switch (op) { case INSERT: rc = cee_sqlite3_insert(w.c, b.in(), b.da(), s.insert_stmt, sp, key ? cs("got") : nullptr, key ? &gid : nullptr); if (key && (ok ? gid != (int)id : gid != -77)) fail("%s gives the id %d instead of %lld", what.c_str(), gid, (long long)id); break; case UPDATE: rc = cee_sqlite3_update(w.c, b.in(), b.da(), &s, sp); break; case UPDATE_IF: rc = cee_sqlite3_update_if_exists(w.c, b.in(), b.da(), &s, sp); break; case UPSERT: rc = cee_sqlite3_update_or_insert(w.c, b.in(), b.da(), &s, sp); break; case SELINS: rc = cee_sqlite3_select1_or_insert(w.c, b.in(), b.da(), &s, sp); break; default: rc = cee_sqlite3_delete(w.c, b.in(), b.da(), cs(DEL), sp, key ? cs("got") : nullptr); }
  MC_CHECK(ok ? rc == SQLITE_DONE : rc_error(rc), "%s of %s=%s gives %d%s; %s", what.c_str(), mc::quote(k).c_str(), mc::quote(v).c_str(), rc, ok ? "" : " though it cannot be done", showj(status).c_str()); w.same(what.c_str());
  if (!how || op == ARRAY) return; MC_CHECK(status && status->t == CEE_JSON_OBJECT, "%s reports %s", what.c_str(), showj(status).c_str());
  Obj g = obj_of(status, what.c_str()), want; if (how == 2) want["mine"] = I(5); if (ok && inserts) want[form == RAW ? op == INSERT && key ? "got" : "last_insert_rowid" : op == INSERT ? "id" : "last_insert_rowid"] = I(id); if (ok && updated >= 0) want["updated_rows"] = I(updated); if (ok && deleted >= 0) want[key ? "got" : "deleted"] = I(deleted); if (op == SELINS && n) for (auto &p : row) want[p.first] = p.second;
  MC_CHECK(!!g.count("error") == !ok && !!g.count("warning") == warn && !!g.count("debug") == (form != RAW), "%s reports %s", what.c_str(), showj(status).c_str()); g.erase("error"); g.erase("warning"); g.erase("debug"); if (g != want) fail("%s of %s=%s reports %s instead of %s", what.c_str(), mc::quote(k).c_str(), mc::quote(v).c_str(), showobj(g).c_str(), showobj(want).c_str());
}
static void one_of(World &w, int keys, int vals, bool forms, bool tx, int how) {
  int op = choose(tx ? NOPS : BEGIN, "operation"); if (op >= BEGIN) { act(w, op, RAW, NUL, NUL, 0, false); return; }
  int f = !forms || op == DELETE || op == ARRAY ? RAW : choose(NFORMS, "form"); if (f == RAW && op != DELETE && op != ARRAY && !forms) f = choose(2, "form"); int ki = choose(keys + (op == INSERT || op == UPSERT || op == ARRAY), "key"); if (ki == keys) ki = 3; int vi = op == DELETE ? 0 : choose(vals, "value"); if (how < 0) how = op == ARRAY ? 0 : choose(3, "status"); bool key = how && (op == INSERT || op == DELETE) && f == RAW && choose(2, "key");
  act(w, op, f, w.key(ki), VAL[vi], how, key);
}
// every operation, from every table of up to 3 rows
static void single() { int schema = choose(3, "schema"), n = choose(mc::tier(3, 4), "rows"); World w(schema); for (int i = 0; i < n; i++) { int k = choose(4, "key"), v = choose(3, "value"); Str ks = w.key(k); if (w.m.ints && k == 3) mc::skip(); if (!w.m.insert(ks, VAL[v])) mc::skip(); auto lit = [](const Str &c) -> Str { if (c == NUL) return "null"; if (c[0] == 'i') return c.substr(2); Str o = "'"; for (char x : c.substr(2)) { o += x; if (x == '\'') o += x; } return o + "'"; }; w.db.exec("insert into t(k,v) values(" + lit(ks) + "," + lit(VAL[v]) + ")"); }
  w.same("filling"); mc::prune(w.hash() + schema, 1); one_of(w, 3, 5, true, false, -1); w.db.finish(); }
// histories, cut where the same database (and connection state) was reached before
static void histories(int keys, int vals, int depth, bool tx) { int schema = choose(3, "schema"); World w(schema); for (int d = 0; d < depth; d++) { one_of(w, keys, vals, true, tx, mc::thorough() && d == depth - 1 ? -1 : 1); mc::prune(w.hash() + schema * 3, depth - d); } if (w.in_tx) w.db.exec("rollback"); w.db.finish(); }
// one status through a whole history: what it says last is what happened last
static void sequence() { int schema = choose(3, "schema"); World w(schema); for (int d = 0; d < 3; d++) one_of(w, 1, 2, false, false, 0); w.db.finish(); }
// next_int numbers the rows of each group without gaps or collisions
static void numbering() {
  St st; Db db("create table t(grp, sub integer, primary key(grp, sub))"); Cs c(st, db.d); map<int, set<int>> m; int depth = mc::tier(6, 8);
  for (int d = 0; d < depth; d++) { int what = choose(4, "step"), g = what & 1; if (what < 2) { Str from = mc::fmt("from t where grp=%d", g); cee_json *s = nullptr; int v = cee_sqlite3_next_int(c, cs("sub"), cs(from.c_str()), &s), want = m[g].empty() ? 1 : *m[g].rbegin() + 1; step("group %d: %d", g, v); MC_CHECK(v == want, "the next number of group %d is %d instead of %d", g, v, want); Binds b; b.add("g", CEE_SQLITE3_INT); b.add("s", CEE_SQLITE3_INT); b.val(0, I(g)).val(1, I(v)); cee_json *j = nullptr; MC_CHECK(cee_sqlite3_insert(c, b.in(), b.da(), cs("insert into t values(@g,@s)"), &j, nullptr, nullptr) == SQLITE_DONE, "insert: %s", showj(j).c_str()); m[g].insert(v); }
    else { if (m[g].empty()) mc::skip(); int x = choose(2, "which") ? *m[g].begin() : *m[g].rbegin(); step("group %d: delete %d", g, x); Binds b; b.add("g", CEE_SQLITE3_INT); b.add("s", CEE_SQLITE3_INT); b.val(0, I(g)).val(1, I(x)); cee_json *j = nullptr; MC_CHECK(cee_sqlite3_delete(c, b.in(), b.da(), cs("delete from t where grp=@g and sub=@s"), &j, nullptr) == SQLITE_DONE && cell_of(cee_json_object_get(j, cs("deleted"))) == I(1), "delete: %s", showj(j).c_str()); m[g].erase(x); }
    Table want; for (auto &p : m) for (int x : p.second) want.push_back({I(p.first), I(x)}); Table got = dump(db.d, "select grp,sub from t order by 1,2"); if (got != want) fail("the table is %s instead of %s", showtab(got).c_str(), showtab(want).c_str()); mc::prune(mc::hash_str(showtab(got)), depth - d); } db.finish();
}
// several connections to one file: each operation sees what the others committed
static void two() { St st; static int nth; static Str path; if (!path.empty()) { remove(path.c_str()); remove((path + "-journal").c_str()); } path = mc::fmt("two-%07d-%07d.db", (int)getpid(), nth++); remove(path.c_str()); int depth = mc::tier(4, 5); { Db a((Str(SCHEMA[0])).c_str(), path.c_str()); sqlite3 *o; sqlite3_open(path.c_str(), &o); sqlite3_exec(a.d, "pragma journal_mode=memory; pragma synchronous=off", 0, 0, 0); sqlite3_exec(o, "pragma journal_mode=memory; pragma synchronous=off", 0, 0, 0); Cs ca(st, a.d), cb(st, o); map<Str, Str> m; struct Close { sqlite3 *o; ~Close() { sqlite3_close(o); } } cl{o};
    for (int d = 0; d < depth; d++) { int which = choose(2, "connection"), op = choose(4, "operation"), k = choose(2, "key"), v = op == 3 ? 0 : choose(2, "value"); Cs &c = which ? cb : ca; Str ks = k ? T("b") : T("a"); Binds b; b.add("k", CEE_SQLITE3_TEXT); b.add("v", CEE_SQLITE3_TEXT); b.val(0, ks).val(1, VAL[v]); cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); s.insert_stmt = cs(INS); s.update_stmt = cs(UPD); cee_json *j = nullptr; step("connection %d: %d %s", which, op, ks.c_str()); int rc; bool had = m.count(ks), ok = true;
      switch (op) { case 0: rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &s, &j); m[ks] = VAL[v]; break; case 1: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, &j, nullptr, nullptr); ok = !had; if (ok) m[ks] = VAL[v]; break; case 2: rc = cee_sqlite3_update(c, b.in(), b.da(), &s, &j); ok = had; if (had) m[ks] = VAL[v]; break; default: rc = cee_sqlite3_delete(c, b.in(), b.da(), cs(DEL), &j, nullptr); MC_CHECK(cell_of(cee_json_object_get(j, cs("deleted"))) == I(had), "deleted: %s", showj(j).c_str()); m.erase(ks); }
      MC_CHECK(ok ? rc == SQLITE_DONE : rc_error(rc), "connection %d: operation %d gives %d: %s", which, op, rc, showj(j).c_str()); Table want; for (auto &p : m) want.push_back({p.first, p.second}); Table got = dump(which ? a.d : o, "select k,v from t order by k"); if (got != want) fail("the other connection sees %s instead of %s", showtab(got).c_str(), showtab(want).c_str()); mc::prune(mc::mix(mc::hash_str(showtab(got)), sqlite3_changes(a.d) * 5 + sqlite3_changes(o)), depth - d); } a.finish(); } remove(path.c_str()); }
// operations that hit many rows: how many is told right, and no other row changes
static void bulk() {
  static const int N[] = {2, 100, 255, 256, 257, 1000, 32768, 65536, 70000}; int n = N[choose(9, "rows")], op = choose(7, "operation"), how = choose(2, "status"); if (op == 6 && n > 1000) mc::skip(); St st; Db db((Str(SCHEMA[1]) + OTHER).c_str()); Cs c(st, db.d); db.exec(mc::fmt("with recursive q(n) as (select 1 union all select n+1 from q where n<%d) insert into t select case when n%%2 then 'a' else 'b' end, n from q", n)); int odd = (n + 1) / 2; step("%d rows, operation %d", n, op);
  Binds b; b.add("k", CEE_SQLITE3_TEXT); b.info[0].no_update = true; b.add("v", CEE_SQLITE3_TEXT); bool js = op == 4 || op == 5; if (!js) b.val(0, T("a")).val(1, T("new")); cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); s.delete_stmt = cs(DEL); s.insert_stmt = cs(INS); s.update_stmt = cs(UPD); cee_json *j = nullptr, **sp = how ? &j : nullptr; int rc; cee_sqlite3_db_op dop = {&s, b.in(), b.da()}; Obj o = {{"k", T("a")}, {"v", T("new")}};
  switch (op) { case 0: rc = cee_sqlite3_update(c, b.in(), b.da(), &s, sp); break; case 1: rc = cee_sqlite3_update_if_exists(c, b.in(), b.da(), &s, sp); break; case 2: rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &s, sp); break; case 3: rc = cee_sqlite3_delete(c, b.in(), b.da(), cs(DEL), sp, nullptr); break; case 4: rc = cee_sqlite3_update_op(c, &dop, jobj(st, o), sp); break; case 5: s.update_stmt = nullptr; s.update_template = cs(TPL); rc = cee_sqlite3_update_if_exists_op(c, &dop, jobj(st, o), sp); break; default: rc = cee_sqlite3_select1_or_insert(c, b.in(), b.da(), &s, sp); }
  MC_CHECK(rc == SQLITE_DONE, "operation %d on %d rows gives %d %s", op, odd, rc, showj(j).c_str()); db.no_stmt("it"); Table t = dump(db.d, "select k, count(*), sum(v is 'new'), sum(v is not 'new'), count(distinct rowid) from t group by k order by k"), w; if (op != 3) w.push_back({T("a"), I(odd), I(op == 6 ? 0 : odd), I(op == 6 ? odd : 0), I(odd)}); w.push_back({T("b"), I(n / 2), I(0), I(n / 2), I(n / 2)}); if (t != w) fail("operation %d on %d of %d rows leaves %s instead of %s", op, odd, n, showtab(t).c_str(), showtab(w).c_str());
  t = dump(db.d, "select count(*) from t where k='b' and v<>cast(rowid as text)"); MC_CHECK(t == Table({{I(0)}}), "other rows change"); t = dump(db.d, "select rowid,k,v from u order by rowid"); MC_CHECK(t == U, "another table changes");
  if (how && op < 6) { Obj g = obj_of(j, "status"); const char *key = op == 3 ? "deleted" : "updated_rows"; MC_CHECK(!g.count("error"), "it reports %s", showobj(g).c_str()); if (op != 2) MC_CHECK(g[key] == I(odd), "operation %d on %d rows reports %s", op, odd, showobj(g).c_str()); } db.finish(); mc::state(n * 20 + op * 2 + how);
}
// four columns with their own rules (the key, one never updated, one NOT NULL, one with a default), in any order of the table
static void columns() {
  static const char *N[] = {"k", "o", "v", "w"}; enum { ABSENT, GIVEN, NUL_ }; static const int ORD[][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 0, 3, 2}, {2, 3, 0, 1}}; const int *ord = ORD[choose(4, "order")];
  int op = choose(5, "operation"), form = choose(NFORMS, "form"), hit = choose(2, "row present"), in[4] = {GIVEN, choose(3, "o"), choose(3, "v"), choose(3, "w")}, how = 1 + choose(2, "status"); if (form == RAW && in[2] == NUL_) mc::skip();
  St st; Db db((Str("create table t(k text primary key, o text default 'dbo', v text not null default 'dbv', w text default 'dbw')") + OTHER).c_str()); Cs c(st, db.d); db.exec("insert into t values('b','bo','bv','bw')"); if (hit) db.exec("insert into t values('a','old o','old v','old w')");
  Str val[4] = {T("a"), T("new o"), T("new v"), T("new w")}; Binds b; int at[4]; for (int i = 0; i < 4; i++) { int x = ord[i]; at[x] = b.add(N[x], CEE_SQLITE3_TEXT, x == 2); if (x < 2) b.info[at[x]].no_update = true; if (x == 3) b.dflt(at[x], T("info w")); if (form == RAW && in[x] != ABSENT) b.val(at[x], in[x] == GIVEN ? val[x] : NUL); }
  Obj o; for (int x = 0; x < 4; x++) if (in[x] != ABSENT) o[N[x]] = in[x] == GIVEN ? val[x] : NUL; cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs("select k,o,v,w from t where k=@k"); if (form == DYNAMIC) { s.insert_dynamic = true; s.update_template = cs(TPL); } else { s.insert_stmt = cs("insert into t(k,o,v,w) values(@k,@o,@v,@w)"); s.update_stmt = cs("update t set v=@v,w=@w where k=@k"); }
  auto get = [&](int x) { return in[x] == GIVEN ? val[x] : NUL; }; vector<Str> row = {T("a"), T("old o"), T("old v"), T("old w")}, was = row; bool ok = true, there = hit, warn = false, ins = op == INSERT || (!hit && (op == UPSERT || op == SELINS)), upd = hit && (op == UPDATE || op == UPDATE_IF || op == UPSERT);
  if (ins) { if (hit) ok = false; else { there = true; row = {T("a"), form == DYNAMIC && in[1] == ABSENT ? T("dbo") : get(1), in[2] == GIVEN ? val[2] : T(""), in[3] == ABSENT ? T("info w") : get(3)}; } }
  else if (upd) { if (form == DYNAMIC) { if (in[2] == GIVEN) row[2] = val[2]; if (in[3] != ABSENT) row[3] = get(3); warn = in[2] != GIVEN && in[3] == ABSENT; } else if (in[2] != GIVEN) ok = false; else { row[2] = val[2]; row[3] = in[3] == ABSENT ? T("info w") : get(3); } }
  else if (op == UPDATE) ok = false;
  cee_json *j = how == 2 ? jobj(st, {{"mine", I(5)}}) : nullptr; int rc; Str what = Str(NAME[op]) + FORM[form] + " " + showobj(o); step("%s", what.c_str());
  if (form == RAW) switch (op) { case INSERT: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, &j, nullptr, nullptr); break; case UPDATE: rc = cee_sqlite3_update(c, b.in(), b.da(), &s, &j); break; case UPDATE_IF: rc = cee_sqlite3_update_if_exists(c, b.in(), b.da(), &s, &j); break; case UPSERT: rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &s, &j); break; default: rc = cee_sqlite3_select1_or_insert(c, b.in(), b.da(), &s, &j); }
  else { cee_sqlite3_db_op d = {&s, b.in(), b.da()}; cee_json *ji = jobj(st, o); switch (op) { case INSERT: rc = cee_sqlite3_insert_op(c, &d, ji, &j); break; case UPDATE: rc = cee_sqlite3_update_op(c, &d, ji, &j); break; case UPDATE_IF: rc = cee_sqlite3_update_if_exists_op(c, &d, ji, &j); break; case UPSERT: rc = cee_sqlite3_update_or_insert_op(c, &d, ji, &j); break; default: rc = cee_sqlite3_generic_opcode(c, ji, d.info, d.data, d.stmts, &j, cee_sqlite3_select1_or_insert); } }
  Table w; if (there) w.push_back(row); w.push_back({T("b"), T("bo"), T("bv"), T("bw")}); Table g = dump(db.d, "select k,o,v,w from t order by k"); if (g != w) fail("%s leaves %s instead of %s", what.c_str(), showtab(g).c_str(), showtab(w).c_str()); db.no_stmt(what.c_str());
  MC_CHECK(ok ? rc == SQLITE_DONE : rc_error(rc), "%s gives %d %s", what.c_str(), rc, showj(j).c_str()); MC_CHECK(j && !!cee_json_object_get(j, cs("error")) == !ok && !!cee_json_object_get(j, cs("warning")) == warn, "%s reports %s", what.c_str(), showj(j).c_str());
  if (how == 2) MC_CHECK(cell_of(cee_json_object_get(j, cs("mine"))) == I(5), "%s reports %s", what.c_str(), showj(j).c_str()); if (op == SELINS && hit) for (int x = 0; x < 4; x++) MC_CHECK(cell_of(cee_json_object_get(j, cs(N[x]))) == was[x], "%s reports %s", what.c_str(), showj(j).c_str());
  g = dump(db.d, "select rowid,k,v from u order by rowid"); MC_CHECK(g == U, "another table changes"); db.finish(); mc::state(mc::hash_str(showtab(w), op * 100 + form));
}
// wide tables and long names: the statements put together for them are complete
static void wide() {
  static const int NC[] = {5, 60, 255, 256, 300}, NL[] = {4, 40, 300}; int n = NC[choose(5, "columns")], nl = NL[choose(3, "name length")], op = choose(5, "operation"), some = choose(2, "columns given"), how = choose(2, "status"); if (n * nl > 30000 && !mc::thorough()) mc::skip(); auto col = [&](int i) { Str s = mc::fmt("c%d_", i); s.resize(nl > (int)s.size() ? nl : s.size(), 'n'); return s; };
  Str ddl = "create table t(k text primary key"; for (int i = 0; i < n; i++) ddl += "," + col(i) + " text"; St st; Db db((ddl + ")" + OTHER).c_str()); Cs c(st, db.d); db.exec("insert into t(k) values('b')"); db.exec("insert into t(k," + col(0) + ") values('a','old')"); step("operation %d on %d columns of %d bytes", op, n, nl);
  Binds b; b.add("k", CEE_SQLITE3_TEXT); b.info[0].no_update = true; for (int i = 0; i < n; i++) b.add(col(i).c_str(), CEE_SQLITE3_TEXT); bool fresh = op == 0 || op == 1 || op == 4; Obj o = {{"k", T(fresh ? "c" : "a")}}; Row want(n + 1, NUL); want[0] = o["k"]; if (!fresh) want[1] = T("old"); for (int i = 0; i < n; i++) if (!some || i % 2 || i == n - 1) { Str v = T(mc::fmt("value %d", i)); o[col(i)] = v; want[i + 1] = v; }
  cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs("select k from t where k=@k"); s.insert_dynamic = true; s.update_template = cs(TPL); cee_sqlite3_db_op d = {&s, b.in(), b.da()}; cee_json *in = jobj(st, o), *j = nullptr, **sp = how ? &j : nullptr; int rc;
  switch (op) { case 0: rc = cee_sqlite3_insert_op(c, &d, in, sp); break; case 1: case 2: rc = cee_sqlite3_update_or_insert_op(c, &d, in, sp); break; case 3: rc = cee_sqlite3_update_op(c, &d, in, sp); break; default: { cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, in); rc = cee_sqlite3_insert_json_array(c, cs("t"), a); if (!rc) rc = SQLITE_DONE; } }
  MC_CHECK(rc == SQLITE_DONE, "operation %d on %d columns of %d bytes gives %d %s", op, n, nl, rc, showj(j).substr(0, 300).c_str()); db.no_stmt("it"); Table g = dump(db.d, "select * from t order by rowid"), w; Row ra(n + 1, NUL), rb(n + 1, NUL); rb[0] = T("b"); ra[0] = T("a"); ra[1] = T("old"); w.push_back(rb); w.push_back(fresh ? ra : want); if (fresh) w.push_back(want); if (g != w) fail("operation %d on %d columns of %d bytes leaves %s instead of %s", op, n, nl, showtab(g).c_str(), showtab(w).c_str());
  // and a number from a long condition
  Str from = "from t where k>='a'"; for (int i = 0; i < n; i++) from += " and k<>'" + col(i) + "'"; Str last = from + " and k<>'c'"; int v = cee_sqlite3_next_int(c, cs("rowid"), cs(from.c_str()), nullptr); MC_CHECK(v == (fresh ? 4 : 3), "the next number is %d", v); v = cee_sqlite3_next_int(c, cs("rowid"), cs(last.c_str()), nullptr); MC_CHECK(v == 3, "a condition of %zu bytes counts: the next number is %d", last.size(), v); db.finish(); mc::state(n * 50000 + nl * 100 + op * 4 + some * 2 + how);
}
void mc_register() { mc::add("wide", wide, 2); mc::add("columns", columns, 4); mc::add("bulk", bulk, 2);
  mc::add("single", single, 4); mc::add("histories-1", [] { histories(2, 3, mc::tier(4, 5), false); }, 3); mc::add("histories-2", [] { histories(1, 4, mc::tier(4, 6), true); }, 3); mc::add("sequence", sequence, 3); mc::add("numbering", numbering, 3); mc::add("two-connections", two, 3);
}
