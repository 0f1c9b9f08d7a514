#include "sql.hpp"
#include <unistd.h>
using namespace std;
static int fired;
#include "sqlvfs.hpp"
// ---- faults at the border between the layer and the engine --------------------------------------------
static bool armed; static int budget; static const int *CODES; static int NCODES; static set<Str> *wanted;
static int fault(const char *what) { if (!armed) return 0; int f = mc::deviate(NCODES + 1, budget, what); if (!f) return 0; fired++; mc::note("%s answers %d", what, CODES[f - 1]); return CODES[f - 1]; }
extern "C" {
int mc_sqlite3_prepare_v2(sqlite3 *d, const char *q, int n, sqlite3_stmt **s, const char **t) { if (int f = fault("sqlite3_prepare_v2")) { *s = nullptr; return f; } return sqlite3_prepare_v2(d, q, n, s, t); }
int mc_sqlite3_step(sqlite3_stmt *s) { if (s) if (int f = fault("sqlite3_step")) return f; return sqlite3_step(s); }
int mc_sqlite3_bind_int(sqlite3_stmt *s, int i, int v) { if (int f = fault("sqlite3_bind_int")) return f; return sqlite3_bind_int(s, i, v); }
int mc_sqlite3_bind_int64(sqlite3_stmt *s, int i, sqlite3_int64 v) { if (int f = fault("sqlite3_bind_int64")) return f; return sqlite3_bind_int64(s, i, v); }
int mc_sqlite3_bind_null(sqlite3_stmt *s, int i) { if (int f = fault("sqlite3_bind_null")) return f; return sqlite3_bind_null(s, i); }
int mc_sqlite3_bind_text(sqlite3_stmt *s, int i, const char *p, int n, void (*d)(void *)) { if (int f = fault("sqlite3_bind_text")) return f; return sqlite3_bind_text(s, i, p, n, d); }
int mc_sqlite3_bind_blob(sqlite3_stmt *s, int i, const void *p, int n, void (*d)(void *)) { if (int f = fault("sqlite3_bind_blob")) return f; return sqlite3_bind_blob(s, i, p, n, d); }
int mc_sqlite3_exec(sqlite3 *d, const char *q, int (*cb)(void *, int, char **, char **), void *c, char **e) { if (int f = fault("sqlite3_exec")) { if (e) *e = sqlite3_mprintf("fault"); return f; } return sqlite3_exec(d, q, cb, c, e); }
}
static const int API_CODES[] = {SQLITE_ERROR, SQLITE_BUSY, SQLITE_LOCKED, SQLITE_NOMEM, SQLITE_INTERRUPT, SQLITE_IOERR, SQLITE_CORRUPT, SQLITE_FULL, SQLITE_CONSTRAINT, SQLITE_MISUSE, SQLITE_TOOBIG, SQLITE_RANGE, SQLITE_ABORT, SQLITE_SCHEMA, SQLITE_AUTH, SQLITE_READONLY, SQLITE_CANTOPEN, SQLITE_NOTADB, SQLITE_IOERR | 1 << 8, SQLITE_BUSY | 2 << 8};
// ---- faults inside the engine: its allocator and its files ---------------------------------------------
static sqlite3_mem_methods realmem; static long mem_left = -1; static bool mem_persist;
static bool nomem() { if (mem_left < 0) return false; if (mem_left > 0) { mem_left--; return false; } fired++; if (!mem_persist) mem_left = -1; return true; }
static void *m_malloc(int n) { return nomem() ? nullptr : realmem.xMalloc(n); } static void *m_realloc(void *p, int n) { return nomem() ? nullptr : realmem.xRealloc(p, n); }
// ---- the operations ------------------------------------------------------------------------------------
static const char *SCHEMA = "create table t(k text primary key, v text, n integer); insert into t values('a','x',1),('b','y',2),('c','z',3);";
static const Table BASE = {{T("a"), T("x"), I(1)}, {T("b"), T("y"), I(2)}, {T("c"), T("z"), I(3)}};
static Table with(const Str &k, const Str &v, const Str &n) { Table t = BASE; for (auto &r : t) if (r[0] == k) { r[1] = v; r[2] = n; return t; } t.push_back({k, v, n}); return t; }
enum Rep { PLAIN, ERR, NEXT, ARR, JOINA, JOINK, JOINO, PRAGMA };       // how the operation tells a failure
struct Op { const char *name; Rep rep; int selects; Table after; std::function<int(Cs &, cee_state *, cee_json **)> run; };
static const char *SEL = "select k,v,n from t where k=@k", *INS = "insert into t(k,v,n) values(@k,@v,@n)", *UPD = "update t set v=@v,n=@n where k=@k", *ALL = "select k,v,n from t where n>@n order by k";
struct Args { Binds b; cee_sqlite3_stmt_strs s; cee_sqlite3_db_op op; Args(const char *k, bool vals = true, bool dyn = false) { b.add("k", CEE_SQLITE3_TEXT); b.info[0].no_update = true; b.add("v", CEE_SQLITE3_TEXT); b.add("n", CEE_SQLITE3_INT64); if (vals) b.val(0, T(k)).val(1, T("w")).val(2, I(7)); memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); if (dyn) { s.insert_dynamic = true; s.update_template = cs("update t set %s where k=@k"); } else { s.insert_stmt = cs(INS); s.update_stmt = cs(UPD); } op = {&s, b.in(), b.da()}; } };
static cee_json *input(cee_state *st, const char *k) { return jobj(st, {{"k", T(k)}, {"v", T("w")}, {"n", I(7)}}); }
static int collect(void *v, cee_state *, cee_sqlite3_bind_info *, sqlite3_stmt *) { ++*(int *)v; return 0; }
static int collect2(void *v, cee_state *, cee_sqlite3_bind_info *, sqlite3_stmt *) { return ++*(int *)v == 2; }
static cee_json *joined; static int taken;
static const vector<Op> &ops() {
  static vector<Op> o; if (o.size()) return o; Table A = with(T("a"), T("w"), I(7)), N = with(T("d"), T("w"), I(7)), two = N; two.push_back({T("e"), NUL, I(8)}); Table D(BASE.begin() + 1, BASE.end());
  auto sel = [](Binds &b) { b.add("n", CEE_SQLITE3_INT); b.val(0, I(0)); };
  o = {
    {"bind_run_sql", PLAIN, 0, N, [](Cs &c, cee_state *, cee_json **s) { Args a("d"); return cee_sqlite3_bind_run_sql(c, a.b.in(), a.b.da(), cs(INS), nullptr, s); }},
    {"bind_run_sql (statement kept)", PLAIN, 0, BASE, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); sqlite3_stmt *q = (sqlite3_stmt *)8; int rc = cee_sqlite3_bind_run_sql(c, a.b.in(), a.b.da(), cs(SEL), &q, s); if (rc == SQLITE_ROW) MC_CHECK(cell_of(q, 1) == T("x"), "the statement is not at its row"); sqlite3_finalize(q); return rc == SQLITE_ROW ? SQLITE_DONE : rc; }},
    {"bind_run_sql (defaults)", PLAIN, 0, with(T("d"), T(""), I(0)), [](Cs &c, cee_state *, cee_json **s) { Binds b; b.add("k", CEE_SQLITE3_TEXT); b.add("v", CEE_SQLITE3_TEXT, true); b.add("n", CEE_SQLITE3_INT, true); b.dflt(0, T("d")); return cee_sqlite3_bind_run_sql(c, b.in(), nullptr, cs(INS), nullptr, s); }},
    {"bind_run_sql (null, int, blob)", PLAIN, 0, with(T("d"), NUL, I(7)), [](Cs &c, cee_state *, cee_json **s) { Binds b; b.add("k", CEE_SQLITE3_TEXT); b.add("v", CEE_SQLITE3_BLOB); b.add("n", CEE_SQLITE3_INT); b.add("x", CEE_SQLITE3_BLOB); b.val(0, T("d")).val(1, NUL).val(2, I(7)).val(3, B("q")); return cee_sqlite3_bind_run_sql(c, b.in(), b.da(), cs("insert into t(k,v,n) select @k,@v,@n where @x is not null"), nullptr, s); }},
    {"insert", ERR, 0, N, [](Cs &c, cee_state *, cee_json **s) { Args a("d"); int id = -7; int rc = cee_sqlite3_insert(c, a.b.in(), a.b.da(), cs(INS), s, cs("got"), &id); MC_CHECK((id == -7) == (rc != SQLITE_DONE), "insert gives %d and the id %d", rc, id); return rc; }},
    {"update", ERR, 0, A, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); return cee_sqlite3_update(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"update_if_exists", ERR, 0, A, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); return cee_sqlite3_update_if_exists(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"update_if_exists (no row)", ERR, 0, BASE, [](Cs &c, cee_state *, cee_json **s) { Args a("d"); return cee_sqlite3_update_if_exists(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"update_or_insert", ERR, 0, A, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); return cee_sqlite3_update_or_insert(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"update_or_insert (no row)", ERR, 0, N, [](Cs &c, cee_state *, cee_json **s) { Args a("d"); return cee_sqlite3_update_or_insert(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"delete", ERR, 0, D, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); return cee_sqlite3_delete(c, a.b.in(), a.b.da(), cs("delete from t where k=@k"), s, nullptr); }},
    {"select", ERR, 2, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); return cee_sqlite3_select(c, b.in(), b.da(), cs(ALL), s); }},
    {"select_iter", ERR, 2, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); taken = 0; int rc = cee_sqlite3_select_iter(c, b.in(), b.da(), cs(ALL), &taken, collect, s); if (rc == SQLITE_DONE) MC_CHECK(taken == 3, "select_iter visits %d of 3 rows and succeeds", taken); return rc; }},
    {"select1", ERR, 1, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); return cee_sqlite3_select1(c, b.in(), b.da(), cs(ALL), s); }},
    {"select_as", ERR, 1, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); return cee_sqlite3_select_as(c, b.in(), b.da(), cs(ALL), s, cs("rows")); }},
    {"select1_as", ERR, 1, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); return cee_sqlite3_select1_as(c, b.in(), b.da(), cs(ALL), s, cs("row")); }},
    {"select1_or_insert", ERR, 0, BASE, [](Cs &c, cee_state *, cee_json **s) { Args a("a"); return cee_sqlite3_select1_or_insert(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"select1_or_insert (no row)", ERR, 0, N, [](Cs &c, cee_state *, cee_json **s) { Args a("d"); return cee_sqlite3_select1_or_insert(c, a.b.in(), a.b.da(), &a.s, s); }},
    {"insert_op", ERR, 0, N, [](Cs &c, cee_state *st, cee_json **s) { Args a("d", false); return cee_sqlite3_insert_op(c, &a.op, input(st, "d"), s); }},
    {"insert_op (dynamic)", ERR, 0, N, [](Cs &c, cee_state *st, cee_json **s) { Args a("d", false, true); return cee_sqlite3_insert_op(c, &a.op, input(st, "d"), s); }},
    {"update_op (template)", ERR, 0, A, [](Cs &c, cee_state *st, cee_json **s) { Args a("a", false, true); return cee_sqlite3_update_op(c, &a.op, input(st, "a"), s); }},
    {"update_if_exists_op", ERR, 0, A, [](Cs &c, cee_state *st, cee_json **s) { Args a("a", false); return cee_sqlite3_update_if_exists_op(c, &a.op, input(st, "a"), s); }},
    {"update_or_insert_op", ERR, 0, A, [](Cs &c, cee_state *st, cee_json **s) { Args a("a", false); return cee_sqlite3_update_or_insert_op(c, &a.op, input(st, "a"), s); }},
    {"update_or_insert_op (no row, dynamic)", ERR, 0, N, [](Cs &c, cee_state *st, cee_json **s) { Args a("d", false, true); return cee_sqlite3_update_or_insert_op(c, &a.op, input(st, "d"), s); }},
    {"generic_opcode (select1_or_insert)", ERR, 0, N, [](Cs &c, cee_state *st, cee_json **s) { Args a("d", false); return cee_sqlite3_generic_opcode(c, input(st, "d"), a.op.info, a.op.data, a.op.stmts, s, cee_sqlite3_select1_or_insert); }},
    {"next_int", NEXT, 0, BASE, [](Cs &c, cee_state *, cee_json **s) { int v = cee_sqlite3_next_int(c, cs("n"), cs("from t"), s); MC_CHECK(v == 4 || v == -1, "next_int gives %d", v); return v == 4 ? SQLITE_DONE : SQLITE_ERROR; }},
    {"insert_json_array", ARR, 0, two, [](Cs &c, cee_state *st, cee_json **) { cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, input(st, "d")); cee_json_array_append(a, jobj(st, {{"k", T("e")}, {"n", I(8)}, {"v", NUL}})); int rc = cee_sqlite3_insert_json_array(c, cs("t"), a); return rc ? rc : SQLITE_DONE; }},
    {"json_array_join_table", JOINA, 0, BASE, [](Cs &c, cee_state *st, cee_json **) { joined = cee_json_array_mk(st, 1); cee_json_array_append(joined, jobj(st, {{"k", T("a")}})); cee_json_array_append(joined, jobj(st, {{"k", T("b")}})); Binds b; b.add("k", CEE_SQLITE3_TEXT); b.data[0].has_value = 1; cee_sqlite3_json_array_join_table(c, joined, b.in(), b.da(), cs("select v from t where k=@k"), nullptr); return SQLITE_DONE; }},
    {"json_array_join_table (key)", JOINK, 0, BASE, [](Cs &c, cee_state *st, cee_json **) { joined = cee_json_array_mk(st, 1); cee_json_array_append(joined, jobj(st, {{"k", T("a")}})); cee_json_array_append(joined, jobj(st, {{"k", T("b")}})); Binds b; b.add("k", CEE_SQLITE3_TEXT); b.data[0].has_value = 1; cee_sqlite3_json_array_join_table(c, joined, b.in(), b.da(), cs("select v from t where k=@k"), cs("rows")); return SQLITE_DONE; }},
    {"json_object_join_table", JOINO, 0, BASE, [](Cs &c, cee_state *st, cee_json **) { joined = jobj(st, {{"k", T("a")}}); Binds b; b.add("k", CEE_SQLITE3_TEXT); b.data[0].has_value = 1; cee_sqlite3_json_object_join_table(c, joined, b.in(), b.da(), cs("select v from t where k=@k"), nullptr); return SQLITE_DONE; }},
    {"get_pragma_variable", PRAGMA, 0, BASE, [](Cs &c, cee_state *, cee_json **) { int v = cee_sqlite3_get_pragma_variable(c.c.db, cs("page_size")); MC_CHECK(v == 4096 || v == 0, "page_size is %d", v); return SQLITE_DONE; }},
    {"select_iter (stopped)", ERR, 2, BASE, [sel](Cs &c, cee_state *, cee_json **s) { Binds b; sel(b); taken = 0; int rc = cee_sqlite3_select_iter(c, b.in(), b.da(), cs(ALL), &taken, collect2, s); if (rc == SQLITE_DONE) MC_CHECK(taken == 2, "select_iter visits %d rows when it is stopped at the second", taken); return rc; }},
  };
  return o;
}
static Table content(Db &db) { return dump(db.d, "select k,v,n from t order by k"); }
// a join's own report
static bool join_failed(Rep r) { if (r == JOINO) return cee_json_object_get(joined, cs("error")); for (int i = 0; i < 2; i++) { cee_json *e = cee_json_array_get(joined, i); if (r == JOINA ? !!cee_json_object_get(e, cs("error")) : !!cee_json_select(e, cs(".rows.error"))) return true; } return false; }
struct Ran { bool failed; Str result; };
// runs one operation and checks its report; `must`: a failure certainly happened
static Ran run(const Op &op, Cs &c, cee_state *st, int how) {
  cee_json *status = nullptr; if (how == 2) { status = op.selects == 2 ? cee_json_array_mk(st, 1) : cee_json_object_mk(st); if (op.selects == 2) cee_json_array_append(status, cee_json_i64_mk(st, 5)); else cee_json_object_set_i64(status, cs("mine"), 5); }
  Str preset = showj(status); int rc = op.run(c, st, how ? &status : nullptr); bool err = rc_error(rc); MC_CHECK(err || rc == SQLITE_DONE, "%s gives %d", op.name, rc);
  switch (op.rep) {
  case ERR: if (how == 0) break; if (op.selects == 2 && how == 2) { if (err && showj(status) != preset) fail("%s fails and leaves %s", op.name, showj(status).c_str()); break; } { bool has = status && status->t == CEE_JSON_OBJECT && cee_json_object_get(status, cs("error")); if (has != err) fail("%s gives %d and reports %s", op.name, rc, showj(status).c_str()); if (err) for (const char *k : {"last_insert_rowid", "id", "got", "updated_rows", "deleted", "rows", "row"}) MC_CHECK(!cee_json_object_get(status, cs(k)), "%s fails and reports %s", op.name, showj(status).c_str()); if (how == 2) MC_CHECK(cell_of(cee_json_object_get(status, cs("mine"))) == I(5) || strcmp(op.name, "select1_as") == 0, "%s loses the caller's members: %s", op.name, showj(status).c_str()); } break;
  case NEXT: MC_CHECK(!err || (status && cee_json_select(status, cs(".error"))), "next_int fails and reports %s", showj(status).c_str()); break;
  case JOINA: case JOINK: case JOINO: err = join_failed(op.rep); break;
  default: break; }
  Str res = op.rep >= JOINA && op.rep <= JOINO ? showj(joined) : op.rep == PLAIN ? Str() : showj(status); return {err, res};
}
// what the operation reports when nothing fails
static Str golden(int i, int how) { static map<pair<int, int>, Str> m; auto f = m.find({i, how}); if (f != m.end()) return f->second; bool a = armed; long ml = mem_left, il = io_left; armed = false; mem_left = io_left = -1; Str r; { St st; sqlite3 *d; sqlite3_open(":memory:", &d); sqlite3_exec(d, SCHEMA, 0, 0, 0); Cs c(st, d); Ran x = run(ops()[i], c, st, how); MC_CHECK(!x.failed, "%s fails without a fault: %s", ops()[i].name, x.result.c_str()); r = x.result; cee_del((void *)(cee_state *)st); sqlite3_close(d); } armed = a; mem_left = ml; io_left = il; return m[{i, how}] = r; }
static void after(const Op &op, int i, int how, const Ran &r, Db &db, cee_state *st, bool may_pass, bool either = false) {
  mc::note("%s %s, %s", op.name, r.failed ? "fails" : "succeeds", r.result.substr(0, 300).c_str()); db.no_stmt(op.name); Table t = content(db); const Table &want = r.failed ? BASE : op.after; bool part = op.rep == ARR && r.failed;
  if (part) { Table one = BASE, two = BASE; one.push_back(op.after[3]); two.push_back(op.after[4]); if (t != BASE && t != one && t != two && !(either && t == op.after)) fail("%s fails and leaves %s", op.name, showtab(t).c_str()); } else if (t != want && !(either && r.failed && t == op.after)) fail("%s %s and leaves %s", op.name, r.failed ? "fails" : "succeeds", showtab(t).c_str());
  if (!r.failed && fired && !may_pass && op.rep != PRAGMA) fail("%s succeeds though a call failed: %s", op.name, r.result.c_str()); if (!fired) MC_CHECK(!r.failed, "%s fails without a fault: %s", op.name, r.result.c_str()); if (!r.failed && op.rep != PRAGMA) { Str g = golden(i, how); if (g != r.result) fail("%s succeeds with %s instead of %s", op.name, r.result.c_str(), g.c_str()); }
  MC_CHECK(sqlite3_get_autocommit(db.d), "%s leaves a transaction open", op.name); mc::state(mc::hash_str(showtab(t), mc::mix(i, r.failed * 4 + how)));
}
// the connection still works: the operation succeeds now
static void again(const Op &op, int i, Db &db, cee_state *st, int how) { db.exec("delete from t"); db.exec("insert into t values('a','x',1),('b','y',2),('c','z',3)"); Cs c(st, db.d); Ran r = run(op, c, st, how); MC_CHECK(!r.failed, "%s fails after an earlier failure: %s", op.name, r.result.c_str()); Table t = content(db); if (t != op.after) fail("%s after an earlier failure leaves %s", op.name, showtab(t).c_str()); }
static void done(Db &db, cee_state *st) { db.finish(); cee_del(st); MC_CHECK(mc::live_blocks() == 0, "%zu blocks survive their state", mc::live_blocks()); }
static int pick_how(const Op &op) { return op.rep == NEXT ? 1 : op.rep >= ARR || op.rep == PLAIN ? choose(2, "status") : choose(3, "status"); }
static void api(int devs, bool twice) {
  int i = choose(ops().size(), "operation"); const Op &op = ops()[i]; int how = pick_how(op); St st; Db db(SCHEMA); Cs c(st, db.d); step("%s, status %d", op.name, how); CODES = API_CODES; NCODES = sizeof API_CODES / sizeof *API_CODES; if (twice) { static const int FEW[] = {SQLITE_BUSY, SQLITE_CONSTRAINT}; CODES = FEW; NCODES = 2; } budget = devs; fired = 0; golden(i, how); size_t junk = mc::live_blocks(); (void)junk;
  armed = true; struct Off { ~Off() { armed = false; } } off; Ran r = run(op, c, st, how); if (!twice) { armed = false; after(op, i, how, r, db, st, false); again(op, i, db, st, how); done(db, st); return; }
  armed = false; after(op, i, how, r, db, st, false); db.exec("delete from t"); db.exec("insert into t values('a','x',1),('b','y',2),('c','z',3)"); int f1 = fired; fired = 0; armed = true; int j = choose(ops().size(), "second"); const Op &o2 = ops()[j]; int h2 = o2.rep == NEXT ? 1 : o2.rep >= ARR || o2.rep == PLAIN ? 0 : 1; step("then %s", o2.name); armed = false; golden(j, h2); armed = true; r = run(o2, c, st, h2); armed = false; after(o2, j, h2, r, db, st, false); (void)f1; done(db, st);
}
static void memory() {                                  // every allocation of the engine fails in turn, once or from then on
  int i = choose(ops().size(), "operation"); const Op &op = ops()[i]; int how = pick_how(op), persist = choose(2, "persistent"); golden(i, how); St st; Db db(SCHEMA); db.exec("select * from t"); Cs c(st, db.d); int n = choose(mc::tier(400, 400), "allocation"); step("%s, status %d, allocation %d fails", op.name, how, n); fired = 0; mem_left = n; mem_persist = persist;
  struct Off { ~Off() { mem_left = -1; } } off; Ran r = run(op, c, st, how); bool over = mem_left >= 0 && !fired; mem_left = -1; if (over) mc::skip(); MC_CHECK(n < 399, "harness: the operation makes more allocations than are explored"); after(op, i, how, r, db, st, true); again(op, i, db, st, how); done(db, st);
}
static void files() {                                   // every input/output operation of the engine fails in turn
  static int nth; static Str path; auto wipe = [] { if (!path.empty()) { remove(path.c_str()); remove((path + "-journal").c_str()); } }; wipe(); path = mc::fmt("io-%07d-%07d.db", (int)getpid(), nth++); wipe();
  int i = choose(ops().size(), "operation"); const Op &op = ops()[i]; int how = pick_how(op); if (how == 2) mc::skip(); int persist = choose(2, "persistent"), code = choose(2, "code"); golden(i, how); St st; Db db(SCHEMA, path.c_str()); Cs c(st, db.d); int n = choose(60, "operation"); step("%s, status %d, file operation %d fails", op.name, how, n); fired = 0; io_left = n; io_persist = persist; io_code = code ? SQLITE_FULL : SQLITE_IOERR_WRITE;
  struct Off { ~Off() { io_left = -1; } } off; Ran r = run(op, c, st, how); bool over = io_left >= 0 && !fired; io_left = -1; if (over) { wipe(); mc::skip(); } MC_CHECK(n < 59, "harness: more file operations than are explored");
  db.no_stmt(op.name); Table t = content(db); bool part = op.rep == ARR && r.failed; mc::note("%s %s, %s", op.name, r.failed ? "fails" : "succeeds", r.result.substr(0, 300).c_str());
  after(op, i, how, r, db, st, true); (void)part; again(op, i, db, st, how); done(db, st); { Db d2("", path.c_str()); Table z = content(d2); MC_CHECK(z == op.after, "after reopening the table is %s", showtab(z).c_str()); d2.finish(); } wipe();
}
static int countdown; static int tick(void *) { if (countdown < 0) return 0; if (countdown-- > 0) return 0; fired++; return 1; }
static void interrupts() { int i = choose(ops().size(), "operation"); const Op &op = ops()[i]; int how = pick_how(op); golden(i, how); St st; Db db(SCHEMA); Cs c(st, db.d); int n = choose(300, "instruction"); step("%s, status %d, interrupted at instruction %d", op.name, how, n); fired = 0; countdown = n; sqlite3_progress_handler(db.d, 1, tick, nullptr); Ran r = run(op, c, st, how); sqlite3_progress_handler(db.d, 0, nullptr, nullptr); if (!fired) mc::skip(); MC_CHECK(n < 299, "harness: more instructions than are explored"); after(op, i, how, r, db, st, true, true);   // the engine may report an interrupt after it committed
  again(op, i, db, st, how); done(db, st); }
static void locks() {                                    // another connection holds the file
  static int nth; static Str path; auto wipe = [] { if (!path.empty()) { remove(path.c_str()); remove((path + "-journal").c_str()); } }; wipe(); path = mc::fmt("lk-%07d-%07d.db", (int)getpid(), nth++); wipe(); int i = choose(ops().size(), "operation"); const Op &op = ops()[i]; int how = pick_how(op), kind = choose(3, "lock"); golden(i, how); St st; Db db(SCHEMA, path.c_str()); sqlite3 *o; sqlite3_open(path.c_str(), &o); struct Close { sqlite3 *o; ~Close() { sqlite3_close(o); } } cl{o}; static const char *const L[] = {"begin exclusive", "begin immediate", "begin; select * from t"}; Cs c(st, db.d); step("%s under %s", op.name, L[kind]); MC_CHECK(sqlite3_exec(o, L[kind], 0, 0, 0) == 0, "harness: lock"); fired = 0;
  Ran r = run(op, c, st, how); sqlite3_exec(o, "rollback", 0, 0, 0); bool reads = op.after == BASE; if (op.rep != PRAGMA) MC_CHECK(r.failed == (kind == 0 || (kind == 1 && !reads)) || (kind == 2 && !reads), "%s under %s %s", op.name, L[kind], r.failed ? "fails" : "succeeds"); fired = r.failed; after(op, i, how, r, db, st, true); again(op, i, db, st, how); done(db, st); wipe();
}
// genuine refusals of the engine
static void refusals() {
  static const struct { const char *schema; bool reads; } W[] = {{"create trigger r1 before insert on t begin select raise(abort,'no'); end; create trigger r2 before update on t begin select raise(abort,'no'); end; create trigger r3 before delete on t begin select raise(abort,'no'); end", false}, {"create trigger r1 before insert on t begin select raise(rollback,'no'); end; create trigger r2 before update on t begin select raise(rollback,'no'); end; create trigger r3 before delete on t begin select raise(rollback,'no'); end", false}, {"create trigger r1 after insert on t begin select raise(fail,'no'); end", false}, {"pragma query_only=1", false}, {"drop table t", true}, {"alter table t rename column v to w", true}, {"create trigger r1 before insert on t begin insert into nope values(1); end; create trigger r2 before update on t begin insert into nope values(1); end; create trigger r3 before delete on t begin insert into nope values(1); end", false}};
  int i = choose(ops().size(), "operation"), w = choose(7, "refusal"); const Op &op = ops()[i]; int how = pick_how(op); St st; Db db(SCHEMA); if (w == 2 && op.after != BASE && op.after.size() < 4) mc::skip(); if (w == 2) mc::skip(); db.exec(W[w].schema); Cs c(st, db.d); step("%s after %s", op.name, W[w].schema); bool uses_v = w != 5 || (strcmp(op.name, "next_int") && strcmp(op.name, "delete")); fired = 0;
  Ran r = run(op, c, st, how); if (op.rep == PRAGMA) { done(db, st); return; } bool must = w == 4 || (w == 5 ? uses_v : op.after != BASE); MC_CHECK(r.failed == must, "%s %s after %s: %s", op.name, r.failed ? "fails" : "succeeds", W[w].schema, r.result.c_str()); db.no_stmt(op.name); if (w == 3) db.exec("pragma query_only=0"); if (w != 4) { Table t = dump(db.d, "select * from t order by k"), want = must ? BASE : op.after; if (t != want) fail("%s leaves %s", op.name, showtab(t).c_str()); } MC_CHECK(sqlite3_get_autocommit(db.d), "a transaction is left open"); done(db, st);
}
static void sql_texts() {                                // every cut of every statement, and unknown names
  static const char *const Q[] = {"select k,v from t where k=@k", "insert into t(k,v) values(@k,@v)", "update t set v=@v where k=@k", "delete from t where k=@k", "  SELECT count(*) from t", "insert into t(k) values(@zz)", "select @a,@b", "bogus", "", " ", ";", "-- x", "select 1; bogus", "insert into t values(1)", "update nope set x=1", "select * from t where nope=1", "pragma page_size", "insert into t(k) values('a')", "select abs(-9223372036854775808)", "select k from t where k=?"};
  int q = choose(20, "statement"), cut = choose(strlen(Q[q]) + 1, "cut"), form = choose(9, "form"), how = choose(3, "status"), withinfo = choose(2, "table"); Str sql = Str(Q[q]).substr(0, strlen(Q[q]) - cut); St st; Db db(SCHEMA); Cs c(st, db.d); Args a("d"); a.b.info[2].var_name = cs("@nn"); step("form %d: %s", form, mc::quote(sql).c_str()); char *s = a.b.hold(sql + '\0');
  // what the engine itself makes of it
  sqlite3_stmt *p = nullptr; int prc = sqlite3_prepare_v2(db.d, s, -1, &p, nullptr); bool bad = prc != SQLITE_OK || !p, unbound = false, ro = true; if (p) { ro = sqlite3_stmt_readonly(p); for (int i = 1; i <= sqlite3_bind_parameter_count(p); i++) { const char *n = sqlite3_bind_parameter_name(p, i); if (!n || (strcmp(n, "@k") && strcmp(n, "@v") && strcmp(n, "@nn"))) unbound = true; } sqlite3_finalize(p); }
  bool want_select = form >= 4 && form < 8; if (!ro && want_select) mc::skip(); int rc; cee_json *status = nullptr; bool arr = form == 4 || form == 5; if (how == 2) { status = arr ? cee_json_array_mk(st, 1) : cee_json_object_mk(st); } cee_json **sp = how ? &status : nullptr; cee_sqlite3_bind_info *in = withinfo ? a.b.in() : nullptr; cee_sqlite3_bind_data *da = a.b.da(); int n = 0; sqlite3_stmt *keep = (sqlite3_stmt *)8;
  switch (form) { case 0: rc = cee_sqlite3_bind_run_sql(c, in, da, s, nullptr, sp); break; case 1: rc = cee_sqlite3_bind_run_sql(c, in, da, s, &keep, sp); break; case 2: rc = cee_sqlite3_insert(c, in, da, s, sp, nullptr, nullptr); break; case 3: rc = cee_sqlite3_delete(c, in, da, s, sp, nullptr); break; case 4: rc = cee_sqlite3_select(c, in, da, s, sp); break; case 5: rc = cee_sqlite3_select_iter(c, in, da, s, &n, collect, sp); break; case 6: rc = cee_sqlite3_select1(c, in, da, s, sp); break; case 7: rc = cee_sqlite3_select_as(c, in, da, s, sp, cs("key")); break; default: rc = cee_sqlite3_select1_as(c, in, da, s, sp, cs("key")); if (!ro) mc::skip(); }
  if (form == 1) sqlite3_finalize(keep); db.no_stmt("the call"); bool fails = bad || (withinfo && unbound); if (fails) { MC_CHECK(rc_error(rc), "%s gives %d", mc::quote(sql).c_str(), rc); MC_CHECK(content(db) == BASE, "the table is %s", showtab(content(db)).c_str()); if (how && !(arr && how == 2) && (form > 1 || (prc != SQLITE_OK) || unbound)) MC_CHECK(status && cee_json_select(status, cs(".error")), "%s is not reported: %s", mc::quote(sql).c_str(), showj(status).c_str()); }
  else { MC_CHECK(rc != SQLITE_OK, "%s gives 0", mc::quote(sql).c_str()); if (rc_error(rc)) MC_CHECK(content(db) == BASE, "%s fails with %d and leaves %s", mc::quote(sql).c_str(), rc, showtab(content(db)).c_str()); if (how && form >= 2 && !(arr && how == 2)) { bool e = status && status->t == CEE_JSON_OBJECT && cee_json_object_get(status, cs("error")); MC_CHECK(e == (rc != SQLITE_DONE), "%s gives %d and reports %s", mc::quote(sql).c_str(), rc, showj(status).c_str()); } }
  db.finish(); cee_del((cee_state *)st); MC_CHECK(mc::live_blocks() == 0, "%zu blocks survive their state", mc::live_blocks());
}
static void too_big() {                                  // values beyond the engine's limit: bind fails
  int i = choose(3, "operation"), len = choose(60, "length"), how = choose(3, "status"), type = choose(2, "type"); St st; Db db(SCHEMA); sqlite3_limit(db.d, SQLITE_LIMIT_LENGTH, 40); Cs c(st, db.d); Binds b; b.add("k", CEE_SQLITE3_TEXT); b.add("v", type ? CEE_SQLITE3_BLOB : CEE_SQLITE3_TEXT); b.add("n", CEE_SQLITE3_INT); Str s(len, 'q'); b.val(0, T(i == 1 ? "a" : "d")).val(1, type ? B(s) : T(s)).val(2, I(7)); cee_sqlite3_stmt_strs q; memset(&q, 0, sizeof q); q.table_name = cs("t"); q.select_stmt = cs("select 1 from t where k=@k"); q.insert_stmt = cs("insert into t values(@k,@v,@n)"); q.update_stmt = cs("update t set v=@v where k=@k"); cee_json *status = how == 2 ? cee_json_object_mk(st) : nullptr, **sp = how ? &status : nullptr; step("%d bytes", len); int rc;
  if (i == 0) rc = cee_sqlite3_insert(c, b.in(), b.da(), q.insert_stmt, sp, nullptr, nullptr); else rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &q, sp); sqlite3_limit(db.d, SQLITE_LIMIT_LENGTH, 100000); Table t = content(db); MC_CHECK(rc == SQLITE_DONE || rc_error(rc), "%d", rc); if (len > 40) MC_CHECK(rc_error(rc), "%d bytes are accepted beyond the limit of 40", len); if (rc_error(rc)) { MC_CHECK(t == BASE, "the table is %s", showtab(t).c_str()); MC_CHECK(!how || cee_json_select(status, cs(".error")), "not reported"); } else { Table w = i == 1 ? with(T("a"), type ? B(s) : T(s), I(1)) : with(T("d"), type ? B(s) : T(s), I(7)); MC_CHECK(t == w, "the table is %s", showtab(t).c_str()); } done(db, st);
}
void mc_register() {
  sqlite3_shutdown(); sqlite3_config(SQLITE_CONFIG_GETMALLOC, &realmem); static sqlite3_mem_methods m = realmem; m.xMalloc = m_malloc; m.xRealloc = m_realloc; sqlite3_config(SQLITE_CONFIG_MALLOC, &m); sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0); sqlite3_initialize(); io_setup();
  sqlite3_vfs_register(&myvfs, 1);
  mc::add("api-1", [] { api(1, false); }, 2); mc::add("api-2", [] { api(2, false); }, 2); mc::add("api-pairs", [] { api(2, true); }, 2); mc::add("memory", memory, 2); mc::add("files", files, 2); mc::add("interrupts", interrupts, 2); mc::add("locks", locks, 2); mc::add("refusals", refusals, 2); mc::add("sql-texts", sql_texts, 3); mc::add("too-big", too_big, 2);
}
