#include "sql.hpp"
#include <climits>
using namespace std;
static const char *SCHEMA = "create table t(id integer primary key, x, y); insert into t values(1,'keep',-1),(2,'''old''',x'00ff'),(3,NULL,2.5);";
static const cee_sqlite3_type TYPES[] = {CEE_SQLITE3_INT, CEE_SQLITE3_INT64, CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB};
static const vector<Str> &values(cee_sqlite3_type t) {
  static const vector<Str> N = {I(0), I(1), I(-1), I(INT_MAX), I(INT_MIN)}, L = {I(0), I(-1), I(INT64_MAX), I(INT64_MIN), I(1LL << 32), I((1LL << 53) + 1)},
    X = {T(""), T("'"), T("a"), T("@x"), T("'; drop table t; --"), T("%s%n%d"), T("\xc3\xa9\n\x01")}, Y = {B(""), B("a"), B(Str("\0", 1)), B("'\"; --"), B(Str("\xff\0\x80z", 4)), B("text")};
  return t == CEE_SQLITE3_INT ? N : t == CEE_SQLITE3_INT64 ? L : t == CEE_SQLITE3_TEXT ? X : Y;
}
static Str zero(cee_sqlite3_type t) { return t == CEE_SQLITE3_TEXT ? T("") : t == CEE_SQLITE3_BLOB ? B("") : I(0); }
static void same_table(Db &db, const Table &want, const char *op) { Table got = dump(db.d, "select id,x,y from t order by id"); if (got != want) fail("after %s the table is %s instead of %s", op, showtab(got).c_str(), showtab(want).c_str()); mc::state(mc::hash_str(showtab(got))); }
static const Table BASE = {{I(1), T("keep"), I(-1)}, {I(2), T("'old'"), B(Str("\0\xff", 2))}, {I(3), NUL, "f:2.5"}};
// one parameter: every type, presence of data and default, not_null, statement and way of calling
static void binding() {
  cee_sqlite3_type ty = TYPES[choose(4, "type")]; auto &vs = values(ty); int stmt = choose(4, "statement"), dp = choose(3, "data"), df = choose(3, "default"), nn = choose(2, "not null"), nodata = dp == 0 ? choose(2, "data is NULL") : 0;
  static const char *SQL[] = {"insert into t(id,x,y) values (7,@x,5)", "  INSERT or replace into t(x,y,id) values(@x,5,7)", "update t set x=@x where id=2", "select id from t where x is @x or id=1 order by id desc"};
  if (dp == 2 || df == 2) { if (nn) mc::skip(); }
  for (size_t k = 0; k < vs.size(); k++) for (int counted = 0; counted < (ty == CEE_SQLITE3_TEXT && vs[k] != T("") ? 2 : 1); counted++) for (int call = 0; call < 4; call++) {
    if ((dp != 1 && df != 1) && k) break; St st; Db db(SCHEMA); Cs c(st, db.d); Binds b; int i = b.add("x", ty, nn); Str v = vs[k], w = vs[(k + 1) % vs.size()];
    if (dp) b.val(i, dp == 1 ? v : NUL, counted); if (df) b.dflt(i, df == 1 ? (dp ? w : v) : NUL, counted); Str eff = dp ? (dp == 1 ? v : NUL) : df ? (df == 1 ? v : NUL) : nn && stmt < 2 ? zero(ty) : NUL;
    step("%s with %s", SQL[stmt], mc::quote(eff).c_str()); cee_json *ret = nullptr; sqlite3_stmt *s = (sqlite3_stmt *)8; int rc = cee_sqlite3_bind_run_sql(c, b.in(), nodata ? nullptr : b.da(), cs(SQL[stmt]), call & 1 ? &s : nullptr, call & 2 ? &ret : nullptr);
    MC_CHECK(rc == (stmt == 3 ? SQLITE_ROW : SQLITE_DONE), "%s gives %d: %s", SQL[stmt], rc, showj(ret).c_str()); if (call & 2) MC_CHECK(obj_of(ret, "bind_run_sql").empty(), "the result is %s", showj(ret).c_str());
    if (call & 1) { if (stmt == 3) { vector<int64_t> ids, want; do ids.push_back(sqlite3_column_int64(s, 0)); while (sqlite3_step(s) == SQLITE_ROW); for (int r = 2; r >= 0; r--) if (BASE[r][1] == eff || r == 0) want.push_back(r + 1); MC_CHECK(ids == want, "%zu rows are selected with %s", ids.size(), mc::quote(eff).c_str()); } MC_CHECK(sqlite3_finalize(s) == SQLITE_OK, "finalize"); }
    Table want = BASE; if (stmt < 2) want.push_back({I(7), eff, I(5)}); else if (stmt == 2) want[1][1] = eff; same_table(db, want, SQL[stmt]); db.finish();
  }
}
// several parameters: each value in its own column, whatever the orders; a parameter without an entry is an error
static void columns() {
  int p = choose(6, "order of the table"), q = choose(6, "order of the statement"), missing = choose(4, "missing"), extra = choose(3, "extra entry"), twice = choose(3, "twice or anonymous"), style = choose(4, "style"); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char *N[] = {"id", "x", "y"};
  static const char *const STYLE[] = {"@", ":", "$"}; St st; Db db(SCHEMA); Cs c(st, db.d); Binds b; const Str V[] = {I(9), T("x'); --"), B("y\0y")}; const cee_sqlite3_type TY[] = {CEE_SQLITE3_INT, CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB}; auto var = [&](int m) { return style == 3 ? mc::fmt("?%d", m + 1) : STYLE[style] + Str(N[m]); }; if (twice == 2 && (missing == 3 || style == 3)) mc::skip();
  for (int k = 0; k < 3; k++) { if (extra == 1 && k == 1) b.val(b.add("zz", CEE_SQLITE3_TEXT), T("extra")); if (P[p][k] == missing) continue; int i = b.add(N[P[p][k]], TY[P[p][k]], false, var(P[p][k]).c_str()); b.val(i, V[P[p][k]]); } if (extra == 2) b.val(b.add("a", CEE_SQLITE3_INT), I(77));
  Str cols, vals; for (int k = 0; k < 3; k++) { int m = P[q][k]; cols += (k ? "," : "") + Str(N[m]); vals += (k ? "," : "") + (twice == 2 && m == missing ? "?" : twice == 1 && m == 2 ? "case when " + var(2) + " is " + var(2) + " then " + var(2) + " end" : var(m)); } Str sql = "insert into t(" + cols + ") values(" + vals + ")";
  step("%s, missing %d", sql.c_str(), missing); cee_json *ret = nullptr; int rc = cee_sqlite3_bind_run_sql(c, b.in(), b.da(), cs(sql.c_str()), nullptr, &ret); Table want = BASE;
  if (missing < 3) { MC_CHECK(rc_error(rc), "a statement with an unbound parameter gives %d", rc); MC_CHECK(cee_json_select(ret, ".error"), "no error for an unbound parameter"); } else { MC_CHECK(rc == SQLITE_DONE, "%d %s", rc, showj(ret).c_str()); want.push_back({V[0], V[1], V[2]}); } same_table(db, want, sql.c_str()); db.finish();
}
// ---- every way to write a text, a number or a null, and every way to read it back ----------------------
static const char *S2 = "create table t(id integer primary key, x, y); insert into t values(1,'keep',-1),(5,'row','five');";
static const char *SEL = "select * from t where id=@id"; enum { WRITES = 16 };
static cee_sqlite3_stmt_strs strs() { cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); s.insert_stmt = cs("insert into t(id,x,y) values(@id,@x,@y)"); s.update_stmt = cs("update t set x=@x,y=@y where id=@id"); return s; }
static const char *const WNAME[] = {"bind_run_sql", "insert", "update_or_insert (new row)", "update_or_insert (present row)", "update", "update_if_exists", "select1_or_insert", "insert_op", "insert_op (dynamic)", "update_or_insert_op (new row)", "update_or_insert_op (template)", "update_op", "update_if_exists_op", "insert_json_array", "bind_info of an object", "generic_opcode without tables"};
// writes x and y into row `id`; the rows 5 (present) and 8 (new) are used
static Table put(int w, Db &db, Cs &c, cee_state *st, const Str &x, const Str &y, cee_sqlite3_type tx, cee_sqlite3_type ty) {
  Binds b; int id = (w == 3 || w == 4 || w == 5 || w == 10 || w == 11 || w == 12) ? 5 : 8; auto s = strs(); cee_json *status = nullptr; b.add("id", CEE_SQLITE3_INT); b.add("x", tx); b.add("y", ty); int rc = SQLITE_DONE; Obj o = {{"id", I(id)}, {"x", x}, {"y", y}};
  cee_sqlite3_db_op op = {&s, b.in(), b.da()}; if (w < 7) { b.val(0, I(id)).val(1, x).val(2, y); }
  switch (w) {
  case 0: rc = cee_sqlite3_bind_run_sql(c, b.in(), b.da(), s.insert_stmt, nullptr, &status); break;
  case 1: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, &status, nullptr, nullptr); break;
  case 2: case 3: rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &s, &status); break;
  case 4: rc = cee_sqlite3_update(c, b.in(), b.da(), &s, &status); break;
  case 5: rc = cee_sqlite3_update_if_exists(c, b.in(), b.da(), &s, &status); break;
  case 6: rc = cee_sqlite3_select1_or_insert(c, b.in(), b.da(), &s, &status); break;
  case 7: rc = cee_sqlite3_insert_op(c, &op, jobj(st, o), &status); break;
  case 8: s.insert_stmt = nullptr; s.insert_dynamic = true; rc = cee_sqlite3_insert_op(c, &op, jobj(st, o), &status); break;
  case 9: rc = cee_sqlite3_update_or_insert_op(c, &op, jobj(st, o), &status); break;
  case 10: s.update_stmt = nullptr; s.update_template = cs("update t set %s where id=@id"); b.info[0].no_update = true; rc = cee_sqlite3_update_or_insert_op(c, &op, jobj(st, o), &status); break;
  case 11: rc = cee_sqlite3_update_op(c, &op, jobj(st, o), &status); break;
  case 12: rc = cee_sqlite3_update_if_exists_op(c, &op, jobj(st, o), &status); break;
  case 13: { cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, jobj(st, o)); rc = cee_sqlite3_insert_json_array(c, cs("t"), a) ? SQLITE_ERROR : SQLITE_DONE; break; }
  case 14: rc = cee_sqlite3_bind_run_sql(c, cee_json_to_bind_info(jobj(st, o)), nullptr, s.insert_stmt, nullptr, &status); break;
  case 15: rc = cee_sqlite3_generic_opcode(c, jobj(st, o), nullptr, nullptr, &s, &status, cee_sqlite3_insert_wrapper); break; }
  MC_CHECK(rc == SQLITE_DONE, "%s with %s, %s gives %d %s", WNAME[w], mc::quote(x).c_str(), mc::quote(y).c_str(), rc, showj(status).c_str()); if (status) MC_CHECK(!cee_json_object_get(status, cs("error")), "%s reports %s", WNAME[w], showj(status).c_str());
  Table want = {{I(1), T("keep"), I(-1)}}; if (id == 5) want.push_back({I(5), x, y}); else { want.push_back({I(5), T("row"), T("five")}); want.push_back({I(8), x, y}); } return want;
}
enum { READS = 9 };
static void get(Db &db, Cs &c, cee_state *st, const Row &row, cee_sqlite3_type tx) {   // row: id, x, y
  Obj want = {{"id", row[0]}, {"x", row[1]}, {"y", row[2]}}; bool byx = row[1] != NUL; cee_json *j; Binds b; b.add("id", CEE_SQLITE3_INT); b.val(0, row[0]); b.add("x", tx); b.val(1, row[1]); char *by_x = cs("select * from t where x is @x and id=@id");
  auto one = [&](const Obj &o, const char *op) { if (o != want) fail("%s reads %s instead of %s", op, showobj(o).c_str(), showobj(want).c_str()); }; auto many = [&](cee_json *a, const char *op) { auto v = objs_of(a, op); MC_CHECK(v.size() == 1, "%s gives %zu rows", op, v.size()); one(v[0], op); };
  j = nullptr; MC_CHECK(cee_sqlite3_select(c, b.in(), b.da(), cs(SEL), &j) == SQLITE_DONE, "select"); many(j, "select");
  if (byx) { j = nullptr; MC_CHECK(cee_sqlite3_select(c, b.in(), b.da(), by_x, &j) == SQLITE_DONE, "select"); many(j, "select by content"); }
  j = nullptr; MC_CHECK(cee_sqlite3_select1(c, b.in(), b.da(), by_x, &j) == SQLITE_DONE, "select1"); one(obj_of(j, "select1"), "select1");
  j = nullptr; cee_sqlite3_select_as(c, b.in(), b.da(), by_x, &j, cs("k")); MC_CHECK(j && j->t == CEE_JSON_OBJECT, "select_as gives %s", showj(j).c_str()); many(cee_json_object_get(j, cs("k")), "select_as");
  j = nullptr; cee_sqlite3_select1_as(c, b.in(), b.da(), cs(SEL), &j, cs("k")); MC_CHECK(j && j->t == CEE_JSON_OBJECT, "select1_as gives %s", showj(j).c_str()); one(obj_of(cee_json_object_get(j, cs("k")), "select1_as"), "select1_as");
  auto s = strs(); j = nullptr; MC_CHECK(cee_sqlite3_select1_or_insert(c, b.in(), b.da(), &s, &j) == SQLITE_DONE, "select1_or_insert"); one(obj_of(j, "select1_or_insert"), "select1_or_insert");
  struct It { Row r; int n = 0; } it; MC_CHECK(cee_sqlite3_select_iter(c, b.in(), b.da(), by_x, &it, [](void *v, cee_state *, cee_sqlite3_bind_info *, sqlite3_stmt *s) -> int { It *i = (It *)v; i->n++; i->r.clear(); for (int k = 0; k < sqlite3_column_count(s); k++) i->r.push_back(cell_of(s, k)); return 0; }, nullptr) == SQLITE_DONE && it.n == 1 && it.r == row, "select_iter reads %s", showrow(it.r).c_str());
  if (byx && (row[1][0] == 'i' || row[1][0] == 't')) { Binds f; f.add("fx", row[1][0] == 'i' ? CEE_SQLITE3_INT64 : CEE_SQLITE3_TEXT); f.data[0].has_value = 1; Str id = row[0].substr(2); Str sql = "select id,y from t where x = @fx and id=" + id;
    cee_json *e = jobj(st, {{"fx", row[1]}, {"z", I(4)}}); cee_sqlite3_json_object_join_table(c, e, f.in(), f.da(), cs(sql.c_str()), nullptr); Obj w = {{"fx", row[1]}, {"z", I(4)}, {"id", row[0]}, {"y", row[2]}}, g = obj_of(e, "join"); MC_CHECK(g == w, "joining reads %s instead of %s", showobj(g).c_str(), showobj(w).c_str());
    cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, jobj(st, {{"fx", row[1]}})); cee_sqlite3_json_array_join_table(c, a, f.in(), f.da(), cs(sql.c_str()), cs("rows")); auto v = objs_of(cee_json_object_get(cee_json_array_get(a, 0), cs("rows")), "array join"); MC_CHECK(v.size() == 1 && v[0] == (Obj{{"id", row[0]}, {"y", row[2]}}), "joining reads %s", showobjs(v).c_str()); }
}
static void roundtrip(int w, const Str &x, const Str &y, cee_sqlite3_type tx, cee_sqlite3_type ty) {
  St st; Db db(S2); Cs c(st, db.d); Table want = put(w, db, c, st, x, y, tx, ty), got = dump(db.d, "select * from t order by id"); if (got != want) fail("%s with %s, %s leaves %s", WNAME[w], mc::quote(x).c_str(), mc::quote(y).c_str(), showtab(got).c_str());
  get(db, c, st, w >= 3 && w <= 5 ? want[1] : want.back(), tx); db.no_stmt("a reader"); same_table(db, want, "reading"); db.finish(); mc::state(mc::hash_str(x + y));
}
static void texts() { int w = choose(WRITES, "writer"); words({"'", "\"", ";", "-", "%", "s", "@", "x", "\\", "\xc3\xa9", "\n", "\x01", "?", "0", " "}, mc::tier(2, 3), "", "", [w](const Str &s) { roundtrip(w, T(s), T("y" + s), CEE_SQLITE3_TEXT, CEE_SQLITE3_TEXT); }, 1); }
static void phrases() { static const char *const PH[] = {"'); drop table t; --", "' or '1'='1", "\"; delete from t; --", "@id", ":x", "$y", "?1", "null", "NULL", "123", "-1", "1.5", "x'00'", "%s%s%n", "/*", "*/", "--", "\xf0\x9f\x98\x80", "select", "insert into t values(9,9,9)", "\xff\xfe", "a b\tc\r\n"}; int w = choose(WRITES, "writer"), i = choose(22, "text"); step("%s", PH[i]); roundtrip(w, T(PH[i]), T(PH[(i + 5) % 22]), CEE_SQLITE3_TEXT, CEE_SQLITE3_TEXT); }
static void numbers() { int w = choose(WRITES, "writer"), i = choose(40, "number"), big = choose(2, "64 bit"); vector<int64_t> V; for (int p = 0; p < 64; p += 7) for (int d = -1; d < 2; d += 2) { V.push_back((int64_t)((1ull << p) + d)); V.push_back(-(int64_t)((1ull << p) + d)); } for (int64_t v : {(int64_t)INT_MAX, (int64_t)INT_MIN, (int64_t)INT_MAX + 1, (int64_t)INT_MIN - 1, INT64_MAX, INT64_MIN, (int64_t)0, (int64_t)UINT_MAX}) V.insert(V.begin(), v); int64_t v = V[i]; bool direct = w < 13; if (direct && !big && v != (int)v) mc::skip(); if (!direct && !big) mc::skip(); step("%lld", (long long)v); auto ty = big ? CEE_SQLITE3_INT64 : CEE_SQLITE3_INT; roundtrip(w, I(v), I(-7), ty, ty); roundtrip(w, T("k"), I(v), CEE_SQLITE3_TEXT, ty); roundtrip(w, NUL, I(v), CEE_SQLITE3_TEXT, ty); roundtrip(w, I(v), NUL, ty, ty); roundtrip(w, NUL, NUL, ty, ty); }
static void blobs() { int w = choose(7, "writer"), a = choose(257, "byte") - 1; step("byte %d", a); if (a < 0) { roundtrip(w, T("e"), B(""), CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB); return; } for (int b = -1; b < 256; b += a % 16 ? 85 : 1) { Str s(1, (char)a); if (b >= 0) s += (char)b; roundtrip(w, b % 2 ? B(s) : I(a), B(s + '\0'), b % 2 ? CEE_SQLITE3_BLOB : CEE_SQLITE3_INT, CEE_SQLITE3_BLOB); } }
static void lengths() { int w = choose(WRITES, "writer"), n = choose(mc::tier(24, 60), "length"); static const int L[] = {100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 4095, 4096, 5000, 65535, 65536, 70000}; int len = n < 16 ? L[n] : n; step("%d", len); Str s; for (int i = 0; i < len; i++) s += "ab'c\"%"[i % 6]; roundtrip(w, T(s), T(s + "x"), CEE_SQLITE3_TEXT, CEE_SQLITE3_TEXT); if (w < 7) { Str z; for (int i = 0; i < len; i++) z += (char)(i * 7); roundtrip(w, T(s), B(z), CEE_SQLITE3_TEXT, CEE_SQLITE3_BLOB); } }
// text of a given size: stored with its NUL characters; read back, it ends at the first of them (known finding)
static void counted() {
  vector<Str> al = {"a", Str("\0", 1), "'"}; words(al, 4, "", "", [](const Str &s) { if (s.empty()) return; St st; Db db(S2); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.add("x", CEE_SQLITE3_TEXT); b.add("y", CEE_SQLITE3_TEXT); b.val(0, I(8)).val(1, T(s), true).val(2, T("y")); auto q = strs(); MC_CHECK(cee_sqlite3_insert(c, b.in(), b.da(), q.insert_stmt, nullptr, nullptr, nullptr) == SQLITE_DONE, "insert");
    Table got = dump(db.d, "select * from t where id=8"); MC_CHECK(got == Table({{I(8), T(s), T("y")}}), "text of %zu bytes is stored as %s", s.size(), showtab(got).c_str()); cee_json *j = nullptr; cee_sqlite3_select1(c, b.in(), b.da(), cs(SEL), &j); Obj o = obj_of(j, "select1"); db.finish();
    if (o["x"] != T(s)) { if (s.find('\0') != Str::npos && o["x"] == T(s.c_str())) { if (mc::is_known("nul-text")) return; mc::known("nul-text", "a stored text with a NUL character is read back as %s", mc::quote(o["x"]).c_str()); } fail("%s is read back as %s", mc::quote(s).c_str(), mc::quote(o["x"]).c_str()); } }, 1);
}
static void counted_finding() { step("a text with a NUL character"); St st; Db db("create table t(x); insert into t values(cast(x'610062' as text))"); Cs c(st, db.d); cee_json *j = nullptr; cee_sqlite3_select1(c, nullptr, nullptr, cs("select x from t"), &j); Str got = obj_of(j, "select1")["x"]; db.finish(); if (got == T("a")) mc::known("nul-text", "a stored text with a NUL character is read back as %s", mc::quote(got).c_str()); MC_CHECK(got == T(Str("a\0b", 3)), "read back as %s", mc::quote(got).c_str()); }
// select_op cannot give its rows: the status is an object, and select wants an array (known finding)
static void select_op() {
  int with = choose(2, "status"), dyn = choose(2, "update template"); St st; Db db(S2); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); auto s = strs(); if (dyn) s.update_template = cs("update t set %s where id=@id"); cee_sqlite3_db_op op = {&s, b.in(), b.da()}; cee_json *status = nullptr, *in = jobj(st, {{"id", I(5)}}); step("select_op %s status", with ? "with" : "without"); int rc = 0;
  bool t = mc::traps([&] { rc = cee_sqlite3_select_op(c, &op, in, with ? &status : nullptr); }); if (with && t) { db.finish(); mc::known("select-op", "cee_sqlite3_select_op traps when a status is wanted: generic_opcode makes it an object, cee_sqlite3_select wants an array"); } MC_CHECK(!t && rc == SQLITE_DONE, "select_op gives %d", rc); if (with) { Str all = showj(status); MC_CHECK(all.find("five") != Str::npos, "select_op gives %s", all.c_str()); } same_table(db, {{I(1), T("keep"), I(-1)}, {I(5), T("row"), T("five")}}, "select_op"); db.finish();
}
// ---- the shape of results ---------------------------------------------------------------------------
static void shapes() {
  static const Str V[] = {I(-3), "f:0.5", T("it's"), B(Str("\0b", 2)), NUL}; int n = choose(4, "rows"), ncol = 1 + choose(2, "columns"), ta = choose(5, "a"), tb = ncol == 2 ? choose(5, "b") : 0, hide = choose(ncol + 2, "no_return"), label = choose(ncol + 1, "no_label"), form = choose(9, "form");
  St st; Db db("create table s(n integer primary key, a, b)"); Cs c(st, db.d); vector<Obj> rows; vector<Str> single; sqlite3_stmt *q; sqlite3_prepare_v2(db.d, "insert into s values(?,?,?)", -1, &q, 0);
  for (int r = 0; r < n; r++) { Str cell[2] = {V[(ta + r * (r == 2)) % 5], V[(tb + r) % 5]}; for (int k = 0; k < 2; k++) { const Str &x = cell[k]; if (x == NUL) sqlite3_bind_null(q, k + 2); else if (x[0] == 'i') sqlite3_bind_int64(q, k + 2, atoll(x.c_str() + 2)); else if (x[0] == 'f') sqlite3_bind_double(q, k + 2, atof(x.c_str() + 2)); else if (x[0] == 't') sqlite3_bind_text(q, k + 2, x.data() + 2, x.size() - 2, SQLITE_TRANSIENT); else sqlite3_bind_blob(q, k + 2, x.data() + 2, x.size() - 2, SQLITE_TRANSIENT); } sqlite3_bind_int(q, 1, r + 1); sqlite3_step(q); sqlite3_reset(q); Obj o; if (hide != 1) o["a"] = cell[0]; if (ncol == 2 && hide != 2) o["b"] = cell[1]; rows.push_back(o); single.push_back(cell[0]); } sqlite3_finalize(q);
  Binds b; b.info[0].col_name = nullptr; int ia = b.add("a", CEE_SQLITE3_INT), ib = b.add("b", CEE_SQLITE3_TEXT); if (hide == 1) b.info[ia].no_return = true; if (hide == 2 && ncol == 2) b.info[ib].no_return = true; if (hide == 2 && ncol == 1) mc::skip(); bool bare = ncol == 1 && label == 1; if (label == 1) b.info[ia].no_label = true; if (label == 2) b.info[ib].no_label = true; if (hide == 1 && bare) mc::skip();
  const char *sql = ncol == 1 ? "select a from s order by n" : "select a,b from s order by n"; auto info = hide || label ? b.in() : choose(2, "no table") ? nullptr : b.in(); step("%d rows, form %d", n, form); cee_json *j = nullptr; int rc = SQLITE_DONE;
  auto check_array = [&](cee_json *a, size_t skip, const char *op) { MC_CHECK(a && a->t == CEE_JSON_ARRAY, "%s gives %s", op, showj(a).c_str()); MC_CHECK(cee_json_array_length(a) == skip + n, "%s gives %zu rows instead of %d after %zu", op, cee_json_array_length(a), n, skip); for (int r = 0; r < n; r++) { cee_json *e = cee_json_array_get(a, skip + r); if (bare) { if (cell_of(e) != single[r]) fail("%s: element %d is %s instead of %s", op, r, mc::quote(cell_of(e)).c_str(), mc::quote(single[r]).c_str()); } else { Obj o = obj_of(e, op); if (o != rows[r]) fail("%s: row %d is %s instead of %s", op, r, showobj(o).c_str(), showobj(rows[r]).c_str()); } } };
  auto merged = [&](Obj base) { if (n) for (auto &p : rows[0]) base[p.first] = p.second; return base; };
  switch (form) {
  case 0: rc = cee_sqlite3_select(c, info, nullptr, cs(sql), &j); check_array(j, 0, "select"); break;
  case 1: j = cee_json_array_mk(st, 1); cee_json_array_append(j, jobj(st, {{"old", I(1)}})); rc = cee_sqlite3_select(c, info, nullptr, cs(sql), &j); check_array(j, 1, "select into an array"); MC_CHECK(obj_of(cee_json_array_get(j, 0), "select") == (Obj{{"old", I(1)}}), "select changes the array's elements"); break;
  case 2: if (bare) mc::skip(); rc = cee_sqlite3_select1(c, info, nullptr, cs(sql), &j); if (n) MC_CHECK(obj_of(j, "select1") == rows[0], "select1 gives %s", showj(j).c_str()); else MC_CHECK(!j, "select1 of nothing gives %s", showj(j).c_str()); break;
  case 3: if (bare) mc::skip(); j = jobj(st, {{"a", T("old")}, {"z", I(1)}}); rc = cee_sqlite3_select1(c, info, nullptr, cs(sql), &j); MC_CHECK(obj_of(j, "select1") == merged({{"a", T("old")}, {"z", I(1)}}), "select1 into an object gives %s", showj(j).c_str()); break;
  case 4: j = choose(2, "status") ? jobj(st, {{"z", I(1)}}) : nullptr; { bool had = j; rc = cee_sqlite3_select_as(c, info, nullptr, cs(sql), &j, cs("k")); MC_CHECK(j && j->t == CEE_JSON_OBJECT, "select_as gives %s", showj(j).c_str()); check_array(cee_json_object_get(j, cs("k")), 0, "select_as"); if (had) MC_CHECK(cell_of(cee_json_object_get(j, cs("z"))) == I(1), "select_as changes other members"); } break;
  case 5: { j = cee_json_object_mk(st); cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, jcell(st, I(5))); cee_json_array_append(a, jcell(st, I(6))); cee_json_object_set(j, cs("k"), a); rc = cee_sqlite3_select_as(c, info, nullptr, cs(sql), &j, cs("k")); check_array(cee_json_object_get(j, cs("k")), 2, "select_as into a list"); break; }
  case 6: { if (bare) mc::skip(); bool had = choose(2, "status"); if (had) { j = cee_json_object_mk(st); cee_json_object_set(j, cs("k"), jobj(st, {{"a", T("old")}, {"z", I(2)}})); } rc = cee_sqlite3_select1_as(c, info, nullptr, cs(sql), &j, cs("k")); Obj want = merged(had ? Obj{{"a", T("old")}, {"z", I(2)}} : Obj{}); MC_CHECK(j && j->t == CEE_JSON_OBJECT, "select1_as gives %s", showj(j).c_str()); cee_json *k = cee_json_object_get(j, cs("k")); if (!n && !had) MC_CHECK(!k, "select1_as of nothing gives %s", showj(j).c_str()); else MC_CHECK(obj_of(k, "select1_as") == want, "select1_as gives %s instead of %s", showj(j).c_str(), showobj(want).c_str()); break; }
  case 7: rc = cee_sqlite3_select(c, info, nullptr, cs(sql), nullptr); break;
  case 8: { struct It { int n, stop; } it = {0, choose(n + 1, "stop")}; rc = cee_sqlite3_select_iter(c, info, nullptr, cs(sql), &it, [](void *v, cee_state *, cee_sqlite3_bind_info *, sqlite3_stmt *) -> int { It *i = (It *)v; return ++i->n == i->stop; }, nullptr); MC_CHECK(it.n == (it.stop ? it.stop : n), "select_iter calls %d times for %d rows, stopping at %d", it.n, n, it.stop); break; } }
  MC_CHECK(rc == SQLITE_DONE, "form %d gives %d", form, rc); db.no_stmt("a select"); db.finish();
}
// ---- JSON input ---------------------------------------------------------------------------------------
static void json_input() {
  int op = choose(5, "op"), tmpl = choose(2, "template"), row = choose(2, "row exists"); Str a[3]; static const Str VA[] = {"-", T("new'"), NUL, I(3)}, VB[] = {"-", I(-8), NUL, T("no")}, VC[] = {"-", T("c;"), NUL, "f:0.5"}; int unk = choose(2, "unknown key"); a[0] = VA[choose(4, "x")]; a[1] = VB[choose(4, "b")]; a[2] = VC[choose(4, "c")];
  St st; Db db("create table t(id integer primary key, x text default 'dflt', b integer, c text not null default 'cc'); insert into t values(1,'keep',5,'k'),(5,'row',55,'kk');"); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.info[0].no_update = true; b.add("x", CEE_SQLITE3_TEXT); b.add("b", CEE_SQLITE3_INT64); b.add("c", CEE_SQLITE3_TEXT, true);
  bool ins_dyn = (op == 1 || op == 2) && tmpl; cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); if (ins_dyn) s.insert_dynamic = true; else s.insert_stmt = cs("insert into t(id,x,b,c) values(@id,@x,@b,@c)"); if (tmpl) s.update_template = cs("update t set %s where id=@id"); else s.update_stmt = cs("update t set x=@x,b=@b,c=@c where id=@id");
  int id = row ? 5 : 8; Obj o = {{"id", I(id)}}; static const char *N[] = {"x", "b", "c"}; for (int k = 0; k < 3; k++) if (a[k] != "-") o[N[k]] = a[k]; if (unk) o["unk"] = T("u"); bool bad = a[0] == I(3) || a[1] == T("no") || a[2] == "f:0.5"; cee_json *status = nullptr; int rc; cee_sqlite3_db_op dop = {&s, b.in(), b.da()}; cee_json *in = jobj(st, o); step("op %d %s", op, showobj(o).c_str());
  Table want = {{I(1), T("keep"), I(5), T("k")}, {I(5), T("row"), I(55), T("kk")}}; bool ok = true, updates = false, inserts = false;
  switch (op) { case 0: if (tmpl) mc::skip(); [[fallthrough]]; case 1: rc = cee_sqlite3_insert_op(c, &dop, in, &status); inserts = true; if (row) ok = false; break; case 2: rc = cee_sqlite3_update_or_insert_op(c, &dop, in, &status); (row ? updates : inserts) = true; break; case 3: rc = cee_sqlite3_update_op(c, &dop, in, &status); updates = row; if (!row) ok = false; break; default: rc = cee_sqlite3_update_if_exists_op(c, &dop, in, &status); updates = row; }
  if (bad) ok = false; bool given[3]; for (int k = 0; k < 3; k++) given[k] = a[k] != "-" && !(k == 2 && a[k] == NUL); if (updates && ok && !tmpl && !given[2]) ok = false;   // c is NOT NULL and not given
  if (ok && inserts) { auto v = [&](int k) -> Str { if (given[k]) return a[k]; if (k == 2) return T(""); return ins_dyn && k == 0 ? T("dflt") : NUL; }; want.push_back({I(8), v(0), v(1), v(2)}); } if (ok && updates) for (int k = 0; k < 3; k++) { if (given[k]) want[1][k + 1] = a[k]; else if (!tmpl) want[1][k + 1] = NUL; }
  Table got = dump(db.d, "select * from t order by id"); if (got != want) fail("op %d of %s (template %d) gives %d and leaves %s instead of %s; %s", op, showobj(o).c_str(), tmpl, rc, showtab(got).c_str(), showtab(want).c_str(), showj(status).c_str());
  MC_CHECK(rc == SQLITE_DONE ? ok : !ok && rc_error(rc), "op %d of %s gives %d, %s", op, showobj(o).c_str(), rc, showj(status).c_str()); cee_json *e = cee_json_object_get(status, cs("error")); MC_CHECK(!e == ok, "op %d of %s gives %d and %s", op, showobj(o).c_str(), rc, showj(status).c_str());
  if (ok && unk) { cee_json *u = cee_json_select(status, cs(".debug.unused_keys[0]")); MC_CHECK(u && cell_of(u) == T("unk"), "the unknown key is not reported: %s", showj(status).c_str()); } if (ok && inserts && op < 2) MC_CHECK(cell_of(cee_json_object_get(status, cs("id"))) == I(8), "insert_op reports %s", showj(status).c_str()); db.no_stmt("an op"); db.finish(); mc::state(mc::hash_str(showtab(got)));
}
static void from_json() {                                   // bind_data_from_json
  static const Str V[] = {"-", I(4), I(1LL << 40), T("a"), T(""), NUL, "f:1.5"}; Str a[5]; for (int k = 0; k < 4; k++) a[k] = V[choose(k == 3 ? 3 : 7, "value")]; static const Str B[] = {"-", NUL, T("YQ=="), I(1)}; a[4] = B[choose(4, "blob")]; int outs = choose(3, "lists"); St st; Binds b; static const char *N[] = {"i", "l", "s", "none", "z"}; b.add("i", CEE_SQLITE3_INT); b.add("l", CEE_SQLITE3_INT64); b.add("s", CEE_SQLITE3_TEXT); b.add("z", CEE_SQLITE3_BLOB); Obj o; for (int k = 0; k < 5; k++) if (a[k] != "-") o[N[k]] = a[k]; cee_json *u = nullptr, *n = nullptr, *e = nullptr; step("%s", showobj(o).c_str());
  bool bad = (a[0] != "-" && a[0] != NUL && a[0] != I(4)) || (a[1] != "-" && a[1] != NUL && a[1][0] != 'i') || (a[2] != "-" && a[2] != NUL && a[2][0] != 't') || (a[4] != "-" && a[4] != NUL); size_t was = outs == 2; if (was) { cee_json *pu = u = cee_json_array_mk(st, 1), *pn = n = cee_json_array_mk(st, 1), *pe = e = cee_json_array_mk(st, 1); for (cee_json *q : {pu, pn, pe}) cee_json_array_append_str(q, cs("before")); } cee_sqlite3_bind_data_from_json(b.in(), b.da(), jobj(st, o), outs ? &u : nullptr, outs ? &n : nullptr, outs ? &e : nullptr);
  if (outs) MC_CHECK(e && bad == (cee_json_array_length(e) > was), "%s: the errors are %s", showobj(o).c_str(), showj(e).c_str()); if (bad) return; for (int k = 0; k < 3; k++) { auto &d = b.data[k]; bool set = a[k] != "-"; if (k == 0) MC_CHECK(!!b.data[3].has_value == (a[4] == NUL) && !!b.data[3].is_null == (a[4] == NUL), "%s: z has_value %d", showobj(o).c_str(), b.data[3].has_value); MC_CHECK(!!d.has_value == set && !!d.is_null == (set && a[k] == NUL), "%s: %s has_value %d is_null %d", showobj(o).c_str(), N[k], d.has_value, d.is_null); if (set && a[k] != NUL) MC_CHECK(k == 0 ? I(d.i) == a[k] : k == 1 ? I(d.i64) == a[k] : T(d.value) == a[k], "%s: wrong value of %s", showobj(o).c_str(), N[k]); }
  if (outs) { size_t used = (a[0] != "-") + (a[1] != "-") + (a[2] != "-") + (a[4] != "-"); MC_CHECK(cee_json_array_length(u) == used + was && cee_json_array_length(n) == (a[3] != "-") + was, "%s: used %s unused %s", showobj(o).c_str(), showj(u).c_str(), showj(n).c_str()); }
}
static void many() {                                         // objects of any number of members
  int n = choose(mc::tier(130, 400), "members"), how = choose(3, "call"); St st; Str create = "create table t("; for (int i = 0; i < 400; i++) create += mc::fmt("%sc%d", i ? "," : "", i); Db db((create + ")").c_str()); Cs c(st, db.d); Obj o; for (int i = 0; i < n; i++) { int k = (i * 7 + 3) % 400; o[mc::fmt("c%d", k)] = i % 5 == 4 ? NUL : i % 2 ? I((1LL << 33) + i) : T(mc::fmt("v'%d", i)); } step("%d members", n); int rc; cee_json *status = nullptr;
  if (how == 0) { cee_json *a = cee_json_array_mk(st, 1); cee_json_array_append(a, jobj(st, o)); rc = cee_sqlite3_insert_json_array(c, cs("t"), a); MC_CHECK(n ? rc == 0 : rc != 0, "insert_json_array of %d members gives %d", n, rc); }
  else { if (!n) mc::skip(); Str cols, vals; for (auto &p : o) { cols += (cols.empty() ? "" : ",") + p.first; vals += (vals.empty() ? "@" : ",@") + p.first; } Str sql = "insert into t(" + cols + ") values(" + vals + ")"; if (how == 1) rc = cee_sqlite3_insert(c, cee_json_to_bind_info(jobj(st, o)), nullptr, cs(sql.c_str()), &status, nullptr, nullptr); else { cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.insert_dynamic = true; rc = cee_sqlite3_generic_opcode(c, jobj(st, o), nullptr, nullptr, &s, &status, cee_sqlite3_insert_wrapper); } MC_CHECK(rc == SQLITE_DONE, "%d members: %d %s", n, rc, showj(status).c_str()); }
  Table t = dump(db.d, "select * from t"); MC_CHECK(t.size() == (n ? 1 : 0), "%zu rows", t.size()); if (n) { for (int i = 0; i < 400; i++) { auto f = o.find(mc::fmt("c%d", i)); Str w = f == o.end() ? NUL : f->second; if (t[0][i] != w) fail("with %d members c%d is %s instead of %s", n, i, mc::quote(t[0][i]).c_str(), mc::quote(w).c_str()); } cee_json *j = nullptr; cee_sqlite3_select1(c, nullptr, nullptr, cs("select * from t"), &j); Obj g = obj_of(j, "select1"); MC_CHECK(g.size() == 400, "%zu columns are read", g.size()); for (auto &p : g) { auto f = o.find(p.first); MC_CHECK(p.second == (f == o.end() ? NUL : f->second), "%s is read as %s", p.first.c_str(), mc::quote(p.second).c_str()); } } db.finish();
}
static void arrays() {                                       // insert_json_array: every element a row, failures told
  static const Obj E[] = {{{"id", I(8)}, {"x", T("a'")}}, {{"id", I(9)}, {"y", NUL}}, {{"x", T("auto")}}, {{"id", I(5)}}, {{"nope", I(1)}}, {}}; int n = choose(5, "elements"); St st; Db db(S2); Cs c(st, db.d); cee_json *a = cee_json_array_mk(st, 1); map<int64_t, Row> m = {{1, {I(1), T("keep"), I(-1)}}, {5, {I(5), T("row"), T("five")}}}; bool bad = false;
  for (int i = 0; i < n; i++) { int e = choose(6, "element"); cee_json_array_append(a, jobj(st, E[e])); int64_t id = e == 0 ? 8 : e == 1 ? 9 : e == 2 ? m.rbegin()->first + 1 : e == 3 ? 5 : -1; if (id < 0 || m.count(id)) { bad = true; continue; } m[id] = {I(id), e == 0 ? T("a'") : e == 2 ? T("auto") : NUL, NUL}; } step("%d elements", n); int rc = cee_sqlite3_insert_json_array(c, cs("t"), a); MC_CHECK((rc != 0) == bad, "insert_json_array gives %d%s", rc, bad ? " though a row failed" : ""); Table w; for (auto &p : m) w.push_back(p.second); same_table(db, w, "insert_json_array"); db.finish();
}
static void joins() {
  static const Str K[] = {T("a"), T("' or 1=1 --"), I(7), I(1LL << 40), NUL, "f:0.5", "-", I(INT64_MIN)}; int n = choose(mc::tier(3, 4), "elements"), key = choose(2, "key"), where = choose(4, "default"); St st; Db db("create table s(fk, v, w); insert into s values('a',1,'one'),(7,2,'two'),('' || 'a',3,'three'),(1099511627776,4,NULL),('b',5,'five'),(''' o',6,'six'),('zzz',7,'seven')"); Cs c(st, db.d); cee_json *a = cee_json_array_mk(st, 1); vector<Str> ks; for (int i = 0; i < n; i++) { Str k = K[choose(8, "fk")]; ks.push_back(k); Obj o = {{"n", I(i)}}; if (k != "-") o["fk"] = k; cee_json_array_append(a, jobj(st, o)); }
  static const cee_sqlite3_type TY[] = {CEE_SQLITE3_TEXT, CEE_SQLITE3_INT64, CEE_SQLITE3_INT, CEE_SQLITE3_BLOB}; int ty = choose(4, "type"); Binds b; b.add("fk", TY[ty]); if (where == 1 || where == 2) b.info[0].data.has_value = 1; if (where != 1) b.data[0].has_value = 1; if (where == 3) b.data[0].size = 3, b.data[0].value = cs("zzz"), b.data[0].i = b.data[0].i64 = 5; if (where == 2) b.info[0].data.value = cs("b"), b.info[0].data.i = b.info[0].data.i64 = 7; step("%d elements", n);
  cee_sqlite3_json_array_join_table(c, a, b.in(), where == 1 ? nullptr : b.da(), cs("select v,w from s where fk=@fk and abs(@fk) is not null order by v"), key ? cs("rows") : nullptr); bool stopped = false;
  for (int i = 0; i < n; i++) { cee_json *e = cee_json_array_get(a, i); Obj base = {{"n", I(i)}}; if (ks[i] != "-") base["fk"] = ks[i]; vector<Obj> rows; if (ks[i] == T("a")) rows = {{{"v", I(1)}, {"w", T("one")}}, {{"v", I(3)}, {"w", T("three")}}}; if (ks[i] == I(7)) rows = {{{"v", I(2)}, {"w", T("two")}}}; if (ks[i] == I(1LL << 40)) rows = {{{"v", I(4)}, {"w", NUL}}};
    bool bad = ks[i] == NUL || ks[i] == "-" || !(ks[i][0] == 't' ? ty == 0 : ks[i][0] == 'i' && (ty == 1 || (ty == 2 && ks[i] == I(7)))); if (ks[i] == I(INT64_MIN) && ty == 1) { if (!stopped) { /* the engine fails on it */ cee_json *r = key ? cee_json_object_get(e, cs("rows")) : e; MC_CHECK(r && cee_json_select(r, cs(".error")), "element %d is %s though its query failed", i, showj(e).c_str()); stopped = true; continue; } } cee_json *err = cee_json_object_get(e, cs("error")), *r = cee_json_object_get(e, cs("rows")); if (stopped) { MC_CHECK(!err && !r && obj_of(e, "join") == base, "element %d after a failure is %s", i, showj(e).c_str()); continue; } MC_CHECK(bad == !!err, "element %d is %s", i, showj(e).c_str()); if (bad) { stopped = true; continue; }
    if (key) { auto g = objs_of(r, "join"); MC_CHECK(g == rows, "element %d is joined with %s instead of %s", i, showobjs(g).c_str(), showobjs(rows).c_str()); } else { Obj w = base; if (rows.size()) for (auto &p : rows[0]) w[p.first] = p.second; Obj g = obj_of(e, "join"); MC_CHECK(g == w, "element %d becomes %s instead of %s", i, showobj(g).c_str(), showobj(w).c_str()); } }
  db.no_stmt("a join"); db.finish();
}
static void next_int() {
  static const int64_t MX[] = {0, 1, -5, INT_MAX - 1, INT_MAX, (int64_t)INT_MAX + 1, INT64_MAX, INT_MIN}; int m = choose(10, "maximum"), len = choose(mc::tier(160, 400), "length"); St st; Db db("create table t(a, sub)"); Cs c(st, db.d); if (m < 8) db.exec(mc::fmt("insert into t values(1,%lld),(1,-6000000000),(2,9000)", (long long)MX[m])); else if (m == 8) db.exec("insert into t values(2,9000)"); else db.exec("insert into t values(1,'text'),(2,9000)"); Str from = "from t where " + Str(len, ' ') + "a=1"; step("length %zu", from.size()); cee_json *s = nullptr; int v = cee_sqlite3_next_int(c, cs("sub"), cs(from.c_str()), &s);
  if (m < 8 && MX[m] >= INT_MIN && MX[m] < INT_MAX) MC_CHECK(v == (int)(MX[m] + 1), "next_int after %lld is %d", (long long)MX[m], v); else if (m == 8) MC_CHECK(v == 1, "next_int of no rows is %d", v); else MC_CHECK(v == -1 && s, "next_int without an answer is %d", v); db.finish();
}
static void rowids() { static const int64_t V[] = {1, INT_MAX, (int64_t)INT_MAX + 1, (1LL << 40) + 3, INT64_MAX, -5, INT64_MIN}; int64_t v = V[choose(7, "rowid")]; int form = choose(6, "form"); St st; Db db("create table t(id integer primary key, x, y)"); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT64); b.add("x", CEE_SQLITE3_TEXT); b.add("y", CEE_SQLITE3_TEXT); b.val(0, I(v)); auto s = strs(); cee_json *j = nullptr; int rc, id = -77; const char *key = "last_insert_rowid"; cee_sqlite3_db_op op = {&s, b.in(), b.da()}; step("rowid %lld", (long long)v);
  switch (form) { case 0: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, &j, nullptr, nullptr); break; case 1: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, &j, cs("key"), &id); key = "key"; if (v == (int)v) MC_CHECK(id == v, "insert gives the id %d", id); break; case 2: rc = cee_sqlite3_insert(c, b.in(), b.da(), s.insert_stmt, nullptr, nullptr, &id); if (v == (int)v) MC_CHECK(id == v, "insert without a status gives the id %d", id); break; case 3: rc = cee_sqlite3_update_or_insert(c, b.in(), b.da(), &s, &j); break; case 4: rc = cee_sqlite3_select1_or_insert(c, b.in(), b.da(), &s, &j); break; default: rc = cee_sqlite3_insert_op(c, &op, jobj(st, {{"id", I(v)}}), &j); key = "id"; }
  MC_CHECK(rc == SQLITE_DONE, "insert gives %d", rc); if (j) MC_CHECK(cell_of(cee_json_object_get(j, cs(key))) == I(v), "the row id is reported as %s", showj(j).c_str()); MC_CHECK(dump(db.d, "select id from t") == Table({{I(v)}}), "table"); db.finish(); }
static void bulk() {                                        // many rows through every reader, many elements through the array calls, many parameters
  static const int N[] = {1, 50, 127, 128, 255, 256, 257, 700, 2000}; int n = N[choose(mc::tier(8, 9), "rows")], form = choose(7, "form"); St st; Db db("create table t(id integer primary key, x, y); create table s(fk, v)"); Cs c(st, db.d); step("%d rows, form %d", n, form);
  auto X = [](int i) -> Str { return i % 7 == 0 ? NUL : i % 3 ? T(mc::fmt("x'%d", i) + Str(i % 90, '+')) : I((1LL << 34) - i); }; auto Y = [](int i) -> Str { return i % 4 == 1 ? T("") : I(-i); };
  auto fill = [&] { db.exec("begin"); sqlite3_stmt *q; sqlite3_prepare_v2(db.d, "insert into t values(?,?,?)", -1, &q, 0); for (int i = 1; i <= n; i++) { sqlite3_bind_int(q, 1, i); int k = 2; for (const Str &v : {X(i), Y(i)}) { if (v == NUL) sqlite3_bind_null(q, k); else if (v[0] == 'i') sqlite3_bind_int64(q, k, atoll(v.c_str() + 2)); else sqlite3_bind_text(q, k, v.data() + 2, v.size() - 2, SQLITE_TRANSIENT); k++; } sqlite3_step(q); sqlite3_reset(q); } sqlite3_finalize(q); db.exec("commit"); };
  auto want = [&](int i) { return Obj{{"id", I(i)}, {"x", X(i)}, {"y", Y(i)}}; }; auto rows = [&](cee_json *a, const char *op) { auto v = objs_of(a, op); MC_CHECK((int)v.size() == n, "%s gives %zu rows of %d", op, v.size(), n); for (int i = 0; i < n; i++) if (v[i] != want(i + 1)) fail("%s: row %d is %s instead of %s", op, i, showobj(v[i]).c_str(), showobj(want(i + 1)).c_str()); }; char *all = cs("select * from t order by id"); cee_json *j = nullptr;
  switch (form) {
  case 0: fill(); MC_CHECK(cee_sqlite3_select(c, nullptr, nullptr, all, &j) == SQLITE_DONE, "select"); rows(j, "select"); break;
  case 1: fill(); cee_sqlite3_select_as(c, nullptr, nullptr, all, &j, cs("k")); MC_CHECK(j && j->t == CEE_JSON_OBJECT, "select_as"); rows(cee_json_object_get(j, cs("k")), "select_as"); break;
  case 2: { fill(); struct It { int n = 0, bad = 0; } it; MC_CHECK(cee_sqlite3_select_iter(c, nullptr, nullptr, all, &it, [](void *v, cee_state *, cee_sqlite3_bind_info *, sqlite3_stmt *s) -> int { It *i = (It *)v; i->n++; i->bad += sqlite3_column_int(s, 0) != i->n; return 0; }, nullptr) == SQLITE_DONE && it.n == n && !it.bad, "select_iter meets %d rows of %d", it.n, n); break; }
  case 3: { fill(); for (int i : {1, n / 2 + 1, n}) { Binds b; b.add("id", CEE_SQLITE3_INT); b.val(0, I(i)); j = nullptr; MC_CHECK(cee_sqlite3_select1(c, b.in(), b.da(), cs("select * from t where id>=@id order by id"), &j) == SQLITE_DONE, "select1"); Obj o = obj_of(j, "select1"); if (o != want(i)) fail("select1 of %d rows gives %s", n - i + 1, showobj(o).c_str()); } break; }
  case 4: { cee_json *a = cee_json_array_mk(st, 1); db.exec("begin"); for (int i = 1; i <= n; i++) cee_json_array_append(a, jobj(st, want(i))); MC_CHECK(cee_sqlite3_insert_json_array(c, cs("t"), a) == 0, "insert_json_array of %d elements", n); db.exec("commit"); Table t = dump(db.d, all); MC_CHECK((int)t.size() == n, "%zu rows of %d are stored", t.size(), n); for (int i = 0; i < n; i++) if (t[i] != Row{I(i + 1), X(i + 1), Y(i + 1)}) fail("row %d of %d is stored as %s", i, n, showrow(t[i]).c_str()); break; }
  case 5: { db.exec("begin"); for (int i = 0; i < n; i++) db.exec(mc::fmt("insert into s values('k%d',%d)", i, i * 3)); db.exec("commit; create index si on s(fk)"); cee_json *a = cee_json_array_mk(st, 1); for (int i = 0; i < n; i++) cee_json_array_append(a, jobj(st, {{"fk", T(mc::fmt("k%d", i))}})); Binds b; b.add("fk", CEE_SQLITE3_TEXT); b.data[0].has_value = 1; cee_sqlite3_json_array_join_table(c, a, b.in(), b.da(), cs("select v from s where fk=@fk"), nullptr); for (int i = 0; i < n; i++) { Obj o = obj_of(cee_json_array_get(a, i), "join"), w = {{"fk", T(mc::fmt("k%d", i))}, {"v", I(i * 3)}}; if (o != w) fail("element %d of %d is joined to %s", i, n, showobj(o).c_str()); } break; }
  default: { if (n > 700) n = 700; Binds b; Str vals, cols; vector<Str> ins; for (int i = 0; i < n; i++) { Str nm = mc::fmt("c%d", i); static const cee_sqlite3_type TY[] = {CEE_SQLITE3_INT, CEE_SQLITE3_TEXT, CEE_SQLITE3_INT64, CEE_SQLITE3_BLOB}; int k = b.add(nm.c_str(), TY[i % 4], i % 11 == 0); Str v = i % 4 == 0 ? I(i) : i % 4 == 1 ? T(mc::fmt("t%d", i)) : i % 4 == 2 ? I((1LL << 40) + i) : B(mc::fmt("b%d", i)); ins.push_back(v); b.val(k, v); vals += (i ? ",@" : "@") + nm; cols += (i ? "," : "") + nm; }
      db.exec("create table w(" + cols + ")"); MC_CHECK(cee_sqlite3_bind_run_sql(c, b.in(), b.da(), cs(("insert into w values(" + vals + ")").c_str()), nullptr, &j) == SQLITE_DONE, "binding %d parameters: %s", n, showj(j).c_str()); Table t = dump(db.d, "select * from w"); MC_CHECK(t.size() == 1, "rows"); for (int i = 0; i < n; i++) if (t[0][i] != ins[i]) fail("parameter %d of %d is stored as %s instead of %s", i, n, mc::quote(t[0][i]).c_str(), mc::quote(ins[i]).c_str()); }
  } db.finish(); mc::state(n * 8 + form);
}
// any one of many parameters left without an entry is an error, wherever it stands
static void unbound() {
  static const int N[] = {1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}; int n = N[choose(20, "parameters")], style = choose(3, "spelling"), stmt = choose(3, "statement"); vector<int> miss; for (int i = 0; i < n; i++) if (n < 70 || i < 3 || i % 64 < 2 || i > n - 4) miss.push_back(i);
  St st; Db db("create table w(id integer primary key, v); insert into w values(1,'keep')"); Cs c(st, db.d); Str list; for (int i = 0; i < n; i++) list += mc::fmt("%s%cp%d", i ? "," : "", "@:$"[style], i); Str sql = stmt == 0 ? "insert into w(v) select 5 where 7 not in (" + list + ")" : stmt == 1 ? "update w set v=8 where 'x' not in (" + list + ")" : "select v from w where 'x' not in (" + list + ")"; step("%s", sql.c_str());
  for (int k = -1; k < (int)miss.size(); k++) { int m = k < 0 ? -1 : miss[k]; Binds b; for (int i = 0; i < n; i++) if (i != m) b.val(b.add(mc::fmt("p%d", i).c_str(), CEE_SQLITE3_INT, false, mc::fmt("%cp%d", "@:$"[style], i).c_str()), I(i + 100)); cee_json *ret = nullptr; int rc = cee_sqlite3_bind_run_sql(c, b.in(), b.da(), cs(sql.c_str()), nullptr, k & 1 ? nullptr : &ret);
    if (m < 0) { MC_CHECK(rc == (stmt == 2 ? SQLITE_ROW : SQLITE_DONE), "%d parameters: %d %s", n, rc, showj(ret).c_str()); db.exec("delete from w; insert into w values(1,'keep')"); continue; }
    if (!rc_error(rc)) fail("parameter %d of %d has no entry and the call gives %d", m, n, rc); if (!(k & 1)) MC_CHECK(cee_json_select(ret, cs(".error")), "no error for parameter %d of %d", m, n); Table t = dump(db.d, "select * from w"); MC_CHECK(t == Table({{I(1), T("keep")}}), "without parameter %d of %d the table becomes %s", m, n, showtab(t).c_str()); db.no_stmt("a refused statement"); }
  db.finish();
}
// white space and letter case in front of a statement do not change what it does
static void spaces() {
  static const char *SP[] = {"", " ", "\t", "\n", "\r", "\v", "\f", "\r\n", " \t\r\n "}; static const char *KW[] = {"insert", "INSERT", "Insert", "iNSERT"}; int s0 = choose(9, "before"), s1 = choose(9, "and"), kw = choose(4, "case"); Str pre = Str(SP[s0]) + SP[s1]; if (pre.find('\v') != Str::npos) mc::skip();   // the engine does not take it for white space
  for (auto ty : TYPES) for (int dyn = 0; dyn < 2; dyn++) { St st; Db db(SCHEMA); Cs c(st, db.d); Binds b; b.add("x", ty, true); Str sql = pre + KW[kw] + " into t(id,x,y) values(7,@x,5)"; step("%s", mc::quote(sql).c_str()); cee_json *j = nullptr; int rc = dyn ? cee_sqlite3_insert(c, b.in(), b.da(), cs(sql.c_str()), &j, nullptr, nullptr) : cee_sqlite3_bind_run_sql(c, b.in(), b.da(), cs(sql.c_str()), nullptr, &j); MC_CHECK(rc == SQLITE_DONE, "%s: %d %s", mc::quote(sql).c_str(), rc, showj(j).c_str()); Table want = BASE; want.push_back({I(7), zero(ty), I(5)}); same_table(db, want, sql.c_str()); db.finish(); }
}
// texts and blobs with a given size, of any size, inside larger ones
static void counted_long() {
  static const int L[] = {1, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 131073, 1 << 20}; int n = L[choose(16, "size")], ty = choose(2, "type"), more = choose(3, "behind"), dflt = choose(2, "default"); Str s; for (int i = 0; i < n; i++) s += (char)('a' + i % 23); St st; Db db(S2); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.add("x", ty ? CEE_SQLITE3_BLOB : CEE_SQLITE3_TEXT); b.add("y", CEE_SQLITE3_TEXT); b.val(0, I(8)).val(2, T("y"));
  cee_sqlite3_bind_data &d = dflt ? b.info[1].data : b.data[1]; d.has_value = 1; d.value = b.hold(s + (more == 0 ? Str() : more == 1 ? Str("\0", 1) : Str("more"))); d.size = n; auto q = strs(); step("%d bytes", n); MC_CHECK(cee_sqlite3_insert(c, b.in(), b.da(), q.insert_stmt, nullptr, nullptr, nullptr) == SQLITE_DONE, "insert"); Table got = dump(db.d, "select * from t where id=8"); MC_CHECK(got == Table({{I(8), ty ? B(s) : T(s), T("y")}}), "a value of %d bytes is stored as %zu", n, got.size() ? got[0][1].size() - 2 : 0);
  cee_json *j = nullptr; b.val(0, I(8)); cee_sqlite3_select1(c, b.in(), b.da(), cs(SEL), &j); MC_CHECK(obj_of(j, "select1")["x"] == (ty ? B(s) : T(s)), "a value of %d bytes is read back wrong", n); db.finish();
}
// entries that only describe a column of the result stand behind the parameters
static void tail_labels() {
  int n = choose(3, "parameters"), m = 1 + choose(3, "columns"), hid = choose(8, "hidden"), lab = choose(5, "unlabelled"), one = choose(2, "select1"); St st; Db db(""); Cs c(st, db.d); Binds b; for (int i = 0; i < n; i++) b.val(b.add(mc::fmt("p%d", i).c_str(), CEE_SQLITE3_INT), I(i)); static const char *N[] = {"a", "b", "c"}; for (int k = 0; k < 3; k++) { int i = b.add(N[k], CEE_SQLITE3_UNDEF); b.info[i].var_name = nullptr; b.info[i].no_return = hid >> k & 1; b.info[i].no_label = lab == k; } b.info.back() = cee_sqlite3_bind_info{};
  Str sql = "select "; for (int k = 0; k < m; k++) sql += mc::fmt("%s%d as %s", k ? "," : "", k + 10, N[k]); if (n) sql += " where @p0=0"; if (n > 1) sql += " and @p1=1"; step("%s hiding %d", sql.c_str(), hid); bool bare = m == 1 && lab == 0 && !(hid & 1); cee_json *j = nullptr; if (one && bare) mc::skip(); int rc = one ? cee_sqlite3_select1(c, b.in(), b.da(), cs(sql.c_str()), &j) : cee_sqlite3_select(c, b.in(), b.da(), cs(sql.c_str()), &j); MC_CHECK(rc == SQLITE_DONE, "%s gives %d", sql.c_str(), rc);
  Obj w; for (int k = 0; k < m; k++) if (!(hid >> k & 1)) w[N[k]] = I(k + 10); if (m == 1 && lab == 0 && (hid & 1)) mc::skip(); if (bare) { MC_CHECK(cell_of(cee_json_array_get(j, 0)) == I(10), "%s without labels gives %s", sql.c_str(), showj(j).c_str()); } else { Obj g = obj_of(one ? j : cee_json_array_get(j, 0), "select"); if (g != w) fail("%s hiding %d gives %s instead of %s", sql.c_str(), hid, showobj(g).c_str(), showobj(w).c_str()); } db.finish();
}
// defaults in the table, members given, absent or null, NOT NULL or not: which value a column gets
static void defaults() {
  int op = choose(4, "op"), form = choose(2, "composed"), row = choose(2, "row exists"), d[2], nn[2], m[2]; for (int k = 0; k < 2; k++) d[k] = choose(3, "default"), nn[k] = choose(2, "not null"), m[k] = choose(3, "member"); bool ins_dyn = form && op != 2 && op != 3; for (int k = 0; k < 2; k++) if (nn[k] && d[k] == 2) mc::skip();
  static const Str GIVEN[] = {T("new'"), I(-8)}, DEF[] = {T("def"), I(77)}, OLD[] = {T("old"), I(55)}, SCH[] = {T("sch"), I(-99)}; static const char *N[] = {"x", "y"}; St st; Db db("create table t(id integer primary key, x text default 'sch', y integer default -99); insert into t values(1,'keep',5),(5,'old',55);"); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.info[0].no_update = true; b.add("x", CEE_SQLITE3_TEXT, nn[0]); b.add("y", CEE_SQLITE3_INT64, nn[1]); for (int k = 0; k < 2; k++) if (d[k]) b.dflt(k + 1, d[k] == 1 ? DEF[k] : NUL);
  cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); if (ins_dyn) s.insert_dynamic = true; else s.insert_stmt = cs("insert into t(id,x,y) values(@id,@x,@y)"); if (form) s.update_template = cs("update t set %s where id=@id"); else s.update_stmt = cs("update t set x=@x,y=@y where id=@id"); int id = row ? 5 : 8; Obj o = {{"id", I(id)}}; for (int k = 0; k < 2; k++) if (m[k]) o[N[k]] = m[k] == 1 ? GIVEN[k] : NUL; step("op %d composed %d of %s", op, form, showobj(o).c_str());
  cee_json *status = nullptr; cee_sqlite3_db_op dop = {&s, b.in(), b.da()}; cee_json *in = jobj(st, o); if (op == 0 && row) mc::skip(); int rc = op == 0 ? cee_sqlite3_insert_op(c, &dop, in, &status) : op == 1 ? cee_sqlite3_update_or_insert_op(c, &dop, in, &status) : op == 2 ? cee_sqlite3_update_op(c, &dop, in, &status) : cee_sqlite3_update_if_exists_op(c, &dop, in, &status); bool ins = op == 0 || (op == 1 && !row), upd = op && row;
  if (op == 2 && !row) MC_CHECK(rc_error(rc), "update of no row gives %d", rc); else MC_CHECK(rc == SQLITE_DONE, "op %d gives %d %s", op, rc, showj(status).c_str()); Table want = {{I(1), T("keep"), I(5)}, {I(5), OLD[0], OLD[1]}}; Row r = {I(8)}; for (int k = 0; k < 2; k++) { bool has = m[k] == 1 || (m[k] == 2 && !nn[k]) || d[k]; Str v = m[k] == 1 ? GIVEN[k] : m[k] == 2 && !nn[k] ? NUL : d[k] == 1 ? DEF[k] : d[k] == 2 ? NUL : Str("?"); if (ins) r.push_back(has ? v : nn[k] ? (k ? I(0) : T("")) : ins_dyn ? SCH[k] : NUL); if (upd) { if (form) { if (m[k] && has) want[1][k + 1] = v; } else want[1][k + 1] = has ? v : NUL; } } if (ins) want.push_back(r);
  Table got = dump(db.d, "select id,x,y from t order by id"); if (got != want) fail("op %d (composed %d) of %s with defaults %d %d, not null %d %d leaves %s instead of %s", op, form, showobj(o).c_str(), d[0], d[1], nn[0], nn[1], showtab(got).c_str(), showtab(want).c_str()); db.no_stmt("an op"); db.finish(); mc::state(mc::hash_str(showtab(got)));
}
// the same calls without a status: values that do not fit their column change nothing, others are stored
static void no_status() {
  int op = choose(4, "op"), form = choose(2, "composed"), k = choose(4, "unfit member"), status = choose(2, "status"), n = choose(3, "before it"); static const Str BAD[] = {"-", I(3), T("no"), "f:0.5"}; St st; Db db(S2); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.info[0].no_update = true; Obj o = {{"id", I(op == 0 ? 8 : 5)}, {"x", T("nx")}, {"y", I(4)}}; b.add("x", CEE_SQLITE3_TEXT); b.add("y", k == 1 || !k ? CEE_SQLITE3_INT64 : CEE_SQLITE3_INT); if (k == 1) o["x"] = BAD[1]; if (k > 1) o["y"] = BAD[k];
  cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); if (form) { s.insert_dynamic = true; s.update_template = cs("update t set %s where id=@id"); } else { s.insert_stmt = cs("insert into t(id,x,y) values(@id,@x,@y)"); s.update_stmt = cs("update t set x=@x,y=@y where id=@id"); } cee_sqlite3_db_op dop = {&s, b.in(), b.da()}; cee_json *j = nullptr, *in = cee_json_object_mk(st), **sp = status ? &j : nullptr; vector<Str> order = {"id", "x", "y"}; rotate(order.begin(), order.begin() + n, order.end()); for (auto &m : order) cee_json_object_set(in, cs(m.c_str()), jcell(st, o[m])); step("op %d of %s", op, showobj(o).c_str());
  int rc = op == 0 ? cee_sqlite3_insert_op(c, &dop, in, sp) : op == 1 ? cee_sqlite3_update_or_insert_op(c, &dop, in, sp) : op == 2 ? cee_sqlite3_update_op(c, &dop, in, sp) : cee_sqlite3_update_if_exists_op(c, &dop, in, sp); MC_CHECK(k ? rc_error(rc) : rc == SQLITE_DONE, "op %d of %s gives %d", op, showobj(o).c_str(), rc); if (status) MC_CHECK(!!cee_json_object_get(j, cs("error")) == !!k, "op %d of %s reports %s", op, showobj(o).c_str(), showj(j).c_str());
  Table want = {{I(1), T("keep"), I(-1)}, {I(5), T("row"), T("five")}}; if (!k) { if (op == 0) want.push_back({I(8), T("nx"), I(4)}); else want[1] = {I(5), T("nx"), I(4)}; } Table got = dump(db.d, "select id,x,y from t order by id"); if (got != want) fail("op %d of %s %s a status leaves %s instead of %s", op, showobj(o).c_str(), status ? "with" : "without", showtab(got).c_str(), showtab(want).c_str()); db.no_stmt("an op"); db.finish();
}
// a member belongs to the column of exactly its name
static void near_keys() {
  static const char *K[] = {"X", "xx", "x ", " x", "", "@x", "x\xcc\x81", "i", "ID", "Id", "id2", "yX", "y", "\"x\""}; int k0 = choose(14, "member"), op = choose(4, "op"), known = choose(2, "x given"); St st; Db db(S2); Cs c(st, db.d); Binds b; b.add("id", CEE_SQLITE3_INT); b.add("x", CEE_SQLITE3_TEXT); b.info[0].no_update = true; Obj o = {{"id", I(op == 0 ? 8 : 5)}, {K[k0], T("near")}}; if (known) o["x"] = T("given"); step("%s", showobj(o).c_str());
  cee_sqlite3_stmt_strs s; memset(&s, 0, sizeof s); s.table_name = cs("t"); s.select_stmt = cs(SEL); s.insert_dynamic = true; s.update_template = cs("update t set %s where id=@id"); cee_sqlite3_db_op dop = {&s, b.in(), b.da()}; cee_json *status = nullptr, *in = jobj(st, o), *u = nullptr, *n = nullptr, *e = nullptr; int rc = SQLITE_DONE; if (op == 0) rc = cee_sqlite3_insert_op(c, &dop, in, &status); else if (op == 1) rc = cee_sqlite3_update_op(c, &dop, in, &status); else if (op == 2) rc = cee_sqlite3_update_or_insert_op(c, &dop, in, &status); else { cee_sqlite3_bind_data_from_json(b.in(), b.da(), in, &u, &n, &e); MC_CHECK(!!b.data[1].has_value == known && (!known || !strcmp(b.data[1].value, "given")), "%s is taken for x", K[k0]); }
  MC_CHECK(rc == SQLITE_DONE, "op %d gives %d %s", op, rc, showj(status).c_str()); if (op < 3) n = cee_json_select(status, cs(".debug.unused_keys")); MC_CHECK(n && cee_json_array_length(n) == 1 && cell_of(cee_json_array_get(n, 0)) == T(K[k0]), "the unknown member %s is not reported: %s", mc::quote(K[k0]).c_str(), showj(op < 3 ? status : n).c_str());
  Table want = {{I(1), T("keep"), I(-1)}, {I(5), op == 0 || op == 3 || !known ? T("row") : T("given"), T("five")}}; if (op == 0) want.push_back({I(8), known ? T("given") : NUL, NUL}); Table got = dump(db.d, "select id,x,y from t order by id"); if (got != want) fail("op %d of %s leaves %s", op, showobj(o).c_str(), showtab(got).c_str()); db.finish();
}
// which columns are returned goes by the whole name of the column
static void labels() {
  static const char *N[] = {"a", "ab", "abc", "b", "ba", "A", "a b", "a.b"}; enum { NN = 8 }; int n0 = choose(NN, "first"), n1 = choose(NN, "second"), hid = choose(NN, "hidden"), lab = choose(NN, "unlabelled"), order = choose(2, "order"), one = choose(2, "select1"); if (n0 == n1) mc::skip();
  St st; Db db(""); Cs c(st, db.d); Binds b; for (int k = 0; k < 2; k++) { int i = b.add(N[k == order ? hid : lab], CEE_SQLITE3_TEXT); if (k == order) b.info[i].no_return = true; else b.info[i].no_label = true; if (hid == lab) { b.info[i].no_return = b.info[i].no_label = true; break; } }
  Str sql = mc::fmt("select 'x' as \"%s\", 5 as \"%s\"", N[n0], N[n1]); step("%s, %s hidden", sql.c_str(), N[hid]); Obj w; if (n0 != hid) w[N[n0]] = T("x"); if (n1 != hid) w[N[n1]] = I(5); cee_json *j = nullptr; int rc = one ? cee_sqlite3_select1(c, b.in(), nullptr, cs(sql.c_str()), &j) : cee_sqlite3_select(c, b.in(), nullptr, cs(sql.c_str()), &j); MC_CHECK(rc == SQLITE_DONE, "select gives %d", rc);
  Obj g = obj_of(one ? j : cee_json_array_get(j, 0), "select"); if (g != w) fail("%s without %s gives %s instead of %s", sql.c_str(), N[hid], showobj(g).c_str(), showobj(w).c_str()); db.finish();
  if (n0 == 0 && !one && order) { St s2; Db d2(""); Cs c2(s2, d2.d); j = nullptr; sql = mc::fmt("select 'x' as \"%s\" union all select 7", N[n1]); rc = cee_sqlite3_select(c2, b.in(), nullptr, cs(sql.c_str()), &j); MC_CHECK(rc == SQLITE_DONE && cee_json_array_length(j) == 2, "select gives %d", rc); if (n1 != hid) { cee_json *e = cee_json_array_get(j, 0); bool bare = n1 == lab; MC_CHECK(bare ? cell_of(e) == T("x") : obj_of(e, "select") == (Obj{{N[n1], T("x")}}), "%s with %s unlabelled gives %s", sql.c_str(), N[lab], showj(j).c_str()); } d2.finish(); }
}
// one pragma's number, whatever its size and however long its name is written
static void pragmas() {
  static const char *const N[] = {"user_version", "application_id", "journal_size_limit", "wal_autocheckpoint", "cache_size", "main.user_version", "busy_timeout", "page_size", "nonesuch"}; enum { NN = 9 }; static const int64_t V[] = {0, 1, -1, 7, 4096, INT32_MAX, INT32_MIN, -65536};
  int i = choose(NN, "pragma"), given = i < 7, j = given ? choose(8, "value") : 0, pad = choose(5, "padding"); static const int P[] = {0, 1, 13, 100, 200}; St st; Db db("create table t(a)"); if (given) db.exec(mc::fmt("pragma %s=%lld", N[i], (long long)V[j]));
  sqlite3_stmt *q = nullptr; int64_t want = 0; sqlite3_prepare_v2(db.d, mc::fmt("pragma %s", N[i]).c_str(), -1, &q, 0); if (sqlite3_step(q) == SQLITE_ROW) want = sqlite3_column_int64(q, 0); sqlite3_finalize(q); if (i < 2 || i == 5) MC_CHECK(want == V[j], "harness: %s", N[i]); if (want != (int32_t)want) mc::skip();
  Str name = Str(P[pad], ' ') + N[i]; step("%s = %lld", name.c_str(), (long long)want); int got = cee_sqlite3_get_pragma_variable(db.d, cs(name.c_str())); MC_CHECK(got == want, "the pragma %s is said to be %d instead of %lld", mc::quote(name).c_str(), got, (long long)want); db.no_stmt("get_pragma_variable"); db.finish(); mc::state(mc::mix(i * 8 + j, pad));
}
void mc_register() { mc::add("pragmas", pragmas, 1); mc::add("labels", labels, 3); mc::add("unbound", unbound, 2); mc::add("spaces", spaces, 1); mc::add("counted-long", counted_long, 1); mc::add("tail-labels", tail_labels, 2); mc::add("defaults", defaults, 3); mc::add("near-keys", near_keys, 1); mc::add("no-status", no_status, 2);
 mc::add("bulk", bulk, 2);
  mc::add("binding", binding, 3); mc::add("columns", columns, 3); mc::add("texts", texts, 2); mc::add("phrases", phrases, 2); mc::add("numbers", numbers, 2); mc::add("blobs", blobs, 2); mc::add("lengths", lengths, 2); mc::add("counted", counted, 2); mc::add("counted-finding", counted_finding, 0); mc::add("select-op", select_op, 2);
  mc::add("shapes", shapes, 3); mc::add("json-input", json_input, 3); mc::add("from-json", from_json, 3); mc::add("many", many, 2); mc::add("arrays", arrays, 2); mc::add("joins", joins, 2); mc::add("next-int", next_int, 2); mc::add("rowids", rowids, 2);
}
