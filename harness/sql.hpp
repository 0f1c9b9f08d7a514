// What the SQLite checks share: a database opened, filled and read by the harness itself, through the
// engine's own API, and the values of both sides in one notation: n, i:<int>, f:<real>, t:<text>, b:<blob>.
#pragma once
#include "json.hpp"
extern "C" {
#include "cee-sqlite3.h"
int cee_sqlite3_select_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
int cee_sqlite3_insert_wrapper(struct cee_sqlite3 *, struct cee_sqlite3_bind_info *, struct cee_sqlite3_bind_data *, struct cee_sqlite3_stmt_strs *, struct cee_json **);
}
using Str = std::string; using Row = std::vector<Str>; using Table = std::vector<Row>;
inline Str I(int64_t v) { return mc::fmt("i:%" PRId64, v); }
inline Str T(const Str &s) { return "t:" + s; }
inline Str B(const Str &s) { return "b:" + s; }
static const Str NUL = "n";
inline Str showrow(const Row &r) { Str o = "("; for (auto &c : r) o += (o.size() > 1 ? ", " : "") + mc::quote(c); return o + ")"; }
inline Str showtab(const Table &t) { Str o; for (auto &r : t) { if (o.size() > 300) return o + "..."; o += showrow(r); } return o.empty() ? "(empty)" : o; }
struct Db {
  sqlite3 *d = nullptr; static Db *&open() { static Db *o; return o; }
  static sqlite3 *&left() { static sqlite3 *l; return l; }          // of an abandoned execution
  explicit Db(const char *schema, const char *path = ":memory:") {
    if (left()) { drop(left()); left() = nullptr; }
    MC_CHECK(sqlite3_open(path, &d) == SQLITE_OK, "harness: open %s", path); left() = d; exec(schema);
  }
  static void drop(sqlite3 *d) { while (sqlite3_stmt *s = sqlite3_next_stmt(d, nullptr)) sqlite3_finalize(s); sqlite3_close(d); }
  ~Db() { if (d) { drop(d); left() = nullptr; } }
  void exec(const char *sql) { char *e = nullptr; if (sqlite3_exec(d, sql, 0, 0, &e) != SQLITE_OK) fail("harness: %s: %s", sql, e); }
  void exec(const Str &s) { exec(s.c_str()); }
  // closing succeeds only when no statement was left behind
  void finish() { if (sqlite3_stmt *s = sqlite3_next_stmt(d, nullptr)) fail("the statement %s is left behind", mc::quote(sqlite3_sql(s)).c_str()); MC_CHECK(sqlite3_close(d) == SQLITE_OK, "the database cannot be closed"); d = nullptr; left() = nullptr; }
  void no_stmt(const char *op) { if (sqlite3_stmt *s = sqlite3_next_stmt(d, nullptr)) fail("%s leaves the statement %s", op, mc::quote(sqlite3_sql(s)).c_str()); }
};
inline Str cell_of(sqlite3_stmt *s, int i) { switch (sqlite3_column_type(s, i)) { case SQLITE_INTEGER: return I(sqlite3_column_int64(s, i)); case SQLITE_FLOAT: return mc::fmt("f:%.17g", sqlite3_column_double(s, i)); case SQLITE_TEXT: { const char *p = (const char *)sqlite3_column_text(s, i); return T(Str(p, sqlite3_column_bytes(s, i))); } case SQLITE_BLOB: { const char *p = (const char *)sqlite3_column_blob(s, i); int n = sqlite3_column_bytes(s, i); return B(Str(n ? p : "", n)); } default: return NUL; } }
inline Table dump(sqlite3 *d, const char *sql) { Table t; sqlite3_stmt *s; if (sqlite3_prepare_v2(d, sql, -1, &s, 0) != SQLITE_OK) fail("harness: %s: %s", sql, sqlite3_errmsg(d)); int rc; while ((rc = sqlite3_step(s)) == SQLITE_ROW) { Row r; for (int i = 0; i < sqlite3_column_count(s); i++) r.push_back(cell_of(s, i)); t.push_back(r); } MC_CHECK(rc == SQLITE_DONE, "harness: reading %s: %s", sql, sqlite3_errmsg(d)); sqlite3_finalize(s); return t; }
inline Str cell_of(cee_json *j) {
  if (!j) return "(nothing)"; switch (j->t) { case CEE_JSON_NULL: return NUL; case CEE_JSON_I64: { int64_t x = 0; cee_json_to_i64x(j, &x); return I(x); } case CEE_JSON_DOUBLE: { double x = 0; cee_json_to_doublex(j, &x); return mc::fmt("f:%.17g", x); } case CEE_JSON_STRING: return T(cee_json_to_str(j)->_);
  case CEE_JSON_STRN: { char *p; size_t n; cee_json_to_strn(j, &p, &n); return T(Str(p, n)); } case CEE_JSON_BLOB: { cee_block *b = cee_json_to_blob(j); return B(Str(b->_, cee_block_size(b))); } default: return "(" + showj(j) + ")"; }
}
using Obj = std::map<Str, Str>;
inline Obj obj_of(cee_json *j, const char *what) { if (!j || j->t != CEE_JSON_OBJECT) fail("%s gives %s, which is no object", what, showj(j).c_str()); Obj o; cee_json_object_iterate(j, &o, [](void *c, cee_str *k, cee_json *x) -> int { (*(Obj *)c)[k->_] = cell_of(x); return 0; }); return o; }
inline Str showobj(const Obj &o) { Str s = "{"; for (auto &p : o) s += (s.size() > 1 ? ", " : "") + p.first + "=" + mc::quote(p.second); return s + "}"; }
inline std::vector<Obj> objs_of(cee_json *j, const char *what) { if (!j || j->t != CEE_JSON_ARRAY) fail("%s gives %s, which is no array", what, showj(j).c_str()); std::vector<Obj> r; for (size_t i = 0; i < cee_json_array_length(j); i++) r.push_back(obj_of(cee_json_array_get(j, i), what)); return r; }
inline Str showobjs(const std::vector<Obj> &v) { Str s; for (auto &o : v) { if (s.size() > 300) return s + "..."; s += showobj(o); } return "[" + s + "]"; }
inline cee_json *jcell(cee_state *st, const Str &c) { if (c == NUL) return cee_json_null(); if (c[0] == 'i') return cee_json_i64_mk(st, strtoll(c.c_str() + 2, 0, 10)); if (c[0] == 'f') return cee_json_double_mk(st, atof(c.c_str() + 2)); if (c[0] == 'b') return cee_json_blob_mk(st, c.data() + 2, c.size() - 2); return cee_json_str_mkf(st, "%s", c.c_str() + 2); }
inline cee_json *jobj(cee_state *st, const Obj &o) { cee_json *j = cee_json_object_mk(st); for (auto &p : o) cee_json_object_set(j, (char *)p.first.c_str(), jcell(st, p.second)); return j; }
// the tables handed to the layer; text and blobs live in exactly sized blocks
struct Binds {
  std::vector<cee_sqlite3_bind_info> info{cee_sqlite3_bind_info{}}; std::vector<cee_sqlite3_bind_data> data{cee_sqlite3_bind_data{}}; std::vector<char *> keep;
  static std::vector<char *> &junk() { static std::vector<char *> v; return v; }
  Binds() { for (char *p : junk()) free(p); junk().clear(); }
  char *hold(const Str &s) { char *p = (char *)malloc(s.size() + !s.size()); memcpy(p, s.data(), s.size()); junk().push_back(p); return p; }
  void fill(cee_sqlite3_bind_data &d, const Str &c, bool counted) { d.has_value = 1; if (c == NUL) { d.is_null = 1; return; } if (c[0] == 'i') { d.i64 = strtoll(c.c_str() + 2, 0, 10); d.i = (int)d.i64; } else if (c[0] == 'b' || counted) { d.value = hold(c.substr(2)); d.size = c.size() - 2; } else d.value = hold(c.substr(2) + '\0'); }
  // `text`: the column name; the variable is @name
  int add(const char *name, cee_sqlite3_type t, bool not_null = false, const char *var = nullptr) { cee_sqlite3_bind_info f{}; f.col_name = hold(Str(name) + '\0'); f.var_name = hold((var ? Str(var) : "@" + Str(name)) + '\0'); f.type = t; f.not_null = not_null; info.insert(info.end() - 1, f); data.insert(data.end() - 1, cee_sqlite3_bind_data{}); return info.size() - 2; }
  Binds &val(int i, const Str &c, bool counted = false) { fill(data[i], c, counted); return *this; }
  Binds &dflt(int i, const Str &c, bool counted = false) { fill(info[i].data, c, counted); return *this; }
  cee_sqlite3_bind_info *in() { return info.data(); } cee_sqlite3_bind_data *da() { return data.data(); }
};
struct Cs { cee_sqlite3 c; Cs(cee_state *st, sqlite3 *d) { cee_sqlite3_init(&c, (char *)"db", (char *)"path", st, d); } operator cee_sqlite3 *() { return &c; } };
inline char *cs(const char *s) { return (char *)s; }
inline bool rc_error(int rc) { return rc != SQLITE_OK && rc != SQLITE_ROW && rc != SQLITE_DONE; }
// the library reports to stderr, too
extern "C" { int mc_fprintf(FILE *, const char *, ...) { return 0; } int mc_fputc(int, FILE *) { return 0; } size_t mc_fwrite(const void *, size_t, size_t n, FILE *) { return n; } }
