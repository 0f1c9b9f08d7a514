// Reference JSON: value model, RFC 8259 parser, comparison with the library's values, text families.
#pragma once
#include "common.hpp"
#include "cee-json.h"
#include <cmath>
#include <cinttypes>
#include <cerrno>

struct Val {
  enum T { NUL, BOOL, I64, U64, DBL, STR, ARR, OBJ } t = NUL; bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s;
  std::vector<Val> a; std::vector<std::pair<std::string, Val>> o;           // members: distinct names, first-insertion order
  static Val B(bool x) { Val v; v.t = BOOL; v.b = x; return v; } static Val I(int64_t x) { Val v; v.t = I64; v.i = x; return v; } static Val U(uint64_t x) { Val v; v.t = U64; v.u = x; return v; }
  static Val D(double x) { Val v; v.t = DBL; v.d = x; return v; } static Val S(const std::string &x) { Val v; v.t = STR; v.s = x; return v; }
  static Val A(std::vector<Val> x = {}) { Val v; v.t = ARR; v.a = std::move(x); return v; } static Val O() { Val v; v.t = OBJ; return v; }
  Val *find(const std::string &k) { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
  const Val *find(const std::string &k) const { return const_cast<Val *>(this)->find(k); }
  void set(const std::string &k, Val v) { if (Val *p = find(k)) *p = std::move(v); else o.push_back({k, std::move(v)}); }
  bool erase(const std::string &k) { for (size_t n = 0; n < o.size(); n++) if (o[n].first == k) { o.erase(o.begin() + n); return true; } return false; }
};
inline std::string show(const Val &v) {
  switch (v.t) { case Val::NUL: return "null"; case Val::BOOL: return v.b ? "true" : "false"; case Val::I64: return mc::fmt("%" PRId64, v.i); case Val::U64: return mc::fmt("%" PRIu64 "u", v.u); case Val::DBL: return mc::fmt("%.17gd", v.d); case Val::STR: return mc::quote(v.s);
  case Val::ARR: { std::string r = "["; for (auto &x : v.a) r += (r.size() > 1 ? "," : "") + show(x); return r + "]"; }
  default: { std::string r = "{"; for (auto &x : v.o) r += (r.size() > 1 ? "," : "") + mc::quote(x.first) + ":" + show(x.second); return r + "}"; } }
}
inline uint64_t hashv(const Val &v) {
  uint64_t h = v.t * 77 + 5; switch (v.t) { case Val::NUL: break; case Val::BOOL: h = mc::mix(h, v.b); break; case Val::I64: h = mc::mix(h, v.i); break; case Val::U64: h = mc::mix(h, v.u); break; case Val::DBL: h = mc::hash_bytes(&v.d, 8, h); break; case Val::STR: h = mc::hash_str(v.s, h); break;
  case Val::ARR: for (auto &x : v.a) h = mc::mix(h, hashv(x)); break; default: for (auto &x : v.o) h = mc::mix(mc::hash_str(x.first, h), hashv(x.second)); } return h;
}
inline bool same_d(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
// does j hold exactly v?  Numbers: same type and value, or (numeric) the same mathematical value.
inline bool same(const Val &v, cee_json *j, bool numeric = false) {
  if (!j) return false;
  switch (j->t) {
  case CEE_JSON_NULL: return v.t == Val::NUL;
  case CEE_JSON_BOOLEAN: { bool b; return v.t == Val::BOOL && cee_json_to_boolx(j, &b) == 0 && b == v.b; }
  case CEE_JSON_I64: { int64_t x; if (cee_json_to_i64x(j, &x)) return false; if (v.t == Val::I64) return x == v.i; if (!numeric) return false; if (v.t == Val::U64) return x >= 0 && (uint64_t)x == v.u; return v.t == Val::DBL && v.d >= -9223372036854775808. && v.d < 9223372036854775808. && (int64_t)v.d == x && (double)(int64_t)v.d == v.d; }
  case CEE_JSON_U64: { uint64_t x; if (cee_json_to_u64x(j, &x)) return false; if (v.t == Val::U64) return x == v.u; if (!numeric) return false; if (v.t == Val::I64) return v.i >= 0 && (uint64_t)v.i == x; return v.t == Val::DBL && v.d >= 0 && v.d < 18446744073709551616. && (uint64_t)v.d == x && (double)(uint64_t)v.d == v.d; }
  case CEE_JSON_DOUBLE: { double x; if (cee_json_to_doublex(j, &x)) return false; return v.t == Val::DBL && (numeric ? x == v.d : same_d(x, v.d)); }
  case CEE_JSON_STRING: { if (v.t != Val::STR) return false; cee_str *s = cee_json_to_str(j); return s && v.s == s->_; }
  case CEE_JSON_STRN: { if (v.t != Val::STR) return false; char *p; size_t n; return cee_json_to_strn(j, &p, &n) && v.s == std::string(p, n); }
  case CEE_JSON_ARRAY: { cee_list *l = cee_json_to_array(j); if (v.t != Val::ARR || !l || cee_list_size(l) != v.a.size() || cee_json_array_length(j) != v.a.size()) return false; for (size_t i = 0; i < v.a.size(); i++) if (!same(v.a[i], cee_json_array_get(j, i), numeric)) return false; return true; }
  case CEE_JSON_OBJECT: {
    cee_map *m = cee_json_to_object(j); if (v.t != Val::OBJ || !m || cee_map_size(m) != v.o.size()) return false;
    for (auto &p : v.o) if (!same(p.second, cee_json_object_get(j, (char *)p.first.c_str()), numeric)) return false;
    struct W { const Val *v; std::set<std::string> seen; bool ok = true; } w{&v, {}};
    cee_json_object_iterate(j, &w, [](void *c, cee_str *k, cee_json *x) -> int { W *w = (W *)c; const Val *e = w->v->find(k->_); if (!e || !w->seen.insert(k->_).second || e->t != (x->t == CEE_JSON_NULL ? Val::NUL : e->t)) w->ok = false; return 0; });
    return w.ok && w.seen.size() == v.o.size(); }
  default: return false;
  }
}
// what the library holds, for messages
inline std::string showj(cee_json *j) {
  if (!j) return "(nothing)";
  switch (j->t) { case CEE_JSON_UNDEFINED: return "undefined"; case CEE_JSON_NULL: return "null"; case CEE_JSON_BOOLEAN: { bool b = 0; cee_json_to_boolx(j, &b); return b ? "true" : "false"; } case CEE_JSON_I64: { int64_t x = 0; cee_json_to_i64x(j, &x); return mc::fmt("%" PRId64, x); } case CEE_JSON_U64: { uint64_t x = 0; cee_json_to_u64x(j, &x); return mc::fmt("%" PRIu64 "u", x); } case CEE_JSON_DOUBLE: { double x = 0; cee_json_to_doublex(j, &x); return mc::fmt("%.17gd", x); }
  case CEE_JSON_STRING: return mc::quote(cee_json_to_str(j)->_); case CEE_JSON_STRN: { char *p; size_t n; cee_json_to_strn(j, &p, &n); return "n" + mc::quote(std::string(p, n)); } case CEE_JSON_BLOB: return "blob";
  case CEE_JSON_ARRAY: { std::string r = "["; for (size_t i = 0; i < cee_json_array_length(j) && r.size() < 400; i++) r += (r.size() > 1 ? "," : "") + showj(cee_json_array_get(j, i)); return r + "]"; }
  case CEE_JSON_OBJECT: { std::string r = "{"; cee_json_object_iterate(j, &r, [](void *c, cee_str *k, cee_json *x) -> int { std::string &r = *(std::string *)c; if (r.size() < 400) r += mc::quote(k->_) + ":" + showj(x) + " "; return 0; }); return r + "}"; }
  default: return "?"; }
}
// ---- reference parser -------------------------------------------------------------------------
// verdict: OK, BAD, or MAY (an extension the library may accept or reject: trailing comma, malformed
// UTF-8 inside a string, nesting deeper than the documented MAX_JSON_DEPTH).
struct Ref { enum { BAD, OK, MAY } v = BAD; Val val; int line = 0; size_t used = 0; bool nul = false, may = false; int depth = 0; };
struct RefParser {
  const std::string &s; size_t p = 0; int line = 0, depth = 0, maxdepth = 0; bool may = false, nul = false, bad = false;   // no exceptions: they are slow under ASan
  explicit RefParser(const std::string &x) : s(x) {}
  void ws() { while (p < s.size() && strchr(" \t\n\r", s[p]) && s[p]) { if (s[p] == '\n' || s[p] == '\r') line++; p++; } }
  int at(size_t i) const { return i < s.size() ? (unsigned char)s[i] : -1; }
  static bool dig(int c) { return c >= '0' && c <= '9'; }
  static int hex(int c) { return dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
  int u4(size_t i) { int v = 0; for (int k = 0; k < 4; k++) { int h = hex(at(i + k)); if (h < 0) { bad = true; return 0; } v = v * 16 + h; } return v; }
  static void utf8(std::string &o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); } }
  static bool valid_utf8(const std::string &x) {
    for (size_t i = 0; i < x.size();) { unsigned char c = x[i]; size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; if (!n || i + n > x.size()) return false;
      uint32_t v = n == 1 ? c : c & (0x7F >> n); for (size_t k = 1; k < n; k++) { unsigned char d = x[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
      if ((n == 3 && v < 0x800) || (n == 4 && v < 0x10000) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false; i += n; }
    return true; }
  std::string str() {
    size_t i = p + 1; std::string o;
    for (;;) { int c = at(i); if (c < 0x20) { bad = true; return o; } if (c == '"') { p = i + 1; break; }
      if (c != '\\') { o += (char)c; i++; continue; }
      c = at(i + 1); i += 2;
      switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
      case 'u': { int v = u4(i); i += 4; if (bad || (v >= 0xDC00 && v < 0xE000)) { bad = true; return o; } if (v >= 0xD800 && v < 0xDC00) { if (at(i) != '\\' || at(i + 1) != 'u') { bad = true; return o; } int w = u4(i + 2); if (bad || w < 0xDC00 || w >= 0xE000) { bad = true; return o; } i += 6; utf8(o, 0x10000 + ((v & 0x3FF) << 10 | (w & 0x3FF))); } else { if (!v) nul = true; utf8(o, v); } break; }
      default: bad = true; return o; } }
    if (!valid_utf8(o)) may = true;
    return o; }
  Val num() {
    size_t i = p; bool neg = at(i) == '-', integer = true; if (neg) i++;
    if (!dig(at(i))) return fail_();
    if (at(i) == '0') { i++; if (dig(at(i))) return fail_(); } else while (dig(at(i))) i++;
    if (at(i) == '.') { integer = false; i++; if (!dig(at(i))) return fail_(); while (dig(at(i))) i++; }
    if (at(i) == 'e' || at(i) == 'E') { integer = false; i++; if (at(i) == '+' || at(i) == '-') i++; if (!dig(at(i))) return fail_(); while (dig(at(i))) i++; }
    std::string t = s.substr(p, i - p); p = i; if (!integer) return Val::D(strtod(t.c_str(), nullptr));
    unsigned __int128 m = 0; bool big = false; for (size_t k = neg; k < t.size(); k++) { m = m * 10 + (t[k] - '0'); if (m >> 100) { big = true; break; } }
    if (!big && neg && m <= (unsigned __int128)1 << 63) return Val::I((int64_t)(-(__int128)m));
    if (!big && !neg && m >> 63 == 0) return Val::I((int64_t)m);
    if (!big && !neg && m >> 64 == 0) return Val::U((uint64_t)m);
    return Val::D(strtod(t.c_str(), nullptr)); }
  bool word(const char *w) { size_t n = strlen(w); if (s.compare(p, n, w)) return false; p += n; return true; }
  Val fail_() { bad = true; return Val(); }
  Val value() {
    ws(); int c = at(p);
    if (c == '[' || c == '{') { if (++depth > maxdepth) maxdepth = depth; if (depth > MAX_JSON_DEPTH) may = true;
      bool arr = c == '['; Val v = arr ? Val::A() : Val::O(); p++; char close = arr ? ']' : '}';
      for (bool first = true;; first = false) {
        ws(); if (at(p) == close) { if (!first) may = true; p++; break; }
        if (arr) { v.a.push_back(value()); if (bad) return v; }
        else { if (at(p) != '"') return fail_(); std::string k = str(); if (bad) return v; ws(); if (at(p) != ':') return fail_(); p++; v.set(k, value()); if (bad) return v; }
        ws(); if (at(p) == close) { p++; break; }
        if (at(p) != ',') return fail_(); p++; }
      depth--; return v; }
    if (c == '"') return Val::S(str());
    if (c == '-' || dig(c)) return num();
    if (word("true")) return Val::B(true);
    if (word("false")) return Val::B(false);
    if (word("null")) return Val();
    return fail_(); }
};
inline Ref reference(const std::string &s, bool force_eof) {
  RefParser r(s); Ref o; o.val = r.value(); o.used = r.p; if (!r.bad && force_eof) { r.ws(); if (r.p != s.size()) r.bad = true; } o.v = r.bad ? Ref::BAD : r.may ? Ref::MAY : Ref::OK;
  o.line = r.line; o.nul = r.nul; o.may = r.may; o.depth = r.maxdepth; return o;
}
// ---- the library's parser on an exactly sized block ---------------------------------------------
struct Exact { char *p; size_t n; explicit Exact(const std::string &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); else p = (char *)realloc(p, 1); } ~Exact() { free(p); } Exact(const Exact &) = delete; };
struct Got { int rc; cee_json *j; int line; };
inline Got parse(cee_state *st, char *p, size_t n, bool force_eof) { Got g{0, (cee_json *)8, -7}; g.rc = cee_json_parsex(st, p, n, &g.j, force_eof, &g.line); return g; }
inline Got parse(cee_state *st, const std::string &s, bool force_eof) { Exact e(s); return parse(st, e.p, e.n, force_eof); }
// ---- families of texts --------------------------------------------------------------------------
// every word of exactly choose(0..maxlen) letters; the first letters are choices, the rest an inner loop
template <class F> void words(const std::vector<std::string> &al, int maxlen, const std::string &pre, const std::string &post, F f, int chosen = 2) {
  int n = choose(maxlen + 1, "length"); std::string w = pre; int k = 0;
  for (; k < n && k < chosen; k++) w += al[choose(al.size(), "token")];
  std::vector<int> ix(n - k, 0); step("texts of %d tokens starting with %s", n, mc::quote(w).c_str());
  for (;;) { std::string t = w; for (int x : ix) t += al[x]; f(t + post); int i = ix.size() - 1; while (i >= 0 && ++ix[i] == (int)al.size()) ix[i--] = 0; if (i < 0) break; }
}
inline std::vector<std::string> chars(const char *p, size_t n) { std::vector<std::string> r; for (size_t i = 0; i < n; i++) r.push_back(std::string(1, p[i])); return r; }
#define CHARS(lit) chars(lit, sizeof(lit) - 1)
// F(text) is called for each text of the families; one choice tree per family
template <class F> void structure_family(F f) { words({"[", "]", "{", "}", ",", ":", "\"\"", "\"a\"", "1", "true", " ", "\n"}, mc::tier(5, 7), "", "", f, mc::tier(2, 3)); }
template <class F> void object_family(F f) { words({"\"a\"", "\"b\"", ":", ",", "1", "null", "{", "}", "[", "]"}, mc::tier(5, 7), "{", "}", f, 2); }
template <class F> void number_family(F f) { words(CHARS("-+.019eE"), mc::tier(6, 7), "", "", f, 2); }
template <class F> void string_family(F f) { words({"\\", "u", "0", "d", "8", "D", "C", "\"", "n", "/", "\x01", "\xc3", "\xa9", "\xed", "\x7f", " "}, mc::tier(4, 5), "\"", "\"", f, 2); }
template <class F> void escape_family(F f) { words({"\\u00e9", "\\uD83d", "\\ude00", "\\u0041", "\\ud800", "\\u12", "\\n", "a", "\xf0\x9f\x98\x80", "\\\"", "\\u20AC", "\xff", "\\x"}, mc::tier(4, 5), "\"", "\"", f, 2); }
template <class F> void literal_family(F f) { words(CHARS("truefalsn"), mc::tier(5, 6), "", "", f, 2); }
template <class F> void byte_family(F f) { int a = choose(257, "byte"); std::string w; if (a) w += (char)(a - 1); step("byte %d", a - 1); f(w); if (!a) return; for (int b = 0; b < 256; b++) { f(w + (char)b); f("[" + w + (char)b + "]"); f("\"" + w + (char)b + "\""); f("1" + w + (char)b); f(w + (char)b + "1"); f("{\"a\":" + w + (char)b + "}"); } }
// the viable prefixes of JSON over a token alphabet (prefixes some continuation of which is JSON), each with every next token
template <class F> void viable_family(F f) {
  static const char *T[] = {"[", "]", "{", "}", ",", ":", "\"a\"", "\"b\"", "2", "-0.5e1", "null", "false", "\n"}; enum { NT = 13 };
  int depth = choose(mc::tier(8, 10) + 1, "tokens"); std::string w; std::vector<char> stk; int st = 0;    // st: 0 value, 1 value or ], 2 key or }, 3 colon, 4 comma or close, 5 done, 6 key, 7 value (after comma in array)
  auto next = [](int st, std::vector<char> &stk, int t) -> int { auto done = [&] { return stk.empty() ? 5 : 4; };
    if (t == 12) return st;
    switch (st) { case 0: case 1: case 7: if (t == 0) { stk.push_back('['); return 1; } if (t == 2) { stk.push_back('{'); return 2; } if (t >= 6) return done(); if (t == 1 && st == 1) { stk.pop_back(); return done(); } return -1;
      case 2: case 6: if (t == 6 || t == 7) return 3; if (t == 3 && st == 2) { stk.pop_back(); return done(); } return -1; case 3: return t == 5 ? 0 : -1;
      case 4: if (t == 4) return stk.back() == '[' ? 7 : 6; if (t == (stk.back() == '[' ? 1 : 3)) { stk.pop_back(); return done(); } return -1; default: return -1; } };
  auto viable = [&](std::vector<int> &ok) { for (int t = 0; t < NT; t++) { auto s2 = stk; if (next(st, s2, t) >= 0 && !(t == 12 && !w.empty() && w.back() == '\n') && (int)s2.size() <= 3) ok.push_back(t); } };
  for (int d = 0; d < depth; d++) { std::vector<int> ok; viable(ok); if (ok.empty()) return; int t = ok[choose(ok.size(), "token")]; w += T[t]; st = next(st, stk, t); }
  step("prefix %s", mc::quote(w).c_str()); f(w);
  std::vector<int> ok; viable(ok); for (int t = 0; t < NT; t++) if (std::find(ok.begin(), ok.end(), t) == ok.end()) f(w + T[t]);
  if (st == 4) { std::string full = w; for (int i = stk.size(); i-- > 0;) full += stk[i] == '[' ? "]" : "}"; f(full); }
}
template <class F> void add_families(F f, const char *pfx = "") {
  auto nm = [&](const char *x) { return std::string(pfx) + x; };
  mc::add(nm("structure"), [f] { structure_family(f); }, 3); mc::add(nm("object"), [f] { object_family(f); }, 3); mc::add(nm("number"), [f] { number_family(f); }, 3); mc::add(nm("string"), [f] { string_family(f); }, 3); mc::add(nm("escape"), [f] { escape_family(f); }, 3);
  mc::add(nm("literal"), [f] { literal_family(f); }, 3); mc::add(nm("bytes"), [f] { byte_family(f); }, 1); mc::add(nm("viable"), [f] { viable_family(f); }, 3);
}
// ---- values made through the API -----------------------------------------------------------------
inline cee_json *make(cee_state *st, const Val &v) {
  switch (v.t) { case Val::NUL: return cee_json_null(); case Val::BOOL: return v.b ? cee_json_true() : cee_json_false(); case Val::I64: return cee_json_i64_mk(st, v.i); case Val::U64: return cee_json_u64_mk(st, v.u); case Val::DBL: return cee_json_double_mk(st, v.d); case Val::STR: return v.s.size() & 1 ? cee_json_str_mk(st, cee_str_mk(st, "%s", v.s.c_str())) : cee_json_str_mkf(st, "%s", v.s.c_str());
  case Val::ARR: { cee_json *j = cee_json_array_mk(st, (int)v.a.size() % 3); for (auto &x : v.a) cee_json_array_append(j, make(st, x)); return j; }
  default: { cee_json *j = cee_json_object_mk(st); for (auto &p : v.o) cee_json_object_set(j, (char *)p.first.c_str(), make(st, p.second)); return j; } }
}
inline bool num_eq(const Val &a, const Val &b) {
  if (a.t == b.t) return a.t == Val::I64 ? a.i == b.i : a.t == Val::U64 ? a.u == b.u : a.d == b.d;
  if (b.t == Val::DBL || (a.t != Val::DBL && b.t == Val::U64)) return num_eq(b, a);
  if (a.t == Val::U64) return b.i >= 0 && (uint64_t)b.i == a.u;
  if (b.t == Val::I64) return a.d >= -9223372036854775808. && a.d < 9223372036854775808. && a.d == std::trunc(a.d) && (int64_t)a.d == b.i;
  return a.d >= 0 && a.d < 18446744073709551616. && a.d == std::trunc(a.d) && (uint64_t)a.d == b.u;
}
inline bool equal(const Val &a, const Val &b, bool numeric) {                // objects: as sets of members
  bool na = a.t == Val::I64 || a.t == Val::U64 || a.t == Val::DBL, nb = b.t == Val::I64 || b.t == Val::U64 || b.t == Val::DBL;
  if (na && nb) return numeric ? num_eq(a, b) : a.t == b.t && num_eq(a, b);
  if (a.t != b.t) return false;
  switch (a.t) { case Val::BOOL: return a.b == b.b; case Val::STR: return a.s == b.s; case Val::ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!equal(a.a[i], b.a[i], numeric)) return false; return true;
  case Val::OBJ: if (a.o.size() != b.o.size()) return false; for (auto &p : a.o) { const Val *q = b.find(p.first); if (!q || !equal(p.second, *q, numeric)) return false; } return true; default: return true; }
}
