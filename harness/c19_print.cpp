#include "json.hpp"
#include <cfloat>
#include <cmath>
static std::string g_out;
extern "C" int mc_vdprintf(int, const char *f, va_list ap) { char b[4096]; int n = vsnprintf(b, sizeof b, f, ap); g_out += b; return n; }
extern "C" int mc_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = mc_vdprintf(fd, f, ap); va_end(ap); return n; }
static std::string printed(cee_state *st, cee_json *j, int f) {
  ssize_t n = cee_json_snprint(st, NULL, 0, j, (cee_json_fmt)f); MC_CHECK(n >= 0, "announced size %zd", n);
  char *p = (char *)malloc(n + 1); memset(p, 0x7e, n + 1); ssize_t m = cee_json_snprint(st, p, n + 1, j, (cee_json_fmt)f);
  MC_CHECK(m == n, "announced %zd bytes, printed %zd", n, m); MC_CHECK(p[n] == 0 && strlen(p) == (size_t)n, "%zd bytes announced, text of %zu", n, strnlen(p, n)); std::string t(p, n); free(p); return t;
}
static bool ordered(const Val &a, const Val &b) {          // members in the same order (the values are known to be equal)
  if (a.t == Val::ARR && b.t == Val::ARR) { for (size_t i = 0; i < a.a.size(); i++) if (!ordered(a.a[i], b.a[i])) return false; }
  if (a.t == Val::OBJ && b.t == Val::OBJ) { for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !ordered(a.o[i].second, b.o[i].second)) return false; }
  return true;
}
static void check(cee_state *st, const Val &v, cee_json *j, bool sizes, bool text_only = false) {
  for (int f : {0, 1}) {
    std::string t = printed(st, j, f); Ref r = reference(t, true);
    MC_CHECK(r.v == Ref::OK || (r.v == Ref::MAY && r.depth > MAX_JSON_DEPTH), "%s prints as %s, which is not JSON (format %d)", show(v).substr(0, 300).c_str(), mc::quote(t.substr(0, 300)).c_str(), f);
    MC_CHECK(equal(v, r.val, true), "%s prints as %s (format %d)", show(v).substr(0, 300).c_str(), mc::quote(t.substr(0, 300)).c_str(), f);
    MC_CHECK(ordered(v, r.val), "the members of %s are printed in another order: %s", show(v).substr(0, 300).c_str(), mc::quote(t.substr(0, 300)).c_str());
    if (!text_only) { Got g = parse(st, t, true); MC_CHECK(!g.rc && same(v, g.j, true), "%s printed as %s parses back as %s", show(v).substr(0, 300).c_str(), mc::quote(t.substr(0, 300)).c_str(), g.rc ? "an error" : showj(g.j).c_str()); }
    char *p = nullptr; size_t z = 77; ssize_t n = cee_json_asprint(st, &p, &z, j, (cee_json_fmt)f);
    MC_CHECK(p && mc::is_live(p) && mc::block_room(p) > t.size(), "asprint: block with room for %zu bytes, text of %zu", p ? mc::block_room(p) : 0, t.size());
    MC_CHECK(n == (ssize_t)t.size() && z == t.size() && p[n] == 0 && t == p, "asprint returns %zd bytes, size %zu, for a text of %zu", n, z, t.size());
    p = nullptr; n = cee_json_asprint(st, &p, NULL, j, (cee_json_fmt)f); MC_CHECK(p && t == p, "asprint without a size prints something else");
    if (sizes) for (size_t room = 0; room <= t.size() + 2; room++) { char *b = (char *)malloc(room + !room); memset(b, 0x7e, room + !room); ssize_t m = cee_json_snprint(st, b, room, j, (cee_json_fmt)f); if (room == 0) MC_CHECK(b[0] == 0x7e, "printing into 0 bytes writes"); if (room > t.size()) MC_CHECK(m == (ssize_t)t.size() && t == b, "printing into %zu bytes gives %zd", room, m); free(b); }
    mc::outcome(mc::hash_str(t));
  }
  if (!text_only) MC_CHECK(same(v, j), "printing changed the value %s to %s", show(v).substr(0, 300).c_str(), showj(j).c_str());
  mc::state(hashv(v));
}
static void one(const Val &v, bool sizes = false) { cee_state *st = cee_state_mk(4); cee_json *j = make(st, v); check(st, v, j, sizes); cee_del(st); MC_CHECK(mc::live_blocks() == 0, "blocks remain"); }
static Val gen(int budget, int depth) {
  static const Val L[] = {Val(), Val::B(true), Val::B(false), Val::I(0), Val::I(-12), Val::D(2.5), Val::U(UINT64_MAX), Val::S(""), Val::S("a\"b")}; enum { NL = 9 };
  int k = choose(depth > 0 ? NL + 2 : NL, "value"); if (k < NL) return L[k]; static const char *N[] = {"k", "", "a\\\n", "zz"};
  int n = choose(std::min(budget, 4) + 1, "children"); Val v = k == NL ? Val::A() : Val::O(); for (int i = 0; i < n; i++) { Val c = gen(i + 1 < n ? (budget - n) / 2 : budget - n, depth - 1); if (k == NL) v.a.push_back(c); else v.set(N[i], c); } return v;
}
static void trees() { Val v = gen(mc::tier(3, 4), 3); step("%s", show(v).c_str()); one(v, true); }
// deeper: nested containers with few leaves
static Val nest(int d) { int k = choose(d > 0 ? 6 : 2, "shape"); Val x = Val::I(7), v; switch (k) { case 0: return Val::S("x"); case 1: return Val::A(); case 2: return Val::A({nest(d - 1)}); case 3: return Val::A({x, nest(d - 1), x}); case 4: v = Val::O(); v.set("p", nest(d - 1)); return v; default: v = Val::O(); v.set("q", Val::A()); v.set("p", nest(d - 1)); v.set("r", Val::O()); return v; } }
static void nests() { Val v = nest(mc::tier(6, 8)); step("%s", show(v).c_str()); one(v); }
// strings: every pair of bytes (well-formed) as value, element, member name; and counted strings with every byte
static void strings() {
  int a = choose(128, "first byte"); step("strings starting with %02x", a);
  static const char *U[] = {"\xc2\x80", "\xc3\xa9", "\xe2\x82\xac", "\xef\xbf\xbf", "\xf0\x9f\x98\x80", "\xf4\x8f\xbf\xbf"};
  for (int b = 0; b < 128 + 6; b++) { std::string s; if (a) s += (char)a; s += b < 128 ? std::string(b ? 1 : 0, (char)b) : U[b - 128]; one(Val::S(s)); if (b % 8 == 0 || b >= 128) { Val o = Val::O(); o.set(s, Val::S(s)); o.set("z" + s, Val::A({Val::S(s)})); one(o, b == 0); }
    std::string n(1, (char)a); n += b < 128 ? std::string(1, (char)b) : U[b - 128]; cee_state *st = cee_state_mk(4); char *p = (char *)malloc(n.size()); memcpy(p, n.data(), n.size()); cee_json *j = cee_json_strn_mk(st, p, n.size()); check(st, Val::S(n), j, false, n.find('\0') != std::string::npos); cee_json *arr = cee_json_array_mk(st, 2); cee_json_array_append(arr, j); cee_json_array_append(arr, cee_json_strn_mk(st, p, 0)); check(st, Val::A({Val::S(n), Val::S("")}), arr, false, n.find('\0') != std::string::npos); cee_del(st); free(p); }
}
static void long_strings() { static const int BIG[] = {4095, 4096, 8191, 16384, 32767, 32768, 65535, 65536, 65537, 131072}; int T = mc::tier(400, 2000), n = choose(T + 10, "length"), k = choose(4, "filling"); if (n >= T) n = BIG[n - T]; static const char *F[] = {"x", "\n", "\x01", "\xc3\xa9"}; std::string s; for (int i = 0; i < n; i++) s += F[k]; step("%d of %s", n, mc::quote(F[k]).c_str()); Val o = Val::O(); o.set(s, Val::S(s)); if (k == 0 && n > T) o.set(s + "\"" + s, Val::S(s + "\n" + s + "\\")); one(o); }
// numbers
static void doubles() {
  int ex = choose(2048, "exponent"); static const uint64_t M[] = {0, 1, 2, 0x8000000000000ull, 0x7ffffffffffffull, 0xfffffffffffffull, 0x5555555555555ull, 0x999999999999aull, 0x1999999999999ull}; step("binary exponent %d", ex); Val all = Val::A();
  for (uint64_t m : M) for (int s = 0; s < 2; s++) { uint64_t b = (uint64_t)s << 63 | (uint64_t)ex << 52 | m; double d; memcpy(&d, &b, 8); if (d != d) continue; one(Val::D(d)); all.a.push_back(Val::D(d)); } one(all, ex % 64 == 0);
}
static void decimals() { int p = choose(40, "power") - 20, neg = choose(2, "sign"); step("k * 10^%d", p); for (int k = 1; k < 1000; k++) { double d = strtod(mc::fmt("%s%de%d", neg ? "-" : "", k, p).c_str(), nullptr); one(Val::D(d)); if (k % 100 == 0) for (int i = 1; i < 4; i++) { one(Val::D(d = std::nextafter(d, INFINITY))); } } }
static void integers() { int k = choose(64, "bit"); step("2^%d", k); for (int d = -3; d <= 3; d++) { uint64_t u = (1ull << k) + d; one(Val::U(u)); one(Val::I((int64_t)u)); one(Val::I((int64_t)-u)); one(Val::A({Val::U(u), Val::I((int64_t)u), Val::D((double)u)}), k % 16 == 0); } for (uint64_t t = 1; t && t <= UINT64_MAX / 10; t *= 10) { one(Val::U(t * 10 - 1)); one(Val::I((int64_t)t)); } }
// every depth the parser accepts
static void depths() {
  int shape = choose(4, "shape"), d = choose(513, "depth"), leaf = choose(3, "leaf"); std::string t, c; step("shape %d depth %d", shape, d); for (int i = 0; i < d; i++) { bool a = shape == 0 || (shape & 2 && i % 2); t += a ? (shape == 3 ? "[1," : "[") : (shape == 3 ? "{\"j\":0,\"k\":" : "{\"k\":"); c.insert(0, a ? "]" : "}"); } t += (leaf == 0 ? "7" : leaf == 1 ? "[]" : "{}") + c;
  cee_state *st = cee_state_mk(4); Got g = parse(st, t, true); Ref r = reference(t, true); if (!g.rc) { MC_CHECK(same(r.val, g.j), "depth %d parses wrong", d); check(st, r.val, g.j, false); } else MC_CHECK(r.v == Ref::MAY, "depth %d is rejected", d); cee_del(st);
}
static void sizes() {                                  // whole documents at every buffer size
  static const char *D[] = {"{\"a\":[1,-2.5e+100,\"x\\ny\"],\"b\":{\"c\":null,\"d\":[true,false]},\"\":{}}", "[[[[]]],{\"k\":{\"k\":{\"k\":[{}]}}},\"\\u0001\\\"\"]", "\"a\\u001fb\"", "0.1", "18446744073709551615", "[0.30000000000000004,5e-324,1.7976931348623157e308]", "1e999"};
  int d = choose(sizeof D / sizeof *D, "document"); step("%s", D[d]); cee_state *st = cee_state_mk(4); Got g = parse(st, D[d], true); MC_CHECK(!g.rc, "not parsed"); check(st, reference(D[d], true).val, g.j, true); cee_del(st);
}
static void shared() {                                  // a value occurring several times prints each time
  int k = choose(6, "value"), n = 1 + choose(4, "times"), how = choose(2, "container"); static const char *D[] = {"1", "\"s\"", "[1,[2]]", "{\"a\":{\"b\":1}}", "[]", "true"}; step("%s %d times", D[k], n); St st; cee_json *x = parse(st, D[k], true).j; Val xv = reference(D[k], true).val, v = how ? Val::O() : Val::A(); cee_json *j = how ? cee_json_object_mk(st) : cee_json_array_mk(st, 1);
  for (int i = 0; i < n; i++) { std::string key(1, 'a' + i); if (how) { v.set(key, xv); cee_json_object_set(j, (char *)key.c_str(), x); } else { v.a.push_back(xv); cee_json_array_append(j, x); } } check(st, v, j, true); cee_del(st.s);
}
static void dprints() {
  Val v = gen(2, 2); int w = choose(3, "prefix"); St st; cee_json *j = make(st, v); g_out.clear(); step("dprintf of %s", show(v).c_str()); w == 0 ? cee_json_dprintf(1, j, NULL) : w == 1 ? cee_json_dprintf(1, j, "n=%d ", 42) : cee_json_dprintf(1, NULL, "%s:", "x");
  std::string e = (w == 0 ? "" : w == 1 ? "n=42 " : "x:") + (w == 2 ? "null" : printed(st, j, 0)) + "\n"; MC_CHECK(g_out == e, "dprintf writes %s, expected %s", mc::quote(g_out).c_str(), mc::quote(e).c_str()); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// large documents: many elements or members, long names, deep ones with wide levels
static void large() {
  static const int N[] = {40, 300, 1000, 5000}; int shape = choose(6, "shape"), n = N[choose(mc::tier(3, 4), "size")]; Val v = shape & 1 ? Val::O() : Val::A(); step("shape %d of %d", shape, n);
  for (int i = 0; i < n; i++) { Val e; switch (shape / 2) { case 0: e = Val::I(i * 1000003ll - 7); break; case 1: e = Val::S(std::string(i % 61, 'q') + "\n\"" + mc::fmt("%d", i)); break; default: e = i % 3 == 0 ? Val::A({Val::D(i / 8.), Val::A()}) : i % 3 == 1 ? Val::O() : Val::B(i & 1); if (i % 3 == 1) { e.set("in", Val::I(i)); e.set("\t" + mc::fmt("%d", i), Val::A({Val(), Val()})); } }
    if (shape & 1) v.o.push_back({mc::fmt("%s%d", shape == 3 ? std::string(i % 130, 'k').c_str() : "m", i), e}); else v.a.push_back(e); }
  one(v); Val w = Val::O(); w.set("deep", Val::A({Val::A({v})})); if (n <= 300) one(w);
}
// containers of more elements than fit 15 or 16 bits
static void huge() {
  static const int N[] = {32767, 32769, 65535, 65536, 65537, 70001}; int n = N[choose(6, "size")], obj = choose(2, "object"), f = choose(2, "format"); cee_state *st = cee_state_mk(4); step("%d %s", n, obj ? "members" : "elements");
  cee_json *j = obj ? cee_json_object_mk(st) : cee_json_array_mk(st, 10); std::string want(1, obj ? '{' : '['); for (int i = 0; i < n; i++) { if (i) want += ','; if (obj) { std::string k = mc::fmt("m%d", i); cee_json_object_set_i64(j, (char *)k.c_str(), i); want += mc::quote(k) + ":" + mc::fmt("%d", i); } else { bool b = i % 3 == 0; cee_json_array_append(j, cee_json_bool(b)); want += b ? "true" : "false"; } } want += obj ? '}' : ']';
  std::string t = printed(st, j, f), got; for (char c : t) if (!strchr(" \t\n\r", c)) got += c; size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; MC_CHECK(got == want, "%d print as %zu bytes without the white space, expected %zu; they differ at %zu: %s", n, got.size(), want.size(), d, mc::quote(got.substr(d, 60)).c_str());
  Got g = parse(st, t, true); MC_CHECK(!g.rc && g.j, "the text of %d is refused", n); if (obj) { MC_CHECK(cee_map_size(cee_json_to_object(g.j)) == (size_t)n, "%zu members read back", cee_map_size(cee_json_to_object(g.j))); for (int i = 0; i < n; i++) { int64_t x = -1; cee_json *e = cee_json_object_get(g.j, (char *)mc::fmt("m%d", i).c_str()); MC_CHECK(e && !cee_json_to_i64x(e, &x) && x == i, "member %d of %d", i, n); } } else { MC_CHECK(cee_json_array_length(g.j) == (size_t)n, "%zu elements read back", cee_json_array_length(g.j)); for (int i = 0; i < n; i++) { bool b = !(i % 3 == 0); cee_json *e = cee_json_array_get(g.j, i); MC_CHECK(e && !cee_json_to_boolx(e, &b) && b == (i % 3 == 0), "element %d of %d", i, n); } }
  mc::state((n * 2 + obj) * 2 + f); cee_del(st); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// values without a JSON form: what they print as is open, but the size contract holds
static void special() {
  static const int B[] = {0, 1, 9, 10, 99, 100, 1000}; St st; auto leaf = [&](const char *l) -> cee_json * { int k = choose(13, l); if (k < 7) { std::string b(B[k], 'b'); return cee_json_blob_mk(st, b.data(), b.size()); } switch (k) { case 7: return cee_json_undefined(); case 8: return cee_json_double_mk(st, NAN); case 9: return cee_json_double_mk(st, INFINITY); case 10: return cee_json_double_mk(st, -INFINITY); case 11: return cee_json_i64_mk(st, 5); default: return cee_json_str_mkf(st, "s"); } };
  int shape = choose(5, "shape"); cee_json *a = leaf("first"), *b = shape ? leaf("second") : nullptr, *j = a; if (shape == 1 || shape == 3) { j = cee_json_array_mk(st, 1); cee_json_array_append(j, a); cee_json_array_append(j, b); } if (shape == 2 || shape == 4) { j = cee_json_object_mk(st); cee_json_object_set(j, (char *)"k", a); cee_json_object_set(j, (char *)"l", b); } if (shape >= 3) { cee_json *o = cee_json_array_mk(st, 1); cee_json_array_append(o, j); cee_json_array_append(o, cee_json_null()); j = o; } step("shape %d", shape);
  for (int f : {0, 1}) { std::string t = printed(st, j, f); char *p = nullptr; size_t z = 77; ssize_t n = cee_json_asprint(st, &p, &z, j, (cee_json_fmt)f); MC_CHECK(p && mc::block_room(p) > t.size() && n == (ssize_t)t.size() && z == t.size() && t == p, "asprint returns %zd bytes, size %zu, for %s", n, z, mc::quote(t).c_str()); for (size_t room = 0; room <= t.size() + 2; room++) { char *b = (char *)malloc(room + !room); memset(b, 0x7e, room + !room); ssize_t m = cee_json_snprint(st, b, room, j, (cee_json_fmt)f); if (room == 0) MC_CHECK(b[0] == 0x7e, "printing into 0 bytes writes"); if (room > t.size()) MC_CHECK(m == (ssize_t)t.size() && t == b, "printing into %zu bytes gives %zd", room, m); free(b); } mc::state(mc::hash_str(t)); }
}
// the order of the members follows the first addition of each present name
static void order() {
  int depth = mc::tier(5, 7); St st; cee_json *j = cee_json_object_mk(st); Val m = Val::O(); static const char *N[] = {"b", "a", "c", ""};
  for (int d = 0; d < depth; d++) { int op = choose(2, "op"), k = choose(4, "name"); if (op == 0) { step("set %s", N[k]); cee_json_object_set_i64(j, (char *)N[k], d); m.set(N[k], Val::I(d)); } else { step("remove %s", N[k]); cee_json_object_remove(j, (char *)N[k]); m.erase(N[k]); } }
  check(st, m, j, false); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() { mc::add("order", order, 3); mc::add("special", special, 2); mc::add("large", large, 2); mc::add("huge", huge, 1); mc::add("trees", trees, 3); mc::add("nests", nests, 3); mc::add("strings", strings, 1); mc::add("long-strings", long_strings, 2); mc::add("doubles", doubles, 1); mc::add("decimals", decimals, 2); mc::add("integers", integers, 1); mc::add("depths", depths, 2); mc::add("sizes", sizes, 1); mc::add("shared", shared, 2); mc::add("dprintf", dprints, 3); }
