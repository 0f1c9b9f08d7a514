#include "json.hpp"
#include <climits>
#include <cfloat>
struct Stp { int k; std::string name; int idx; };               // 0 .name  1 [idx]  2 :type  3 .*  4 [*]  5 .pre*
static bool type_ok(char t, const Val &v) { switch (t) { case 's': return v.t == Val::STR; case 'n': return v.t == Val::I64 || v.t == Val::U64 || v.t == Val::DBL; case 'o': return v.t == Val::OBJ; case 'a': return v.t == Val::ARR; case 'b': return v.t == Val::BOOL; default: return v.t == Val::NUL; } }
static const Val *eval(const Val &v, const std::vector<Stp> &s) {
  const Val *p = &v; for (auto &x : s) { if (!p) return p; switch (x.k) { case 0: case 3: case 5: p = p->t == Val::OBJ ? p->find(x.name) : nullptr; break; case 1: case 4: p = p->t == Val::ARR && x.idx >= 0 && x.idx < (int)p->a.size() ? &p->a[x.idx] : nullptr; break; default: if (!type_ok(x.name[0], *p)) p = nullptr; } } return p; }
static cee_json *follow(cee_json *j, const std::vector<Stp> &s) { for (auto &x : s) { if (x.k == 2) continue; j = (x.k == 1 || x.k == 4) ? cee_json_array_get(j, x.idx) : cee_json_object_get(j, (char *)x.name.c_str()); } return j; }
static std::string text(const std::vector<Stp> &s) { std::string r; for (auto &x : s) switch (x.k) { case 0: r += "." + x.name; break; case 1: r += "[" + std::to_string(x.idx) + "]"; break; case 2: r += ":" + x.name; break; case 3: r += ".*"; break; case 4: r += "[*]"; break; default: r += "." + x.name.substr(0, 1) + "*"; } return r; }
// calls cee_json_select with the arguments its stars take (each an int or a pointer)
static cee_json *select(cee_json *j, const std::vector<Stp> &s, char *sel) {
  void *a[4] = {}; int n = 0; std::vector<std::string> keep; keep.reserve(8); for (auto &x : s) { if (x.k == 3) { keep.push_back(x.name); a[n++] = (void *)keep.back().c_str(); } if (x.k == 4) a[n++] = (void *)(intptr_t)x.idx; if (x.k == 5) { keep.push_back(x.name.substr(1)); a[n++] = (void *)keep.back().c_str(); } }
  return cee_json_select(j, sel, a[0], a[1], a[2], a[3]); }
static const std::vector<std::string> &docs() { static std::vector<std::string> d = {"{\"a\":1,\"b\":[10,\"x\",{\"a\":null}],\"ab\":{\"a\":{\"b\":2.5}}}", "[[1,[2,[3]]],{\"a\":[true,{\"b\":\"s\"}]},18446744073709551615]", "{\"a\":{\"a\":{\"a\":{\"a\":{\"a\":0}}}}}", "\"scalar\"", "[]", "{\"0\":[\"zero\"],\"1\":{\"0\":false},\"a b\":1,\"a.b\":2}", "null", "{\"ab\":[{\"ab\":[{\"a\":1},{\"b\":{}}]}],\"a\":[[],[[]]]}"}; return d; }
static std::vector<Stp> steps(bool stars) { std::vector<Stp> r; for (auto n : {"a", "b", "ab", "0", "1", "zz", "a b"}) r.push_back({0, n, 0}); for (int i : {0, 1, 2, 3, -1, 100}) r.push_back({1, "", i}); for (auto n : {"s", "n", "o", "a", "b", "!"}) r.push_back({2, n, 0}); if (stars) { for (auto n : {"a", "b", "ab", "a.b", "0", "qq"}) r.push_back({3, n, 0}); for (int i : {0, 1, 2, -1, INT32_MAX}) r.push_back({4, "", i}); for (auto n : {"ab", "a b", "a.b", "aq"}) r.push_back({5, n, 0}); } return r; }
static void run(const std::string &doc, const std::vector<Stp> &s) {
  std::string sel = text(s); St st; cee_json *j = parse(st, doc, true).j; Val v = reference(doc, true).val; char *e = strdup(sel.c_str()); const Val *want = eval(v, s); cee_json *got = select(j, s, e);
  if (want) MC_CHECK(got == follow(j, s) && same(*want, got), "%s in %s selects %s, expected %s", sel.c_str(), doc.c_str(), showj(got).c_str(), show(*want).c_str()); else MC_CHECK(!got, "%s in %s selects %s, expected nothing", sel.c_str(), doc.c_str(), showj(got).c_str());
  bool star = false; for (auto &x : s) star |= x.k > 2; if (!star) { int x = -4242, r = cee_json_select_as_int(j, &x, e); bool ok = want && want->t == Val::I64 && want->i == (int)want->i; MC_CHECK(ok ? r == 0 && x == (int)want->i : r != 0 && x == -4242, "select_as_int(%s) gives %d, %d", sel.c_str(), r, x); }
  free(e); MC_CHECK(same(v, j), "selecting changed the value"); mc::state(mc::hash_str(sel + doc)); mc::outcome(want ? hashv(*want) : 0); cee_del(st.s);
}
static void selectors(int depth, bool stars) { int d = choose(docs().size(), "document"), n = choose(depth + 1, "steps"); auto al = steps(stars); std::vector<Stp> s; for (int i = 0; i < n - 1; i++) s.push_back(al[choose(al.size(), "step")]); step("%s on document %d", text(s).c_str(), d); if (n == 0) { run(docs()[d], s); return; } for (auto &x : al) { auto t = s; t.push_back(x); run(docs()[d], t); } }
// all selectors (malformed included): they end, stay in bounds and yield nothing or some value of the document
static void any_selector() {
  static const char A[] = ".[]:*a0b1-n"; int n = choose(mc::tier(5, 6) + 1, "length"); std::string s; int i = 0; for (; i < n && i < 2; i++) s += A[choose(11, "char")]; std::string doc = docs()[choose(mc::tier(3, 8), "document")]; step("selectors starting with %s", s.c_str()); St st; cee_json *j = parse(st, doc, true).j; std::set<cee_json *> all;
  struct W { static void walk(cee_json *j, std::set<cee_json *> &s) { s.insert(j); if (j->t == CEE_JSON_ARRAY) for (size_t i = 0; i < cee_json_array_length(j); i++) walk(cee_json_array_get(j, i), s); if (j->t == CEE_JSON_OBJECT) cee_json_object_iterate(j, &s, [](void *c, cee_str *, cee_json *x) -> int { walk(x, *(std::set<cee_json *> *)c); return 0; }); } }; W::walk(j, all);
  std::vector<int> ix(n - i, 0); for (;;) { std::string t = s; for (int x : ix) t += A[x]; char *e = strdup(t.c_str()); cee_json *g = cee_json_select(j, e, "a", "a", "a", "a", "a", "a", "a"); MC_CHECK(!g || all.count(g), "%s selects something that is not in the document", t.c_str()); free(e); mc::state(mc::hash_str(t)); int k = (int)ix.size() - 1; while (k >= 0 && ++ix[k] == 11) ix[k--] = 0; if (k < 0) break; }
  cee_del(st.s);
}
static void indices() { static const char *I[] = {"0", "1", "2", "00", "01", "-0", "-1", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "18446744073709551616", "99999999999999999999999"}; int k = choose(sizeof I / sizeof *I, "index"); St st; cee_json *j = parse(st, "[\"zero\",\"one\"]", true).j; std::string t = std::string("[") + I[k] + "]"; step("%s", t.c_str()); cee_json *g = cee_json_select(j, (char *)t.c_str()); double v = strtod(I[k], NULL); cee_json *e = v == 0 || v == 1 ? cee_json_array_get(j, (int)v) : NULL; MC_CHECK(g == e, "%s selects %s", t.c_str(), showj(g).c_str()); cee_del(st.s); }
static void long_names() { int n = 1 + choose(300, "length"), how = choose(3, "how"), exists = choose(2, "exists"); std::string name(n, 'n'); name.back() = 'e'; St st; cee_json *j = cee_json_object_mk(st); cee_json_object_set_i64(j, (char *)"n", 5); std::string other = name; other.back() = 'f'; cee_json_object_set_i64(j, (char *)(exists ? name : other).c_str(), 7); step("name of %d bytes", n); cee_json *g; if (how == 0) g = cee_json_select(j, (char *)("." + name).c_str()); else if (how == 1) g = cee_json_select(j, (char *)".*", name.c_str()); else g = cee_json_select(j, (char *)("." + name.substr(0, n / 2) + "*").c_str(), name.c_str() + n / 2); int64_t x = 0; if (g) cee_json_to_i64x(g, &x); if (exists) MC_CHECK(n <= 256 ? x == 7 : !g || x == 7, "a name of %d bytes selects %s", n, showj(g).c_str()); else MC_CHECK(!g, "a missing name of %d bytes selects %s", n, showj(g).c_str()); cee_del(st.s); }
static const Val *has(const Val &v, const std::string &k, std::vector<const Val *> &all) { if (v.t == Val::ARR) for (auto &x : v.a) has(x, k, all); if (v.t == Val::OBJ) for (auto &p : v.o) { if (p.first == k) all.push_back(&p.second); has(p.second, k, all); } return nullptr; }
static std::string gen(int budget, int depth) { int k = choose(depth > 0 ? 5 : 3, "value"); if (k == 0) return "1"; if (k == 1) return "\"k\""; if (k == 2) return "null"; k--; int c = choose(std::min(budget, 3) + 1, "children"); std::string r = k == 2 ? "[" : "{"; for (int i = 0; i < c; i++) { if (i) r += ","; if (k == 3) r += mc::fmt("\"%c\":", "kxy"[(i + choose(i ? 1 : 3, "name")) % 3]); r += gen(i + 1 < c ? (budget - c) / 2 : budget - c, depth - 1); } return r + (k == 2 ? "]" : "}"); }
static void search() { std::string d = gen(mc::tier(4, 5), 4); step("search %s", d.c_str()); St st; cee_json *j = parse(st, d, true).j; Val v = reference(d, true).val; for (auto k : {"k", "x", "y", "none", ""}) { std::vector<const Val *> all; has(v, k, all); cee_json *g = cee_json_has(j, (char *)k); if (all.empty()) MC_CHECK(!g, "%s has no %s but the search gives %s", d.c_str(), k, showj(g).c_str()); else { bool ok = false; for (auto x : all) ok |= g && same(*x, g); MC_CHECK(ok, "%s: search for %s gives %s", d.c_str(), k, showj(g).c_str()); } } mc::state(mc::hash_str(d)); cee_del(st.s); }
// typed access: every type x accessor x boundary value
static void typed() {
  std::vector<Val> vs = {Val(), Val::B(true), Val::B(false), Val::S("1"), Val::S("true"), Val::A(), Val::A({Val::I(1)}), Val::O()}; for (int k : {0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 62, 63}) for (int d = -1; d <= 1; d++) { uint64_t u = (1ull << k) + d; vs.push_back(Val::I((int64_t)u)); vs.push_back(Val::I((int64_t)-u)); vs.push_back(Val::U(u)); vs.push_back(Val::D((double)u)); vs.push_back(Val::D(-(double)u)); } for (double d : {0.5, -0.0, 1e300, DBL_MAX, DBL_TRUE_MIN, (double)INFINITY}) vs.push_back(Val::D(d));
  int i = choose(vs.size(), "value"); const Val &v = vs[i]; step("accessors on %s", show(v).c_str()); St st; cee_json *j = make(st, v); const char *s = show(v).c_str();
  { double x = 4242; int r = cee_json_to_doublex(j, &x); MC_CHECK(v.t == Val::DBL ? r == 0 && same_d(x, v.d) : r != 0 && x == 4242, "to_doublex of %s: %d, %g", show(v).c_str(), r, x); }
  { int64_t x = 4242; int r = cee_json_to_i64x(j, &x); MC_CHECK(v.t == Val::I64 ? r == 0 && x == v.i : r != 0 && x == 4242, "to_i64x of %s: %d", show(v).c_str(), r); }
  { uint64_t x = 4242; int r = cee_json_to_u64x(j, &x); MC_CHECK(v.t == Val::U64 ? r == 0 && x == v.u : r != 0 && x == 4242, "to_u64x of %s: %d", show(v).c_str(), r); }
  { int x = 4242, r = cee_json_to_intx(j, &x); MC_CHECK(v.t == Val::I64 && v.i == (int)v.i ? r == 0 && x == (int)v.i : r != 0 && x == 4242, "to_intx of %s: %d, %d", show(v).c_str(), r, x); }
  { for (bool init : {false, true}) { bool x = init; int r = cee_json_to_boolx(j, &x); MC_CHECK(v.t == Val::BOOL ? r == 0 && x == v.b : r != 0 && x == init, "to_boolx of %s: %d", show(v).c_str(), r); } }
  MC_CHECK((cee_json_to_str(j) != NULL) == (v.t == Val::STR) && (cee_json_to_array(j) != NULL) == (v.t == Val::ARR) && (cee_json_to_object(j) != NULL) == (v.t == Val::OBJ) && (cee_json_to_boxed(j) != NULL) == (v.t >= Val::I64 && v.t <= Val::DBL) && !cee_json_to_blob(j), "an accessor of %s answers for another type", show(v).c_str());
  char *p = (char *)1; size_t n = 9; MC_CHECK(!cee_json_to_strn(j, &p, &n) && p == (char *)1 && n == 9, "to_strn of %s succeeds", show(v).c_str()); MC_CHECK(cee_json_empty(j) == ((v.t == Val::ARR && v.a.empty()) || v.t == Val::OBJ), "empty() of %s", show(v).c_str()); MC_CHECK(cee_json_select(NULL, (char *)".a") == NULL, "select in nothing"); cee_del(st.s);
}
static void blobs() { int n = choose(mc::tier(100, 400), "size"); St st; char *b = (char *)malloc(n + !n); for (int i = 0; i < n; i++) b[i] = (char)(i * 37); step("blob of %d", n); cee_json *j = cee_json_blob_mk(st, b, n); cee_block *k = cee_json_to_blob(j); MC_CHECK(k && cee_block_size(k) == (size_t)n && !memcmp(k->_, b, n), "the blob of %d bytes changed", n); MC_CHECK(!cee_json_to_str(j) && !cee_json_to_boxed(j) && !cee_json_to_array(j), "a blob answers for another type"); cee_json *t = cee_json_strn_mk(st, b, n); char *p = NULL; size_t z = 0; MC_CHECK(cee_json_to_strn(t, &p, &z) && p == b && z == (size_t)n && !cee_json_to_str(t), "counted string"); cee_del(st.s); free(b); MC_CHECK(mc::live_blocks() == 0, "blocks remain"); }
// long selectors, big arrays, large and deep documents
static void large() {
  int how = choose(4, "how"); static const int N[] = {1, 9, 10, 11, 30, 100, 200, 300}; int n = N[choose(8, "size")]; step("how %d size %d", how, n); St st; std::string d, c, sel;
  if (how <= 1) {                                              // a path through n levels, and one that leaves it at some level
    std::string key(how ? 1 + n % 40 : 1, 'p'); for (int i = 0; i < n; i++) { bool a = i % 3 == 1; d += a ? "[0," : "{\"z\":1,\"" + key + "\":"; c.insert(0, a ? "]" : "}"); sel += a ? "[1]" : "." + key; } cee_json *j = parse(st, d + "\"end\"" + c, true).j; MC_CHECK(j, "not parsed");
    cee_json *g = cee_json_select(j, (char *)sel.c_str()); cee_str *s = g ? cee_json_to_str(g) : NULL; MC_CHECK(s && !strcmp((char *)s, "end"), "a path of %d steps selects %s", n, showj(g).c_str()); g = cee_json_select(j, (char *)(sel + ":s").c_str()); MC_CHECK(g && cee_json_to_str(g) == s, "a path of %d steps and a type selects %s", n, showj(g).c_str());
    for (auto x : {":n", ".p", "[0]", ":o"}) { g = cee_json_select(j, (char *)(sel + x).c_str()); MC_CHECK(!g, "a path of %d steps and %s selects %s", n, x, showj(g).c_str()); } g = cee_json_has(j, (char *)key.c_str()); MC_CHECK(g, "the search fails in %d levels", n); g = cee_json_has(j, (char *)"none"); MC_CHECK(!g, "the search finds what is not there"); mc::state(n * 4 + how); }
  else {                                                       // wide: every index / member, and those just beyond
    bool o = how == 3; d = o ? "{" : "["; for (int i = 0; i < n; i++) d += (i ? "," : "") + (o ? mc::fmt("\"m%d\":", i) : std::string()) + mc::fmt("{\"v%d\":[%d]}", i, i * 3); cee_json *j = parse(st, d + (o ? "}" : "]"), true).j; MC_CHECK(j, "not parsed");
    for (int i = 0; i < n + 3; i++) { sel = o ? mc::fmt(".m%d.v%d[0]:n", i, i) : mc::fmt("[%d].v%d[0]", i, i); int x = -1; cee_json *g = cee_json_select(j, (char *)sel.c_str()); MC_CHECK(i < n ? g && !cee_json_to_intx(g, &x) && x == i * 3 : !g, "%s of %d selects %s", sel.c_str(), n, showj(g).c_str()); x = -9; int r = cee_json_select_as_int(j, &x, (char *)sel.c_str()); MC_CHECK(i < n ? r == 0 && x == i * 3 : r != 0 && x == -9, "%s of %d as int: %d", sel.c_str(), n, x);
      g = o ? cee_json_select(j, (char *)".*.*[*]", mc::fmt("m%d", i).c_str(), mc::fmt("v%d", i).c_str(), 0) : cee_json_select(j, (char *)"[*].*", i, mc::fmt("v%d", i).c_str()); MC_CHECK((g != NULL) == (i < n), "stars for %d of %d select %s", i, n, showj(g).c_str());
      g = cee_json_has(j, (char *)mc::fmt("v%d", i).c_str()); MC_CHECK((g != NULL) == (i < n), "the search for v%d among %d gives %s", i, n, showj(g).c_str()); if (g) { cee_json *e = cee_json_array_get(g, 0); x = -1; MC_CHECK(e && !cee_json_to_intx(e, &x) && x == i * 3, "the search for v%d gives %s", i, showj(g).c_str()); } mc::state(n * 1000 + i); } }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// arrays whose indices do not fit 15 or 16 bits
static void far() {
  static const int N[] = {32767, 32768, 32769, 65535, 65536, 65537, 70001}; int n = N[choose(7, "length")]; St st; cee_json *j = cee_json_array_mk(st, 1), *o = cee_json_object_mk(st); for (int i = 0; i < n; i++) cee_json_array_append(j, cee_json_i64_mk(st, i)); cee_json_object_set(o, (char *)"a", j); step("an array of %d", n);
  for (int i = 0; i < n + 3; i += i > n - 70 || i < 3 || (i > 32700 && i < 32800) || (i > 65500 && i < 65600) ? 1 : 97) { int x = -9; int r = cee_json_select_as_int(o, &x, (char *)mc::fmt(".a[%d]", i).c_str()); MC_CHECK(i < n ? !r && x == i : r && x == -9, "[%d] of %d as int: %d, %d", i, n, r, x); x = -9; cee_json *g = cee_json_select(o, (char *)".*[*]:n", "a", i); MC_CHECK(i < n ? g && !cee_json_to_intx(g, &x) && x == i : !g, "[*] for %d of %d selects %s", i, n, showj(g).c_str()); }
  for (int i : {-1, -n, -65536, 65536 + n, 131072, INT_MIN, INT_MAX}) { cee_json *g = cee_json_select(o, (char *)mc::fmt(".a[%d]", i).c_str()); MC_CHECK(!g, "[%d] of %d selects %s", i, n, showj(g).c_str()); } mc::state(n); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() { mc::add("far", far, 1); mc::add("large", large, 2); mc::add("selectors", [] { selectors(mc::tier(4, 5), false); }, 3); mc::add("star-selectors", [] { selectors(mc::tier(3, 4), true); }, 3); mc::add("any-selector", any_selector, 3); mc::add("indices", indices, 1); mc::add("long-names", long_names, 2); mc::add("search", search, 3); mc::add("typed", typed, 1); mc::add("blobs", blobs, 1); }
