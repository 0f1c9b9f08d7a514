#include "common.hpp"
#include "avl.hpp"
extern "C" cee_set *cee_set_union_set(cee_state *, cee_set *, cee_set *);
extern "C" cee_set *cee_set_clone(cee_set *);
static int kcmp(const void *a, const void *b) { long x = untok(a) >> 8, y = untok(b) >> 8; return x < y ? -2 : x > y ? 9 : 0; }
static long g_inst;
static void *key(int k) { return tok(((long)k << 8) | (g_inst++ & 255)); }
static int keyof(const void *p) { return p ? untok(p) >> 8 : -1; }
typedef std::map<int, void *> Model;       // key -> the element that is in the set

static void visit(void *c, void *e) { ((std::vector<void *> *)c)->push_back(e); }
static uint64_t compare(cee_set *s, const Model &m, int K, const char *after) {
  MC_CHECK(cee_set_size(s) == m.size(), "%s: size %zu, expected %zu", after, cee_set_size(s), m.size());
  MC_CHECK(cee_set_empty(s) == m.empty(), "%s: empty() is %d with %zu elements", after, cee_set_empty(s), m.size());
  for (int k = 0; k < K; k++) {
    void *f = cee_set_find(s, key(k)), *e = m.count(k) ? m.at(k) : NULL;
    MC_CHECK(f == e, "%s: find(%d) gives %s", after, k, f ? e ? "another element" : "an absent element" : "nothing");
  }
  std::vector<void *> w; cee_set_iterate(s, &w, visit); cee_list *vs = cee_set_values(s);
  MC_CHECK(cee_list_size(vs) == m.size() && w.size() == m.size(), "%s: values lists %zu, iterate visits %zu of %zu", after, cee_list_size(vs), w.size(), m.size());
  std::set<void *> a(w.begin(), w.end()), b, e; uint64_t h = 3;
  for (size_t i = 0; i < m.size(); i++) { b.insert(vs->a[i]); h = mc::mix(h, keyof(vs->a[i])); }
  for (auto &p : m) e.insert(p.second);
  MC_CHECK(a == e && b == e, "%s: values or iterate do not enumerate each element exactly once", after);
  cee_del(vs); mc::state(h); return h;
}
static void op(cee_set *s, Model &m, int K, void **last) {
  switch (choose(5, "op")) {
  case 0: { int k = choose(K, "key"); void *e = key(k); step("add %d", k); cee_set_add(s, e); if (!m.count(k)) m[k] = e; *last = e; break; }
  case 1: { int k = choose(K, "key"); step("remove %d", k); void *r = cee_set_remove(s, key(k)), *e = m.count(k) ? m[k] : NULL;
      MC_CHECK(r == e, "remove(%d) returned %s", k, r ? "the wrong element" : "NULL"); m.erase(k); break; }
  case 2: step("clear"); cee_set_clear(s); m.clear(); break;
  case 3: { int k = choose(K, "key"); step("remove %d by its own element", k); void *x = m.count(k) ? m[k] : key(k); void *r = cee_set_remove(s, x); MC_CHECK(r == (m.count(k) ? x : NULL), "remove(own element) returned the wrong element"); m.erase(k); break; }
  case 4: { int k = choose(K, "key"); void *e = m.count(k) ? m[k] : key(k); step("add %d again (the same element)", k); cee_set_add(s, e); if (!m.count(k)) m[k] = e; break; }
  }
}
static void histories(int K, int depth, bool do_prune) {
  St st; cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); Model m; void *last = 0;
  compare(s, m, K, "mk");
  for (int d = 0; d < depth; d++) { op(s, m, K, &last); uint64_t h = compare(s, m, K, "op"); if (do_prune) mc::prune(h, depth - d); }
  uint64_t h = 1; for (auto &p : m) h = mc::mix(h, p.first); mc::outcome(h);
  cee_del(st.s);
}
static void shapes(int N, int ops) {
  int n = choose(N + 1, "nodes"); auto &sh = avl_shapes(n); const Shape &p = sh[choose(sh.size(), "shape")];
  St st; cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); Model m; int K = 2 * n + 1;
  step("AVL shape with %d nodes, height %d", n, p.h);
  for (int r : p.level_order) { void *e = key(2 * r + 1); cee_set_add(s, e); m[2 * r + 1] = e; }
  for (int d = 0; d < ops; d++) {
    int k = choose(K, "key");
    if (m.count(k)) { step("remove %d", k); void *r = cee_set_remove(s, key(k)); MC_CHECK(r == m[k], "remove(%d) returned the wrong element", k); m.erase(k); }
    else { step("add %d", k); void *e = key(k); cee_set_add(s, e); m[k] = e; }
    compare(s, m, K, "op");
  }
  uint64_t h = 1; for (auto &q : m) h = mc::mix(h, q.first); mc::outcome(h);
  cee_del(st.s);
}
// union and clone: cee elements (the result counts its elements)
static int scmp(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
static void unions(int K) {
  St st; int a = choose(1 << K, "left"), b = choose((1 << K) + 1, "right"); cee_set *s[2]; s[0] = cee_set_mk(st, scmp); s[1] = b == 1 << K ? s[0] : cee_set_mk(st, scmp);
  std::map<std::string, void *> m[2]; int mask[2] = {a, b};
  for (int i = 0; i < 2; i++) { if (i && s[1] == s[0]) { m[1] = m[0]; break; } for (int k = 0; k < K; k++) if (mask[i] >> k & 1) { void *e = cee_str_mk(st, "e%d", k); cee_set_add(s[i], e); m[i][mc::fmt("e%d", k)] = e; } }
  step("union of %x and %x", a, b);
  cee_set *u = cee_set_union_set(st, s[0], s[1]); std::map<std::string, void *> e = m[0]; for (auto &p : m[1]) e.insert(p);
  auto same = [&](cee_set *x, std::map<std::string, void *> &y, const char *n) {
    MC_CHECK(cee_set_size(x) == y.size(), "%s: size %zu, expected %zu", n, cee_set_size(x), y.size());
    for (int k = 0; k < K; k++) { std::string t = mc::fmt("e%d", k); void *f = cee_set_find(x, (void *)t.c_str()); MC_CHECK(f == (y.count(t) ? y[t] : NULL), "%s: find(%s)", n, t.c_str()); } };
  same(u, e, "union"); same(s[0], m[0], "left operand"); same(s[1], m[1], "right operand");
  cee_set *c = cee_set_clone(u); same(c, e, "clone"); cee_set_remove(c, (void *)"e0"); e.erase("e0"); same(c, e, "clone after remove");
  cee_del(st.s);
}
static void nulls() { step("NULL set"); int n = 0; MC_CHECK(cee_set_size(NULL) == 0 && cee_set_empty(NULL) && !cee_set_find(NULL, tok(1)) && !cee_set_remove(NULL, tok(1)), "NULL set is not empty"); std::vector<void *> w; cee_set_iterate(NULL, &w, visit); MC_CHECK(w.empty(), "iterate"); }
// many elements: filled, drained, cleared, refilled; unions of many
static void tides(int maxn) {
  St st; cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); Model m; static const int B[] = {255, 256, 257, 1023, 1024, 1025, 2049, 4200}; int n = choose(maxn + mc::tier(6, 8), "fill"); n = n < maxn ? (1 + n) * 29 : B[n - maxn]; int ord = choose(4, "order"), part = choose(5, "part removed"); auto at = [&](int i) { return ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i * 31) % n : (i & 1) ? n - 1 - i / 2 : i / 2; }; step("%d elements in order %d, part %d removed", n, ord, part);
  for (int round = 0; round < 2; round++) {
    for (int i = 0; i < n; i++) { int k = at(i); void *e = key(k); cee_set_add(s, e); m.insert({k, e}); } compare(s, m, n + 1, "fill");
    if (part == 4) { cee_set_clear(s); m.clear(); } else for (int i = 0; i < n; i++) { int k = at(n - 1 - i); bool gone = part == 0 ? i % 2 : part == 1 ? i < n - 3 : part == 2 ? k >= n / 4 : i % 5; if (!gone || !m.count(k)) continue; void *r = cee_set_remove(s, key(k)); MC_CHECK(r == m[k], "remove(%d) returned the wrong element", k); m.erase(k); } compare(s, m, n + 1, "drain"); }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void large_unions() {
  St st; static const int N[] = {0, 1, 2, 23, 69, 127, 128, 129, 200, 255, 256, 257, 500, 1030, 2050, 4100}; int a = N[choose(mc::tier(14, 16), "left")], b = N[choose(mc::tier(14, 16), "right")], off = choose(3, "overlap"); off = off == 0 ? 0 : off == 1 ? a / 2 : a; cee_set *x = cee_set_mk(st, scmp), *y = cee_set_mk(st, scmp); std::map<std::string, void *> m, my; step("union of %d and %d, offset %d", a, b, off);
  for (int i = 0; i < a; i++) { void *e = cee_str_mk(st, "e%d", i); cee_set_add(x, e); m[(char *)e] = e; } for (int i = 0; i < b; i++) { void *e = cee_str_mk(st, "e%d", off + i); cee_set_add(y, e); my[(char *)e] = e; }
  cee_set *u = cee_set_union_set(st, x, y); MC_CHECK(cee_set_size(x) == m.size() && cee_set_size(y) == my.size(), "an operand changed"); m.insert(my.begin(), my.end()); MC_CHECK(cee_set_size(u) == m.size(), "the union has %zu elements, expected %zu", (size_t)cee_set_size(u), m.size()); for (auto &p : m) MC_CHECK(cee_set_find(u, (void *)p.first.c_str()) == p.second, "the union lacks %s", p.first.c_str()); cee_list *v = cee_set_values(u); MC_CHECK(cee_list_size(v) == m.size(), "values of the union");
  cee_set *c = cee_set_clone(u); cee_set_clear(u); MC_CHECK(cee_set_size(c) == m.size() && cee_set_empty(u), "clearing the union changes its clone"); for (auto &p : m) MC_CHECK(cee_set_find(c, (void *)p.first.c_str()) == p.second, "the clone lacks %s", p.first.c_str()); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// more elements than fit 15 or 16 bits
static void huge() {
  static const int N[] = {32767, 32769, 65535, 65536, 65537, 70001}; int n = N[choose(6, "elements")], down = choose(2, "order"), what = choose(5, "then"); St st; cee_set *s = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); step("%d elements, order %d, then %d", n, down, what); auto at = [&](int i) { return down ? n - 1 - i : i; };
  for (int i = 0; i < n; i++) { void *e = key(at(i)); cee_set_add(s, e); } size_t left = n; int gone = -1; MC_CHECK(cee_set_size(s) == left && !cee_set_empty(s), "size %zu of %zu, empty %d", cee_set_size(s), left, cee_set_empty(s));
  if (what == 1 || what == 2) { gone = what == 1 ? 0 : n - 1; MC_CHECK(keyof(cee_set_remove(s, key(gone))) == gone, "removing %d", gone); left--; MC_CHECK(cee_set_size(s) == left && !cee_set_empty(s), "size %zu of %zu after a removal", cee_set_size(s), left); }
  if (what == 3) s = cee_set_clone(s); if (what == 4) { cee_set *t = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); cee_set_add(t, key(n)); cee_set_add(t, key(n / 2)); std::vector<void *> v; cee_set_iterate(s, &v, visit); MC_CHECK(v.size() == left, "%zu elements are visited", v.size()); for (void *e : v) cee_set_add(t, e); s = t; left++; }
  MC_CHECK(cee_set_size(s) == left && !cee_set_empty(s), "size %zu, expected %zu", cee_set_size(s), left); cee_list *l = cee_set_values(s); MC_CHECK(cee_list_size(l) == left, "%zu values, expected %zu", cee_list_size(l), left); std::vector<int> a, want; for (size_t i = 0; i < left; i++) a.push_back(keyof(l->a[i])); std::sort(a.begin(), a.end()); for (int k = 0; k < n + (what == 4); k++) if (k != gone) want.push_back(k); MC_CHECK(a == want, "the values differ");
  for (int k = 0; k < n + 3; k += k > n - 20 || k < 5 ? 1 : 509) MC_CHECK(keyof(cee_set_find(s, key(k))) == (k != gone && k < n + (what == 4) ? k : -1), "find(%d) gives %d", k, keyof(cee_set_find(s, key(k)))); mc::state((n * 2 + down) * 5 + what); cee_del(l); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() {
  mc::add("huge", huge, 2);
  mc::add("tides", [] { tides(mc::tier(20, 60)); }, 3); mc::add("large-unions", large_unions, 2);
  mc::add("nulls", nulls, 0);
  mc::add("union", [] { unions(mc::tier(5, 7)); }, 2);
  mc::add("histories", [] { histories(3, mc::tier(5, 6), false); }, 4);
  mc::add("histories-states", [] { histories(7, mc::tier(8, 12), true); }, 3);
  mc::add("shapes", [] { shapes(mc::tier(10, 14), 2); }, 3);
}
