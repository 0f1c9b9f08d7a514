#include "common.hpp"
#include "avl.hpp"
#include <cerrno>
extern "C" {
#include "musl-search.h"
}
static void *const CXT = (void *)0x5150;
// ---- linear search ------------------------------------------------------------------------------
static size_t g_w; static int g_calls; static int by_width(const void *a, const void *b) { g_calls++; return memcmp(a, b, g_w) ? 7 : 0; }
static int by_first(const void *a, const void *b) { return *(const unsigned char *)a == *(const unsigned char *)b ? 0 : -1; }
static void linear() {
  static const int W[] = {1, 2, 3, 4, 7, 8, 16, 24}; int w = g_w = W[choose(8, "width")], first = choose(2, "compare"), start = choose(4, "elements"); const int depth = mc::tier(4, 5), cap = start + depth; auto cmp = first ? by_first : by_width;
  char *base = (char *)malloc(cap * w); memset(base, 0xee, cap * w); std::vector<std::string> m; auto elem = [&](int v) { std::string s(w, (char)(first ? v : 1)); s[0] = 'a' + v / (first ? 2 : 1); s[w - 1] = w > 1 ? 'k' + v : s[0]; return s; };
  for (int i = 0; i < start; i++) { m.push_back(elem(choose(3, "initial"))); memcpy(base + i * w, m[i].data(), w); } size_t n = start; step("width %d, %d elements", w, start);
  for (int k = 0; k < depth; k++) {
    int v = choose(4, "key"), ins = choose(2, "insert"); std::string e = elem(v); char *key = (char *)malloc(w); memcpy(key, e.data(), w); size_t was = n; step("%s %d", ins ? "lsearch" : "lfind", v);
    int at = -1; for (size_t i = 0; i < m.size() && at < 0; i++) if (!cmp(m[i].data(), key)) at = i;
    void *r = ins ? musl_lsearch(key, base, &n, w, cmp) : musl_lfind(key, base, &n, w, cmp);
    if (at < 0 && ins) { at = m.size(); m.push_back(e); } MC_CHECK(r == (at < 0 ? NULL : base + at * w), "returned element %td/%d instead of %d", r ? (char *)r - base : -1, w, at); MC_CHECK(n == m.size(), "%zu elements instead of %zu (before: %zu)", n, m.size(), was);
    for (int i = 0; i < cap; i++) if (i < (int)m.size()) MC_CHECK(!memcmp(base + i * w, m[i].data(), w), "element %d changed", i); else for (int j = 0; j < w; j++) MC_CHECK(base[i * w + j] == (char)0xee, "bytes beyond element %zu were written", m.size()); MC_CHECK(!memcmp(key, e.data(), w), "the key changed"); free(key);
  }
  uint64_t h = mc::hash_bytes(base, n * w, w); free(base); mc::state(h);
}
// ---- queues -------------------------------------------------------------------------------------
struct Q { Q *next, *prev; int id; };
static void queue() {
  const int N = mc::tier(4, 5); Q *q[5]; for (int i = 0; i < N; i++) { q[i] = (Q *)malloc(sizeof(Q)); *q[i] = Q{(Q *)8, (Q *)8, i}; }
  std::vector<std::pair<bool, std::vector<int>>> L; int depth = mc::tier(7, 8);
  for (int k = 0; k < depth; k++) {
    std::vector<int> in(N, 0); for (auto &l : L) for (int x : l.second) in[x] = 1; struct Op { int what, a, b; }; std::vector<Op> ops;
    for (int i = 0; i < N; i++) { if (in[i]) ops.push_back({2, i, 0}); else { ops.push_back({0, i, 0}); ops.push_back({1, i, 0}); for (int j = 0; j < N; j++) if (in[j]) ops.push_back({3, i, j}); } }
    Op o = ops[choose(ops.size(), "op")];
    if (o.what == 0) { step("insque(%d, NULL)", o.a); musl_insque(q[o.a], NULL); L.push_back({false, {o.a}}); }
    else if (o.what == 1) { step("circle %d", o.a); q[o.a]->next = q[o.a]->prev = q[o.a]; L.push_back({true, {o.a}}); }
    else if (o.what == 2) { step("remque(%d)", o.a); musl_remque(q[o.a]); for (auto &l : L) { auto f = std::find(l.second.begin(), l.second.end(), o.a); if (f != l.second.end()) l.second.erase(f); } L.erase(std::remove_if(L.begin(), L.end(), [](auto &l) { return l.second.empty(); }), L.end()); memset(q[o.a], 8, 2 * sizeof(void *)); }
    else { step("insque(%d, %d)", o.a, o.b); musl_insque(q[o.a], q[o.b]); for (auto &l : L) { auto f = std::find(l.second.begin(), l.second.end(), o.b); if (f != l.second.end()) { l.second.insert(f + 1, o.a); break; } } }
    uint64_t h = 7; for (auto &l : L) { int n = l.second.size(); h = mc::mix(h, l.first + 2); for (int i = 0; i < n; i++) { h = mc::mix(h, l.second[i] + 4); Q *nx = i + 1 < n ? q[l.second[i + 1]] : l.first ? q[l.second[0]] : NULL, *pv = i ? q[l.second[i - 1]] : l.first ? q[l.second[n - 1]] : NULL; Q *x = q[l.second[i]]; MC_CHECK(x->next == nx, "the successor of %d is wrong", x->id); MC_CHECK(x->prev == pv, "the predecessor of %d is wrong", x->id); } }
    for (int i = 0; i < N; i++) MC_CHECK(q[i]->id == i, "the data of %d changed", i);
    mc::state(h); if (k + 1 < depth) { struct G { Q **q; int n; ~G() {} } g{q, N}; mc::prune(h, depth - k - 1); }
  }
  for (int i = 0; i < N; i++) free(q[i]);
}
// ---- hash tables --------------------------------------------------------------------------------
struct HT { musl_hsearch_data d; std::vector<std::pair<std::string, long>> m; };
static const char *const HK[] = {"Aa", "BB", "A", "I", "", "H", "P", "\xc8", "AaAa", "BBBB", "AaBB", "Q"};
static bool hcall(HT *t, const char *k, long data, ACTION a, MUSL_ENTRY **out) { MUSL_ENTRY e; e.key = (char *)k; e.data = tok(data); if (t) { int r = musl_hsearch_r(e, a, out, &t->d); MC_CHECK(r == (*out != NULL), "hsearch_r returns %d and %p", r, *out); return r; } *out = musl_hsearch(e, a); return *out; }
static void hall(HT *t, const std::vector<std::pair<std::string, long>> &m, const char *const *ks, int nk) { MUSL_ENTRY *e; for (auto &p : m) { MC_CHECK(hcall(t, p.first.c_str(), 99, FIND, &e), "%s is not found among %zu", mc::quote(p.first).c_str(), m.size()); MC_CHECK(p.first == e->key && untok(e->data) == p.second, "%s has the entry of %s with %ld", mc::quote(p.first).c_str(), mc::quote(e->key).c_str(), untok(e->data)); }
  for (int i = 0; i < nk; i++) { bool in = false; for (auto &p : m) in |= p.first == ks[i]; if (!in) MC_CHECK(!hcall(t, ks[i], 99, FIND, &e), "%s is found and was never entered", mc::quote(ks[i]).c_str()); } }
static void henter(HT *t, std::vector<std::pair<std::string, long>> &m, const char *k, long v) { MUSL_ENTRY *e; MC_CHECK(hcall(t, k, v, ENTER, &e), "entering %s fails", mc::quote(k).c_str()); long want = v; bool had = false; for (auto &p : m) if (p.first == k) { want = p.second; had = true; } if (!had) m.push_back({k, v}); MC_CHECK(!strcmp(e->key, k) && untok(e->data) == want, "entering %s returns the entry %s with %ld", mc::quote(k).c_str(), mc::quote(e->key).c_str(), untok(e->data)); }
static void hash_histories() {
  static const size_t NEL[] = {0, 1, 8, 9, 17}; size_t nel = NEL[choose(mc::tier(3, 5), "nel")]; int glob = choose(2, "global"); size_t b0 = mc::live_blocks(); HT t; memset(&t, 0, sizeof t.d); HT *p = glob ? NULL : &t; step("nel %zu", nel);
  MC_CHECK(glob ? musl_hcreate(nel) : musl_hcreate_r(nel, &t.d), "hcreate fails"); int depth = mc::tier(5, 6); hall(p, t.m, HK, 12);
  for (int k = 0; k < depth; k++) { int i = choose(12, "key"); step("enter %s", HK[i]); henter(p, t.m, HK[i], 10 * k + i); hall(p, t.m, HK, 12); }
  for (int i = 0; i < 12; i++) { henter(p, t.m, HK[i], 500 + i); hall(p, t.m, HK, 12); } henter(p, t.m, HK[3], 1);
  if (glob) { musl_hdestroy(); MC_CHECK(mc::live_blocks() == b0, "%zu blocks are left", mc::live_blocks() - b0); MC_CHECK(musl_hcreate(3), "hcreate after hdestroy"); t.m.clear(); hall(NULL, t.m, HK, 12); henter(NULL, t.m, "A", 1); musl_hdestroy(); musl_hdestroy(); } else { musl_hdestroy_r(&t.d); musl_hdestroy_r(&t.d); }
  MC_CHECK(mc::live_blocks() == b0, "%zu blocks are left", mc::live_blocks() - b0); uint64_t h = nel; for (auto &x : t.m) h = mc::hash_str(x.first, h); mc::state(h);
}
// many keys, of which many collide in the low bits; two tables side by side
static void hash_growth() {
  int family = choose(6, "family"), nelk = choose(5, "nel"); static const size_t NEL[] = {0, 5, 33, 100, 1000}; int N = mc::tier(400, 3000); std::vector<std::string> ks;
  for (int i = 0; i < N; i++) { std::string s; if (family == 0) s = mc::fmt("k%d", i); else if (family == 1) for (int b = 0; b < 12; b++) s += (i >> b & 1) ? "BB" : "Aa"; else if (family == 2) { s = std::string(1, (char)(1 + i % 255)) + std::string(i / 255, 'x'); } else if (family == 3) s = std::string(i, 'q'); else { s = std::string(family == 4 ? 70 : 300, 'p'); for (int b = 0; b < 9; b++) s += (i >> b & 1) ? "BB" : "Aa"; if (i > 511) s += mc::fmt("%d", i); } ks.push_back(s); }
  if ((family == 1 || family > 3) && N > 400) { N = 400; ks.resize(N); } if (family == 3 && N > 600) { N = 600; ks.resize(N); }
  HT a, b; memset(&a.d, 0, sizeof a.d); memset(&b.d, 0, sizeof b.d); step("family %d nel %zu", family, NEL[nelk]); MC_CHECK(musl_hcreate_r(NEL[nelk], &a.d) && musl_hcreate_r(0, &b.d), "hcreate_r"); MUSL_ENTRY *e;
  for (int i = 0; i < N; i++) { HT &t = i % 3 == 2 ? b : a; MC_CHECK(!hcall(&t, ks[i].c_str(), 0, FIND, &e), "%s is found too early", mc::quote(ks[i]).c_str()); MC_CHECK(hcall(&t, ks[i].c_str(), i, ENTER, &e) && e->key == ks[i].c_str() && untok(e->data) == i, "entry %d", i); step("%d", i);
    if (!(i & (i + 1)) || i == N - 1 || i % 64 == 0) for (int j = 0; j < N; j++) { HT &u = j % 3 == 2 ? b : a, &o = j % 3 == 2 ? a : b; bool r = hcall(&u, ks[j].c_str(), 0, FIND, &e); MC_CHECK(r == (j <= i), "key %d of %d is %sfound", j, i + 1, r ? "" : "not "); if (r) MC_CHECK(e->key == ks[j].c_str() && untok(e->data) == j, "key %d has another entry", j); MC_CHECK(!hcall(&o, ks[j].c_str(), 0, FIND, &e), "key %d is in the other table", j); } }
  musl_hdestroy_r(&a.d); musl_hdestroy_r(&b.d); MC_CHECK(mc::live_blocks() == 0, "%zu blocks are left", mc::live_blocks());
}
static void hash_memory() {                           // growing or creating without memory fails and changes nothing
  int when = choose(40, "entry"), again = choose(3, "failures"); size_t b0 = mc::live_blocks(); HT t; memset(&t, 0, sizeof t.d); step("failing at %d", when); mc::refuse(1 + again % 2, 0); MC_CHECK(!musl_hcreate_r(9, &t.d) && mc::live_blocks() == b0, "hcreate_r without memory"); mc::refuse(0, 1 << 16); MC_CHECK(!musl_hcreate_r((size_t)-1, &t.d) && mc::live_blocks() == b0, "hcreate_r of a huge table"); mc::refuse(0, 0);
  MC_CHECK(musl_hcreate_r(0, &t.d), "hcreate_r"); std::vector<std::string> ks; for (int i = 0; i < 40; i++) ks.push_back(mc::fmt("%d", i * 7)); MUSL_ENTRY *e;
  for (int i = 0; i < 40; i++) { const char *k = ks[i].c_str(); if (i >= when) for (int r = 0; r <= again; r++) { mc::refuse(1, 0); bool ok = hcall(&t, k, i, ENTER, &e); mc::refuse(0, 0); if (ok) { MC_CHECK(untok(e->data) == i, "entry"); break; } MC_CHECK(!hcall(&t, k, 0, FIND, &e), "the key whose entry failed is found"); hall(&t, t.m, NULL, 0); } MUSL_ENTRY *f; if (hcall(&t, k, 0, FIND, &f)) t.m.push_back({ks[i], i}); else henter(&t, t.m, k, i); hall(&t, t.m, NULL, 0); }
  MC_CHECK(t.m.size() == 40, "entries"); musl_hdestroy_r(&t.d); MC_CHECK(mc::live_blocks() == b0, "blocks are left");
}
// ---- trees --------------------------------------------------------------------------------------
static int tcmp(void *c, const void *a, const void *b) { MC_CHECK(c == CXT, "the context is not passed to the comparison"); long x = untok(a), y = untok(b); return x < y ? -5 : x > y ? 9 : 0; }
struct Walk { std::vector<const void *> order; std::map<const void *, const void *> parent; std::vector<std::pair<const void *, int>> open; int deepest = 0; std::string err; };
static Walk *g_walk;
static const void *key_of(const void *node) { return *(const void *const *)node; }
static void visit(void *c, const void *n, VISIT v, int d) {
  Walk &w = *g_walk; MC_CHECK(c == CXT, "the context is not passed to the walk"); w.deepest = std::max(w.deepest, d);
  auto enter = [&] { MC_CHECK(d == (int)w.open.size(), "node %ld is reported at level %d instead of %zu", untok(key_of(n)), d, w.open.size()); MC_CHECK(!w.parent.count(n), "node %ld is visited twice", untok(key_of(n))); w.parent[n] = w.open.empty() ? NULL : w.open.back().first; };
  auto top = [&](int st) { MC_CHECK(!w.open.empty() && w.open.back().first == n && w.open.back().second == st && d == (int)w.open.size() - 1, "visits of node %ld come in a wrong order", untok(key_of(n))); };
  switch (v) { case leaf: enter(); w.order.push_back(n); break; case preorder: enter(); w.open.push_back({n, 0}); break; case postorder: top(0); w.open.back().second = 1; w.order.push_back(n); break; case endorder: top(1); w.open.pop_back(); break; default: fail("an unknown visit"); }
}
static Walk walk_of(void *root) { Walk w; g_walk = &w; musl_twalk(CXT, root, visit); MC_CHECK(w.open.empty(), "a node is left without its last visit"); return w; }
static std::vector<long> g_freed; static void freekey(void *c, void *k) { MC_CHECK(c == CXT, "the context is not passed to the release"); g_freed.push_back(untok(k)); }
struct Tree {
  void *root = NULL; std::set<long> m; size_t b0 = mc::live_blocks();
  Walk verify(int range) { Walk w = walk_of(root); MC_CHECK(w.order.size() == m.size(), "the walk meets %zu keys of %zu", w.order.size(), m.size()); size_t i = 0; for (long x : m) { MC_CHECK(untok(key_of(w.order[i])) == x, "position %zu of the walk is %ld instead of %ld", i, untok(key_of(w.order[i])), x); i++; }
    MC_CHECK(m.empty() == !root, "the root is %p with %zu keys", root, m.size()); if (!m.empty()) MC_CHECK(w.deepest + 1 <= avl_max_height(m.size()), "%zu keys are %d deep", m.size(), w.deepest + 1); MC_CHECK(mc::live_blocks() == b0 + m.size(), "%zu blocks for %zu keys", mc::live_blocks() - b0, m.size());
    for (long x = -1; x < range; x++) { void *f = musl_tfind(CXT, tok(x), &root, tcmp); MC_CHECK(!f == !m.count(x), "tfind of %ld says %d", x, !!f); if (f) MC_CHECK(key_of(f) == tok(x), "tfind of %ld finds %ld", x, untok(key_of(f))); } return w; }
  void ins(long x) { void *was = musl_tfind(CXT, tok(x), &root, tcmp), *r = musl_tsearch(CXT, tok(x), &root, tcmp); MC_CHECK(r && key_of(r) == tok(x), "tsearch of %ld", x); if (was) MC_CHECK(r == was, "tsearch of the present %ld makes another node", x); m.insert(x); }
  void del(long x) { Walk w = walk_of(root); void *node = musl_tfind(CXT, tok(x), &root, tcmp); void *r = musl_tdelete(CXT, tok(x), &root, tcmp); MC_CHECK(!r == !m.count(x), "tdelete of %s %ld returns %p", m.count(x) ? "the present" : "the missing", x, r); if (node && w.parent[node]) MC_CHECK(r == w.parent[node], "tdelete of %ld does not return its parent", x); m.erase(x); }
  void destroy(bool keys) { g_freed.clear(); musl_tdestroy(CXT, root, keys ? freekey : NULL); std::sort(g_freed.begin(), g_freed.end()); MC_CHECK(g_freed == (keys ? std::vector<long>(m.begin(), m.end()) : std::vector<long>()), "tdestroy releases %zu keys of %zu", g_freed.size(), m.size()); MC_CHECK(mc::live_blocks() == b0, "tdestroy leaves %zu nodes", mc::live_blocks() - b0); }
  uint64_t hash() { Walk w = walk_of(root); uint64_t h = 3; for (auto n : w.order) { h = mc::mix(h, untok(key_of(n)) + 1); h = mc::mix(h, w.parent[n] ? untok(key_of(w.parent[n])) + 2 : 0); } return h; }
};
static void tree_histories() { int K = choose(2, "keys") ? mc::tier(7, 8) : 4, depth = K == 4 ? 6 : mc::tier(12, 15); Tree t; for (int k = 0; k < depth; k++) { int o = choose(2 * K, "op"); step("%s %d", o < K ? "tsearch" : "tdelete", o % K); if (o < K) t.ins(o); else t.del(o - K); t.verify(K + 1); uint64_t h = t.hash(); mc::state(h); if (K > 4) mc::prune(h, depth - k - 1); } t.destroy(true); }
static void tree_shapes() {                            // every AVL shape: every insertion and every deletion, then everything else deleted
  int n = choose(mc::tier(11, 13), "nodes"); auto &S = avl_shapes(n); const Shape &s = S[choose(S.size(), "shape")]; step("shape with %d nodes", n);
  for (int x = 0; x <= 2 * n; x++) for (int how = 0; how < 2; how++) { Tree t; for (int r : s.level_order) t.ins(2 * r + 1); if (x == 0 && !how) mc::state(t.hash()); if (x % 2) t.del(x); else t.ins(x); t.verify(2 * n + 2); if (how && n <= 8) { std::vector<long> left(t.m.begin(), t.m.end()); for (size_t i = 0; i < left.size(); i++) { t.del(left[i % 2 ? left.size() - (i + 1) / 2 : i / 2]); t.verify(2 * n + 2); } } t.destroy(how); }
}
static void tree_orders() { int n = choose(mc::tier(200, 1000), "size"), ord = choose(5, "order"); step("%d keys in order %d", n, ord); Tree t; std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : ord == 3 ? (int)((i * 7919LL) % n) : (i ^ 5) % n); for (int x : v) t.ins(x); t.verify(n + 1); for (size_t i = 0; i < v.size(); i += 1 + ord % 2) t.del(v[(i * 3) % v.size()]); t.verify(n + 1); t.destroy(true); }
static void tree_edges() { step("NULL roots and memory"); MC_CHECK(!musl_tfind(CXT, tok(1), NULL, tcmp) && !musl_tdelete(CXT, tok(1), NULL, tcmp) && !musl_tsearch(CXT, tok(1), NULL, tcmp), "a NULL root pointer"); musl_tdestroy(CXT, NULL, freekey); musl_twalk(CXT, NULL, visit);
  for (int n = 0; n < 40; n++) { Tree t; for (int i = 0; i < n; i++) t.ins(2 * i); uint64_t h = t.hash(); for (int x = -1; x < 2 * n; x += 2) { mc::refuse(1, 0); MC_CHECK(!musl_tsearch(CXT, tok(x), &t.root, tcmp), "tsearch without memory"); mc::refuse(0, 0); MC_CHECK(t.hash() == h, "a failed tsearch changes the tree"); } t.verify(2 * n); t.destroy(true); } }
static void linear_large() {
  static const int W[] = {1, 2, 3, 4, 5, 8, 12, 33, 300, 1023, 1024, 4096, 70000}; int w = g_w = W[choose(13, "width")], n = choose(2, "many") ? 240 : 50; if (w > 4096) n /= 5; char *base = (char *)malloc((n + 1) * w); memset(base, 0xee, (n + 1) * w); size_t m = 0; step("%d elements of %d bytes", n, w);
  auto elem = [&](int v) { std::string s(w, (char)(v * 7 + 1)); s[w - 1] = (char)(v + 1); return s; };
  for (int i = 0; i < n; i++) { std::string e = elem(i); char *key = (char *)malloc(w); memcpy(key, e.data(), w); MC_CHECK(!musl_lfind(key, base, &m, w, by_width), "lfind finds element %d before it is there", i); MC_CHECK(musl_lsearch(key, base, &m, w, by_width) == base + i * w && m == (size_t)i + 1 && !memcmp(base + i * w, key, w), "lsearch appends element %d of %d bytes wrong", i, w); MC_CHECK(musl_lfind(key, base, &m, w, by_width) == base + i * w && musl_lsearch(key, base, &m, w, by_width) == base + i * w && m == (size_t)i + 1, "element %d of %d bytes is not found", i, w);
    if (i > 4) { std::string o = elem(i / 2); memcpy(key, o.data(), w); MC_CHECK(musl_lsearch(key, base, &m, w, by_width) == base + (i / 2) * w && m == (size_t)i + 1, "element %d of %d is not found", i / 2, i); } free(key); for (int j = 0; j < w; j++) MC_CHECK(base[(i + 1) * w + j] == (char)0xee, "bytes beyond %d elements were written", i + 1); mc::state(w * 1000 + i); }
  for (int i = 0; i < n; i++) MC_CHECK(!memcmp(base + i * w, elem(i).data(), w), "element %d of %d bytes changed", i, w); free(base);
}
static void queue_large() {
  static const int N[] = {2, 9, 100, 500}; int n = N[choose(4, "elements")], circle = choose(2, "circle"), ins = choose(3, "insertion"), rem = choose(5, "removal"); std::vector<Q> q(n); std::vector<int> L = {0}; for (int i = 0; i < n; i++) q[i] = Q{(Q *)8, (Q *)8, i}; step("%d elements, insertion %d, removal %d", n, ins, rem);
  if (circle) q[0].next = q[0].prev = &q[0]; else musl_insque(&q[0], NULL); auto ok = [&] { int m = L.size(); for (int i = 0; i < m; i++) { Q *nx = i + 1 < m ? &q[L[i + 1]] : circle ? &q[L[0]] : NULL, *pv = i ? &q[L[i - 1]] : circle ? &q[L[m - 1]] : NULL; MC_CHECK(q[L[i]].next == nx && q[L[i]].prev == pv, "the neighbours of position %d of %d are wrong", i, m); } };
  for (int i = 1; i < n; i++) { int at = ins == 0 ? L.size() - 1 : ins == 1 ? 0 : (int)L.size() / 2; musl_insque(&q[i], &q[L[at]]); L.insert(L.begin() + at + 1, i); if (n < 101 || i % 50 == 0) ok(); } ok();
  while (L.size() > (rem == 4 ? 1u : 0u)) { int at = rem == 0 ? 0 : rem == 1 ? L.size() - 1 : rem == 2 ? (int)L.size() / 2 : (int)((L.size() * 7) % L.size() + L.size() / 3) % L.size(); musl_remque(&q[L[at]]); L.erase(L.begin() + at); if (n < 101 || L.size() % 50 == 0) ok(); } mc::state(n * 100 + circle * 50 + ins * 10 + rem);
}
static void hash_large() {
  static const int N[] = {1000, 5000, 70000, 140000, 300000}; int n = N[choose(mc::tier(4, 5), "entries")], fam = choose(2, "family"), glob = choose(2, "global"); static const size_t NEL[] = {0, 1000, 100000}; size_t nel = NEL[choose(3, "nel")]; HT t; memset(&t, 0, sizeof t.d); HT *p = glob ? NULL : &t; MUSL_ENTRY *e; std::vector<std::string> ks(n); step("%d entries, nel %zu", n, nel); MC_CHECK(glob ? musl_hcreate(nel) : musl_hcreate_r(nel, &t.d), "hcreate");
  for (int i = 0; i < n; i++) { ks[i] = fam ? mc::fmt("%d:%s", i, std::string(i % 50, 'p').c_str()) : mc::fmt("%x", i * 2654435761u); MC_CHECK(hcall(p, ks[i].c_str(), i, ENTER, &e) && e->key == ks[i].c_str() && untok(e->data) == i, "entry %d of %d", i, n); if (i % 3 == 0) MC_CHECK(hcall(p, ks[i / 2].c_str(), -5, ENTER, &e) && untok(e->data) == i / 2, "entry %d is lost among %d", i / 2, i + 1); }
  for (int i = 0; i < n; i++) { MC_CHECK(hcall(p, ks[i].c_str(), 0, FIND, &e) && untok(e->data) == i && e->key == ks[i].c_str(), "entry %d of %d is lost", i, n); MC_CHECK(!hcall(p, (ks[i] + "?").c_str(), 0, FIND, &e), "a key never entered is found"); }
  if (glob) musl_hdestroy(); else musl_hdestroy_r(&t.d); MC_CHECK(mc::live_blocks() == 0, "blocks are left"); mc::state(n * 8 + fam * 2 + glob);
}
static void tree_large() {
  int n = choose(2, "size") ? mc::tier(3000, 20000) : 700, ord = choose(5, "order"), del = choose(4, "deletions"); Tree t; step("%d keys in order %d, deletions %d", n, ord, del); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : ord == 3 ? (int)((i * 7919LL) % n) : i ^ 1); auto ins = [&](long x) { void *r = musl_tsearch(CXT, tok(x), &t.root, tcmp); MC_CHECK(r && key_of(r) == tok(x), "tsearch of %ld", x); t.m.insert(x); };
  for (int x : v) ins(x); t.verify(n + 2); size_t i = 0; for (int x : v) { bool d = del == 0 ? i % 2 : del == 1 ? i < v.size() / 2 : del == 2 ? i > v.size() / 10 : x % 3 != 0; i++; if (!d || !t.m.count(x)) continue; MC_CHECK(musl_tdelete(CXT, tok(x), &t.root, tcmp), "tdelete of %d", x); t.m.erase(x); if (i % 500 == 0) t.verify(20); } t.verify(n + 2); for (int x = 0; x < 50; x++) ins(x * 3); t.verify(n + 2); t.destroy(true); mc::state(n * 20 + ord * 4 + del);
}
void mc_register() { mc::add("linear-large", linear_large, 1); mc::add("queue-large", queue_large, 2); mc::add("hash-large", hash_large, 2); mc::add("tree-large", tree_large, 2); mc::add("linear", linear, 3); mc::add("queue", queue, 2); mc::add("hash-histories", hash_histories, 3); mc::add("hash-growth", hash_growth, 2); mc::add("hash-memory", hash_memory, 2); mc::add("tree-histories", tree_histories, 3); mc::add("tree-shapes", tree_shapes, 2); mc::add("tree-orders", tree_orders, 2); mc::add("tree-edges", tree_edges, 0); }
