// Comparisons made by lookups and insertions never exceed the height of the tallest AVL tree.
#include "common.hpp"
#include "avl.hpp"
static long g_cmp;
static int kcmp(const void *a, const void *b) { g_cmp++; long x = untok(a), y = untok(b); return x < y ? -1 : x > y; }
// a map or a set behind one face
struct Tree {
  bool set; cee_map *m = 0; cee_set *s = 0; size_t n = 0;
  Tree(cee_state *st, bool is_set) : set(is_set) { cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; if (set) s = cee_set_mk_e(st, CEE_DP_NOOP, kcmp); else m = cee_map_mk_e(st, o, kcmp); }
  // an insertion searches the tree, at most once to look and once to insert
  void add(int k, int limit) { g_cmp = 0; if (set) cee_set_add(s, tok(k)); else cee_map_add(m, tok(k), tok(k)); long c = g_cmp;
    MC_CHECK(c <= 2 * limit, "adding %d to %zu elements made %ld comparisons, height bound %d", k, n, c, limit); n++; }
  void remove(int k) { void *r = set ? cee_set_remove(s, tok(k)) : cee_map_remove(m, tok(k)); MC_CHECK(r == tok(k), "remove(%d) returned the wrong element", k); n--; }
  void find(int k, bool in, int limit) { g_cmp = 0; void *r = set ? cee_set_find(s, tok(k)) : cee_map_find(m, tok(k)); long c = g_cmp;
    MC_CHECK(r == (in ? tok(k) : NULL), "find(%d) is wrong", k);
    MC_CHECK(c <= limit, "finding %d among %zu elements made %ld comparisons, more than the AVL height bound %d", k, n, c, limit);
    mc::outcome(mc::mix(n, c)); }
};
static uint64_t check_all(Tree &t, const std::set<int> &in, int K) {
  int lim = avl_max_height(in.size()); uint64_t h = 5;
  for (int k = 0; k < K; k++) { t.find(k, in.count(k), lim); h = mc::mix(h, g_cmp * 2 + in.count(k)); }
  mc::state(h); return h;
}
static void shapes(int N, int ops) {
  bool set = choose(2, "kind"); int n = choose(N + 1, "nodes"); auto &sh = avl_shapes(n); const Shape &p = sh[choose(sh.size(), "shape")];
  St st; Tree t(st, set); std::set<int> in; int K = 2 * n + 1;
  step("%s, AVL shape with %d nodes, height %d", set ? "set" : "map", n, p.h);
  for (int r : p.level_order) { t.add(2 * r + 1, avl_max_height(t.n)); in.insert(2 * r + 1); }
  check_all(t, in, K);
  for (int d = 0; d < ops; d++) { int k = choose(K, "key"); if (in.count(k)) { step("remove %d", k); t.remove(k); in.erase(k); } else { step("add %d", k); t.add(k, avl_max_height(t.n)); in.insert(k); } check_all(t, in, K); }
  cee_del(st.s);
}
// every deletion order of the leaves/nodes in sequence: shapes, then removals only, deeper
static void drains(int N, int depth) {
  bool set = choose(2, "kind"); auto &sh = avl_shapes(N); const Shape &p = sh[choose(sh.size(), "shape")];
  St st; Tree t(st, set); std::set<int> in; step("%s shape of %d nodes", set ? "set" : "map", N);
  for (int r : p.level_order) { t.add(r, avl_max_height(t.n)); in.insert(r); }
  for (int d = 0; d < depth; d++) { int i = choose(in.size(), "remove"); int k = *std::next(in.begin(), i); step("remove %d", k); t.remove(k); in.erase(k); uint64_t h = check_all(t, in, N); mc::prune(mc::mix(h, set), depth - d); }
  cee_del(st.s);
}
// every insertion permutation, then removal from the front / back / middle
static void orders(int N) {
  bool set = choose(2, "kind"); St st; Tree t(st, set); std::set<int> in; std::vector<int> rest; for (int i = 0; i < N; i++) rest.push_back(i);
  for (int i = 0; i < N; i++) { int j = choose(N - i, "next"); int k = rest[j]; rest.erase(rest.begin() + j); step("add %d", k); t.add(k, avl_max_height(t.n)); in.insert(k); uint64_t h = check_all(t, in, N); mc::prune(mc::mix(h, set), N - i); }
  cee_del(st.s);
}
// monotone and periodic long histories
static void longrun(int N) {
  bool set = choose(2, "kind"); int ord = choose(4, "insertion order"), del = choose(4, "removal order"), frac = choose(3, "remove how much");
  St st; Tree t(st, set); std::set<int> in; mc::set_budget(512u << 20);
  step("%s: %d insertions in order %d, removals %d/%d", set ? "set" : "map", N, ord, del, frac);
  for (int i = 0; i < N; i++) { int k = ord == 0 ? i : ord == 1 ? N - 1 - i : ord == 2 ? (int)((i * 619L) % N) : (i & 1) ? i / 2 : N - 1 - i / 2; if (in.count(k)) continue; t.add(k, avl_max_height(t.n)); in.insert(k); }
  int cnt = frac == 0 ? N / 2 : frac == 1 ? N * 3 / 4 : N - 20;
  for (int i = 0; i < cnt && !in.empty(); i++) { int k = del == 0 ? *in.begin() : del == 1 ? *in.rbegin() : del == 2 ? *in.lower_bound(*in.begin() + (*in.rbegin() - *in.begin()) / 2) : (i & 1) ? *in.begin() : *in.rbegin();
    t.remove(k); in.erase(k); if (i % 64 == 0) t.find(in.empty() ? 0 : *in.rbegin(), !in.empty(), avl_max_height(in.size())); }
  int lim = avl_max_height(in.size()); for (int k = 0; k < N; k++) t.find(k, in.count(k), lim);
  cee_del(st.s);
}
// the tallest trees of their size: insertions at the deepest place, removals that rebalance all the way up
static void tallest() {
  bool set = choose(2, "kind"); int H = mc::tier(set ? 22 : 20, set ? 25 : 23), h = H - choose(H > 20 ? 8 : 6, "height"), lean = choose(3, "lean"), edits = choose(3, "edits"); St st; Tree t(st, set); std::set<int> in; mc::set_budget(512u << 20); auto lv = fibonacci_tree(h, lean); int n = lv.size(); step("%s, sparsest AVL tree of height %d with %d elements", set ? "set" : "map", h, n);
  for (int r : lv) { t.add(3 * r + 1, avl_max_height(t.n)); in.insert(3 * r + 1); } auto all = [&] { int lim = avl_max_height(in.size()); for (int k = -1; k < 3 * n + 2; k += n > 5000 ? 7 : 1) t.find(k, in.count(k), lim); }; all();
  for (int d = 0; d < 6; d++) { int k; if (edits == 0) { k = d % 2 ? *in.begin() : *in.rbegin(); t.remove(k); in.erase(k); } else if (edits == 1) { k = d % 2 ? -d - 1 : 3 * n + 2 + d; t.add(k, avl_max_height(t.n)); in.insert(k); } else { k = 3 * lv[d] + 1; t.remove(k); in.erase(k); k = 3 * lv[n - 1 - d] + (d % 2 ? 0 : 2); t.add(k, avl_max_height(t.n)); in.insert(k); } if (d == 5 || n < 5000) all(); else for (int e : {*in.begin(), *in.rbegin(), k}) t.find(e, in.count(e), avl_max_height(in.size())); }
  mc::state(h * 100 + lean * 10 + edits); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() {
  mc::add("tallest", tallest, 2);
  mc::add("long", [] { longrun(mc::tier(400, 1500)); }, 3);
  mc::add("orders", [] { orders(mc::tier(8, 10)); }, 3);
  mc::add("drains", [] { drains(mc::tier(12, 14), mc::tier(5, 8)); }, 2);
  mc::add("shapes", [] { shapes(mc::tier(12, 15), 2); }, 3);
}
