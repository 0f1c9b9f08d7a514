#include "common.hpp"
#include "avl.hpp"
static int kcmp(const void *a, const void *b) { long x = untok(a) >> 8, y = untok(b) >> 8; return x < y ? -3 : x > y ? 5 : 0; }
static long g_inst;
static void *key(int k) { return tok(((long)k << 8) | (g_inst++ & 255)); }          // equal keys, different addresses
static int keyof(const void *p) { return untok(p) >> 8; }
static void *val(long v) { return tok(100000 + v); }
static long valof(const void *p) { return p ? untok(p) - 100000 : -1; }

struct Model { std::map<int, long> m; std::vector<int> order;
  bool has(int k) const { return m.count(k); }
  void put(int k, long v) { if (!has(k)) order.push_back(k); m[k] = v; }
  void del(int k) { m.erase(k); order.erase(std::find(order.begin(), order.end(), k)); } };

struct Walk { std::vector<std::pair<int, long>> seen; int stop_at, ret; };
static int visit(void *c, void *k, void *v) { Walk *w = (Walk *)c; w->seen.push_back({keyof(k), valof(v)}); return (int)w->seen.size() - 1 == w->stop_at ? w->ret : 0; }

static uint64_t compare(cee_map *mp, const Model &m, int K, const char *after, bool order = true) {
  MC_CHECK(cee_map_size(mp) == m.m.size(), "%s: size %zu, expected %zu", after, (size_t)cee_map_size(mp), m.m.size());
  for (int k = 0; k < K; k++) {
    void *v = cee_map_find(mp, key(k)); long e = m.has(k) ? m.m.at(k) : -1;
    MC_CHECK(valof(v) == e, "%s: find(%d) gives %ld, expected %ld", after, k, valof(v), e);
  }
  Walk w{{}, -1, 0}; int r = cee_map_iterate(mp, &w, visit);
  MC_CHECK(r == 0, "%s: iterate returned %d", after, r);
  auto s = w.seen; std::sort(s.begin(), s.end());
  MC_CHECK(s == (std::vector<std::pair<int, long>>(m.m.begin(), m.m.end())), "%s: iteration does not list each entry exactly once (%zu visits of %zu)", after, s.size(), m.m.size());
  cee_list *ks = cee_map_keys(mp), *vs = cee_map_values(mp), *os = cee_map_insertion_ordered_keys(mp);
  MC_CHECK(cee_list_size(ks) == m.m.size() && cee_list_size(vs) == m.m.size() && cee_list_size(os) == m.m.size(), "%s: key/value/ordered list sizes %zu %zu %zu of %zu", after, cee_list_size(ks), cee_list_size(vs), cee_list_size(os), m.m.size());
  uint64_t h = 1; std::set<int> distinct;
  for (size_t i = 0; i < m.m.size(); i++) {
    int k = keyof(ks->a[i]); distinct.insert(k);
    MC_CHECK(m.has(k) && valof(vs->a[i]) == m.m.at(k), "%s: keys and values lists disagree at %zu (key %d, value %ld)", after, i, k, valof(vs->a[i]));
    if (order) MC_CHECK(keyof(os->a[i]) == m.order[i], "%s: insertion order at %zu is key %d, expected %d", after, i, keyof(os->a[i]), m.order[i]);
    h = mc::mix(h, k);
  }
  MC_CHECK(distinct.size() == m.m.size(), "%s: keys list repeats a key", after);
  if (order) for (int k : m.order) h = mc::mix(h, k + 100);
  cee_del(ks); cee_del(vs); cee_del(os);
  mc::state(h);
  return h;
}
static void histories(int K, int depth, bool do_prune) {
  St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; cee_map *mp = cee_map_mk_e(st, o, kcmp); Model m; long nv = 1;
  compare(mp, m, K, "mk");
  for (int d = 0; d < depth; d++) {
    switch (choose(4, "op")) {
    case 0: { int k = choose(K, "key"); void *old = cee_map_add(mp, key(k), val(nv)); long e = m.has(k) ? m.m[k] : -1; step("add %d := %ld", k, nv);
        MC_CHECK(valof(old) == e, "add(%d) returned %ld, expected %ld", k, valof(old), e); m.put(k, nv++); break; }
    case 1: { int k = choose(K, "key"); step("remove %d", k); void *old = cee_map_remove(mp, key(k)); long e = m.has(k) ? m.m[k] : -1;
        MC_CHECK(valof(old) == e, "remove(%d) returned %ld, expected %ld", k, valof(old), e); if (e >= 0) m.del(k); break; }
    case 2: { int a = choose(K, "from"), b = choose(K, "to"); step("rename %d to %d", a, b); bool r = cee_map_rename(mp, key(a), key(b));
        MC_CHECK(r == m.has(a), "rename(%d,%d) returned %d", a, b, r); if (m.has(a)) { long v = m.m[a]; m.del(a); m.put(b, v); } break; }
    case 3: { int at = choose(K, "stop at"); step("iterate, stop at %d", at); Walk w{{}, at, at & 1 ? 100 : -3}; int r = cee_map_iterate(mp, &w, visit);
        bool stops = at < (int)m.m.size();
        MC_CHECK(r == (stops ? w.ret : 0), "iterate returned %d", r); MC_CHECK(w.seen.size() == (stops ? at + 1 : m.m.size()), "iterate made %zu visits, stop at %d of %zu", w.seen.size(), at, m.m.size());
        for (auto &p : w.seen) MC_CHECK(m.has(p.first) && m.m[p.first] == p.second, "iterate visited a foreign entry"); break; }
    }
    uint64_t h = compare(mp, m, K, "op");
    if (do_prune) mc::prune(h, depth - d);
  }
  uint64_t h = 7; for (auto &p : m.m) h = mc::mix(mc::mix(h, p.first), p.second); for (int k : m.order) h = mc::mix(h, k);
  mc::outcome(h);
  cee_del(mp); cee_del(st.s);
}
// every AVL shape with up to N nodes, then `ops` insertions (in every gap) and removals (of every node)
static void shapes(int N, int ops) {
  int n = choose(N + 1, "nodes"); auto &sh = avl_shapes(n); const Shape &s = sh[choose(sh.size(), "shape")];
  St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; cee_map *mp = cee_map_mk_e(st, o, kcmp); Model m; long nv = 1; int K = 2 * n + 1;
  step("AVL shape with %d nodes, height %d", n, s.h);
  for (int r : s.level_order) { cee_map_add(mp, key(2 * r + 1), val(nv)); m.put(2 * r + 1, nv++); }
  for (int d = 0; d < ops; d++) {
    int k = choose(K, "key");
    if (m.has(k)) { step("remove %d", k); void *old = cee_map_remove(mp, key(k)); MC_CHECK(valof(old) == m.m[k], "remove(%d) returned %ld, expected %ld", k, valof(old), m.m[k]); m.del(k); }
    else { step("add %d", k); MC_CHECK(cee_map_add(mp, key(k), val(nv)) == NULL, "add of an absent key returned a value"); m.put(k, nv++); }
    if (d == ops - 1 || choose(1) == 0) compare(mp, m, K, "op");
  }
  mc::outcome(mc::hash_bytes(m.order.data(), m.order.size() * sizeof(int)));
  cee_del(st.s);
}
struct MergeCtx { int mode; const Model *d, *s; int calls; };
static void *merger(void *c, void *o, void *n) { MergeCtx *x = (MergeCtx *)c; x->calls++; return x->mode == 1 ? o : x->mode == 2 ? n : val(5000 + valof(o) * 64 + valof(n)); }
static void merges(int K) {
  St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; int da = choose(1 << K, "dest keys"), sa = choose((1 << K) + 1, "src keys"), mode = choose(4, "merge"), rev = choose(2, "order");
  cee_map *d = cee_map_mk_e(st, o, kcmp), *s = sa == 1 << K ? d : cee_map_mk_e(st, o, kcmp); Model md, ms; long nv = 1;
  for (int i = 0; i < K; i++) { int k = rev ? K - 1 - i : i; if (da >> k & 1) { cee_map_add(d, key(k), val(nv)); md.put(k, nv++); } }
  if (s != d) for (int i = 0; i < K; i++) { int k = rev ? i : K - 1 - i; if (sa >> k & 1) { cee_map_add(s, key(k), val(nv)); ms.put(k, nv++); } } else ms = md;
  step("merge keys %x into %x, mode %d", sa, da, mode);
  MergeCtx c{mode, &md, &ms, 0}; Model before = md; int common = 0;
  cee_map_merge(d, s, &c, mode ? merger : NULL);
  for (auto &p : ms.m) { long e = p.second; if (before.has(p.first)) { common++; long ov = before.m[p.first]; e = mode == 0 || mode == 2 ? p.second : mode == 1 ? ov : 5000 + ov * 64 + p.second; } md.put(p.first, e); }
  MC_CHECK(mode == 0 || c.calls == common, "merge function called %d times for %d common keys", c.calls, common);
  // the order among newly added keys is not specified: adopt the observed one when it is a permutation
  if (s != d) {
    cee_list *os = cee_map_insertion_ordered_keys(d); size_t nb = before.order.size();
    MC_CHECK(cee_list_size(os) == md.m.size(), "ordered keys: %zu of %zu", cee_list_size(os), md.m.size());
    std::vector<int> got; for (size_t i = 0; i < cee_list_size(os); i++) got.push_back(keyof(os->a[i]));
    MC_CHECK(std::equal(before.order.begin(), before.order.end(), got.begin()), "merge reordered the keys already present");
    auto a = got, b = md.order; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MC_CHECK(a == b, "merge changed the set of ordered keys"); (void)nb; md.order = got;
  }
  compare(d, md, K, "merge"); if (s != d) compare(s, ms, K, "merge source");
  int k = choose(K, "key"); void *old = cee_map_remove(d, key(k)); MC_CHECK(valof(old) == (md.has(k) ? md.m[k] : -1), "remove after merge"); if (md.has(k)) md.del(k);
  compare(d, md, K, "remove after merge"); if (s != d) compare(s, ms, K, "source after change of dest");
  cee_del(st.s);
}
static void clones(int K) {
  St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; int a = choose(1 << K, "keys"); cee_map *s = cee_map_mk_e(st, o, kcmp); Model ms; long nv = 1;
  for (int k = 0; k < K; k++) if (a >> k & 1) { cee_map_add(s, key(k), val(nv)); ms.put(k, nv++); }
  step("clone keys %x", a); cee_map *d = cee_map_clone(s); Model md = ms;
  MC_CHECK(d != s && d, "clone returned the original");
  compare(d, md, K, "clone", false); compare(s, ms, K, "cloned");
  cee_map *t[2] = {s, d}; Model *m[2] = {&ms, &md};
  for (int i = 0; i < 2; i++) { int w = choose(2, "which"), k = choose(K, "key");
    if (m[w]->has(k)) { step("remove %d from %d", k, w); MC_CHECK(valof(cee_map_remove(t[w], key(k))) == m[w]->m[k], "remove"); m[w]->del(k); }
    else { step("add %d to %d", k, w); MC_CHECK(!cee_map_add(t[w], key(k), val(nv)), "add"); m[w]->put(k, nv++); }
    compare(s, ms, K, "original"); compare(d, md, K, "clone", false); }
  cee_del(st.s);
}
static void nulls() {
  int k = choose(2, "NULL key or NULL map"); step("NULL %s", k ? "key" : "map");
  Walk w{{}, -1, 0};
  if (k == 0) { MC_CHECK(cee_map_size(NULL) == 0 && cee_map_find(NULL, tok(1)) == NULL && cee_map_remove(NULL, tok(1)) == NULL && cee_map_iterate(NULL, &w, visit) == 0 && w.seen.empty(), "NULL map"); }
  else { St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; cee_map *mp = cee_map_mk_e(st, o, kcmp); Model m; cee_map_add(mp, key(1), val(1)); m.put(1, 1);
    MC_CHECK(!cee_map_add(mp, NULL, val(2)) && !cee_map_find(mp, NULL) && !cee_map_remove(mp, NULL) && !cee_map_rename(mp, NULL, key(1)) && !cee_map_rename(mp, key(1), NULL), "NULL key"); compare(mp, m, 3, "NULL key"); }
}
// string keys through the default constructor, long enough to pass the ordered list's initial capacity
static void strings(int N) {
  St st; int n = choose(N + 1, "keys"), rot = choose(4, "order"); cee_map *mp = cee_map_mk(st, (cee_cmp_fun)strcmp); std::vector<std::string> order; char b[32];
  for (int i = 0; i < n; i++) { int k = rot == 0 ? i : rot == 1 ? n - 1 - i : rot == 2 ? (i * 7) % n : (i * 5 + 3) % n; snprintf(b, 32, "key%03d", k); bool dup = std::find(order.begin(), order.end(), b) != order.end();
    void *r = cee_map_add(mp, cee_str_mk(st, "%s", b), cee_str_mk(st, "v%d", k)); MC_CHECK((r != NULL) == dup, "add %s", b); if (!dup) order.push_back(b); }
  int del = choose(3, "remove"); if (del && !order.empty()) { size_t at = del == 1 ? 0 : order.size() / 2; void *v = cee_map_remove(mp, (void *)order[at].c_str()); MC_CHECK(v && ((char *)v)[0] == 'v', "remove"); order.erase(order.begin() + at); }
  step("%d string keys, order %d, removal %d", n, rot, del);
  cee_list *os = cee_map_insertion_ordered_keys(mp); MC_CHECK(cee_list_size(os) == order.size() && cee_map_size(mp) == order.size(), "%zu ordered keys, size %zu, expected %zu", cee_list_size(os), (size_t)cee_map_size(mp), order.size());
  for (size_t i = 0; i < order.size(); i++) { MC_CHECK(order[i] == (char *)os->a[i], "ordered key %zu is %s, expected %s", i, (char *)os->a[i], order[i].c_str());
    void *v = cee_map_find(mp, (void *)order[i].c_str()); MC_CHECK(v && order[i] == mc::fmt("key%03d", atoi((char *)v + 1)), "find(%s)", order[i].c_str()); }
  cee_del(st.s);
}
// many entries: filled, partly removed, renamed, replaced, refilled, merged and cloned
static void tides(int maxn) {
  St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; cee_map *mp = cee_map_mk_e(st, o, kcmp); Model m; long nv = 1; static const int B[] = {255, 256, 257, 1023, 1024, 1025, 2049}; int n = choose(maxn + mc::tier(4, 7), "fill"); n = n < maxn ? (1 + n) * 29 : B[n - maxn]; int ord = choose(4, "order"), part = choose(4, "part removed"), then = choose(4, "then"); auto at = [&](int i) { return ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i * 29 + i / (n / 29 ? n : 1)) % n : (i & 1) ? n - 1 - i / 2 : i / 2; };
  step("%d entries in order %d, part %d removed, then %d", n, ord, part, then); auto put = [&](int k) { void *old = cee_map_add(mp, key(k), val(nv)); long e = m.has(k) ? m.m[k] : -1; MC_CHECK(valof(old) == e, "add(%d) returned %ld, expected %ld", k, valof(old), e); m.put(k, nv++); };
  for (int i = 0; i < n; i++) put(at(i)); compare(mp, m, n + 1, "fill");
  for (int i = 0; i < n; i++) { int k = at(i); bool gone = part == 0 ? i % 2 : part == 1 ? i < n - 3 : part == 2 ? k >= n / 4 : i % 5; if (!gone || !m.has(k)) continue; void *old = cee_map_remove(mp, key(k)); MC_CHECK(valof(old) == m.m[k], "remove(%d) returned %ld", k, valof(old)); m.del(k); } compare(mp, m, n + 1, "drain");
  if (then == 0) { for (int i = 0; i < n; i++) put(n - 1 - i); }
  else if (then == 1) { for (int i = 0; i < n; i++) { int k = at(i); if (!m.has(k)) continue; long v = m.m[k]; MC_CHECK(cee_map_rename(mp, key(k), key(n + k)), "rename(%d) fails", k); m.del(k); m.put(n + k, v); } }
  else if (then == 2) { cee_map *s = cee_map_mk_e(st, o, kcmp); for (int i = 0; i < n; i += 3) cee_map_add(s, key(i), val(100000 + i)); cee_map_merge(mp, s, NULL, NULL); std::vector<int> before = m.order; for (int i = 0; i < n; i += 3) m.put(i, 100000 + i); compare(mp, m, 2 * n, "merge", false); MC_CHECK(cee_map_size(s) == (size_t)(n + 2) / 3, "the source changed"); cee_list *os = cee_map_insertion_ordered_keys(mp); for (size_t i = 0; i < before.size(); i++) MC_CHECK(keyof(os->a[i]) == before[i], "merge reordered the present keys"); for (size_t i = before.size(); i < m.order.size(); i++) m.order[i] = keyof(os->a[i]); }
  else { cee_map *c = cee_map_clone(mp); compare(c, m, n + 1, "clone", false); for (int i = 0; i < n; i += 2) cee_map_remove(c, key(i)); compare(mp, m, n + 1, "cloned"); }
  compare(mp, m, 2 * n, "end"); cee_del(mp); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// more entries than fit 15 or 16 bits
static void huge() {
  static const int N[] = {32767, 32769, 65535, 65536, 65537, 70001}; int n = N[choose(6, "entries")], down = choose(2, "order"), what = choose(5, "removed"); St st; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; cee_map *mp = cee_map_mk_e(st, o, kcmp); step("%d entries, order %d, removing %d", n, down, what); auto at = [&](int i) { return down ? n - 1 - i : i; };
  for (int i = 0; i < n; i++) MC_CHECK(!cee_map_add(mp, key(at(i)), val(at(i) % 1000)), "a fresh key has a value"); std::vector<int> gone; if (what) gone.push_back(at(what == 1 ? 0 : what == 2 ? n - 1 : what == 3 ? n / 2 : n - 40)); if (what == 4) gone.push_back(at(n - 2));
  for (int k : gone) { void *r = cee_map_remove(mp, key(k)); MC_CHECK(valof(r) == k % 1000, "removing %d gives %ld", k, valof(r)); MC_CHECK(!cee_map_remove(mp, key(k)), "%d is removed twice", k); } cee_map_add(mp, key(n + 7), val(5));
  auto in = [&](int k) { return k == n + 7 || (k < n && std::find(gone.begin(), gone.end(), k) == gone.end()); }; size_t left = n - gone.size() + 1; MC_CHECK(cee_map_size(mp) == left, "size %zu, expected %zu", (size_t)cee_map_size(mp), left);
  for (int k = 0; k < n + 9; k += k > n - 60 || k < 5 ? 1 : 509) { void *r = cee_map_find(mp, key(k)); MC_CHECK(valof(r) == (in(k) ? k == n + 7 ? 5 : k % 1000 : -1), "find(%d) gives %ld", k, valof(r)); }
  Walk w; w.stop_at = -1; w.ret = 0; cee_map_iterate(mp, &w, visit); std::vector<int> seen; for (auto &p : w.seen) seen.push_back(p.first); std::sort(seen.begin(), seen.end()); std::vector<int> want; for (int k = 0; k < n + 9; k++) if (in(k)) want.push_back(k); MC_CHECK(seen == want, "iterating meets %zu entries, expected %zu", seen.size(), want.size());
  cee_list *ks = cee_map_keys(mp), *vs = cee_map_values(mp), *os = cee_map_insertion_ordered_keys(mp); MC_CHECK(cee_list_size(ks) == left && cee_list_size(vs) == left && cee_list_size(os) == left, "%zu keys, %zu values, %zu keys in order, expected %zu", cee_list_size(ks), cee_list_size(vs), cee_list_size(os), left);
  size_t q = 0; for (int i = 0; i < n; i++) if (in(at(i))) { MC_CHECK(keyof(os->a[q]) == at(i), "key %zu in order is %d, expected %d", q, keyof(os->a[q]), at(i)); q++; } MC_CHECK(keyof(os->a[q]) == n + 7, "the last key in order is %d", keyof(os->a[q])); seen.clear(); for (size_t i = 0; i < left; i++) seen.push_back(keyof(ks->a[i])); std::sort(seen.begin(), seen.end()); MC_CHECK(seen == want, "the keys differ");
  mc::state((n * 2 + down) * 5 + what); cee_del(ks); cee_del(vs); cee_del(os); cee_del(mp); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() {
  mc::add("huge", huge, 2);
  mc::add("tides", [] { tides(mc::tier(14, 40)); }, 3);
  mc::add("nulls", nulls, 0);
  mc::add("merge", [] { merges(mc::tier(4, 5)); }, 2);
  mc::add("clone", [] { clones(mc::tier(5, 8)); }, 2);
  mc::add("strings", [] { strings(mc::tier(40, 120)); }, 1);
  mc::add("histories", [] { histories(4, mc::tier(4, 5), false); }, 3);
  mc::add("histories-states", [] { histories(5, mc::tier(7, 9), true); }, 3);
  mc::add("shapes", [] { shapes(mc::tier(10, 14), 2); }, 3);
}
