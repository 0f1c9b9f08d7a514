#include "common.hpp"
typedef std::vector<void *> Seq;

static void compare(cee_list *l, const Seq &m, const char *after) {
  MC_CHECK(cee_list_size(l) == m.size(), "%s: size is %zu, expected %zu", after, cee_list_size(l), m.size());
  MC_CHECK(cee_list_capacity(l) >= m.size(), "%s: capacity %zu below size %zu", after, cee_list_capacity(l), m.size());
  uint64_t h = mc::mix(cee_list_size(l), cee_list_capacity(l));
  for (size_t i = 0; i < m.size(); i++) {
    MC_CHECK(l->a[i] == m[i], "%s: element %zu is #%ld, expected #%ld", after, i, untok(l->a[i]), untok(m[i]));
    h = mc::mix(h, untok(m[i]));
  }
  mc::state(h);
}
struct It { const Seq *m; int stop_at, stop_val, n; bool bad; };
static int visit(void *c, void *e, int idx) {
  It *it = (It *)c;
  if (idx != it->n || it->n >= (int)it->m->size() || (*it->m)[it->n] != e) it->bad = true;
  it->n++;
  return it->n - 1 == it->stop_at ? it->stop_val : 0;
}
static void iterate(cee_list *l, const Seq &m, int stop_at, int val) {
  It it{&m, stop_at, val, 0, false};
  int r = cee_list_iterate(l, &it, visit);
  bool stops = stop_at >= 0 && stop_at < (int)m.size();
  MC_CHECK(!it.bad, "iterate visits the wrong element or index");
  MC_CHECK(it.n == (stops ? stop_at + 1 : (int)m.size()), "iterate visited %d elements of %zu (stop at %d)", it.n, m.size(), stop_at);
  MC_CHECK(r == (stops ? val : 0), "iterate returned %d, expected %d", r, stops ? val : 0);
}
static void one_op(cee_list *l, Seq &m, long &next) {
  int sz = m.size();
  switch (choose(4, "op")) {
  case 0: step("append #%ld", next); cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; compare(l, m, "append"); break;
  case 1: { int i = choose(sz + 1, "insert at"); step("insert #%ld at %d", next, i); cee_list_insert(l, i, tok(next)); m.insert(m.begin() + i, tok(next)); next++; compare(l, m, "insert"); break; }
  case 2: { int i = choose(sz + 3, "remove at"); if (i == sz + 2) i = -1;
      step("remove at %d of %d", i, sz); bool r = cee_list_remove(l, i); bool ok = i >= 0 && i < sz;
      MC_CHECK(r == ok, "remove(%d) of %d elements returned %d", i, sz, r);
      if (ok) m.erase(m.begin() + i); compare(l, m, "remove"); break; }
  case 3: { int at = choose(sz + 1, "stop at") - 1; step("iterate, stop at %d", at); iterate(l, m, at, at & 1 ? -7 : 100); compare(l, m, "iterate"); break; }
  }
}
static void histories(int depth, int maxcap) {
  St st; int cap = choose(maxcap + 1, "capacity"); step("list of capacity %d", cap);
  cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, cap); Seq m; long next = 1;
  compare(l, m, "mk");
  for (int d = 0; d < depth; d++) one_op(l, m, next);
  uint64_t h = 0; for (void *e : m) h = mc::mix(h, untok(e));
  mc::outcome(h);
  cee_del(l); cee_del(st.s);
}
// from non-initial states: every prefill size and capacity, so growth happens at every phase
static void large(int maxn, int depth) {
  St st; int n = choose(maxn + 1, "prefill"), cap = choose(4, "capacity");
  int caps[] = {0, 1, n, n + 1};
  cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, caps[cap]); Seq m; long next = 1;
  step("prefill %d, capacity %d", n, caps[cap]);
  for (int i = 0; i < n; i++) { cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; }
  compare(l, m, "prefill");
  for (int d = 0; d < depth; d++) {
    int sz = m.size(); int pos[] = {0, sz / 2, sz - 1, sz};
    switch (choose(3, "op")) {
    case 0: step("append"); cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; break;
    case 1: { int i = pos[choose(4, "where")]; if (i < 0) i = 0; step("insert at %d", i); cee_list_insert(l, i, tok(next)); m.insert(m.begin() + i, tok(next)); next++; break; }
    case 2: { int i = pos[choose(4, "where")]; step("remove at %d", i); bool r = cee_list_remove(l, i); bool ok = i >= 0 && i < sz; MC_CHECK(r == ok, "remove(%d) returned %d", i, r); if (ok) m.erase(m.begin() + i); break; }
    }
    compare(l, m, "op");
  }
  iterate(l, m, -1, 0);
  cee_del(st.s);
}
static void merges(int maxn) {
  St st; int a = choose(maxn + 1, "dest size"), b = choose(maxn + 2, "src size"), cap = choose(maxn + 1, "dest capacity");
  cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, cap), *s = b == maxn + 1 ? l : cee_list_mk_e(st, CEE_DP_NOOP, 1); Seq m, ms; long next = 1;
  for (int i = 0; i < a; i++) { cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; }
  if (s != l) for (int i = 0; i < b; i++) { cee_list_append(s, tok(next)); ms.push_back(tok(next)); next++; } else ms = m;
  step("merge %d elements into %d%s", (int)ms.size(), a, s == l ? " (itself)" : "");
  cee_list_merge(l, s); m.insert(m.end(), ms.begin(), ms.end());
  compare(l, m, "merge"); if (s != l) compare(s, ms, "merge source");
  cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; compare(l, m, "append after merge"); if (s != l) compare(s, ms, "source after append");
  if (s != l) { cee_list_append(s, tok(next)); ms.push_back(tok(next)); next++; compare(s, ms, "append to source"); compare(l, m, "after append to source"); }
  cee_del(st.s);
}
// two lists of one state driven alternately: neither disturbs the other
static void pair(int depth) {
  St st; cee_list *l[2] = {cee_list_mk_e(st, CEE_DP_NOOP, 1), cee_list_mk_e(st, CEE_DP_NOOP, 0)}; Seq m[2]; long next = 1;
  for (int d = 0; d < depth; d++) {
    int k = choose(2, "which"), sz = m[k].size();
    switch (choose(3, "op")) {
    case 0: step("list %d append", k); cee_list_append(l[k], tok(next)); m[k].push_back(tok(next)); next++; break;
    case 1: step("list %d insert front", k); cee_list_insert(l[k], 0, tok(next)); m[k].insert(m[k].begin(), tok(next)); next++; break;
    case 2: step("list %d remove first", k); MC_CHECK(cee_list_remove(l[k], 0) == (sz > 0), "remove(0) with %d elements", sz); if (sz) m[k].erase(m[k].begin()); break;
    }
    compare(l[0], m[0], "list 0"); compare(l[1], m[1], "list 1");
  }
  cee_del(st.s);
}
static void null_list() {
  step("NULL list"); Seq none;
  MC_CHECK(cee_list_size(NULL) == 0, "size(NULL)"); MC_CHECK(cee_list_capacity(NULL) == 0, "capacity(NULL)");
  MC_CHECK(!cee_list_remove(NULL, choose(3, "idx")), "remove(NULL)"); It it{&none, -1, 0, 0, false};
  MC_CHECK(cee_list_iterate(NULL, &it, visit) == 0 && it.n == 0, "iterate(NULL)");
}
// fill, drain and refill by large amounts, through every combination of amounts and ends
static void tides(int maxn) {
  St st; static const int CAP[] = {0, 3, 64, 200}; cee_list *l = cee_list_mk_e(st, CEE_DP_NOOP, CAP[choose(4, "capacity")]); Seq m; long next = 1; int ra = choose(3, "realloc"); if (ra) cee_use_realloc(l); if (ra > 1) cee_use_malloc(l);
  static const int BIG[] = {1030, 2100, 4200}; int b = choose(maxn + 3, "fill"), up = b < maxn ? 1 + b * 37 : BIG[b - maxn], left = choose(6, "left"), at = choose(3, "remove at"), where = choose(3, "fill at"), every = std::max(16, up / 8); int keep[] = {0, 1, up / 4, up / 3, up / 2, up - 1}; left = keep[left];
  step("fill to %d, drain to %d at %d, refill at %d", up, left, at, where);
  for (int round = 0; round < 2; round++) {
    while ((int)m.size() < up) { if (where + round > 1) { cee_list_insert(l, 0, tok(next)); m.insert(m.begin(), tok(next)); } else { cee_list_append(l, tok(next)); m.push_back(tok(next)); } next++; if (m.size() % every == 1) compare(l, m, "fill"); }
    compare(l, m, "fill");
    while ((int)m.size() > left) { int sz = m.size(), i = at == 0 ? 0 : at == 1 ? sz / 2 : sz - 1; MC_CHECK(cee_list_remove(l, i), "remove(%d) of %d fails", i, sz); m.erase(m.begin() + i); if (sz % every == 1) compare(l, m, "drain"); }
    compare(l, m, "drain"); iterate(l, m, -1, 0);
    cee_list_insert(l, left, tok(next)); m.push_back(tok(next)); next++; compare(l, m, "insert after the drain");
    cee_list_append(l, tok(next)); m.push_back(tok(next)); next++; compare(l, m, "append after the drain");
  }
  cee_del(l); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() {
  mc::add("tides", [] { tides(mc::tier(22, 60)); }, 3);
  mc::add("null", null_list, 0);
  mc::add("merge", [] { merges(mc::tier(5, 12)); }, 2);
  mc::add("histories", [] { histories(mc::tier(6, 7), 3); }, 4);
  mc::add("large", [] { large(mc::tier(70, 300), mc::tier(2, 3)); }, 2);
  mc::add("pair", [] { pair(mc::tier(6, 8)); }, 4);
}
