#include "common.hpp"
typedef std::vector<void *> Seq;
static uint64_t compare(cee_stack *s, const Seq &m, size_t cap, const char *after) {
  MC_CHECK(cee_stack_size(s) == m.size(), "%s: size %zu, expected %zu", after, (size_t)cee_stack_size(s), m.size());
  MC_CHECK(cee_stack_empty(s) == m.empty(), "%s: empty is %d with %zu elements", after, cee_stack_empty(s), m.size());
  MC_CHECK(cee_stack_full(s) == (m.size() == cap), "%s: full is %d with %zu of %zu elements", after, cee_stack_full(s), m.size(), cap);
  uint64_t h = cap;
  for (size_t k = 0; k <= cap + 2; k++) { void *e = k < m.size() ? m[m.size() - 1 - k] : NULL, *t = cee_stack_top(s, k); MC_CHECK(t == e, "%s: top(%zu) of %zu elements is #%ld, expected #%ld", after, k, m.size(), t ? untok(t) : -1, e ? untok(e) : -1); h = mc::mix(h, (uintptr_t)e); }
  MC_CHECK(cee_stack_top(s, (size_t)-1) == NULL, "%s: top(-1)", after);
  mc::state(h); return h;
}
static void op(cee_stack *s, Seq &m, size_t cap, long &next) {
  if (choose(2, "op") == 0) { step("push #%ld", next); int r = cee_stack_push(s, tok(next)); bool ok = m.size() < cap; MC_CHECK(!!r == ok, "push returned %d with %zu of %zu elements", r, m.size(), cap); if (ok) m.push_back(tok(next)); next++; }
  else { void *e = m.empty() ? NULL : m.back(), *p; step("pop"); p = cee_stack_pop(s); MC_CHECK(p == e, "pop returned #%ld, expected #%ld", p ? untok(p) : -1, e ? untok(e) : -1); if (!m.empty()) m.pop_back(); }
}
static void histories(int maxcap, int depth) {
  St st; size_t cap = choose(maxcap + 1, "capacity"); cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, cap); Seq m; long next = 1; step("stack of %zu", cap); compare(s, m, cap, "mk");
  for (int i = 0; i < depth; i++) { op(s, m, cap, next); compare(s, m, cap, "op"); }
  uint64_t h = 0; for (auto e : m) h = mc::mix(h, (uintptr_t)e); mc::outcome(h);
  cee_del(s); cee_del(st.s);
}
static void large(int maxcap) {
  St st; size_t cap = choose(maxcap + 1, "capacity"), fill = choose(cap + 1, "fill"); cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, cap); Seq m; long next = 1; step("stack of %zu filled with %zu", cap, fill);
  while (m.size() < fill) { MC_CHECK(cee_stack_push(s, tok(next)), "push failed at %zu of %zu", m.size(), cap); m.push_back(tok(next++)); }
  compare(s, m, cap, "fill"); for (int i = 0; i < 4; i++) { op(s, m, cap, next); compare(s, m, cap, "op"); }
  while (!m.empty()) { MC_CHECK(cee_stack_pop(s) == m.back(), "pop at %zu", m.size()); m.pop_back(); } compare(s, m, cap, "drained");
  cee_del(st.s);
}
static void pair(int depth) {
  St st; cee_stack *s[2] = {cee_stack_mk_e(st, CEE_DP_NOOP, 2), cee_stack_mk_e(st, CEE_DP_NOOP, 1)}; Seq m[2]; long next = 1;
  for (int i = 0; i < depth; i++) { int w = choose(2, "which"); op(s[w], m[w], 2 - w, next); compare(s[0], m[0], 2, "stack 0"); compare(s[1], m[1], 1, "stack 1"); }
  cee_del(st.s);
}
static void owned() { // default policy, cee elements
  St st; size_t cap = 1 + choose(4, "capacity"); cee_stack *s = cee_stack_mk(st, cap); Seq m;
  for (int i = 0; i < 8; i++) { if (choose(2, "op") == 0) { step("push"); void *e = cee_str_mk(st, "%d", i); int r = cee_stack_push(s, e); MC_CHECK(!!r == (m.size() < cap), "push"); if (r) m.push_back(e); } else { step("pop"); MC_CHECK(cee_stack_pop(s) == (m.empty() ? NULL : m.back()), "pop"); if (!m.empty()) m.pop_back(); } compare(s, m, cap, "op"); }
  cee_del(st.s);
}
static void huge() {
  static const int N[] = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1024, 4096, 65535, 65536, 70000}; int n = N[choose(18, "capacity")], left = choose(4, "drained to"), keep[] = {0, 1, n / 2, n - 1}; St st; cee_stack *s = cee_stack_mk_e(st, CEE_DP_NOOP, n); Seq m; long next = 1; step("stack of %d, drained to %d", n, keep[left]); auto some = [&](const char *w) { MC_CHECK(cee_stack_size(s) == m.size() && cee_stack_full(s) == ((int)m.size() == n) && cee_stack_empty(s) == m.empty(), "%s: size %zu of %zu", w, (size_t)cee_stack_size(s), m.size()); for (int k = 0; k < n + 3; k = k < 5 ? k + 1 : k < n - 5 ? std::min(k * 3 / 2, n - 5) : k + 1) MC_CHECK(cee_stack_top(s, k) == (k < (int)m.size() ? m[m.size() - 1 - k] : NULL), "%s: top(%d) of %zu", w, k, m.size()); };
  for (int round = 0; round < 2; round++) { while ((int)m.size() < n) { MC_CHECK(cee_stack_push(s, tok(next)), "push fails at %zu of %d", m.size(), n); m.push_back(tok(next++)); if (m.size() % 97 == 0) some("fill"); } some("fill"); MC_CHECK(!cee_stack_push(s, tok(next)), "a full stack takes another"); some("refused push"); while ((int)m.size() > keep[left]) { MC_CHECK(cee_stack_pop(s) == m.back(), "pop at %zu", m.size()); m.pop_back(); if (m.size() % 97 == 0) some("drain"); } some("drain"); }
  cee_del(s); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() {
  mc::add("huge", huge, 2);
  mc::add("owned", owned, 3);
  mc::add("pair", [] { pair(mc::tier(8, 10)); }, 3);
  mc::add("large", [] { large(mc::tier(40, 100)); }, 2);
  mc::add("histories", [] { histories(5, mc::tier(15, 20)); }, 5);
}
