#include "common.hpp"
// Two states; every object kind; growth, deletion, collection; any order of deleting the states.
struct Tracked { void *p; std::string text; bool owned; size_t blocks; int op; };
struct Side { cee_state *s; std::vector<Tracked> t; size_t blocks; int seq = 0; bool alive = true; std::set<void *> anchors; };
static std::string T(Side &d, const char *w) { return mc::fmt("%s %d", w, d.seq); }
static const int NOPS = 19;
static const char *ON[] = {"str", "str grown by malloc", "str grown by realloc", "block", "boxed", "list", "set", "map", "dict", "stack", "products", "tagged", "env and closure", "clone and union", "list of keys", "root the last", "context", "delete the last", "collect"};
static void build(Side &d, int op) {
  cee_state *s = d.s; d.seq++; void *p = NULL; std::string text; auto S = [&](const std::string &x) { return cee_str_mk(s, "%s", x.c_str()); };
  switch (op) {
  case 0: text = T(d, "str"); p = S(text); break;
  case 1: case 2: { text = T(d, "str"); cee_str *q = S(text); if (op == 2) cee_use_realloc(q); for (int i = 0; i < 3; i++) { q = cee_str_catf(q, "%090d", i); text += mc::fmt("%090d", i); } q = cee_str_add(q, '!'); text += '!'; p = q; break; }
  case 3: text = T(d, "block"); p = cee_block_mk(s, 40); strcpy((char *)p, text.c_str()); break;
  case 4: p = cee_boxed_from_i64(s, d.seq); cee_boxed_from_double(s, .5); break;
  case 5: { cee_list *l = cee_list_mk(s, 0); for (int i = 0; i < 9; i++) cee_list_append(l, S("e")); cee_list_insert(l, 4, S("i")); cee_list_remove(l, 2); p = l; break; }
  case 6: { cee_set *l = cee_set_mk(s, (cee_cmp_fun)strcmp); for (int i = 0; i < 6; i++) cee_set_add(l, S(std::to_string(i % 4))); cee_set_remove(l, (void *)"1"); if (d.seq & 1) { cee_set_clear(l); cee_set_add(l, S("z")); } p = l; break; }
  case 7: { cee_map *l = cee_map_mk(s, (cee_cmp_fun)strcmp); for (int i = 0; i < 7; i++) cee_map_add(l, S(std::to_string(i % 5)), S("v")); cee_map_remove(l, (void *)"3"); cee_map_rename(l, (void *)"2", S("new")); p = l; break; }
  case 8: { cee_dict *l = cee_dict_mk(s, 2); for (int i = 0; i < 20; i++) cee_dict_add(l, (char *)S(std::to_string(i % 15)), S("v")); p = l; break; }
  case 9: { cee_stack *l = cee_stack_mk(s, 3); for (int i = 0; i < 4; i++) cee_stack_push(l, S("e")); cee_stack_pop(l); p = l; break; }
  case 10: { cee_str *a = S("a"), *b = S("b"); cee_tuple *t = cee_tuple_mk(s, a, b); cee_triple *u = cee_triple_mk(s, a, b, t); cee_del_policy o[4] = {CEE_DP_DEL_RC, CEE_DP_NOOP, CEE_DP_DEL_RC, CEE_DP_NOOP}; cee_quadruple *q = cee_quadruple_mk_e(s, o, u, a, a, b); p = cee_n_tuple_mk(s, 3, q, a, b); break; }
  case 11: p = cee_tagged_mk(s, 3, S("tagged")); cee_tagged_mk(s, 4, NULL); break;
  case 12: { cee_map *m = cee_map_mk(s, (cee_cmp_fun)strcmp); cee_map_add(m, S("x"), S("1")); cee_env *e = cee_env_mk(s, NULL, m), *f = cee_env_mk(s, e, NULL); p = cee_closure_mk(s, f, NULL); break; }
  case 13: { cee_map *m = cee_map_mk(s, (cee_cmp_fun)strcmp); for (int i = 0; i < 4; i++) cee_map_add(m, S(std::to_string(i)), S("v")); p = cee_map_clone(m); break; }
  case 14: { cee_map *m = cee_map_mk(s, (cee_cmp_fun)strcmp); for (int i = 0; i < 4; i++) cee_map_add(m, S(std::to_string(i)), S("v")); p = m; cee_list *k = cee_map_keys(m), *v = cee_map_values(m); cee_map_insertion_ordered_keys(m); cee_list_merge(k, v); cee_del(v); break; }
  }
  d.t.push_back({p, text, false, 0, op});
}
static void intact(Side &d) { for (auto &t : d.t) { MC_CHECK(mc::is_live(t.p), "an object (%s) of a live state is freed", ON[t.op]); if (!t.text.empty()) MC_CHECK(t.text == (char *)t.p, "a string of a live state changed"); } }
static void run(int nstates, int depth, const std::vector<int> &ops) {
  size_t start = mc::live_blocks(); std::vector<Side> d(nstates); static const size_t SZ[] = {0, 3};
  for (int i = 0; i < nstates; i++) { size_t b = mc::live_blocks(); d[i].s = cee_state_mk(SZ[i & 1]); d[i].blocks = mc::live_blocks() - b; }
  for (int k = 0; k < depth; k++) {
    int w = nstates > 1 ? choose(nstates, "state") : 0, op = ops[choose(ops.size(), "op")]; Side &x = d[w]; size_t b = mc::live_blocks(); step("state %d: %s", w, ON[op]);
    if (op < 15) build(x, op);
    else if (op == 15) { if (x.t.empty()) mc::skip(); cee_state_add_gc_root(x.s, x.t.back().p); x.anchors.insert(x.t.back().p); }
    else if (op == 16) { if (x.t.empty()) mc::skip(); cee_state_add_context(x.s, (char *)cee_str_mk(x.s, "key%d", x.seq++), x.t.back().p); x.anchors.insert(x.t.back().p); }
    else if (op == 17) { if (x.t.empty() || x.anchors.count(x.t.back().p)) mc::skip(); void *p = x.t.back().p; cee_del(p); x.t.pop_back(); MC_CHECK(!mc::is_live(p), "cee_del leaves the object"); }
    else { cee_state_gc(x.s); std::vector<Tracked> keep; for (auto &t : x.t) if (x.anchors.count(t.p)) keep.push_back(t); x.t = keep; }
    x.blocks += mc::live_blocks() - b; uint64_t h = 1; for (auto &y : d) { intact(y); h = mc::mix(h, y.blocks); for (auto &t : y.t) h = mc::mix(h, t.op); } mc::state(h);
  }
  std::vector<int> left; for (int i = 0; i < nstates; i++) left.push_back(i);
  while (!left.empty()) {
    int i = choose(left.size(), "delete state"), w = left[i]; left.erase(left.begin() + i); step("delete state %d", w); size_t b = mc::live_blocks(); cee_del(d[w].s);
    MC_CHECK(b - mc::live_blocks() == d[w].blocks, "deleting a state frees %zu blocks, it owned %zu", b - mc::live_blocks(), d[w].blocks); for (auto &t : d[w].t) MC_CHECK(!mc::is_live(t.p), "an object outlives its state"); for (int o : left) { intact(d[o]); build(d[o], 1); intact(d[o]); d[o].blocks = 0; for (int q : left) if (q != o) d[o].blocks = 0; }
    size_t rest = mc::live_blocks() - start; if (left.empty()) MC_CHECK(rest == 0, "%zu blocks outlive all states", rest); else if (left.size() == 1) d[left[0]].blocks = rest;
  }
  mc::outcome(mc::alloc_total());
}
// many objects, deleted one by one in several patterns before the state itself
static void crowd() {
  static const int N[] = {30, 300, 1500, 4000}; int n = N[choose(mc::tier(3, 4), "objects")], pat = choose(7, "pattern"), gc = choose(3, "collect"), grow = choose(2, "grow"); Side x; x.s = cee_state_mk(4);
  std::vector<void *> o(n); std::vector<std::string> t(n); std::vector<char> live(n, 1); step("%d objects, pattern %d, collection %d, growth %d", n, pat, gc, grow);
  for (int i = 0; i < n; i++) switch (i % 5) { case 0: t[i] = mc::fmt("text %d", i); o[i] = cee_str_mk(x.s, "%s", t[i].c_str()); if (grow && i % 3 == 0) { t[i] += std::string(100, '+'); o[i] = cee_str_catf((cee_str *)o[i], "%s", std::string(100, '+').c_str()); } break;
    case 1: t[i] = mc::fmt("block %d", i); o[i] = cee_block_mk(x.s, 30); strcpy((char *)o[i], t[i].c_str()); break; case 2: o[i] = cee_boxed_from_i32(x.s, i); break; case 3: o[i] = cee_list_mk(x.s, 1); break; default: o[i] = cee_tuple_mk(x.s, o[i - 1], o[i - 2]); }
  auto all = [&] { for (int i = 0; i < n; i++) { MC_CHECK(mc::is_live(o[i]) == (bool)live[i], "object %d of %d is %s", i, n, live[i] ? "freed" : "live"); if (live[i] && !t[i].empty()) MC_CHECK(t[i] == (char *)o[i], "object %d of %d changed", i, n); } };
  all(); auto del = [&](int i) { if (i % 5 == 4 || i < 0 || i >= n || !live[i]) return; if ((i % 5 == 2 || i % 5 == 3) && i - i % 5 + 4 < n && live[i - i % 5 + 4]) { int q = i - i % 5 + 4; cee_del(o[q]); live[q] = 0; live[q - 1] = 0; live[q - 2] = 0; return; } cee_del(o[i]); live[i] = 0; };
  switch (pat) { case 1: for (int i = n - 1; i >= 0; i--) del(i); break; case 2: for (int i = 0; i < n; i++) del(i); break; case 3: for (int i = 0; i < n; i += 2) del(i); break; case 4: for (int i = n - 1; i >= 0; i -= 3) del(i); break;
    case 5: for (int i = n / 3; i < 2 * n / 3; i++) del(i); break; case 6: for (int i = 0; i < n; i++) del((int)(i * 7919ll % n)); break; }
  all(); if (gc) { cee_list *l = cee_list_mk(x.s, 1); for (int i = 0; i < n; i++) if (live[i] && i % 4 == 0) cee_list_append(l, o[i]); cee_state_add_gc_root(x.s, l);
    std::vector<char> reach(n, 0); for (int i = 0; i < n; i++) if (live[i] && i % 4 == 0) { reach[i] = 1; if (i % 5 == 4) reach[i - 1] = reach[i - 2] = 1; } for (int k = 0; k < gc * 2 - 1; k++) cee_state_gc(x.s); for (int i = 0; i < n; i++) live[i] = reach[i]; all(); }
  mc::state(n * 50 + pat * 6 + gc * 2 + grow); cee_del(x.s); MC_CHECK(!mc::live_blocks(), "%zu blocks outlive the state", mc::live_blocks());
}
// up to 20 states alive at once, their objects made in turn; any of several orders of deleting the states
static void many_states() {
  int m = 2 + choose(19, "states"), order = choose(4, "order"), n = choose(2, "objects") ? 40 : 6; std::vector<cee_state *> s(m); std::vector<std::vector<std::pair<void *, std::string>>> o(m); std::vector<char> live(m, 1); std::vector<size_t> blocks(m); step("%d states, order %d", m, order);
  for (int i = 0; i < m; i++) { size_t b = mc::live_blocks(); s[i] = cee_state_mk(i % 5 * 3); blocks[i] = mc::live_blocks() - b; }
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { size_t b = mc::live_blocks(); std::string t = mc::fmt("%d of %d", j, i); o[i].push_back({cee_str_mk(s[i], "%s", t.c_str()), t}); if (j % 3 == 2) { cee_list *l = cee_list_mk(s[i], 1); cee_list_append(l, o[i].back().first); cee_list_append(l, o[i][j / 2].first); } if (j == 4 && n > 6) { cee_del(o[i][0].first == NULL ? NULL : (void *)cee_str_mk(s[i], "gone")); } blocks[i] += mc::live_blocks() - b; }
  for (int k = 0; k < m; k++) { int i = order == 0 ? k : order == 1 ? m - 1 - k : order == 2 ? (k * 2 < m ? k * 2 : (k - (m + 1) / 2) * 2 + 1) : (m / 2 + (k % 2 ? -(k + 1) / 2 : k / 2) + m) % m;
    if (!live[i]) mc::fail("the order of the check visits a state twice"); size_t b = mc::live_blocks(); cee_del(s[i]); live[i] = 0; MC_CHECK(b - mc::live_blocks() == blocks[i], "deleting a state of %d frees %zu blocks, it owned %zu", m, b - mc::live_blocks(), blocks[i]);
    for (int q = 0; q < m; q++) for (auto &x : o[q]) { MC_CHECK(mc::is_live(x.first) == (bool)live[q], "an object of state %d is %s", q, live[q] ? "freed" : "live"); if (live[q]) MC_CHECK(x.second == (char *)x.first, "an object of a live state changed"); } }
  MC_CHECK(!mc::live_blocks(), "%zu blocks outlive all states", mc::live_blocks()); mc::state(m * 8 + order * 2 + (n > 6));
}
// dictionaries whose table gets no memory, between objects that are made, deleted and collected; then the state goes
static void failed_dicts() {
  static const int SZ[] = {50, 64, 100, 400, 1000}; int n = SZ[choose(5, "size")], tries = 1 + choose(3, "tries"), before = choose(3, "objects before"), after = choose(3, "objects after"), end = choose(4, "then"); St x; std::vector<void *> o; std::string t = "text"; step("%d dictionaries of size %d without memory", tries, n);
  for (int i = 0; i < before; i++) o.push_back(cee_str_mk(x.s, "text")); if (before) cee_state_add_gc_root(x.s, o[0]);
  for (int i = 0; i < tries; i++) { size_t b = mc::live_blocks(); mc::refuse(0, 10 * n + 200); cee_dict *d = nullptr; bool t = mc::traps([&] { d = cee_dict_mk(x.s, n); }); mc::refuse(0, 0); if (t) return; if (d) { MC_CHECK(!cee_dict_find(d, (char *)"nothing"), "an empty dictionary finds a key"); continue; } MC_CHECK(mc::live_blocks() == b, "a dictionary that is not made leaves %zd blocks", mc::live_blocks() - b); for (int k = 0; k < after; k++) o.push_back(cee_str_mk(x.s, "text")); }
  if (end & 1) { cee_state_gc(x.s); for (size_t i = 0; i < o.size(); i++) MC_CHECK(mc::is_live(o[i]) == (before && !i), "object %zu is %s after a collection", i, mc::is_live(o[i]) ? "live" : "freed"); if (before) o.resize(1); else o.clear(); }
  if (end & 2) { cee_dict *d = cee_dict_mk(x.s, n); MC_CHECK(d, "no dictionary with memory"); char *k = (char *)cee_str_mk(x.s, "key"); cee_dict_add(d, k, cee_str_mk(x.s, "value")); MC_CHECK(!strcmp((char *)cee_dict_find(d, k), "value"), "the key is not found"); for (int i = (int)o.size() - 1; i > 0; i--) cee_del(o[i]); o.resize(o.size() ? 1 : 0); }
  for (void *p : o) MC_CHECK(mc::is_live(p) && t == (char *)p, "an object changed"); mc::state(((n * 4 + tries) * 3 + before) * 12 + after * 4 + end); cee_del(x.s); x.s = nullptr; MC_CHECK(!mc::live_blocks(), "%zu blocks outlive the state", mc::live_blocks());
}
void mc_register() {
  mc::add("failed-dicts", failed_dicts, 3);
  mc::add("crowd", crowd, 3); mc::add("many-states", many_states, 2);
  static std::vector<int> all, light = {0, 1, 2, 5, 7, 8, 15, 17, 18}; for (int i = 0; i < NOPS; i++) all.push_back(i);
  mc::add("one-state", [] { run(1, mc::tier(4, 5), all); }, 2); mc::add("two-states", [] { run(2, mc::tier(2, 3), all); }, 2); mc::add("two-states-light", [] { run(2, mc::tier(4, 5), light); }, 3); mc::add("one-state-deep", [] { run(1, mc::tier(5, 7), light); }, 3);
}
