#include "common.hpp"
extern "C" cee_set *cee_set_union_set(cee_state *, cee_set *, cee_set *);
extern "C" cee_set *cee_set_clone(cee_set *);
// Reference model of ownership: every object has a count of RC references and a retained flag.
enum { RC = CEE_DP_DEL_RC, DEL = CEE_DP_DEL, NOOP = CEE_DP_NOOP };
enum Kind { LEAF, LIST, SET, MAP, DICT, STACK, TUPLE, TRIPLE, QUAD, NTUPLE, TAGGED, NKIND, ENV };
static const char *KN[] = {"str", "list", "set", "map", "dict", "stack", "tuple", "triple", "quadruple", "n-tuple", "tagged", "", "env"};
struct Slot { int obj, pol, pair; bool operator==(const Slot &o) const { return obj == o.obj && pol == o.pol && pair == o.pair; } };
struct Obj { Kind k; void *p; bool live; int rc; bool ret; int pol, vpol; std::vector<Slot> s; std::string text; };
static std::vector<Obj> W;
static cee_state *ST;
struct Illegal {};
static void hold(int o, int pol) { if (pol == RC) W[o].rc++; else if (pol == DEL) { if (W[o].ret) throw Illegal(); W[o].ret = true; } }
static void drop(int o, int pol) { if (pol == RC) W[o].rc--; else if (pol == DEL) W[o].ret = false; }
static void release(int o, int pol);
static bool g_rev;                     // the order in which a container releases its elements is its own business
static void kill(int o) { if (!W[o].live) throw Illegal(); W[o].live = false; auto s = W[o].s; W[o].s.clear(); if (g_rev) std::reverse(s.begin(), s.end()); for (auto &x : s) release(x.obj, x.pol); }
static void release(int o, int pol) {
  if (pol == NOOP) return;
  if (!W[o].live) throw Illegal();
  if (pol == DEL) { if (W[o].rc) throw Illegal(); kill(o); return; }
  W[o].rc--; if (!W[o].ret && W[o].rc == 0) kill(o);
}
static bool stale(int c) { for (auto &x : W[c].s) if (!W[x.obj].live) return true; return false; }
// after a step of the model: an owner must not be left with a freed element
static void legal() { for (auto &o : W) if (o.live) for (auto &x : o.s) if (x.pol != NOOP && !W[x.obj].live) throw Illegal(); }
static void agree(const char *after) {
  uint64_t h = 1;
  for (size_t i = 0; i < W.size(); i++) {
    bool l = mc::is_live(W[i].p);
    MC_CHECK(l == W[i].live, "%s: %s %zu is %s, expected %s", after, KN[W[i].k], i, l ? "live" : "freed", W[i].live ? "live" : "freed");
    if (l && W[i].k == LEAF) MC_CHECK(W[i].text == (char *)W[i].p, "%s: str %zu changed", after, i);
    h = mc::mix(h, W[i].live * 64 + W[i].rc * 2 + W[i].ret); for (auto &x : W[i].s) h = mc::mix(h, x.obj * 3 + x.pol);
  }
  mc::state(h);
}
static uint64_t full_hash() {
  uint64_t h = 7; for (auto &o : W) { h = mc::mix(h, o.live); if (!o.live) continue; h = mc::mix(h, o.rc * 2 + o.ret); for (auto &x : o.s) h = mc::mix(h, x.obj * 30 + x.pol * 10 + x.pair); h = mc::hash_bytes((char *)o.p - sizeof(cee_sect), 8, h); }
  return h;
}
static void leaves(int n) { static const char *T[] = {"a", "b", "a", "c"}; for (int i = 0; i < n; i++) W.push_back({LEAF, cee_str_mk(ST, "%s", T[i]), true, 0, false, 0, 0, {}, T[i]}); }
static int find_key(int c, int e, int pairbit) { for (size_t i = 0; i < W[c].s.size(); i++) if ((pairbit < 0 || W[c].s[i].pair == pairbit) && W[W[c].s[i].obj].text == W[e].text) return i; return -1; }
static int new_container(Kind k, int pol, int vpol) {
  cee_del_policy o[2] = {(cee_del_policy)pol, (cee_del_policy)vpol}; void *p = NULL;
  switch (k) {
  case LIST: p = cee_list_mk_e(ST, o[0], 1); break; case SET: p = cee_set_mk_e(ST, o[0], (cee_cmp_fun)strcmp); break; case MAP: p = cee_map_mk_e(ST, o, (cee_cmp_fun)strcmp); break;
  case DICT: p = cee_dict_mk_e(ST, o[0], 2); break; case STACK: p = cee_stack_mk_e(ST, o[0], 3); break; default: break; }
  W.push_back({k, p, true, 0, false, pol, vpol, {}, ""}); return W.size() - 1;
}
// model and code perform the same addition; throws Illegal before the code is touched
static void add(int c, int e, int v) {
  Obj &o = W[c]; auto saved = W; if (stale(c)) throw Illegal();
  switch (o.k) {
  case LIST: hold(e, o.pol); o.s.push_back({e, o.pol, 0}); legal(); cee_list_append((cee_list *)o.p, W[e].p); break;
  case STACK: if (o.s.size() == 3) { MC_CHECK(!cee_stack_push((cee_stack *)o.p, W[e].p), "push on a full stack"); break; } hold(e, o.pol); o.s.push_back({e, o.pol, 0}); legal(); MC_CHECK(cee_stack_push((cee_stack *)o.p, W[e].p), "push failed"); break;
  case SET: if (W[e].k != LEAF) throw Illegal(); if (find_key(c, e, -1) < 0) { hold(e, o.pol); o.s.push_back({e, o.pol, 0}); } legal(); cee_set_add((cee_set *)o.p, W[e].p); break;
  case DICT: if (W[e].k != LEAF) throw Illegal(); hold(e, o.pol); hold(v, o.pol); o.s.push_back({e, o.pol, 0}); o.s.push_back({v, o.pol, 1}); legal(); cee_dict_add((cee_dict *)o.p, (char *)W[e].p, W[v].p); break;
  case MAP: { if (W[e].k != LEAF) throw Illegal(); int at = find_key(c, e, 0); void *expect = NULL;
      if (at < 0) { hold(e, o.pol); hold(v, o.vpol); o.s.push_back({e, o.pol, 0}); o.s.push_back({v, o.vpol, 1}); }
      else { if (o.pol == DEL && e == o.s[at].obj) throw Illegal(); int old = o.s[at + 1].obj; expect = W[old].p; if (old != v) { hold(v, o.vpol); drop(old, o.vpol); W[c].s[at + 1].obj = v; }
        hold(e, o.pol); release(e, o.pol); }     // the key that is not kept is released
      legal(); void *r = cee_map_add((cee_map *)W[c].p, W[e].p, W[v].p); MC_CHECK(r == expect, "map add returns a foreign value"); break; }
  default: throw Illegal();
  }
}
static void remove_one(int c, int e) {
  Obj &o = W[c]; if (o.s.empty() || stale(c)) throw Illegal();
  switch (o.k) {
  case LIST: { int at = -1; for (size_t i = 0; i < o.s.size(); i++) if (o.s[i].obj == e) { at = i; break; } if (at < 0) throw Illegal(); drop(e, o.pol); o.s.erase(o.s.begin() + at); MC_CHECK(cee_list_remove((cee_list *)o.p, at), "remove failed"); break; }
  case STACK: { int x = o.s.back().obj; if (x != e) throw Illegal(); drop(x, o.pol); o.s.pop_back(); MC_CHECK(cee_stack_pop((cee_stack *)o.p) == W[x].p, "pop"); break; }
  case SET: { if (W[e].k != LEAF) throw Illegal(); int at = find_key(c, e, -1); if (at < 0) throw Illegal(); int x = o.s[at].obj; drop(x, o.pol); o.s.erase(o.s.begin() + at); MC_CHECK(cee_set_remove((cee_set *)o.p, W[e].p) == W[x].p, "set remove"); break; }
  case MAP: { if (W[e].k != LEAF) throw Illegal(); int at = find_key(c, e, 0); if (at < 0) throw Illegal(); int k = o.s[at].obj, v = o.s[at + 1].obj; drop(k, o.pol); drop(v, o.vpol); o.s.erase(o.s.begin() + at, o.s.begin() + at + 2); MC_CHECK(cee_map_remove((cee_map *)o.p, W[e].p) == W[v].p, "map remove"); break; }
  default: throw Illegal();
  }
}
static void clear_set(int c) { if (W[c].k != SET || stale(c)) throw Illegal(); auto s = W[c].s; W[c].s.clear(); for (auto &x : s) release(x.obj, x.pol); legal(); cee_set_clear((cee_set *)W[c].p); }
static void del(int c) { auto saved = W; g_rev = true; try { kill(c); } catch (Illegal &) { g_rev = false; throw; } g_rev = false; legal(); W = saved; kill(c); legal(); cee_del(W[c].p); }
static void owned_deletion_is_legal(int c) { for (auto &o : W) if (o.live) for (auto &x : o.s) if (x.obj == c && x.pol != NOOP) throw Illegal(); }

static int pick_pol() { return choose(3, "policy"); }
// a container of any kind filled at once from the existing objects
static int build(bool all_kinds, int maxelem) {
  Kind k = all_kinds ? (Kind)(1 + choose(NKIND - 1, "kind")) : (Kind)(1 + choose(3, "kind")); int n0 = W.size();
  auto el = [&] { return choose(n0, "element"); };
  if (k >= TUPLE) {
    int n = k == TUPLE ? 2 : k == TRIPLE ? 3 : k == QUAD ? 4 : k == TAGGED ? 1 : 1 + choose(3, "arity"); void *a[5] = {}; int e[5]; cee_del_policy o[5]; bool free_choice = k == TUPLE || k == TAGGED; int e0 = el(), p0 = pick_pol(), e1 = n > 1 ? el() : 0;
    int dflt = k == NTUPLE ? 1 : 0;
    for (int i = 0; i < n; i++) { e[i] = i == 0 ? e0 : i == 1 ? e1 : (e0 + i) % n0; o[i] = (cee_del_policy)(dflt ? 0 : i == 0 ? p0 : free_choice ? pick_pol() : (p0 + i) % 3); a[i] = W[e[i]].p; if (!W[e[i]].live) throw Illegal(); }
    if (dflt && p0) throw Illegal();
    W.push_back({k, NULL, true, 0, false, 0, 0, {}, ""}); int c = n0; for (int i = 0; i < n; i++) { hold(e[i], o[i]); W[c].s.push_back({e[i], o[i], i}); } legal();
    bool d = true; for (int i = 0; i < n; i++) d = d && (int)o[i] == RC;
    switch (k) {
    case TUPLE: W[c].p = d ? cee_tuple_mk(ST, a[0], a[1]) : cee_tuple_mk_e(ST, o, a[0], a[1]); break; case TRIPLE: W[c].p = d ? cee_triple_mk(ST, a[0], a[1], a[2]) : cee_triple_mk_e(ST, o, a[0], a[1], a[2]); break;
    case QUAD: W[c].p = cee_quadruple_mk_e(ST, o, a[0], a[1], a[2], a[3]); break; case TAGGED: { uintptr_t tag = choose(2, "tag") ? 5 : 0; W[c].p = d ? cee_tagged_mk(ST, tag, a[0]) : cee_tagged_mk_e(ST, o[0], tag, a[0]); break; }
    default: W[c].p = cee_n_tuple_mk(ST, n, a[0], a[1], a[2], a[3]); }
    step("%s %d of %d components", KN[k], c, n); return c;
  }
  int pol = pick_pol(), vpol = k == MAP ? pick_pol() : pol, c = new_container(k, pol, vpol); step("%s %d, policy %d/%d", KN[k], c, pol, vpol);
  int n = choose((maxelem == 2 && (k == MAP || k == DICT) ? 1 : maxelem) + 1, "elements");
  for (int i = 0; i < n; i++) { int e = el(), v = (k == MAP || k == DICT) ? el() : 0; if (!W[e].live || !W[v].live) throw Illegal(); step("add %d%s to %d", e, (k == MAP || k == DICT) ? mc::fmt(":=%d", v).c_str() : "", c); add(c, e, v); agree("add"); }
  return c;
}
static void finish(int nleaf) {
  int nc = W.size() - nleaf; std::vector<int> left; for (int i = 0; i < nc; i++) left.push_back(nleaf + i);
  while (!left.empty()) { int i = choose(left.size(), "delete"); int c = left[i]; left.erase(left.begin() + i); if (!W[c].live) continue; owned_deletion_is_legal(c); step("delete %s %d", KN[W[c].k], c); del(c); agree("delete"); }
}
static void run(const std::function<void()> &f) {
  { St st; ST = st; W.clear(); try { f(); } catch (Illegal &) { mc::skip(); }
    uint64_t h = 3; for (auto &o : W) h = mc::mix(h, o.live); mc::outcome(h);
    cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks left after deleting the state", mc::live_blocks()); }
}
static void shapes(int nc, bool all) { run([=] { leaves(3); for (int i = 0; i < nc; i++) build(all, nc == 1 ? 3 : 2); finish(3); }); }
// operations on a fixed set of containers
static void history(int set, int depth, bool pr) {
  run([=] {
    leaves(3); std::vector<int> cs;
    switch (set) {
    case 0: cs = {new_container(LIST, RC, RC), new_container(MAP, RC, RC)}; break;
    case 1: cs = {new_container(LIST, RC, RC), new_container(LIST, DEL, DEL)}; break;
    case 2: cs = {new_container(SET, RC, RC), new_container(STACK, RC, RC)}; break;
    case 3: cs = {new_container(MAP, RC, DEL), new_container(LIST, NOOP, NOOP)}; break;
    case 4: cs = {new_container(SET, DEL, DEL), new_container(MAP, NOOP, RC)}; break;
    case 5: cs = {new_container(STACK, DEL, DEL), new_container(DICT, RC, RC)}; break;
    case 6: cs = {new_container(MAP, DEL, DEL), new_container(SET, RC, RC)}; break;
    default: cs = {new_container(SET, NOOP, NOOP), new_container(STACK, NOOP, NOOP), new_container(DICT, NOOP, NOOP)}; }
    for (int d = 0; d < depth; d++) {
      int c = cs[choose(cs.size(), "container")]; if (!W[c].live) mc::skip(); Kind k = W[c].k;
      int op = choose(3, "op"), e = 0, v = 1;
      if (op < 2) { e = choose(3, "element"); if (op == 0 && (k == MAP || k == DICT)) v = choose(3, "value"); if (!W[e].live || (op == 0 && !W[v].live)) throw Illegal(); }
      if (op == 0) { step("%s: add %d (%d)", KN[k], e, v); add(c, e, v); }
      else if (op == 1) { step("%s: remove %d", KN[k], e); remove_one(c, e); }
      else if (k == SET && choose(2, "clear")) { step("clear set"); clear_set(c); }
      else { step("delete %s", KN[k]); del(c); }
      agree("op"); if (pr) mc::prune(full_hash(), depth - d);
    }
    for (int c : cs) if (W[c].live) { step("delete %s at the end", KN[W[c].k]); del(c); agree("final delete"); }
  });
}
// lists of the keys / values of a container, the union of two sets, clones: they are containers too
static void derived() {
  run([] {
    leaves(4); int kind = choose(7, "derived"), pol = choose(3, "policy"), vpol = choose(3, "value policy"); bool first = choose(2, "delete the derived one first"); int n = choose(3, "elements");
    int c = new_container(kind == 0 || kind >= 5 ? SET : kind == 4 ? LIST : MAP, pol, vpol); Kind k = W[c].k;
    for (int i = 0; i < n; i++) { int e = i == 0 ? 0 : 1, v = i == 0 ? 2 : 3; add(c, e, v); } if (k == LIST || k == SET) vpol = pol;
    if ((kind == 4 || kind >= 5) && pol == DEL) throw Illegal();                 // a second owner of deleted elements
    Obj d = {LIST, NULL, true, 0, false, 0, 0, {}, ""}; int dp = pol == NOOP ? NOOP : RC, dv = vpol == NOOP ? NOOP : RC; step("derived %d of a %s with policy %d/%d, %d elements", kind, KN[k], pol, vpol, n);
    for (auto &s : W[c].s) { if (kind == 2 && s.pair == 0) continue; if ((kind == 1 || kind == 3) && s.pair == 1) continue; d.s.push_back({s.obj, kind == 2 ? dv : dp, 0}); }
    int other = -1;
    switch (kind) {
    case 0: d.p = cee_set_values((cee_set *)W[c].p); break; case 1: d.p = cee_map_keys((cee_map *)W[c].p); break; case 2: d.p = cee_map_values((cee_map *)W[c].p); break;
    case 3: d.p = cee_map_insertion_ordered_keys((cee_map *)W[c].p); break;
    case 4: { d.p = cee_list_mk_e(ST, CEE_DP_DEL_RC, 0); cee_list_merge((cee_list *)d.p, (cee_list *)W[c].p); for (auto &s : d.s) s.pol = RC; break; }
    case 5: { other = new_container(SET, RC, RC); add(other, 3, 0); d.k = SET; d.p = cee_set_union_set(ST, (cee_set *)W[c].p, (cee_set *)W[other].p); for (auto &s : d.s) s.pol = RC; d.s.push_back({3, RC, 0}); break; }
    default: d.k = SET; d.p = cee_set_clone((cee_set *)W[c].p); for (auto &s : d.s) s.pol = pol;
    }
    for (auto &s : d.s) if (s.pol == RC) W[s.obj].rc++;
    W.push_back(d); agree("derive"); std::vector<int> order = {c, (int)W.size() - 1}; if (other >= 0) order.push_back(other); if (first) std::reverse(order.begin(), order.end());
    for (int x : order) { del(x); agree("delete"); }
  });
}
// environments with and without variables, under every policy, deleted in every order
static void environments() {
  run([] {
    leaves(1); int m = new_container(MAP, RC, RC); add(m, 0, 0); int n = 2 + choose(2, "environments");
    for (int i = 0; i < n; i++) {
      int c = W.size(), o = choose(i + 1, "outer"), v = choose(2, "variables"), op = o ? pick_pol() : 0, vp = v ? pick_pol() : 0; o = o ? m + o : -1; step("env %d in %d, %s variables, policies %d %d", c, o, v ? "with" : "without", op, vp);
      if ((o >= 0 && !W[o].live) || (v && !W[m].live)) throw Illegal();
      W.push_back({ENV, NULL, true, 0, false, 0, 0, {}, ""}); if (o >= 0) { hold(o, op); W[c].s.push_back({o, op, 0}); } if (v) { hold(m, vp); W[c].s.push_back({m, vp, 1}); } legal();
      cee_del_policy dp[2] = {(cee_del_policy)op, (cee_del_policy)vp}; cee_env *oe = o >= 0 ? (cee_env *)W[o].p : NULL; cee_map *vm = v ? (cee_map *)W[m].p : NULL;
      W[c].p = op == RC && vp == RC ? cee_env_mk(ST, oe, vm) : cee_env_mk_e(ST, dp, oe, vm); agree("make");
    }
    finish(1);
  });
}
// n-tuples of every arity: each component is released, unless another owner is left
static void arities() {
  int n = 1 + choose(16, "arity"), shared = choose(n + 1, "shared"), twice = choose(2, "twice"); St st; void *e[16]; step("n-tuple of %d, component %d shared", n, shared); for (int i = 0; i < 16; i++) e[i] = i < n ? cee_str_mk(st, "%d", i) : NULL; if (twice) e[n - 1] = e[0];
  cee_list *l = cee_list_mk(st, 1); if (shared < n) cee_list_append(l, e[shared]); cee_n_tuple *t = cee_n_tuple_mk(st, n, e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9], e[10], e[11], e[12], e[13], e[14], e[15]);
  for (int i = 0; i < n; i++) MC_CHECK(mc::is_live(e[i]), "component %d is freed with its owner alive", i); cee_del(t); for (int i = 0; i < n; i++) MC_CHECK(mc::is_live(e[i]) == (shared < n && e[i] == e[shared]), "component %d of %d is %s after the n-tuple is deleted", i, n, mc::is_live(e[i]) ? "live" : "freed");
  cee_del(l); for (int i = 0; i < n; i++) MC_CHECK(!mc::is_live(e[i]), "component %d survives its last owner", i); mc::state(n * 32 + shared); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
static void many_refs() {                             // more references than a narrow counter can hold
  static const int N[] = {255, 256, 257, 65535, 65536, 65537, 70000}; int n = N[choose(7, "references")]; St st; step("%d references", n);
  cee_str *e = cee_str_mk(st, "shared"); cee_list *a = cee_list_mk(st, n), *b = cee_list_mk(st, 1); cee_list_append(b, e); for (int i = 0; i < n; i++) cee_list_append(a, e);
  cee_del(a); MC_CHECK(mc::is_live(e) && !strcmp((char *)e, "shared"), "the element is freed while another container holds it"); cee_del(b); MC_CHECK(!mc::is_live(e), "the element survives its last owner"); cee_del(st.s); mc::state(n);
}
static void update_policy() {
  static const int T[][2] = {{RC, NOOP}, {NOOP, DEL}, {RC, RC}, {DEL, NOOP}, {NOOP, NOOP}, {DEL, DEL}, {RC, DEL}}; int i = choose(2, "index"), t = choose(7, "change"); St st; void *e[2] = {cee_str_mk(st, "x"), cee_str_mk(st, "y")}; cee_del_policy o[2] = {CEE_DP_NOOP, CEE_DP_NOOP}; o[i] = (cee_del_policy)T[t][0];
  cee_tuple *p = cee_tuple_mk_e(st, o, e[0], e[1]); step("policy %d -> %d at %d", T[t][0], T[t][1], i); cee_tuple_update_del_policy(p, i, (cee_del_policy)T[t][1]); cee_del(p);
  MC_CHECK(mc::is_live(e[1 - i]), "the other component is freed"); MC_CHECK(mc::is_live(e[i]) == (T[t][1] == NOOP), "the component is %s", mc::is_live(e[i]) ? "kept" : "freed"); mc::state(t * 2 + i); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// large containers of every kind and policy, some elements shared with a second owner, some removed again
static void crowd() {
  static const int N[] = {4, 10, 16, 17, 33, 64, 65, 129, 257, 700, 1500}; int n = N[choose(mc::tier(9, 11), "elements")]; Kind k = (Kind)(1 + choose(5, "kind")); int pol = choose(3, "policy"), every = choose(4, "shared"), rem = choose(3, "removed"), order = choose(2, "order"); St st; ST = st; W.clear();
  if (pol == DEL && (every || rem == 2)) mc::skip();                                // DEL: one owner
  std::vector<void *> e(n), v(n); std::vector<int> owners(n, 0), vowners(n, 0); bool pairs = k == MAP || k == DICT; cee_del_policy o[2] = {(cee_del_policy)pol, (cee_del_policy)pol}; void *c = NULL;
  for (int i = 0; i < n; i++) { e[i] = cee_str_mk(st, "%05d", i * 7919 % n); if (n % 7919 == 0) mc::skip(); if (pairs) v[i] = cee_str_mk(st, "v%d", i); }
  switch (k) { case LIST: c = cee_list_mk_e(st, o[0], 0); break; case SET: c = cee_set_mk_e(st, o[0], (cee_cmp_fun)strcmp); break; case MAP: c = cee_map_mk_e(st, o, (cee_cmp_fun)strcmp); break; case DICT: c = cee_dict_mk_e(st, o[0], 2); break; default: c = cee_stack_mk_e(st, o[0], n); }
  for (int i = 0; i < n; i++) { switch (k) { case LIST: cee_list_append((cee_list *)c, e[i]); break; case SET: cee_set_add((cee_set *)c, e[i]); break; case MAP: cee_map_add((cee_map *)c, e[i], v[i]); break; case DICT: cee_dict_add((cee_dict *)c, (char *)e[i], v[i]); break; default: cee_stack_push((cee_stack *)c, e[i]); } owners[i] = 1; vowners[i] = pairs; }
  cee_list *other = cee_list_mk(st, 1); static const int STEP[] = {0, 1, 2, 7};
  if (every) for (int i = 0; i < n; i += STEP[every]) { cee_list_append(other, e[i]); owners[i]++; if (pairs && i % 2) { cee_list_append(other, v[i]); vowners[i]++; } }
  step("%s of %d, policy %d, every %d shared, removal %d", KN[k], n, pol, STEP[every], rem); std::vector<char> kept(n, 1);
  if (rem) for (int j = 0; j < n / 2; j++) {                                            // removed elements are given back to the caller
      int i = k == LIST ? (rem == 1 ? n - 1 - j : j) : k == STACK ? n - 1 - j : (rem == 1 ? 2 * j : j);
      switch (k) { case LIST: cee_list_remove((cee_list *)c, rem == 1 ? n - 1 - j : 0); break; case SET: MC_CHECK(cee_set_remove((cee_set *)c, e[i]) == e[i], "remove"); break; case MAP: MC_CHECK(cee_map_remove((cee_map *)c, e[i]) == v[i], "remove"); vowners[i]--; break; case STACK: MC_CHECK(cee_stack_pop((cee_stack *)c) == e[i], "pop"); break; default: mc::skip(); }
      owners[i]--; kept[i] = 0; }
  auto expect = [&](const char *w, auto gone) { for (int i = 0; i < n; i++) { MC_CHECK(mc::is_live(e[i]) == !gone(i, false), "%s: element %d of %d is %s", w, i, n, mc::is_live(e[i]) ? "live" : "freed"); if (pairs) MC_CHECK(mc::is_live(v[i]) == !gone(i, true), "%s: value %d of %d is %s", w, i, n, mc::is_live(v[i]) ? "live" : "freed"); } };
  expect("before", [](int, bool) { return false; }); auto sh = [&](int i, bool val) { return (val ? vowners[i] : owners[i]) - kept[i] > 0; };
  if (order == 0) { cee_del(c); expect("container deleted", [&](int i, bool val) { return kept[i] && pol != NOOP && !sh(i, val); }); cee_del(other); }
  else { cee_del(other); expect("other deleted", [&](int i, bool val) { return sh(i, val) && !(kept[i] && pol == RC); }); cee_del(c); }
  expect("all deleted", [&](int i, bool val) { return sh(i, val) || (kept[i] && pol != NOOP); });
  mc::state(n * 100 + k * 10 + pol); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "%zu blocks left", mc::live_blocks());
}
void mc_register() {
  mc::add("environments", environments, 3); mc::add("arities", arities, 1);
  mc::add("crowd", crowd, 3);
  mc::add("many-references", many_refs, 1); mc::add("update-policy", update_policy, 1); mc::add("derived", derived, 2);
  mc::add("one-container", [] { shapes(1, true); }, 3);
  mc::add("two-containers", [] { shapes(2, true); }, 5);
  for (int i = 0; i < 8; i++) { mc::add(mc::fmt("history-%d", i), [i] { history(i, mc::tier(4, 5), false); }, 3); mc::add(mc::fmt("deep-history-%d", i), [i] { history(i, mc::tier(i == 5 || i == 7 ? 5 : 7, i == 5 || i == 7 ? 6 : 9), true); }, 3); }
}
