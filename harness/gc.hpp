// Object graphs under the mark & sweep collector, shared by C13 (nothing reachable is freed or
// changed) and C14 (everything unreachable is freed, collections end).
#pragma once
#include "common.hpp"
enum K { STR, BLOCK, BOXED, LIST, STACK, SET, MAPV, MAPK, DICT, TUPLE, TRIPLE, QUAD, NTUPLE, TAGGED, ENV, CLOSURE, BARE, CLB, NK };
static uintptr_t tagof(int id) { return id == 0 ? 0 : id == 1 ? UINTPTR_MAX : 40 + id; }
static const char *KN[] = {"str", "block", "boxed", "list", "stack", "set", "map(value)", "map(key)", "dict", "tuple", "triple", "quadruple", "n-tuple", "tagged", "env", "closure", "env without variables", "closure of a given env"};
static int pcmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static int scmp(const void *a, const void *b) { return strcmp((const char *)a, (const char *)b); }
struct Node { K k; void *p; std::vector<void *> parts; std::vector<int> out; bool live; int id; };   // parts: helper objects only reachable through the node
struct World {
  cee_state *s; bool safety; std::vector<Node> n; std::set<int> roots; std::map<std::string, int> ctx; std::vector<int> stk; int gcs = 0;
  cee_str *str(const std::string &t) { return cee_str_mk(s, "%s", t.c_str()); }
  int mk(K k, cee_del_policy P = CEE_DP_NOOP) {
    Node x; x.k = k; x.live = true; x.id = n.size(); cee_del_policy o[4] = {P, P, P, P}; cee_str *leaf = NULL;
    if (k >= TUPLE && k <= TAGGED) { leaf = str(mc::fmt("anchor%d", x.id)); x.parts.push_back(leaf); }
    switch (k) {
    case STR: x.p = str(mc::fmt("str%d", x.id)); break;
    case BLOCK: x.p = cee_block_mk(s, 24); strcpy((char *)x.p, mc::fmt("block%d", x.id).c_str()); break;
    case BOXED: x.p = cee_boxed_from_i64(s, 1000 + x.id); break;
    case LIST: x.p = cee_list_mk_e(s, P, 0); break; case STACK: x.p = cee_stack_mk_e(s, P, 8); break; case SET: x.p = cee_set_mk_e(s, P, pcmp); break;
    case MAPV: x.p = cee_map_mk_e(s, o, scmp); break; case MAPK: x.p = cee_map_mk_e(s, o, pcmp); break; case DICT: x.p = cee_dict_mk_e(s, P, 4); break;
    case TUPLE: x.p = cee_tuple_mk_e(s, o, leaf, leaf); break; case TRIPLE: x.p = cee_triple_mk_e(s, o, leaf, leaf, leaf); break; case QUAD: x.p = cee_quadruple_mk_e(s, o, leaf, leaf, leaf, leaf); break;
    case NTUPLE: x.p = cee_n_tuple_mk(s, 6, leaf, leaf, leaf, leaf, leaf, leaf); break; case TAGGED: x.p = cee_tagged_mk_e(s, P, tagof(x.id), NULL); x.parts.clear(); break;
    case ENV: { cee_map *m = cee_map_mk_e(s, o, scmp); x.parts.push_back(m); x.p = cee_env_mk_e(s, o, NULL, m); break; }
    case BARE: x.p = cee_env_mk_e(s, o, NULL, NULL); break; case CLB: x.p = cee_closure_mk(s, NULL, NULL); break;
    default: { cee_map *m = cee_map_mk_e(s, o, scmp); x.parts.push_back(m); cee_env *e = cee_env_mk_e(s, o, NULL, m); x.parts.push_back(e); x.p = cee_closure_mk(s, e, NULL); }
    }
    n.push_back(x); return x.id;
  }
  static int room(K k) { return k <= BOXED ? 0 : k == TAGGED || k == BARE || k == CLB ? 1 : k == TUPLE ? 1 : k == TRIPLE ? 2 : k == QUAD ? 3 : k == NTUPLE ? 5 : 3; }
  bool can(int a, int b) { Node &x = n[a]; if (!x.live || !n[b].live || (int)x.out.size() >= room(x.k) || ((x.k == BARE || x.k == CLB) && n[b].k != ENV && n[b].k != BARE)) return false; if (x.k == SET || x.k == MAPK) for (int o : x.out) if (o == b) return false; return true; }
  void link(int a, int b) {
    Node &x = n[a]; void *t = n[b].p; int i = x.out.size(); auto key = [&] { cee_str *k = str(mc::fmt("k%d", i)); x.parts.push_back(k); return k; };
    switch (x.k) {
    case LIST: cee_list_append((cee_list *)x.p, t); break; case STACK: MC_CHECK(cee_stack_push((cee_stack *)x.p, t), "push"); break; case SET: cee_set_add((cee_set *)x.p, t); break;
    case MAPV: cee_map_add((cee_map *)x.p, key(), t); break; case MAPK: cee_map_add((cee_map *)x.p, t, key()); break; case DICT: cee_dict_add((cee_dict *)x.p, (char *)key(), t); break;
    case TUPLE: ((cee_tuple *)x.p)->_[1 - i] = t; break; case TRIPLE: ((cee_triple *)x.p)->_[2 - i] = t; break; case QUAD: ((cee_quadruple *)x.p)->_[3 - i] = t; break; case NTUPLE: ((cee_n_tuple *)x.p)->_[5 - i] = t; break;
    case TAGGED: ((cee_tagged *)x.p)->ptr._ = t; break;
    case BARE: ((cee_env *)x.p)->outer = (cee_env *)t; break;
    case CLB: ((cee_closure *)x.p)->env = (cee_env *)t; break;
    case ENV: if ((n[b].k == ENV || n[b].k == BARE) && !((cee_env *)x.p)->outer) ((cee_env *)x.p)->outer = (cee_env *)t; else cee_map_add(((cee_env *)x.p)->vars, key(), t); break;
    case CLOSURE: { cee_env *e = ((cee_closure *)x.p)->env; if ((n[b].k == ENV || n[b].k == BARE) && !e->outer) e->outer = (cee_env *)t; else cee_map_add(e->vars, key(), t); break; }
    default: break; }
    x.out.push_back(b);
  }
  bool can_unlink(int a) { return n[a].live && !n[a].out.empty() && (n[a].k == LIST || n[a].k == STACK || n[a].k == SET || n[a].k == TAGGED || n[a].k == MAPV || n[a].k == MAPK); }
  void unlink(int a) {                              // the last edge
    Node &x = n[a]; int b = x.out.back(), i = x.out.size() - 1;
    switch (x.k) {
    case LIST: MC_CHECK(cee_list_remove((cee_list *)x.p, i), "remove"); break; case STACK: MC_CHECK(cee_stack_pop((cee_stack *)x.p) == n[b].p, "pop"); break; case SET: MC_CHECK(cee_set_remove((cee_set *)x.p, n[b].p) == n[b].p, "set remove"); break;
    case TAGGED: ((cee_tagged *)x.p)->ptr._ = NULL; break;
    case MAPV: MC_CHECK(cee_map_remove((cee_map *)x.p, (void *)mc::fmt("k%d", i).c_str()) == n[b].p, "map remove"); x.parts.pop_back(); break;   // the key is garbage now
    case MAPK: MC_CHECK(cee_map_remove((cee_map *)x.p, n[b].p) == x.parts.back(), "map remove"); x.parts.pop_back(); break;
    default: break; }
    x.out.pop_back();
  }
  void content(Node &x) {
    auto at = [&](int i) { return n[x.out[i]].p; }; size_t m = x.out.size();
    switch (x.k) {
    case STR: MC_CHECK(mc::fmt("str%d", x.id) == (char *)x.p, "str %d changed", x.id); break;
    case BLOCK: MC_CHECK(mc::fmt("block%d", x.id) == (char *)x.p, "block %d changed", x.id); break;
    case BOXED: MC_CHECK(cee_boxed_to_i64((cee_boxed *)x.p) == 1000 + x.id, "boxed %d changed", x.id); break;
    case LIST: MC_CHECK(cee_list_size((cee_list *)x.p) == m, "list %d has %zu elements, expected %zu", x.id, cee_list_size((cee_list *)x.p), m); for (size_t i = 0; i < m; i++) MC_CHECK(((cee_list *)x.p)->a[i] == at(i), "list element changed"); break;
    case STACK: MC_CHECK(cee_stack_size((cee_stack *)x.p) == m, "stack size"); for (size_t i = 0; i < m; i++) MC_CHECK(cee_stack_top((cee_stack *)x.p, i) == at(m - 1 - i), "stack element changed"); break;
    case SET: MC_CHECK(cee_set_size((cee_set *)x.p) == m, "set size"); for (size_t i = 0; i < m; i++) MC_CHECK(cee_set_find((cee_set *)x.p, at(i)) == at(i), "set element lost"); break;
    case MAPV: case MAPK: { MC_CHECK(cee_map_size((cee_map *)x.p) == m, "map size"); for (size_t i = 0; i < m; i++) if (x.k == MAPV) MC_CHECK(cee_map_find((cee_map *)x.p, (void *)mc::fmt("k%zu", i).c_str()) == at(i), "map value lost"); else MC_CHECK(cee_map_find((cee_map *)x.p, at(i)) == x.parts[i], "map key lost");
        break; }
    case DICT: for (size_t i = 0; i < m; i++) MC_CHECK(cee_dict_find((cee_dict *)x.p, (char *)mc::fmt("k%zu", i).c_str()) == at(i), "dict value lost"); break;
    case TAGGED: MC_CHECK(((cee_tagged *)x.p)->tag == tagof(x.id) && ((cee_tagged *)x.p)->ptr._ == (m ? at(0) : NULL), "tagged changed"); break;
    case BARE: MC_CHECK(((cee_env *)x.p)->outer == (m ? (cee_env *)at(0) : NULL) && !((cee_env *)x.p)->vars, "environment changed"); break;
    case CLB: MC_CHECK(((cee_closure *)x.p)->env == (m ? (cee_env *)at(0) : NULL), "the environment of a closure changed"); break;
    case TUPLE: case TRIPLE: case QUAD: case NTUPLE: { int c = x.k == TUPLE ? 2 : x.k == TRIPLE ? 3 : x.k == QUAD ? 4 : 6; for (int i = 0; i < c; i++) MC_CHECK(((cee_n_tuple *)x.p)->_[c - 1 - i] == (i < (int)m ? at(i) : x.parts[0]), "component changed"); MC_CHECK(mc::fmt("anchor%d", x.id) == (char *)x.parts[0], "anchor changed"); break; }
    case ENV: case CLOSURE: { cee_env *e = x.k == ENV ? (cee_env *)x.p : ((cee_closure *)x.p)->env; bool outer = false; for (size_t i = 0; i < m; i++) { if ((n[x.out[i]].k == ENV || n[x.out[i]].k == BARE) && !outer) { outer = true; MC_CHECK(e->outer == at(i), "outer changed"); } else MC_CHECK(cee_map_find(e->vars, (void *)mc::fmt("k%zu", i).c_str()) == at(i), "variable lost"); } break; }
    default: break; }
  }
  std::set<int> reachable() {
    std::set<int> r; std::vector<int> w; auto go = [&](int i) { if (r.insert(i).second) w.push_back(i); };
    for (int i : roots) go(i); for (auto &c : ctx) go(c.second); for (int i : stk) go(i);
    while (!w.empty()) { int i = w.back(); w.pop_back(); for (int o : n[i].out) go(o); } return r;
  }
  void gc() {
    auto r = reachable(); cee_state_gc(s); gcs++; int alive = 0;
    for (auto &x : n) {
      if (!x.live) continue; bool want = r.count(x.id); std::vector<void *> all = x.parts; all.push_back(x.p);
      for (size_t i = 0; i < all.size(); i++) { bool l = mc::is_live(all[i]); const char *w = i + 1 == all.size() ? "" : "part of ";
        if (want && safety) MC_CHECK(l, "collection %d frees the reachable %s%s %d", gcs, w, KN[x.k], x.id);
        if (!want && !safety) MC_CHECK(!l, "collection %d leaves the unreachable %s%s %d", gcs, w, KN[x.k], x.id);
        if (l != want) mc::skip(); }                      // judged by the other property
      x.live = want; alive += want;
    }
    if (safety) { for (auto &x : n) if (x.live) content(x);
      for (auto &c : ctx) MC_CHECK(cee_state_get_context(s, (char *)c.first.c_str()) == n[c.second].p, "context %s lost", c.first.c_str());
      for (size_t i = 0; i < stk.size(); i++) MC_CHECK(cee_stack_top(s->stack, i) == n[stk[stk.size() - 1 - i]].p, "state stack changed"); }
    uint64_t h = gcs & 1; for (auto &x : n) h = mc::mix(h, x.live * 32 + x.k); mc::state(h);
  }
  // kept containers stay usable: extend every live container by a fresh leaf and collect again
  void use() { int m = n.size(); for (int i = 0; i < m; i++) if (n[i].live && room(n[i].k) > (int)n[i].out.size()) { int f = mk(STR); if (can(i, f)) link(i, f); } gc(); }
  void root(int i) { cee_state_add_gc_root(s, n[i].p); roots.insert(i); }
  void unroot(int i) { cee_state_remove_gc_root(s, n[i].p); roots.erase(i); }
  void context(const std::string &k, int i) { cee_state_add_context(s, (char *)str(k), n[i].p); ctx[k] = i; }
  void uncontext(const std::string &k) { cee_state_remove_context(s, (char *)k.c_str()); ctx.erase(k); }
  uint64_t hash() { uint64_t h = 5; for (auto &x : n) { h = mc::mix(h, x.live * 32 + x.k); if (!x.live) continue; for (int o : x.out) h = mc::mix(h, o + 1); h = mc::mix(h, 77); h = mc::hash_bytes((char *)x.p - sizeof(cee_sect), 8, h); for (auto *q : x.parts) h = mc::hash_bytes((char *)q - sizeof(cee_sect), 8, h); }
    for (int r : roots) h = mc::mix(h, r + 100); for (auto &c : ctx) h = mc::mix(h, mc::hash_str(c.first, c.second)); for (int x : stk) h = mc::mix(h, x + 200); h = mc::mix(h, s->next_mark); return h; }
  void finish(size_t base) {                           // nothing is reachable any more
    while (!roots.empty()) unroot(*roots.begin()); while (!ctx.empty()) uncontext(ctx.begin()->first); while (!stk.empty()) { cee_stack_pop(s->stack); stk.pop_back(); }
    gc(); gc(); if (!safety) MC_CHECK(mc::live_blocks() == base, "%zu blocks are left after collecting everything, %zu in a fresh state", mc::live_blocks(), base);
    mc::outcome(gcs * 100 + n.size()); cee_del(s); if (!safety) MC_CHECK(!mc::live_blocks(), "%zu blocks survive the state", mc::live_blocks());
  }
};
static size_t fresh_blocks(cee_state *s) { cee_state_gc(s); return mc::live_blocks(); }
static void anchor(World &w, int how, int i) { switch (how) { case 0: w.root(i); break; case 1: w.context(mc::fmt("ctx%d", i), i); break; default: MC_CHECK(cee_stack_push(w.s->stack, w.n[i].p), "push"); w.stk.push_back(i); } }
// every graph of nodes of any kinds with at most one edge each, every anchor set and kind
static void kinds(bool safety, int N) {
  World w; w.s = cee_state_mk(6); w.safety = safety; size_t base = fresh_blocks(w.s); int pre = choose(2, "collections before"); for (int i = 0; i < pre; i++) w.gc();
  for (int i = 0; i < N; i++) { K k = (K)choose(NK, "kind"); w.mk(k); step("%s %d", KN[k], i); }
  for (int i = 0; i < N; i++) { int t = World::room(w.n[i].k) ? choose(N + 1, "edge") : 0; if (t) { if (!w.can(i, t - 1)) mc::skip(); step("%d -> %d", i, t - 1); w.link(i, t - 1); } }
  int how = choose(3, "anchor kind"), mask = choose(1 << N, "anchored"); for (int i = 0; i < N; i++) if (mask >> i & 1) anchor(w, how, i); step("anchors %x by %d; collect", mask, how);
  w.gc(); w.gc(); w.use(); w.finish(base);
}
// every adjacency matrix over N lists (any cycles and sharing), every root set, then un-rooting one by one
static void lists(bool safety, int N) {
  World w; w.s = cee_state_mk(4); w.safety = safety; size_t base = fresh_blocks(w.s); int kind = choose(3, "kind"); K k[] = {LIST, SET, MAPV};
  for (int i = 0; i < N; i++) w.mk(k[kind]);
  for (int i = 0; i < N; i++) { int m = choose(1 << N, "successors"); step("%s %d -> %x", KN[k[kind]], i, m); for (int j = 0; j < N; j++) if (m >> j & 1) w.link(i, j); }
  int mask = choose(1 << N, "roots"); for (int i = 0; i < N; i++) if (mask >> i & 1) w.root(i); step("roots %x", mask); w.gc();
  for (int i = 0; i < N; i++) if (w.roots.count(i)) { w.unroot(i); step("un-root %d, collect", i); w.gc(); }
  w.finish(base);
}
// interleavings of allocation, linking, anchoring and collection
static void history(bool safety, int depth, int set) {
  static const K KS[][2] = {{LIST, STR}, {MAPV, LIST}, {SET, TAGGED}, {MAPK, STR}, {STACK, DICT}, {CLOSURE, ENV}}; World w; w.s = cee_state_mk(3); w.safety = safety; size_t base = fresh_blocks(w.s);
  for (int d = 0; d < depth; d++) {
    int nn = w.n.size(); auto pick = [&](const char *l) { if (!nn) mc::skip(); int i = choose(nn, l); if (!w.n[i].live) mc::skip(); return i; };
    switch (choose(8, "op")) {
    case 0: if (nn >= 4) mc::skip(); { int k = choose(2, "kind"); step("new %s %d", KN[KS[set][k]], nn); w.mk(KS[set][k], set == 0 ? CEE_DP_DEL_RC : CEE_DP_NOOP); } break;
    case 1: { int a = pick("from"), b = pick("to"); if (!w.can(a, b) || w.n[a].out.size() > 1) mc::skip(); step("link %d -> %d", a, b); w.link(a, b); break; }
    case 2: { int a = pick("from"); if (!w.can_unlink(a)) mc::skip(); step("unlink last of %d", a); w.unlink(a); break; }
    case 3: { int a = pick("root"); step("root %d", a); w.root(a); break; }
    case 4: { int a = pick("un-root"); if (!w.roots.count(a)) mc::skip(); step("un-root %d", a); w.unroot(a); break; }
    case 5: { int a = pick("context"); step("context -> %d", a); w.context("c", a); break; }
    case 6: { if (choose(2, "which")) { if (w.ctx.empty()) mc::skip(); step("remove context"); w.uncontext("c"); } else if (w.stk.empty()) { int a = pick("push"); step("push %d", a); anchor(w, 2, a); } else { step("pop"); MC_CHECK(cee_stack_pop(w.s->stack) == w.n[w.stk.back()].p, "pop"); w.stk.pop_back(); } break; }
    case 7: step("collect"); w.gc(); break;
    }
    mc::prune(w.hash(), depth - d);
  }
  w.gc(); w.use(); w.finish(base);
}
// a long chain through any kind of link, and growth / resizing between collections
static void chains(bool safety, int N) {
  World w; w.s = cee_state_mk(3); w.safety = safety; size_t base = fresh_blocks(w.s); K ks[] = {LIST, STACK, SET, MAPV, MAPK, DICT, TUPLE, TRIPLE, QUAD, NTUPLE, TAGGED, ENV, CLOSURE, BARE}; K k = ks[choose(14, "kind")]; static const int L[] = {1, 2, 3, 10, 60, 200, 700}; int n = std::min(N, L[choose(7, "length")]), keep = choose(3, "rooted part"); bool ring = choose(2, "ring");
  step("%d %s in a %s, rooted part %d", n, KN[k], ring ? "ring" : "chain", keep); for (int i = 0; i < n; i++) w.mk(k); for (int i = 0; i + 1 < n; i++) w.link(i, i + 1); if (ring && w.can(n - 1, 0)) w.link(n - 1, 0);
  int r = keep == 0 ? 0 : keep == 1 ? n / 2 : n - 1; w.root(r); w.gc(); w.gc(); w.use(); w.unroot(r); w.gc(); w.finish(base);
}
static void resized(bool safety) {
  World w; w.s = cee_state_mk(3); w.safety = safety; size_t base = fresh_blocks(w.s); bool ra = choose(2, "realloc"); int when = choose(3, "when"), rooted = choose(2, "rooted"); int filler = choose(3, "later objects"); step("a string grows (%s), collection %d, rooted %d", ra ? "realloc" : "malloc", when, rooted);
  cee_str *p = cee_str_mk(w.s, "seed"); if (ra) cee_use_realloc(p); std::string m = "seed"; if (when == 0) { cee_state_add_gc_root(w.s, p); w.gc(); cee_state_remove_gc_root(w.s, p); }
  for (int i = 0; i < filler; i++) { w.mk(STR); w.root(i); } std::vector<void *> old;
  for (int i = 0; i < 4; i++) { cee_str *q = cee_str_catf(p, "%0100d", i); m += mc::fmt("%0100d", i); if (q != p && !ra) old.push_back(p); p = q; if (when == 2) { cee_state_add_gc_root(w.s, p); w.gc(); cee_state_remove_gc_root(w.s, p); } }
  if (rooted) cee_state_add_gc_root(w.s, p); w.gc(); w.gc();
  if (rooted && safety) MC_CHECK(mc::is_live(p) && m == (char *)p, "the rooted string is lost or changed"); if (!rooted && !safety) MC_CHECK(!mc::is_live(p), "the grown string survives"); if (!safety) for (void *o : old) MC_CHECK(!mc::is_live(o), "a superseded copy survives");
  if (mc::is_live(p) != (bool)rooted) mc::skip(); if (rooted) cee_state_remove_gc_root(w.s, p);
  w.finish(base);
}
// a container of many elements, some removed again, anchored in any way and later released
static void wide(bool safety) {
  static const K KS[] = {LIST, STACK, SET, MAPV, MAPK, DICT}; static const int N[] = {5, 11, 17, 40, 130, 300, 700}; World w; w.s = cee_state_mk(1); w.safety = safety; K k = KS[choose(6, "kind")]; int n = N[choose(7, "elements")], rem = choose(4, "removed"), how = choose(3, "anchor kind"); cee_del_policy P = choose(2, "policy") ? CEE_DP_DEL_RC : CEE_DP_NOOP, o[2] = {P, P}; cee_state *s = w.s; size_t base = fresh_blocks(s);
  std::vector<cee_str *> e(n), v(n, NULL); void *c = NULL; step("%s of %d, %d removed, anchor %d, policy %d", KN[k], n, rem, how, P); bool pairs = k == MAPV || k == MAPK || k == DICT;
  switch (k) { case LIST: c = cee_list_mk_e(s, P, 0); break; case STACK: c = cee_stack_mk_e(s, P, n); break; case SET: c = cee_set_mk_e(s, P, scmp); break; case MAPV: c = cee_map_mk_e(s, o, scmp); break; case MAPK: c = cee_map_mk_e(s, o, pcmp); break; default: c = cee_dict_mk_e(s, P, 4); }
  w.n.push_back({k, c, {}, {}, true, 0}); anchor(w, how, 0);
  for (int i = 0; i < n; i++) { e[i] = w.str(mc::fmt("e%d", i)); if (pairs) v[i] = w.str(mc::fmt("v%d", i)); if (i == n / 2 && rem == 3) cee_state_gc(s);
    if (i == n / 2 && rem == 3) { e[i] = w.str(mc::fmt("e%d", i)); if (pairs) v[i] = w.str(mc::fmt("v%d", i)); }     // collected: not yet an element
    switch (k) { case LIST: cee_list_append((cee_list *)c, e[i]); break; case STACK: cee_stack_push((cee_stack *)c, e[i]); break; case SET: cee_set_add((cee_set *)c, e[i]); break; case MAPV: case MAPK: cee_map_add((cee_map *)c, e[i], v[i]); break; default: cee_dict_add((cee_dict *)c, (char *)e[i], v[i]); } }
  std::vector<char> in(n, 1); int nr = rem == 1 ? n / 2 : rem == 2 ? n - 1 : 0;
  for (int j = 0; j < nr; j++) { int i = k == STACK ? n - 1 - j : j; switch (k) { case LIST: cee_list_remove((cee_list *)c, 0); break; case STACK: cee_stack_pop((cee_stack *)c); break; case SET: cee_set_remove((cee_set *)c, e[i]); break; case MAPV: case MAPK: cee_map_remove((cee_map *)c, e[i]); break; default: mc::skip(); } in[i] = 0; }
  auto check = [&](bool reach) { MC_CHECK(!safety || !reach || mc::is_live(c), "the anchored %s of %d is freed", KN[k], n); if (!safety && !reach) MC_CHECK(!mc::is_live(c), "the released %s of %d survives", KN[k], n); if (mc::is_live(c) != reach) mc::skip();
    for (int i = 0; i < n; i++) for (cee_str *x : {e[i], v[i]}) { if (!x) continue; bool want = reach && in[i], l = mc::is_live(x); if (want && safety) MC_CHECK(l && mc::fmt("%c%d", x == e[i] ? 'e' : 'v', i) == (char *)x, "element %d of a reachable %s of %d is freed or changed", i, KN[k], n); if (!want && !safety) MC_CHECK(!l, "element %d of %d of a %s is unreachable and survives", i, n, KN[k]); if (l != want) mc::skip(); } };
  for (int g = 0; g < 3; g++) { cee_state_gc(s); check(true); } if (safety && k == LIST) MC_CHECK(cee_list_size((cee_list *)c) == (size_t)(n - nr), "list size"); if (safety && (k == MAPV || k == MAPK)) for (int i = 0; i < n; i++) if (in[i]) MC_CHECK(cee_map_find((cee_map *)c, e[i]) == v[i], "map of %d lost an element", n);
  w.roots.clear(); w.ctx.clear(); w.stk.clear(); if (how == 0) cee_state_remove_gc_root(s, c); else if (how == 1) cee_state_remove_context(s, (char *)"ctx0"); else cee_stack_pop(s->stack); cee_state_gc(s); check(false); w.n.clear(); w.finish(base); mc::state(k * 1000 + n);
}
// many anchors of one kind, part of them removed; marks that go round
static void anchors(bool safety) {
  static const int N[] = {3, 9, 12, 33, 100, 300}; int n = N[choose(6, "anchored")], how = choose(3, "anchor kind"), rem = choose(4, "removed"), order = choose(2, "order"), more = choose(2, "shared"); World w; w.s = cee_state_mk(n); w.safety = safety; size_t base = fresh_blocks(w.s); step("%d anchors of kind %d, removal %d", n, how, rem);
  for (int i = 0; i < n; i++) { w.mk(i % 3 == 0 ? LIST : i % 3 == 1 ? STR : BOXED); if (i % 3 == 1 && more) { w.link(i - 1, i); } } for (int i = 0; i < n; i++) anchor(w, how, order ? n - 1 - i : i); w.gc();
  auto un = [&](int i) { if (how == 0) w.unroot(i); else if (how == 1) w.uncontext(mc::fmt("ctx%d", i)); };
  if (how == 2) { int k = rem == 0 ? 0 : rem == 1 ? 1 : rem == 2 ? n / 2 : n; while (k--) { MC_CHECK(cee_stack_pop(w.s->stack) == w.n[w.stk.back()].p, "pop"); w.stk.pop_back(); } }
  else for (int i = 0; i < n; i++) if (rem == 1 ? i == n / 2 : rem == 2 ? i % 2 == 0 : rem == 3) un(i);
  w.gc(); w.gc(); if (rem < 3 && w.n[n - 1].live) { anchor(w, how == 2 ? 0 : how, n - 1); w.gc(); } w.finish(base);
}
static void rounds(bool safety) {
  static const int N[] = {2, 7, 100, 300, 1100}; int n = N[choose(mc::tier(4, 5), "collections")], alloc = choose(3, "allocation"), keep = choose(3, "kept"); World w; w.s = cee_state_mk(3); w.safety = safety; size_t base = fresh_blocks(w.s); step("%d collections, allocating %d, keeping %d", n, alloc, keep);
  int l = w.mk(LIST); w.root(l); int t = w.mk(MAPV); w.link(l, t); if (keep > 1) w.link(t, l);
  for (int i = 0; i < n; i++) { for (int a = 0; a < alloc; a++) { int x = w.mk(a ? LIST : STR); if (keep && i % 50 == 49 && w.can(t, x)) w.link(t, x); } w.gc(); }
  w.finish(base);
}
static void register_gc(bool safety) {
  mc::add("wide", [=] { wide(safety); }, 3); mc::add("anchors", [=] { anchors(safety); }, 3); mc::add("rounds", [=] { rounds(safety); }, 3);
  mc::add("chains", [=] { chains(safety, mc::tier(200, 700)); }, 2); mc::add("resized", [=] { resized(safety); }, 2);
  mc::add("kinds-1", [=] { kinds(safety, 1); }, 2); mc::add("kinds-2", [=] { kinds(safety, 2); }, 3); mc::add("lists-3", [=] { lists(safety, 3); }, 4);
  for (int i = 0; i < 6; i++) mc::add(mc::fmt("history-%d", i), [=] { history(safety, mc::tier(7, 8), i); }, 3);
  if (mc::thorough()) { mc::add("kinds-3", [=] { kinds(safety, 3); }, 4); mc::add("lists-4", [=] { lists(safety, 4); }, 4); }
}
