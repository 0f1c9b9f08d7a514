#include "common.hpp"
static std::vector<void *> parts(cee_state *s, int n) { std::vector<void *> r; for (int i = 0; i < n; i++) r.push_back(cee_str_mk(s, "part %d", i)); return r; }
static void intact(const std::vector<void *> &v) { for (size_t i = 0; i < v.size(); i++) MC_CHECK(mc::is_live(v[i]) && mc::fmt("part %zu", i) == (char *)v[i], "component %zu changed", i); }
static cee_del_policy pol(int i) { static const cee_del_policy P[] = {CEE_DP_DEL_RC, CEE_DP_DEL, CEE_DP_NOOP}; return P[i]; }
// alias: which component each position refers to (positions may share)
static void product() {
  St st; int kind = choose(4, "kind"), n = kind == 0 ? 2 : kind == 1 ? 3 : kind == 2 ? 4 : 1 + choose(16, "arity"); bool dflt = kind == 3 || (kind != 2 && choose(2, "default policy"));
  auto v = parts(st, n); std::vector<int> at(n); for (int i = 0; i < n; i++) at[i] = n <= 4 ? choose(n, "component") : (i * 5 + 3) % n;
  cee_del_policy o[4]; for (int i = 0; i < 4 && i < n; i++) o[i] = dflt ? CEE_DP_DEL_RC : pol(choose(3, "policy"));
  void *a[16]; for (int i = 0; i < 16; i++) a[i] = i < n ? v[at[i]] : (void *)0x10; void **r = NULL; step("product of %d, default %d", n, dflt);
  for (int rep = 0; rep < 2; rep++) {                                   // the second one must not share storage with the first
    void **q;
    if (kind == 0) q = (dflt ? cee_tuple_mk(st, a[0], a[1]) : cee_tuple_mk_e(st, o, a[0], a[1]))->_;
    else if (kind == 1) q = (dflt ? cee_triple_mk(st, a[0], a[1], a[2]) : cee_triple_mk_e(st, o, a[0], a[1], a[2]))->_;
    else if (kind == 2) q = cee_quadruple_mk_e(st, o, a[0], a[1], a[2], a[3])->_;
    else q = cee_n_tuple_mk(st, n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15])->_;
    MC_CHECK(mc::block_room(q) >= n * sizeof(void *), "object has room for %zu bytes only", mc::block_room(q));
    if (!r) { r = q; for (int i = 0; i < n; i++) MC_CHECK(r[i] == a[i], "component %d differs", i); }
    else { MC_CHECK(q + n <= r || r + n <= q, "two products share storage"); for (int i = 0; i < n; i++) q[i] = (void *)0x77; for (int i = 0; i < n; i++) MC_CHECK(r[i] == a[i], "component %d of the first product changed", i); }
  }
  intact(v); MC_CHECK(cee_get_state(r) == st.s, "cee_get_state of a product"); mc::state(kind * 100 + n); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
static void tuple_refuses_17() { St st; auto v = parts(st, 20); void **q = v.data(); int n = 17 + choose(4, "more"); step("%d components", n); bool t = mc::traps([&] { cee_n_tuple_mk(st, n, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15], q[16], q[17], q[18], q[19]); }); MC_CHECK(t, "an n-tuple of %d is accepted", n); intact(v); }
static void tagged() {
  St st; static const uintptr_t TAGS[] = {0, 1, 2, 255, 256, 65536, 0x80000000u, UINTPTR_MAX}; int n = 3; struct T { cee_tagged *t; uintptr_t tag; void *p; }; std::vector<T> ts; auto v = parts(st, 2);
  for (int i = 0; i < n; i++) { int k = choose(8, "tag"), c = choose(3, "content"), o = choose(4, "policy"); void *p = c == 2 ? NULL : v[c]; step("tag %d, content %d, policy %d", k, c, o);
    cee_tagged *t = o == 3 ? cee_tagged_mk(st, TAGS[k], p) : cee_tagged_mk_e(st, pol(o), TAGS[k], p); ts.push_back({t, TAGS[k], p});
    for (auto &x : ts) MC_CHECK(x.t->tag == x.tag && x.t->ptr._ == x.p, "tagged value lost its tag or content"); }
  intact(v); mc::state(mc::alloc_total()); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
static size_t g_seen; static void *g_cxt;
static void init(void *c, void *b) { g_cxt = c; memset(b, 0x5c, g_seen); }
static void blocks(int N) {
  St st; int how = choose(3, "constructor"), n = choose(N, "size"); step("block of %d, constructor %d", n, how); g_seen = n; int cx; void *p[2];
  for (int i = 0; i < 2; i++) { p[i] = how == 0 ? cee_block_mk(st, n) : how == 1 ? cee_block_mk_nonzero(st, n) : cee_block_mk_e(st, n, &cx, init);
    MC_CHECK(cee_block_size((cee_block *)p[i]) == (size_t)n, "size of a block of %d is %zu", n, cee_block_size((cee_block *)p[i])); MC_CHECK(mc::block_room(p[i]) >= (size_t)n, "block of %d has room for %zu", n, mc::block_room(p[i]));
    for (int j = 0; j < n; j++) if (how != 1) MC_CHECK(((unsigned char *)p[i])[j] == (how == 0 ? 0 : 0x5c), "byte %d of a block of %d is not initialised", j, n);
    if (how == 2) MC_CHECK(g_cxt == &cx, "initialiser gets a foreign context"); if (i == 0) memset(p[0], 0x11, n); }
  memset(p[1], 0x22, n); for (int j = 0; j < n; j++) MC_CHECK(((unsigned char *)p[0])[j] == 0x11, "two blocks share storage"); MC_CHECK(cee_block_size((cee_block *)p[0]) == (size_t)n, "size changed");
  mc::state(how * 10000 + n); cee_del(p[0]); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
static void big_blocks() {
  static const int N[] = {1023, 1024, 1025, 4095, 4096, 4097, 5000, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20, (1 << 20) + 1}; int how = choose(3, "constructor"), n = N[choose(15, "size")]; St st; step("block of %d, constructor %d", n, how); g_seen = n; int cx; unsigned char *p = NULL;
  for (int i = 0; i < 3; i++) { void *junk = malloc(n); memset(junk, 0xee, n); mc::lib_free(NULL); free(junk); p = (unsigned char *)(how == 0 ? cee_block_mk(st, n) : how == 1 ? cee_block_mk_nonzero(st, n) : cee_block_mk_e(st, n, &cx, init)); MC_CHECK(cee_block_size((cee_block *)p) == (size_t)n && mc::block_room(p) >= (size_t)n, "block of %d: size %zu, room %zu", n, cee_block_size((cee_block *)p), mc::block_room(p)); if (how != 1) for (int j = 0; j < n; j++) MC_CHECK(p[j] == (how == 0 ? 0 : 0x5c), "byte %d of a block of %d is not initialised", j, n); memset(p, 0x33, n); if (i == 1) cee_del(p); }
  cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// many products of one state keep their own components
static void crowd() {
  int n = 1 + choose(mc::tier(60, 200), "objects") * 7; St st; std::vector<void **> ps; std::vector<std::vector<void *>> want; std::vector<int> tags; std::vector<cee_tagged *> tg; step("%d products", n); auto v = parts(st, 6);
  for (int i = 0; i < n; i++) { void *a = v[i % 6], *b = v[(i + 1) % 6], *c = v[(i / 2) % 6], *d = v[(i / 3) % 6]; cee_del_policy o[4] = {CEE_DP_NOOP, CEE_DP_DEL_RC, CEE_DP_NOOP, CEE_DP_DEL_RC}; switch (i % 5) { case 0: ps.push_back(cee_tuple_mk(st, a, b)->_); want.push_back({a, b}); break; case 1: ps.push_back(cee_triple_mk(st, a, b, c)->_); want.push_back({a, b, c}); break; case 2: ps.push_back(cee_quadruple_mk_e(st, o, a, b, c, d)->_); want.push_back({a, b, c, d}); break; case 3: ps.push_back(cee_n_tuple_mk(st, 5, a, b, c, d, a)->_); want.push_back({a, b, c, d, a}); break; default: tg.push_back(cee_tagged_mk(st, i, b)); tags.push_back(i); } }
  for (size_t i = 0; i < ps.size(); i++) for (size_t k = 0; k < want[i].size(); k++) MC_CHECK(ps[i][k] == want[i][k], "component %zu of product %zu of %d changed", k, i, n); for (size_t i = 0; i < tg.size(); i++) MC_CHECK(tg[i]->tag == (uintptr_t)tags[i] && tg[i]->ptr._ == v[(tags[i] + 1) % 6], "tagged %zu changed", i); intact(v); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
static void singletons() {
  static char mem[3][CEE_SINGLETON_SIZE] __attribute__((aligned(16))); static const uintptr_t T[] = {0, 1, 77, UINTPTR_MAX}; St st; cee_singleton *s[3]; uintptr_t tag[3], val[3];
  for (int i = 0; i < 3; i++) { tag[i] = T[choose(4, "tag")]; val[i] = T[choose(4, "value")]; s[i] = cee_singleton_init(mem[i], tag[i], val[i]); step("singleton"); for (int j = 0; j <= i; j++) MC_CHECK(s[j]->tag == tag[j] && s[j]->val == val[j], "singleton %d lost its tag or value", j); }
  cee_list *l = cee_list_mk(st, 1); for (int r = 0; r < 3; r++) for (auto x : s) cee_list_append(l, x); cee_del(l); cee_del(s[0]); cee_del_ref(s[1]); cee_state_add_gc_root(st, s[2]); cee_state_gc(st); cee_state_gc(st);
  for (int j = 0; j < 3; j++) MC_CHECK(s[j]->tag == tag[j] && s[j]->val == val[j], "singleton %d changed by deletion", j);
  cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
void mc_register() {
  mc::add("big-blocks", big_blocks, 2); mc::add("crowd", crowd, 1);
  mc::add("products", product, 3); mc::add("n-tuple-limit", tuple_refuses_17, 0); mc::add("tagged", tagged, 2); mc::add("blocks", [] { blocks(mc::tier(700, 5000)); }, 2); mc::add("singletons", singletons, 2);
}
