#include "common.hpp"
// chains and trees of environments; names bound anywhere
static const char *NAMES[] = {"x", "y", "", "xx"};
static cee_str *S(cee_state *s, const std::string &t) { return cee_str_mk(s, "%s", t.c_str()); }
static void lookup(int maxdepth, int names) {
  St st; int n = 1 + choose(maxdepth, "levels"); std::vector<cee_env *> e; std::vector<std::map<std::string, std::string>> m; std::vector<int> up; cee_del_policy dp[2] = {CEE_DP_NOOP, CEE_DP_NOOP};
  for (int i = 0; i < n; i++) {
    int outer = i == 0 ? -1 : choose(i + 1, "outer") - 1;
    cee_map *v = NULL; std::map<std::string, std::string> b; int mask = choose((1 << names) + 1, "bindings");
    if (mask) { v = cee_map_mk(st, (cee_cmp_fun)strcmp); for (int k = 0; k < names; k++) if ((mask - 1) >> k & 1) { b[NAMES[k]] = mc::fmt("%s@%d", NAMES[k], i); cee_map_add(v, S(st, NAMES[k]), S(st, b[NAMES[k]])); } }
    cee_env *o = outer < 0 ? NULL : e[outer]; e.push_back(i % 2 ? cee_env_mk(st, o, v) : cee_env_mk_e(st, dp, o, v)); m.push_back(b); up.push_back(outer); step("env %d in %d, bindings %x%s", i, outer, mask ? mask - 1 : 0, mask ? "" : " (no variables)");
  }
  for (int i = 0; i < n; i++) for (int k = 0; k <= names; k++) {
    std::string name = k == names ? "absent" : NAMES[k]; const std::string *want = NULL; for (int j = i; j >= 0; j = up[j]) if (m[j].count(name)) { want = &m[j][name]; break; }
    char *r = (char *)cee_env_find(e[i], (char *)name.c_str()); MC_CHECK((r != NULL) == (want != NULL), "%s in env %d is %s", name.c_str(), i, r ? "found" : "not found"); if (r) MC_CHECK(*want == r, "%s in env %d gives %s, expected %s", name.c_str(), i, r, want->c_str());
  }
  MC_CHECK(cee_env_find(NULL, (char *)"x") == NULL, "a NULL environment has bindings"); uint64_t h = 1; for (auto &b : m) for (auto &p : b) h = mc::hash_str(p.second, h); mc::state(h);
  // later bindings are seen too
  if (n > 1 && e[0]->vars) { cee_map_add(e[0]->vars, S(st, "late"), S(st, "late value")); for (int i = 0; i < n; i++) { int j = i; while (up[j] >= 0) j = up[j]; char *r = (char *)cee_env_find(e[i], (char *)"late"); MC_CHECK((r != NULL) == (j == 0), "a later binding is %s", r ? "seen" : "not seen"); } }
  if (n > 1 && !e[0]->vars) { e[0]->vars = cee_map_mk(st, (cee_cmp_fun)strcmp); cee_map_add(e[0]->vars, S(st, "late"), S(st, "late value")); for (int i = 0; i < n; i++) { int j = i; while (up[j] >= 0) j = up[j]; char *r = (char *)cee_env_find(e[i], (char *)"late"); MC_CHECK((r != NULL) == (j == 0), "a binding of variables given later is %s", r ? "seen" : "not seen"); } }
  cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
struct Seen { cee_state *s; cee_env *e; size_t n; std::vector<void *> a; int calls; } g;
static void *RET = (void *)0xabc0;
static void *fun(cee_state *s, cee_env *e, size_t n, va_list ap) { g.s = s; g.e = e; g.n = n; g.calls++; g.a.clear(); for (size_t i = 0; i < n; i++) g.a.push_back(va_arg(ap, void *)); return (char *)RET + n; }
static void *lookup_x(cee_state *s, cee_env *e, size_t n, va_list ap) { char *name = va_arg(ap, char *); return cee_env_find(e, name); }
static void calls() {
  St st; int ne = choose(3, "environments"), order = choose(2, "order"); cee_map *v = cee_map_mk(st, (cee_cmp_fun)strcmp); cee_map_add(v, S(st, "x"), S(st, "outer x")); cee_env *o = cee_env_mk(st, NULL, v); std::vector<cee_env *> es = {o, NULL, cee_env_mk(st, o, NULL)};
  cee_closure *c[2] = {cee_closure_mk(st, es[ne], (void *)fun), cee_closure_mk(st, o, (void *)lookup_x)}; int n = choose(11, "arguments"); void *a[10]; for (int i = 0; i < 10; i++) a[i] = i % 3 ? tok(i * 17 + n) : NULL; step("call with %d arguments in environment %d", n, ne); g = Seen{}; void *r = NULL;
  for (int rep = 0; rep < 2; rep++) if ((rep == 0) == (order == 0)) {
#define C(k, ...) case k: r = cee_closure_call(st, c[0], k, ##__VA_ARGS__); break;
    switch (n) { C(0) C(1, a[0]) C(2, a[0], a[1]) C(3, a[0], a[1], a[2]) C(4, a[0], a[1], a[2], a[3]) C(5, a[0], a[1], a[2], a[3], a[4]) C(6, a[0], a[1], a[2], a[3], a[4], a[5]) C(7, a[0], a[1], a[2], a[3], a[4], a[5], a[6]) C(8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]) C(9, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]) C(10, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]) }
    MC_CHECK(g.calls == 1 && g.s == st.s && g.e == es[ne] && (int)g.n == n, "the function sees another state, environment or count"); for (int i = 0; i < n; i++) MC_CHECK(g.a[i] == a[i], "argument %d differs", i); MC_CHECK(r == (char *)RET + n, "the result is not forwarded");
    St other; g = Seen{}; r = cee_closure_call(other, c[0], 2, a[1], a[2]); MC_CHECK(g.calls == 1 && g.s == other.s && g.e == es[ne] && g.n == 2 && g.a[0] == a[1] && g.a[1] == a[2] && r == (char *)RET + 2, "called with another state, the function sees something else"); cee_del(other.s);
  } else { char *x = (char *)cee_closure_call(st, c[1], 1, "x"), *y = (char *)cee_closure_call(st, c[1], 1, "y"); MC_CHECK(x && !strcmp(x, "outer x") && !y, "the closure does not see its environment"); }
  mc::state(n * 3 + ne); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// environments own what they point to: shared outer environments are freed with their last user, never before
static void ownership() {
  St st; int shape = choose(4, "shape"); auto vars = [&](const char *t) { cee_map *m = cee_map_mk(st, (cee_cmp_fun)strcmp); cee_map_add(m, S(st, "x"), S(st, t)); return m; };
  cee_map *om = vars("outer"); cee_env *o = cee_env_mk(st, NULL, om); std::vector<cee_env *> in; int n = 1 + choose(3, "inner"); for (int i = 0; i < n; i++) in.push_back(cee_env_mk(st, shape & 1 && i ? in[i - 1] : o, shape & 2 ? om : vars("inner")));
  std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); step("%d environments, shape %d", n, shape); if (shape & 1) { step("delete the innermost"); cee_del(in[n - 1]); MC_CHECK(!mc::is_live(o) && !mc::is_live(om), "the outer environment survives its last user"); }
  else while (!order.empty()) { int i = choose(order.size(), "delete"); step("delete %d", order[i]); cee_del(in[order[i]]); order.erase(order.begin() + i); MC_CHECK(mc::is_live(o) == !order.empty() && mc::is_live(om) == !order.empty(), "the outer environment is %s with %zu users left", mc::is_live(o) ? "live" : "freed", order.size()); for (int j : order) { char *r = (char *)cee_env_find(in[j], (char *)"x"); MC_CHECK(r && !strcmp(r, shape & 2 ? "outer" : "inner"), "lookup after deletion"); } }
  mc::state(shape * 8 + n); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// chains of any length: the only binding at either end or in the middle, shadowed or not
static void deep() {
  int n = 1 + choose(mc::tier(400, 2000), "levels"), at = choose(3, "bound at"), novars = choose(2, "without variables"); St st; std::vector<cee_env *> e; int b = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; step("%d levels, bound at %d", n, b);
  for (int i = 0; i < n; i++) { cee_map *v = NULL; if (i == b || !novars) { v = cee_map_mk(st, (cee_cmp_fun)strcmp); if (i == b) cee_map_add(v, S(st, "x"), S(st, "bound")); else cee_map_add(v, S(st, "other"), S(st, mc::fmt("other@%d", i))); } e.push_back(cee_env_mk(st, i ? e[i - 1] : NULL, v)); }
  for (int i : {0, b ? b - 1 : 0, b, b + 1 < n ? b + 1 : b, n - 1}) { char *r = (char *)cee_env_find(e[i], (char *)"x"); MC_CHECK((r != NULL) == (i >= b) && (!r || !strcmp(r, "bound")), "x, bound at level %d of %d, looked up at %d gives %s", b, n, i, r ? r : "nothing"); MC_CHECK(!cee_env_find(e[i], (char *)"absent"), "an absent name is found"); if (!novars && i != b) { char *o = (char *)cee_env_find(e[i], (char *)"other"); MC_CHECK(o && mc::fmt("other@%d", i) == o, "the innermost of many bindings is not found at %d", i); } }
  cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// many names in one environment
static void crowded() {
  int n = choose(mc::tier(140, 400), "names"); St st; cee_map *o = cee_map_mk(st, (cee_cmp_fun)strcmp), *v = cee_map_mk(st, (cee_cmp_fun)strcmp); step("%d names", n); for (int i = 0; i < n; i++) { cee_map_add(o, S(st, mc::fmt("n%d", i)), S(st, mc::fmt("o%d", i))); if (i % 3 == 0) cee_map_add(v, S(st, mc::fmt("n%d", i)), S(st, mc::fmt("i%d", i))); }
  cee_env *eo = cee_env_mk(st, NULL, o), *e = cee_env_mk(st, eo, v); for (int i = 0; i <= n; i++) { char *r = (char *)cee_env_find(e, (char *)mc::fmt("n%d", i).c_str()); MC_CHECK(i == n ? !r : r && mc::fmt("%c%d", i % 3 ? 'o' : 'i', i) == r, "n%d gives %s", i, r ? r : "nothing"); }
  cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
// more arguments than fit any register or a byte
#define A1(k) a[k]
#define A4(k) A1(k), A1(k + 1), A1(k + 2), A1(k + 3)
#define A16(k) A4(k), A4(k + 4), A4(k + 8), A4(k + 12)
#define A64(k) A16(k), A16(k + 16), A16(k + 32), A16(k + 48)
#define A256 A64(0), A64(64), A64(128), A64(192)
static void many_arguments() {
  static const int N[] = {16, 17, 32, 33, 64, 65, 255, 256, 257, 320}; int k = choose(10, "arguments"), n = N[k]; St st; cee_env *e = cee_env_mk(st, NULL, NULL); cee_closure *c = cee_closure_mk(st, e, (void *)fun); void *a[320]; for (int i = 0; i < 320; i++) a[i] = tok(i * 31 + n); step("call with %d arguments", n); g = Seen{}; void *r = NULL;
  if (n <= 65) r = cee_closure_call(st, c, n, A64(0), a[64]); else if (n <= 257) r = cee_closure_call(st, c, n, A256, a[256]); else r = cee_closure_call(st, c, n, A256, A64(256));
  MC_CHECK(g.calls == 1 && g.s == st.s && g.e == e && g.n == (size_t)n, "of %d arguments, the function is told of %zu", n, g.n); for (int i = 0; i < n; i++) MC_CHECK(g.a[i] == a[i], "argument %d of %d differs", i, n); MC_CHECK(r == (char *)RET + n, "the result is not forwarded"); mc::state(1000 + n); cee_del(st.s); MC_CHECK(!mc::live_blocks(), "blocks left");
}
void mc_register() { mc::add("many-arguments", many_arguments, 1); mc::add("deep", deep, 2); mc::add("crowded", crowded, 1);  mc::add("lookup", [] { lookup(mc::tier(4, 5), 2); }, 4); mc::add("lookup-names", [] { lookup(mc::tier(2, 3), 4); }, 3); mc::add("calls", calls, 2); mc::add("ownership", ownership, 2); }
