#include "json.hpp"
static Val O1(const char *k, Val v) { Val o = Val::O(); o.set(k, std::move(v)); return o; }
// objects present in both: merged recursively; two arrays: the source's elements follow; anything else: the source's value
static Val overlay(const Val &d, const Val &s) {
  if (d.t == Val::OBJ && s.t == Val::OBJ) { Val r = d; for (auto &p : s.o) { Val *q = r.find(p.first); r.set(p.first, q ? overlay(*q, p.second) : p.second); } return r; }
  if (d.t == Val::ARR && s.t == Val::ARR) { Val r = d; r.a.insert(r.a.end(), s.a.begin(), s.a.end()); return r; }
  return s;
}
static Val gen(int budget, int depth, int nl) {
  static const Val L[] = {Val::I(1), Val::S("s"), Val(), Val::B(true), Val::D(0.5), Val::U(UINT64_MAX)}; int k = choose(depth > 0 ? nl + 2 : nl, "value"); if (k < nl) return L[k];
  static const char *N[] = {"a", "b", "c"};
  if (k == nl) { int n = choose(std::min(budget, 2) + 1, "elements"); Val v = Val::A(); for (int i = 0; i < n; i++) v.a.push_back(gen(i + 1 < n ? 0 : budget - n, depth - 1, nl)); return v; }
  int mask = choose(budget >= 2 ? 8 : budget == 1 ? 4 : 1, "members"); static const int M1[] = {0, 1, 2, 4}; if (budget == 1) mask = M1[mask]; if (budget == 2 && mask == 7) mc::skip();
  int n = __builtin_popcount(mask), left = budget - n; Val v = Val::O(); for (int i = 0; i < 3; i++) if (mask >> i & 1) { n--; int b = left < 0 ? 0 : left; v.set(N[i], gen(n ? b / 2 : b - b / 2, depth - 1, nl)); } return v;
}
static void fits(const Val &v, cee_json *j, const char *what) { MC_CHECK(same(v, j), "%s is %s, expected %s", what, showj(j).c_str(), show(v).c_str()); }
static bool mergeable(const Val &a, const Val &b) { return a.t == b.t && (a.t == Val::OBJ || a.t == Val::ARR); }
static void pair(int b1, int b2, int nl) {
  Val d = gen(b1, 3, nl), s = gen(b2, 3, nl); step("merge %s into %s", show(s).c_str(), show(d).c_str()); St st; cee_json *jd = make(st, d), *js = make(st, s);
  bool r = cee_json_merge(jd, js); MC_CHECK(r == mergeable(d, s), "merge returns %d", r); Val e = r ? overlay(d, s) : d; fits(e, jd, "the destination"); fits(s, js, "the source");
  if (r) { for (auto j : {jd, js}) { char *p; cee_json_asprint(st, &p, NULL, j, CEE_JSON_FMT_COMPACT); Ref x = reference(p, true); MC_CHECK(x.v == Ref::OK && equal(j == jd ? e : s, x.val, true), "the merged value prints as %s", p); } }
  mc::state(mc::mix(hashv(d), hashv(s))); mc::outcome(hashv(e));
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void chain(int n, int b, int nl) {
  St st; Val acc = gen(b, 2, nl); cee_json *j = make(st, acc); std::vector<Val> keep; step("start %s", show(acc).c_str());
  for (int i = 0; i < n; i++) { Val s = gen(b, 2, nl); cee_json *js = make(st, s); step("merge %s", show(s).c_str()); cee_json *p = j; bool r = choose(2, "form") ? cee_json_merge_or_return(&p, js) : cee_json_merge(j, js); MC_CHECK(p == j && r == mergeable(acc, s), "merge returns %d", r); if (r) acc = overlay(acc, s); fits(acc, j, "the destination"); fits(s, js, "the source"); mc::state(hashv(acc)); }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// with a collection after each merge: the destination, rooted, keeps everything it needs
static void collected() {
  St st; Val d = gen(2, 2, 2), s = gen(2, 2, 2); cee_json *j = make(st, d), *js = make(st, s); if (d.t < Val::ARR) mc::skip(); step("merge %s into %s, collect", show(s).c_str(), show(d).c_str());
  cee_state_add_gc_root(st, j); bool r = cee_json_merge(j, js); if (r) d = overlay(d, s); cee_state_gc(st); fits(d, j, "the destination after a collection"); r = cee_json_merge(j, make(st, s)); if (r) d = overlay(d, s); cee_state_gc(st); cee_state_gc(st); fits(d, j, "the destination after collections"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void nulls() {
  int k = choose(5, "case"); St st; Val d = gen(2, 2, 3); cee_json *j = make(st, d), *p = nullptr; step("case %d on %s", k, show(d).c_str());
  switch (k) { case 0: MC_CHECK(!cee_json_merge(j, NULL), "merging nothing succeeds"); break; case 1: MC_CHECK(!cee_json_merge(NULL, j), "merging into nothing succeeds"); break; case 2: MC_CHECK(cee_json_merge_or_return(&p, j) && p == j, "merge_or_return into nothing does not return the source"); break; case 3: MC_CHECK(!cee_json_merge_or_return(&p, NULL) && !p, "merge_or_return of nothing succeeds"); break; default: MC_CHECK(!cee_json_merge_or_return(NULL, j), "merge_or_return without destination succeeds"); }
  fits(d, j, "the value"); cee_del(st.s);
}
// merging a value with itself: objects stay, arrays double
static void self() { St st; Val d = gen(3, 3, 3); cee_json *j = make(st, d); step("merge %s with itself", show(d).c_str()); bool r = cee_json_merge(j, j); MC_CHECK(r == mergeable(d, d), "self merge returns %d", r); if (r) fits(overlay(d, d), j, "the value"); else fits(d, j, "the value"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain"); }
static void wide() { static const int B[] = {127, 255, 256, 257, 513, 1025}; int n = choose(mc::tier(60, 200) + 6, "members"), m = choose(mc::tier(12, 40) + 6, "more"), off = choose(3, "overlap"); if (n >= mc::tier(60, 200)) n = B[n - mc::tier(60, 200)]; if (m >= mc::tier(12, 40)) m = B[m - mc::tier(12, 40)]; St st; Val d = Val::O(), s = Val::O(); for (int i = 0; i < n; i++) d.set(std::to_string(i), i % 2 ? Val::I(i) : Val::A({Val::I(i)})); for (int i = 0; i < m; i++) s.set(std::to_string(off == 0 ? i : off == 1 ? n - m / 2 + i : 1000 + i), i % 2 ? Val::S("n") : Val::A({Val::S("n")})); cee_json *jd = make(st, d), *js = make(st, s); step("%d members + %d", n, m); MC_CHECK(cee_json_merge(jd, js), "merge fails"); fits(overlay(d, s), jd, "the destination"); fits(s, js, "the source"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain"); }
// documents that overlap down to any depth, through objects only or with arrays in between
static void deep() {
  int n = choose(mc::tier(260, 900), "levels"), k = choose(5, "kind"); Val d = Val::A({Val::I(1)}), s = k == 1 ? Val::S("scalar") : Val::A({Val::I(2)}); step("%d levels, kind %d", n, k);
  for (int i = 0; i < n; i++) { Val D = Val::O(), S = Val::O(); D.set("k", std::move(d)); S.set("k", std::move(s)); D.set("d", Val::I(i)); if (k != 2) S.set("s", Val::I(-i)); if (k == 3) { D.set("x", Val::I(1)); S.set("x", Val::O()); } if (k == 4 && i == n / 2) { d = Val::A({std::move(D)}); s = Val::A({std::move(S)}); continue; } d = std::move(D); s = std::move(S); }
  St st; cee_json *jd = make(st, d), *js = make(st, s); bool r = cee_json_merge(jd, js), e = mergeable(d, s); MC_CHECK(r == e, "merge returns %d", r); fits(e ? overlay(d, s) : d, jd, "the destination"); fits(s, js, "the source");
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// long arrays meeting long arrays, and many siblings each with overlapping objects
static void long_arrays() {
  static const int B[] = {0, 1, 2, 50, 127, 128, 200, 255, 256, 257, 300, 511, 512, 513, 1030, 2100, 4200}; int n = B[choose(mc::tier(15, 17), "elements")], m = B[choose(mc::tier(15, 17), "more")], k = choose(2, "kind"); Val d = Val::O(), s = Val::O(); step("%d and %d", n, m); Val a = Val::A(), b = Val::A(); for (int i = 0; i < n; i++) { a.a.push_back(Val::I(i)); if (k) d.set(mc::fmt("o%d", i), O1("p", O1("q", Val::I(i)))); } for (int i = 0; i < m; i++) { b.a.push_back(Val::S(mc::fmt("%d", i))); if (k) s.set(mc::fmt("o%d", i), O1("p", O1("r", Val::A({Val::I(i)})))); } d.set("a", a); s.set("a", b);
  St st; cee_json *jd = make(st, d), *js = make(st, s); MC_CHECK(cee_json_merge(jd, js), "merge fails"); fits(overlay(d, s), jd, "the destination"); fits(s, js, "the source"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() { mc::add("deep", deep, 2); mc::add("long-arrays", long_arrays, 2); mc::add("pairs", [] { pair(2, 2, 3); }, 4); mc::add("deeper-dest", [] { pair(3, mc::tier(1, 3), 2); }, 4); mc::add("deeper-source", [] { pair(mc::tier(1, 2), 3, 2); }, 4); mc::add("all-types", [] { pair(1, 1, 6); }, 3); mc::add("chains", [] { chain(mc::tier(2, 3), mc::tier(2, 2), 1); }, 4); mc::add("collected", collected, 3); mc::add("nulls", nulls, 2); mc::add("self", self, 3); mc::add("wide", wide, 2); }
