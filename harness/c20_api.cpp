#include "json.hpp"
static Val O1(const char *k, Val v) { Val o = Val::O(); o.set(k, v); return o; }
static const std::vector<Val> &vals() { static std::vector<Val> v = {Val(), Val::B(true), Val::I(5), Val::U(6), Val::D(1.5), Val::S("12"), Val::S("x"), Val::A(), Val::A({Val::I(1), Val::S("e")}), Val::O(), O1("a", Val::A({Val::B(false)}))}; return v; }
static const char *K[] = {"a", "b", "error"};
static void same_or_fail(const Val &v, cee_json *j, const char *op) { MC_CHECK(same(v, j), "after %s the value is %s, expected %s", op, showj(j).c_str(), show(v).c_str()); }
static void queries(const Val &v, cee_json *j) {
  same_or_fail(v, j, "the step");
  if (v.t == Val::OBJ) { for (auto k : {"a", "b", "c", "", "error", "aa"}) { const Val *e = v.find(k); cee_json *g = cee_json_object_get(j, (char *)k); MC_CHECK(e ? same(*e, g) : !g, "get(%s) gives %s", k, showj(g).c_str()); } MC_CHECK(cee_json_empty(j) == v.o.empty(), "empty() of %s", show(v).c_str());
    for (int stop = 0; stop < (int)v.o.size() + 1; stop++) { struct C { int n, stop; } c{0, stop}; int r = cee_json_object_iterate(j, &c, [](void *p, cee_str *, cee_json *) -> int { C *c = (C *)p; return c->n++ == c->stop ? -9 : 0; }); bool stops = stop < (int)v.o.size(); MC_CHECK(r == (stops ? -9 : 0) && c.n == (stops ? stop + 1 : (int)v.o.size()), "iterate stopping at %d returns %d after %d visits of %zu", stop, r, c.n, v.o.size()); } }
  if (v.t == Val::ARR) { int n = v.a.size(); MC_CHECK(cee_json_array_length(j) == (size_t)n, "length %zu", cee_json_array_length(j)); for (int i : {-1, n, n + 1, INT32_MAX, INT32_MIN}) MC_CHECK(!cee_json_array_get(j, i), "element %d of %d exists", i, n); MC_CHECK(cee_json_empty(j) == (n == 0), "empty() of %s", show(v).c_str());
    for (int stop = 0; stop <= n; stop++) { struct C { int n, stop; const Val *v; bool ok; } c{0, stop, &v, true}; int r = cee_json_array_iterate(j, &c, [](void *p, cee_json *x, int i) -> int { C *c = (C *)p; if (i != c->n || !same(c->v->a[i], x)) c->ok = false; return c->n++ == c->stop ? 300 : 0; }); MC_CHECK(c.ok && r == (stop < n ? 300 : 0) && c.n == (stop < n ? stop + 1 : n), "iterate stopping at %d returns %d after %d visits of %d", stop, r, c.n, n); } }
}
static bool scalar(const Val &v) { return v.t != Val::ARR && v.t != Val::OBJ; }
static void append_model(Val &o, const char *k, const Val &v) { Val *p = o.find(k); if (!p) { o.set(k, v); return; } if (p->t != Val::ARR) *p = Val::A({*p}); if (v.t == Val::ARR) { auto c = v.a; p->a.insert(p->a.end(), c.begin(), c.end()); } else p->a.push_back(v); }
static bool to_i64(const std::string &s, int64_t *r) { char *e; errno = 0; long long x = strtoll(s.c_str(), &e, 10); *r = x; return !s.empty() && !*e && errno == 0; }
// one object, all operations
static void object_step(cee_json *j, Val &m, cee_state *st, int n, int nv) {
  auto V = [&]() -> const Val & { return vals()[choose(nv, "value")]; }; auto key = [&] { return choose(n, "key"); };
  switch (choose(14, "op")) {
  case 0: { int k = key(); const Val &v = V(); step("set %s := %s", K[k], show(v).c_str()); cee_json_object_set(j, (char *)K[k], make(st, v)); m.set(K[k], v); break; }
  case 1: { int k = key(); step("remove %s", K[k]); cee_json_object_remove(j, (char *)K[k]); m.erase(K[k]); break; }
  case 2: { int a = key(), b = key(); step("rename %s to %s", K[a], K[b]); bool r = cee_json_object_rename(j, (char *)K[a], (char *)K[b]); MC_CHECK(r == (m.find(K[a]) != nullptr), "rename(%s,%s) returns %d", K[a], K[b], r); if (r && a != b) { Val v = *m.find(K[a]); m.erase(K[a]); m.set(K[b], v); } break; }
  case 3: { int k = key(); const Val &v = V(); step("append to %s: %s", K[k], show(v).c_str()); cee_json_object_append(j, (char *)K[k], make(st, v)); append_model(m, K[k], v); break; }
  case 4: { int k = key(); cee_json *x = cee_json_object_get(j, (char *)K[k]); if (!x || (m.find(K[k])->t == Val::OBJ)) return; step("append to %s: itself", K[k]); cee_json_object_append(j, (char *)K[k], x); Val v = *m.find(K[k]); append_model(m, K[k], v); break; }
  case 5: { int k = key(); step("convert %s", K[k]); bool r = cee_json_object_convert_to_i64(j, (char *)K[k]); Val *p = m.find(K[k]); int64_t x; bool e = p && (p->t == Val::I64 || (p->t == Val::STR && to_i64(p->s, &x))); if (e && p->t == Val::STR) *p = Val::I(x); MC_CHECK(r == e, "convert(%s) returns %d", K[k], r); break; }
  case 6: { int a = key(), b = key(); Val *p = m.find(K[a]); if (!p || !scalar(*p)) return; step("set %s := value of %s", K[b], K[a]); cee_json_object_set(j, (char *)K[b], cee_json_object_get(j, (char *)K[a])); Val v = *p; m.set(K[b], v); break; }
  case 7: { int k = key(); step("set_null %s", K[k]); cee_json_object_set_null(j, (char *)K[k]); m.set(K[k], Val()); break; }
  case 8: { int k = key(); step("set_bool %s", K[k]); cee_json_object_set_bool(j, (char *)K[k], k & 1); m.set(K[k], Val::B(k & 1)); break; }
  case 9: { int k = key(); step("set_str %s", K[k]); cee_json_object_set_str(j, (char *)K[k], (char *)"%d\"s"); m.set(K[k], Val::S("%d\"s")); break; }
  case 10: { int k = key(); step("set_strf %s", K[k]); cee_json_object_set_strf(j, (char *)K[k], "%d-%s", 77, "y"); m.set(K[k], Val::S("77-y")); break; }
  case 11: { int k = key(), w = choose(3, "type"); step("set number %s", K[k]); if (w == 0) { cee_json_object_set_double(j, (char *)K[k], -0.25); m.set(K[k], Val::D(-0.25)); } else if (w == 1) { cee_json_object_set_i64(j, (char *)K[k], INT64_MIN); m.set(K[k], Val::I(INT64_MIN)); } else { cee_json_object_set_u64(j, (char *)K[k], UINT64_MAX); m.set(K[k], Val::U(UINT64_MAX)); } break; }
  case 12: { step("set_error"); cee_json *x = j; cee_json_set_error(&x, "E%d", 3); if (!m.find("error")) m.set("error", Val::S("E3")); break; }
  case 13: { int k = key(); cee_json *x = cee_json_object_get(j, (char *)K[k]); Val *p = m.find(K[k]); if (!x) return; step("edit %s in place", K[k]); if (p->t == Val::ARR) { cee_json_array_append_str(x, (char *)"in"); p->a.push_back(Val::S("in")); } else if (p->t == Val::OBJ) { cee_json_object_set_i64(x, (char *)"in", 1); p->set("in", Val::I(1)); } break; }
  }
}
static void objects(int depth, int n, int nv, bool pr) {
  St st; cee_json *j = cee_json_object_mk(st); Val m = Val::O(); int start = choose(pr ? 1 : 3, "start"); if (start == 1) { j = cee_json_object_kv(st, (char *)"a", make(st, vals()[5])); m.set("a", vals()[5]); } if (start == 2) { j = cee_map_to_json(cee_json_to_object(j)); }
  for (int d = 0; d < depth; d++) { object_step(j, m, st, n, nv); queries(m, j); mc::state(hashv(m)); if (pr) { for (auto &p : m.o) if (p.second.t == Val::ARR && p.second.a.size() > 8) return; mc::prune(hashv(m), depth - d); } }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// one array, all operations
static void arrays(int depth, bool pr) {
  St st; int cap = pr ? 1 : choose(3, "capacity"); cee_json *j = cee_json_array_mk(st, cap); if (cap == 2) j = cee_list_to_json(cee_json_to_array(j)); Val m = Val::A(); const auto &vs = vals();
  for (int d = 0; d < depth; d++) {
    int n = m.a.size();
    switch (choose(9, "op")) {
    case 0: { const Val &v = vs[choose(pr ? 3 : (int)vs.size(), "value")]; step("append %s", show(v).c_str()); cee_json_array_append(j, make(st, v)); m.a.push_back(v); break; }
    case 1: { int i = choose(n + 1, "index"); const Val &v = vs[2 + choose(4, "value")]; step("insert at %d: %s", i, show(v).c_str()); cee_json_array_insert(j, i, make(st, v)); m.a.insert(m.a.begin() + i, v); break; }
    case 2: { int i = choose(n + 2, "index") - 1; step("remove %d", i); cee_json_array_remove(j, i); if (i >= 0 && i < n) m.a.erase(m.a.begin() + i); break; }
    case 3: { step("append_bool"); cee_json_array_append_bool(j, d & 1); m.a.push_back(Val::B(d & 1)); break; }
    case 4: { step("append_str"); cee_json_array_append_str(j, (char *)"%s"); m.a.push_back(Val::S("%s")); break; }
    case 5: { step("append_strf"); cee_json_array_append_strf(j, "%s%d", "n", d); m.a.push_back(Val::S("n" + std::to_string(d))); break; }
    case 6: { int k = choose(3, "other"); Val o = Val::A(); for (int i = 0; i < k; i++) o.a.push_back(vs[5 + i]); step("concat %s", show(o).c_str()); cee_json *x = make(st, o); cee_json_array_concat(j, x); m.a.insert(m.a.end(), o.a.begin(), o.a.end()); same_or_fail(o, x, "concat, the other array"); break; }
    case 7: { if (n > 8) return; step("concat itself"); cee_json_array_concat(j, j); auto c = m.a; m.a.insert(m.a.end(), c.begin(), c.end()); break; }
    case 8: { cee_json *l = cee_json_listify(j); step("listify"); MC_CHECK(l == j, "listify of an array gives another one"); break; }
    }
    queries(m, j); mc::state(hashv(m)); if (pr) { if (m.a.size() > 6) return; mc::prune(hashv(m), depth - d); }
  }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// two values that do not share structure do not influence each other
static void two(int depth) { St st; cee_json *j[2] = {cee_json_object_mk(st), cee_json_object_mk(st)}; Val m[2] = {Val::O(), Val::O()}; for (int d = 0; d < depth; d++) { int w = choose(2, "object"); object_step(j[w], m[w], st, 1, 6); for (int i : {0, 1}) same_or_fail(m[i], j[i], "a step on one of two objects"); } cee_del(st.s); }
// extending an array copies the elements: later edits of either do not show in the other
static void extending() {
  St st; static const Val OLD[] = {Val::A(), Val::A({Val::I(1)}), Val::A({Val::I(1), Val::S("e")}), Val::I(5), Val::S("x"), Val::O(), Val::A({Val::A()})}; int o = choose(7, "old"), how = choose(2, "call"); Val arg = Val::A(); int na = choose(6, "elements"); for (int i = 0; i < na; i++) arg.a.push_back(i == 1 ? Val::A({Val::S("n")}) : Val::I(10 + i));
  if (how && OLD[o].t != Val::ARR) mc::skip();
  cee_json *j = cee_json_object_mk(st); Val m = Val::O(); cee_json *x = make(st, arg); step("%s extended by %s, then edits", show(OLD[o]).c_str(), show(arg).c_str());
  for (const char *k : {"k", "l"}) { cee_json_object_set(j, (char *)k, make(st, OLD[o])); m.set(k, OLD[o]); if (how) { cee_json_array_concat(cee_json_object_get(j, (char *)k), x); auto &d = m.find(k)->a; d.insert(d.end(), arg.a.begin(), arg.a.end()); } else { cee_json_object_append(j, (char *)k, x); append_model(m, k, arg); } queries(m, j); same_or_fail(arg, x, "extending, the given array"); }
  for (int e = 0; e < 3; e++) { switch (choose(5, "edit")) {
    case 0: step("append to the argument"); cee_json_array_append_str(x, (char *)"late"); arg.a.push_back(Val::S("late")); break; case 1: step("append to k"); cee_json_array_append_str(cee_json_object_get(j, (char *)"k"), (char *)"ink"); m.find("k")->a.push_back(Val::S("ink")); break;
    case 2: step("append k again"); if (how) { cee_json_array_concat(cee_json_object_get(j, (char *)"k"), x); auto &d = m.find("k")->a; d.insert(d.end(), arg.a.begin(), arg.a.end()); } else { cee_json_object_append(j, (char *)"k", x); append_model(m, "k", arg); } break;
    case 3: step("remove the first of l"); cee_json_array_remove(cee_json_object_get(j, (char *)"l"), 0); if (m.find("l")->a.size()) m.find("l")->a.erase(m.find("l")->a.begin()); break; case 4: step("remove the first of the argument"); cee_json_array_remove(x, 0); if (arg.a.size()) arg.a.erase(arg.a.begin()); break; }
    same_or_fail(m, j, "an edit, the object"); same_or_fail(arg, x, "an edit, the argument"); if (m.find("k")->t != Val::ARR || m.find("l")->t != Val::ARR) break; }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// arrays of more elements than fit 15 or 16 bits
static bool json_bool(cee_json *e) { bool r = false; return !cee_json_to_boolx(e, &r) && r; }
static void huge_arrays() {
  static const int N[] = {0, 3, 32767, 32769, 65535, 65536, 70001}; int n = N[choose(7, "present")], k = N[choose(7, "added")], how = choose(3, "call"); St st; cee_json *j = cee_json_object_mk(st), *a = cee_json_array_mk(st, 1), *b = cee_json_array_mk(st, 1), *x = cee_json_i64_mk(st, 7); step("%d + %d elements by call %d", n, k, how);
  for (int i = 0; i < n; i++) cee_json_array_append(a, cee_json_bool(i % 3 == 0)); for (int i = 0; i < k; i++) cee_json_array_append(b, i % 5 ? x : cee_json_null()); if (how == 0) cee_json_array_concat(a, b); else if (how == 1) { cee_json_object_set(j, (char *)"m", a); cee_json_object_append(j, (char *)"m", b); a = cee_json_object_get(j, (char *)"m"); } else MC_CHECK(cee_json_merge(a, b), "merging fails");
  cee_list *l = cee_json_to_array(a), *m = cee_json_to_array(b); MC_CHECK(cee_list_size(l) == (size_t)n + k && cee_list_size(m) == (size_t)k, "%zu and %zu elements, expected %d and %d", cee_list_size(l), cee_list_size(m), n + k, k);
  for (int i = 0; i < n + k; i++) { cee_json *e = cee_json_array_get(a, i); MC_CHECK(i < n ? e && e->t == CEE_JSON_BOOLEAN && json_bool(e) == (i % 3 == 0) : (i - n) % 5 ? e == x : e && e->t == CEE_JSON_NULL, "element %d of %d + %d is wrong", i, n, k); } MC_CHECK(!cee_json_array_get(a, n + k), "there is an element after the last"); 
  if (n + k) { int r = n + k - 1; cee_json_array_remove(a, r); cee_json_array_remove(a, 0); MC_CHECK(cee_list_size(l) == (size_t)std::max(0, n + k - 2), "%zu elements remain", cee_list_size(l)); for (int i = 0; i + 2 < n + k; i += 101) { cee_json *e = cee_json_array_get(a, i); int o = i + 1; MC_CHECK(o < n ? e->t == CEE_JSON_BOOLEAN && json_bool(e) == (o % 3 == 0) : (o - n) % 5 ? e == x : e->t == CEE_JSON_NULL, "element %d is wrong after two removals", i); } }
  mc::state((n * 7 + k) * 3 + how); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// long arrays and members: extended by many elements at once and one by one, then shortened
static void long_arrays() {
  St st; static const int N[] = {0, 1, 2, 23, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 700, 1024, 1100, 2050, 4096}; int n = N[choose(mc::tier(14, 21), "present")], k = N[choose(mc::tier(14, 21), "added")], cap = choose(2, "capacity") * 40; cee_json *j = cee_json_object_mk(st), *a = cee_json_array_mk(st, cap), *b = cee_json_array_mk(st, cap); Val m = Val::O(), mb = Val::A(), ma = Val::A(); step("%d + %d elements", n, k);
  for (int i = 0; i < n; i++) { cee_json_array_append(a, make(st, Val::I(i))); ma.a.push_back(Val::I(i)); } for (int i = 0; i < k; i++) { cee_json_array_append_strf(b, "s%d", i); mb.a.push_back(Val::S(mc::fmt("s%d", i))); }
  cee_json_object_set(j, (char *)"a", a); m.set("a", ma); cee_json_object_append(j, (char *)"a", b); append_model(m, "a", mb); same_or_fail(m, j, "append"); same_or_fail(mb, b, "append, the argument"); cee_json *g = cee_json_object_get(j, (char *)"a"); cee_json_array_concat(g, b); append_model(m, "a", mb); same_or_fail(m, j, "concat");
  auto &e = m.find("a")->a; while (e.size() > 3) { int i = e.size() % 3 == 0 ? 0 : e.size() % 3 == 1 ? e.size() / 2 : e.size() - 1; cee_json_array_remove(g, i); e.erase(e.begin() + i); if (e.size() % 50 == 3) same_or_fail(m, j, "removing"); } same_or_fail(m, j, "removing"); cee_json_array_insert(g, e.size(), make(st, Val::I(7))); e.push_back(Val::I(7)); same_or_fail(m, j, "insert"); MC_CHECK(cee_json_array_length(g) == e.size(), "length %zu of %zu", cee_json_array_length(g), e.size());
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// many members set, replaced, renamed, removed in turn
static void many_members() {
  St st; int n = choose(mc::tier(120, 400), "members"), ord = choose(3, "order"); cee_json *j = cee_json_object_mk(st); Val m = Val::O(); step("%d members", n); auto key = [&](int i) { return mc::fmt("m%d", ord == 0 ? i : ord == 1 ? n - i : (i * 37) % 401); };
  for (int i = 0; i < n; i++) { cee_json_object_set(j, (char *)key(i).c_str(), make(st, Val::I(i))); m.set(key(i), Val::I(i)); } same_or_fail(m, j, "setting"); queries(m, j);
  for (int i = 0; i < n; i += 3) { cee_json_object_set_strf(j, (char *)key(i).c_str(), "r%d", i); m.set(key(i), Val::S(mc::fmt("r%d", i))); } same_or_fail(m, j, "replacing");
  for (int i = 1; i < n; i += 3) { std::string a = key(i), b = a + "'"; MC_CHECK(cee_json_object_rename(j, (char *)a.c_str(), (char *)b.c_str()), "rename fails"); Val v = *m.find(a); m.erase(a); m.set(b, v); } same_or_fail(m, j, "renaming");
  for (int i = 0; i < n; i += 2) { cee_json_object_remove(j, (char *)key(i).c_str()); m.erase(key(i)); } same_or_fail(m, j, "removing");
  for (int i = 0; i < n; i++) { cee_json_object_append(j, (char *)key(i).c_str(), make(st, Val::B(true))); append_model(m, key(i).c_str(), Val::B(true)); } same_or_fail(m, j, "appending");
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void conversions() {                                     // convert_to_i64 on every pair of spellings, one after the other
  static const char *S[] = {"0", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "", "-", "1x", "x", "1.0", "1e3", "12 ", "0x10", "007", "true"}; enum { NS = sizeof S / sizeof *S }; int k = choose(NS, "text"), l = choose(NS, "text"); St st; cee_json *j = cee_json_object_mk(st); Val m = Val::O(); auto conv = [&](const char *key, const char *s) { cee_json_object_set(j, (char *)key, make(st, Val::S(s))); step("convert %s", s); int64_t x = 0; bool e = to_i64(s, &x) && isdigit(s[strlen(s) - 1]); bool r = cee_json_object_convert_to_i64(j, (char *)key); MC_CHECK(r == e, "convert of %s returns %d", s, r); m.set(key, e ? Val::I(x) : Val::S(s)); same_or_fail(m, j, "convert"); };
  conv("k", S[k]); conv("l", S[l]); for (int e : {ERANGE, EINVAL, EINTR}) { errno = e; cee_json_object_set(j, (char *)"m", make(st, Val::S("17"))); errno = e; bool r = cee_json_object_convert_to_i64(j, (char *)"m"); m.set("m", Val::I(17)); MC_CHECK(r, "convert of 17 after an error (errno %d) fails", e); same_or_fail(m, j, "convert"); } MC_CHECK(!cee_json_object_convert_to_i64(j, (char *)"none"), "convert of a missing member succeeds"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void listify() { static const Val V[] = {Val::S("s"), O1("x", Val::I(1)), Val::A({Val::I(1)}), Val::O(), Val::A(), Val::S(""), O1("", Val::A()), Val::A({Val::A()})}; int k = choose(sizeof V / sizeof *V, "value"); St st; cee_json *j = make(st, V[k]), *l = cee_json_listify(j); step("listify %s", show(V[k]).c_str()); same_or_fail(V[k].t == Val::ARR ? V[k] : Val::A({V[k]}), l, "listify"); cee_json_array_append_str(l, (char *)"more"); Val m = V[k].t == Val::ARR ? V[k] : Val::A({V[k]}); m.a.push_back(Val::S("more")); same_or_fail(m, l, "appending to the list"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain"); }
// recording an error: only a top level member named error stops it
static void errors() {
  static const Val IN[] = {Val(), Val::B(false), Val::I(0), Val::S(""), Val::A(), Val::O(), O1("error", Val::S("inner")), Val::A({O1("error", Val())}), O1("x", O1("error", Val::I(1)))}; enum { NI = sizeof IN / sizeof *IN }; static const char *N[] = {"error", "a", "errors", "Error", "erro", ""}; int n = choose(3, "members"); St st; cee_json *j = cee_json_object_mk(st); Val m = Val::O();
  for (int i = 0; i < n; i++) { const char *k = N[choose(6, "name")]; const Val &v = IN[choose(NI, "value")]; step("set %s := %s", k, show(v).c_str()); cee_json_object_set(j, (char *)k, make(st, v)); m.set(k, v); }
  for (int r = 0; r < 2; r++) { step("set_error"); cee_json *x = j; cee_json_set_error(&x, "%s: %d%%", "bad", r); MC_CHECK(x == j, "set_error replaces the object"); if (!m.find("error")) m.set("error", Val::S(mc::fmt("bad: %d%%", r))); same_or_fail(m, j, "set_error"); }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// blobs and counted strings keep their bytes, whatever the caller does with the source of a blob
static void blobs() {
  static const int N[] = {0, 1, 2, 7, 8, 9, 255, 256, 257, 4096, 65536, 70001}; int n = N[choose(12, "size")], fill = choose(4, "bytes"), how = choose(3, "holder"); St st; std::string b(n, '\0'); for (int i = 0; i < n; i++) b[i] = fill == 0 ? 0 : fill == 1 ? (char)(i * 37) : fill == 2 ? (char)0xff : (char)(i & 1); char *src = (char *)malloc(n + !n); memcpy(src, b.data(), n); step("%d bytes", n);
  cee_json *j = cee_json_blob_mk(st, src, n); memset(src, 0x5c, n); free(src); cee_json *h = nullptr, *g = j; if (how == 1) { h = cee_json_object_kv(st, (char *)"k", j); g = cee_json_object_get(h, (char *)"k"); } if (how == 2) { h = cee_json_array_mk(st, 1); cee_json_array_append(h, j); g = cee_json_array_get(h, 0); }
  cee_block *k = g ? cee_json_to_blob(g) : nullptr; MC_CHECK(g == j && k && cee_block_size(k) == (size_t)n && !memcmp(k->_, b.data(), n), "the blob of %d bytes changed", n);
  cee_json *t = cee_json_strn_mk(st, &b[0], n); char *p = nullptr; size_t z = 1; MC_CHECK(cee_json_to_strn(t, &p, &z) && p == b.data() && z == (size_t)n, "counted string of %d: %zu bytes", n, z); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
static void numbers_grow() { int n = choose(mc::tier(200, 600), "members"), rev = choose(2, "order"); St st; cee_json *j = cee_json_object_mk(st), *a = cee_json_array_mk(st, 0); Val m = Val::O(), ma = Val::A(); step("%d members", n); for (int i = 0; i < n; i++) { std::string k = std::to_string(rev ? n - i : i); cee_json_object_set_i64(j, (char *)k.c_str(), i); m.set(k, Val::I(i)); cee_json_array_insert(a, rev ? 0 : i, make(st, Val::I(i))); ma.a.insert(rev ? ma.a.begin() : ma.a.end(), Val::I(i)); } same_or_fail(m, j, "filling"); same_or_fail(ma, a, "filling"); cee_del(st.s); }
// used on a value of another kind: the process stops, nothing changes; NULL objects take no members
static void wrong_kind() {
  static const Val V[] = {Val(), Val::B(true), Val::B(false), Val::I(-3), Val::U(1ull << 63), Val::D(2.5), Val::S("text"), Val::S(""), Val::A(), Val::A({Val::I(1), Val::S("x")}), Val::O(), O1("k", Val::I(1))}; int v = choose(12, "value"), f = choose(24, "call"); St st; cee_json *j = make(st, V[v]), *x = make(st, Val::S("new")), *a = make(st, Val::A({Val::I(7)})); bool obj = V[v].t == Val::OBJ, arr = V[v].t == Val::ARR, hit = f < 15 ? obj : arr; if (hit) mc::skip(); int n = 0; bool r = true; step("call %d on %s", f, show(V[v]).c_str()); char *k = (char *)"k";
  auto oi = [](void *c, cee_str *, cee_json *) -> int { ++*(int *)c; return 0; }; auto ai = [](void *c, cee_json *, int) -> int { ++*(int *)c; return 0; };
  bool t = mc::traps([&] { switch (f) { case 0: cee_json_object_set(j, k, x); break; case 1: cee_json_object_set_null(j, k); break; case 2: cee_json_object_set_bool(j, k, true); break; case 3: cee_json_object_set_str(j, k, (char *)"s"); break; case 4: cee_json_object_set_strf(j, k, "%d", 4); break; case 5: cee_json_object_set_double(j, k, 1.5); break; case 6: cee_json_object_set_i64(j, k, -1); break; case 7: cee_json_object_set_u64(j, k, 1); break; case 8: cee_json_object_get(j, k); break; case 9: cee_json_object_remove(j, k); break; case 10: cee_json_object_append(j, k, x); break; case 11: cee_json_object_iterate(j, &n, oi); break; case 12: cee_json_set_error(&j, "e"); break; case 13: r = cee_json_object_rename(j, k, (char *)"l"); break; case 14: r = cee_json_object_convert_to_i64(j, k); break;
    case 15: cee_json_array_insert(j, 0, x); break; case 16: cee_json_array_append(j, x); break; case 17: cee_json_array_append_bool(j, true); break; case 18: cee_json_array_append_str(j, (char *)"s"); break; case 19: cee_json_array_append_strf(j, "%d", 1); break; case 20: cee_json_array_length(j); break; case 21: cee_json_array_get(j, 0); break; case 22: cee_json_array_remove(j, 0); break; case 23: cee_json_array_iterate(j, &n, ai); break; } });
  if (f == 13 || f == 14) MC_CHECK(!t && !r, "%s", t ? "the process is stopped" : "it succeeds"); else MC_CHECK(t, "it is done"); MC_CHECK(n == 0, "something is visited"); same_or_fail(V[v], j, "the refused call");
  if (f == 15 && !arr) { MC_CHECK(mc::traps([&] { cee_json_array_concat(j, a); }), "elements are appended to it"); MC_CHECK(mc::traps([&] { cee_json_array_concat(a, j); }), "it is appended to an array"); same_or_fail(Val::A({Val::I(7)}), a, "the refused concat"); }
  if (f < 8 || f == 10 || f == 12) { cee_json *none = nullptr; switch (f) { case 0: cee_json_object_set(none, k, x); break; case 1: cee_json_object_set_null(none, k); break; case 2: cee_json_object_set_bool(none, k, true); break; case 3: cee_json_object_set_str(none, k, (char *)"s"); break; case 4: cee_json_object_set_strf(none, k, "%d", 4); break; case 5: cee_json_object_set_double(none, k, 1.5); break; case 6: cee_json_object_set_i64(none, k, -1); break; case 7: cee_json_object_set_u64(none, k, 1); break; case 10: cee_json_object_append(none, k, x); break; case 12: cee_json_set_error(&none, "e"); cee_json_set_error(nullptr, "e"); break; } }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
void mc_register() { mc::add("huge-arrays", huge_arrays, 2); mc::add("wrong-kind", wrong_kind, 2); mc::add("errors", errors, 2); mc::add("blobs", blobs, 2);
  mc::add("object", [] { objects(mc::tier(2, 3), 3, 11, false); }, 3); mc::add("object-deeper", [] { objects(3, 2, mc::tier(4, 11), false); }, 3); mc::add("object-pruned", [] { objects(mc::tier(4, 5), 2, mc::tier(5, 8), true); }, 3); mc::add("array", [] { arrays(mc::tier(3, 4), false); }, 3); mc::add("array-pruned", [] { arrays(mc::tier(5, 7), true); }, 3);
  mc::add("two-objects", [] { two(mc::tier(2, 3)); }, 3); mc::add("convert", conversions, 1); mc::add("listify", listify, 1); mc::add("grow", numbers_grow, 2); mc::add("extending", extending, 3); mc::add("long-arrays", long_arrays, 2); mc::add("many-members", many_members, 2);
}
