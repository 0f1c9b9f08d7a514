#include "common.hpp"
// "Aa" and "BB" (and the concatenations) collide under the 31-based hash
static const char *KEYS[] = {"Aa", "BB", "a", "", "AaAa", "BBBB", "AaBB", "b", "\xff\x80", "BBAa"};
static const char *ABSENT[] = {"C#", "AaA", "zz", "BBBBBB", "AaAaAa"};
struct Model { std::map<std::string, void *> m; };
static void compare(cee_dict *d, const Model &m, int K, const char *after) {
  uint64_t h = 1;
  for (int k = 0; k < K; k++) { std::string copy = KEYS[k]; void *r = cee_dict_find(d, (char *)copy.c_str()), *e = m.m.count(copy) ? m.m.at(copy) : NULL;
    MC_CHECK(r == e, "%s: find(%s) gives #%ld, expected #%ld", after, mc::quote(copy).c_str(), r ? untok(r) : -1, e ? untok(e) : -1); h = mc::mix(h, (uintptr_t)e); }
  for (auto a : ABSENT) { std::string c = a; MC_CHECK(cee_dict_find(d, (char *)c.c_str()) == NULL, "%s: find(%s) finds an absent key", after, a); }
  mc::state(h);
}
static void histories(int K, int depth) {
  St st; int cap = choose(3, "declared size"); int sizes[] = {0, 1, 6}; cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, sizes[cap]); Model m; long nv = 1;
  MC_CHECK(d, "cee_dict_mk returned NULL"); step("dict of size %d", sizes[cap]);
  std::vector<std::string> own; own.reserve(depth);
  for (int i = 0; i < depth; i++) { int k = choose(K, "key"); own.push_back(KEYS[k]); step("add %s := #%ld", KEYS[k], nv); cee_dict_add(d, (char *)own.back().c_str(), tok(nv)); m.m.insert({KEYS[k], tok(nv)}); nv++; compare(d, m, K, "add"); }
  uint64_t h = 1; for (auto &p : m.m) h = mc::mix(mc::hash_str(p.first, h), (uintptr_t)p.second); mc::outcome(h);
  cee_del(st.s);
}
// growth: n generated keys, spelled so that many collide; every size crossing a power of two
static void growth(int N) {
  St st; int n = choose(N + 1, "keys"), s = choose(4, "declared size"), kind = choose(3, "key family"); int sizes[] = {0, 1, n / 2, n};
  cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, sizes[s]); std::vector<std::string> keys; step("%d keys of family %d in a dict of size %d", n, kind, sizes[s]);
  for (int i = 0; i < n; i++) { std::string k; if (kind == 0) k = mc::fmt("k%d", i); else if (kind == 1) { for (int b = 0; b < 8; b++) k += (i >> b & 1) ? "Aa" : "BB"; } else { k = std::string(1 + i % 5, 'x') + mc::fmt("%d", i * 8); } keys.push_back(k); }
  for (int i = 0; i < n; i++) { cee_dict_add(d, (char *)keys[i].c_str(), tok(i + 1)); if (i % 3 == 2) cee_dict_add(d, (char *)keys[i / 2].c_str(), tok(9999)); 
    std::string c = keys[i]; MC_CHECK(cee_dict_find(d, (char *)c.c_str()) == tok(i + 1), "key %d is lost right after insertion", i); }
  for (int i = 0; i < n; i++) { std::string c = keys[i]; void *r = cee_dict_find(d, (char *)c.c_str()); MC_CHECK(r == tok(i + 1), "key %s gives #%ld, expected #%d", c.c_str(), r ? untok(r) : -1, i + 1);
    c += "!"; MC_CHECK(!cee_dict_find(d, (char *)c.c_str()), "absent key found"); }
  mc::state(mc::mix(mc::mix(n, s), kind)); mc::outcome(n);
  cee_del(st.s);
}
// owned keys and values through the default constructor
static void owned(int N) {
  St st; int n = choose(N + 1, "keys"); cee_dict *d = cee_dict_mk(st, 2); step("%d owned keys", n);
  for (int i = 0; i < n; i++) cee_dict_add(d, (char *)cee_str_mk(st, "key%d", i), cee_str_mk(st, "val%d", i));
  for (int i = 0; i < n; i++) { char *v = (char *)cee_dict_find(d, (char *)mc::fmt("key%d", i).c_str()); MC_CHECK(v && mc::fmt("val%d", i) == v, "find(key%d)", i); }
  cee_del(d); cee_del(st.s);
}
// two dictionaries of one state do not share anything
static void pair(int depth) {
  St st; cee_dict *d[2] = {cee_dict_mk_e(st, CEE_DP_NOOP, 1), cee_dict_mk_e(st, CEE_DP_NOOP, 1)}; Model m[2]; long nv = 1;
  for (int i = 0; i < depth; i++) { int w = choose(2, "which"), k = choose(3, "key"); step("dict %d add %s", w, KEYS[k]); cee_dict_add(d[w], (char *)KEYS[k], tok(nv)); m[w].m.insert({KEYS[k], tok(nv)}); nv++; compare(d[0], m[0], 4, "dict 0"); compare(d[1], m[1], 4, "dict 1"); }
  cee_del(st.s);
}
// tables far beyond the declared size
static void large() {
  static const int N[] = {255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1025, 2000, 2049, 4097, 9000}; int n = N[choose(mc::tier(13, 15), "keys")], kind = choose(5, "key family"), s = choose(4, "declared size"); if (kind == 4 && n > 511) mc::skip(); static const int Z[] = {0, 16, 256, 5000}; St st; cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, Z[s]); std::vector<std::string> keys; step("%d keys of family %d in a dict of size %d", n, kind, Z[s]);
  for (int i = 0; i < n; i++) { std::string k; if (kind == 0) k = mc::fmt("k%d", i); else if (kind == 1) { for (int b = 0; b < 14; b++) k += (i >> b & 1) ? "Aa" : "BB"; if (i > 400) k = mc::fmt("%s%d", k.c_str(), i); } else if (kind == 2) { k = (char)(1 + i % 255); k += (char)(1 + i / 255); } else if (kind == 3) k = mc::fmt("%d", i * 64); else { k = std::string(s & 1 ? 70 : 260, 'p'); for (int b = 0; b < 9; b++) k += (i >> b & 1) ? "Aa" : "BB"; } keys.push_back(k); }
  for (int i = 0; i < n; i++) { cee_dict_add(d, (char *)keys[i].c_str(), tok(i + 1)); if (i % 101 == 7) { cee_dict_add(d, (char *)keys[i / 3].c_str(), tok(99999)); for (int j = 0; j <= i; j += 13) { std::string c = keys[j]; MC_CHECK(cee_dict_find(d, (char *)c.c_str()) == tok(j + 1), "key %d is lost when %d are present", j, i + 1); } } }
  for (int i = 0; i < n; i++) { std::string c = keys[i]; void *r = cee_dict_find(d, (char *)c.c_str()); MC_CHECK(r == tok(i + 1), "key %s gives #%ld, expected #%d", mc::quote(c).c_str(), r ? untok(r) : -1, i + 1); c += "!"; MC_CHECK(!cee_dict_find(d, (char *)c.c_str()), "absent key found"); } cee_del(d); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// more keys than fit 16 bits, in tables of every starting size
static void huge() {
  static const int N[] = {32769, 70001, 140001}, Z[] = {0, 1000, 70000}; int n = N[choose(3, "keys")], s = Z[choose(3, "declared size")]; St st; cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, s); step("%d keys in a dict of size %d", n, s); char k[32]; std::vector<std::string> own; own.reserve(n);
  for (int i = 0; i < n; i++) { snprintf(k, sizeof k, "%xk", i * 7); own.push_back(k); cee_dict_add(d, (char *)own.back().c_str(), tok(i + 1)); if (i % 1009 == 0) for (int q = 1; q <= i; q *= 2) { snprintf(k, sizeof k, "%xk", q * 7); MC_CHECK(cee_dict_find(d, k) == tok(q + 1), "key %d is lost when %d are present", q, i + 1); } }
  for (int i = 0; i < n; i++) { snprintf(k, sizeof k, "%xk", i * 7); void *r = cee_dict_find(d, k); MC_CHECK(r == tok(i + 1), "key %d of %d gives #%ld", i, n, r ? untok(r) : -1); if (i % 64) continue; snprintf(k, sizeof k, "%xK", i * 7); MC_CHECK(!cee_dict_find(d, k), "absent key found"); }
  mc::state(n * 3 + s); cee_del(d); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks remain");
}
// long keys that differ in a single place
static void long_keys() {
  int n = 1 + choose(mc::tier(300, 1200), "length"); St st; cee_dict *d = cee_dict_mk_e(st, CEE_DP_NOOP, 4); std::vector<std::string> keys; std::string z(n, 'k'); step("keys of %d bytes", n); keys.push_back(z); for (int p : {0, n / 3, n / 2, n - 1}) for (char c : {'j', 'K', '\xeb'}) { std::string k = z; k[p] = c; if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k); } keys.push_back(z + "k"); keys.push_back(z.substr(1)); if (n == 1) keys.pop_back();
  for (size_t i = 0; i < keys.size(); i++) { cee_dict_add(d, (char *)keys[i].c_str(), tok(i + 1)); for (size_t j = 0; j < keys.size(); j++) { std::string c = keys[j]; void *r = cee_dict_find(d, (char *)c.c_str()); MC_CHECK(r == (j <= i ? tok(j + 1) : NULL), "a key of %zu bytes gives #%ld", c.size(), r ? untok(r) : -1); } } cee_del(st.s);
}
void mc_register() {
  mc::add("large", large, 2); mc::add("huge", huge, 1); mc::add("long-keys", long_keys, 1);
  mc::add("owned", [] { owned(40); }, 1);
  mc::add("pair", [] { pair(mc::tier(4, 6)); }, 2);
  mc::add("growth", [] { growth(mc::tier(140, 256)); }, 2);
  mc::add("histories-small", [] { histories(4, mc::tier(6, 8)); }, 4);
  mc::add("histories", [] { histories(10, mc::tier(4, 6)); }, 3);
}
