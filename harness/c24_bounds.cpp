#include "json.hpp"
#include <sys/mman.h>
// observation of a parse: verdict, line, value
static uint64_t hashj(cee_json *j) {
  uint64_t h = j->t; switch (j->t) { case CEE_JSON_BOOLEAN: { bool b = 0; cee_json_to_boolx(j, &b); return mc::mix(h, b); } case CEE_JSON_I64: { int64_t x = 0; cee_json_to_i64x(j, &x); return mc::mix(h, x); } case CEE_JSON_U64: { uint64_t x = 0; cee_json_to_u64x(j, &x); return mc::mix(h, x); } case CEE_JSON_DOUBLE: { double x = 0; cee_json_to_doublex(j, &x); return mc::hash_bytes(&x, 8, h); } case CEE_JSON_STRING: return mc::hash_str(cee_json_to_str(j)->_, h);
  case CEE_JSON_ARRAY: for (size_t i = 0; i < cee_json_array_length(j); i++) h = mc::mix(h, hashj(cee_json_array_get(j, i))); return h;
  case CEE_JSON_OBJECT: { uint64_t s = 0; cee_json_object_iterate(j, &s, [](void *c, cee_str *k, cee_json *x) -> int { *(uint64_t *)c += mc::mix(mc::hash_str(k->_), hashj(x)); return 0; }); return mc::mix(h, s); } default: return h; } }
static uint64_t observe(char *p, size_t n, bool eof) { cee_state *st = cee_state_mk(4); Got g = parse(st, p, n, eof); uint64_t h = g.rc ? mc::mix(1, g.line) : mc::mix(2, hashj(g.j)); cee_del(st); return h; }
// the bytes in a block of exactly their size (any byte read outside it is an ASan report), with the
// reference's verdict; then inside larger blocks with every kind of byte before and after
static void cut(const std::string &t, bool around) {
  for (bool eof : {true, false}) {
    Ref r = reference(t, eof); uint64_t h;
    { Exact e(t); cee_state *st = cee_state_mk(4); Got g = parse(st, e.p, e.n, eof); MC_CHECK(r.v == Ref::MAY || r.may || (g.rc == 0) == (r.v == Ref::OK), "%s (exact block, force_eof %d): result %d", mc::quote(t).c_str(), eof, g.rc);
      if (!g.rc && !r.nul) MC_CHECK(same(r.val, g.j), "%s (exact block) parses as %s", mc::quote(t).c_str(), showj(g.j).c_str());
      MC_CHECK(!memcmp(e.p, t.data(), t.size()), "%s: the buffer was changed", mc::quote(t).c_str()); h = g.rc ? mc::mix(1, g.line) : mc::mix(2, hashj(g.j)); cee_del(st); }
    if (!around) continue;
    static const char *TAIL[] = {"0", "5", ".5", "e5", "E+1", "\"", "\\\"", "]", "}", "ull", "rue", "alse", "u0041\"", "41\"", "\\udc00\"", "\n", " ", "x", ",1]", ":1}"};
    for (auto x : TAIL) { std::string u = "\"\\1-[{" + t + x; Exact e(u); uint64_t k = observe(e.p + 6, t.size(), eof); MC_CHECK(k == h, "%s (force_eof %d) is parsed differently when followed by %s", mc::quote(t).c_str(), eof, mc::quote(x).c_str()); MC_CHECK(!memcmp(e.p, u.data(), u.size()), "%s: the buffer was changed", mc::quote(t).c_str()); }
    { std::string u(1, '\0'); u = t + u; Exact e(u); MC_CHECK(observe(e.p, t.size(), eof) == h, "%s is parsed differently when followed by NUL", mc::quote(t).c_str()); }
  }
  mc::state(mc::hash_str(t));
}
static const char *D[] = {"{\"a\":[1,-2.5e+10,\"x\\ny\"],\"b\":{\"c\":null,\"d\":[true,false]}}", "[\"\\u00e9\\ud83d\\ude00\\\"\\\\\",\"caf\xc3\xa9\",0,-0,1e5,123456789012345678901234567890]", "\"lone \\u12ab string\"", "-1234.5678E-12", "  {\"k\" :\n[ ]\t, \"l\":{ } } \r\n", "true", "false", "null", "12345678901234567890", "[9223372036854775807,18446744073709551615,0.1]", "{\"\":{\"\":{\"\":\"\"}}}", "// c", "[1 // x\n]"};
static void cuts() { int d = choose(sizeof D / sizeof *D, "document"); std::string t = D[d]; int a = choose(mc::tier(4, (int)t.size() + 1), "start"), b = choose(t.size() + 1, "end"); if (a > (int)t.size() || b < a) mc::skip(); step("bytes %d..%d of document %d", a, b, d); cut(t.substr(a, b - a), true); }
static void long_tokens() { int k = choose(5, "kind"), n = choose(mc::tier(150, 400), "size"); std::string t = k == 0 ? "\"" + std::string(n, 'a') : k == 1 ? std::string(n, '7') : k == 2 ? "0." + std::string(n, '3') : k == 3 ? "\"" + std::string(n, '\\') : std::string(n, '['); step("kind %d size %d", k, n); cut(t, true); cut(t + (k == 3 ? "\"" : ""), true); }
// a text that ends at an inaccessible page, and one that starts right after one: no byte outside is touched even by reads ASan cannot see
static void pages() {
  static char *m = nullptr; size_t P = 4096; if (!m) { m = (char *)mmap(nullptr, 4 * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m, P, PROT_NONE); mprotect(m + 3 * P, P, PROT_NONE); }
  int d = choose(sizeof D / sizeof *D, "document"), ro = choose(2, "read-only"); std::string t = D[d]; int b = choose(t.size() + 1, "end"), at = choose(2, "side"); step("document %d cut at %d %s an inaccessible page%s", d, b, at ? "after" : "before", ro ? ", read-only" : ""); t.resize(b);
  char *p = at ? m + P : m + 3 * P - b; mprotect(m + P, 2 * P, PROT_READ | PROT_WRITE); memcpy(p, t.data(), b); if (ro) mprotect(m + P, 2 * P, PROT_READ); for (bool eof : {true, false}) { Ref r = reference(t, eof); cee_state *st = cee_state_mk(4); Got g = parse(st, p, b, eof); if (r.v != Ref::MAY && !r.may) MC_CHECK((g.rc == 0) == (r.v == Ref::OK), "%s: result %d", mc::quote(t).c_str(), g.rc); cee_del(st); }
}
// long documents, cut anywhere near their end and near powers of two
static void long_documents() {
  static const int N[] = {500, 1023, 1024, 4096, 10000}; int k = choose(6, "kind"), n = N[choose(mc::tier(4, 5), "size")], c = choose(24, "cut"); std::string t, e; switch (k) { case 0: t = "["; while ((int)t.size() < n) t += "\"ab\\u00e9\",-1.5e3,"; e = "1]"; break; case 1: t = "{"; while ((int)t.size() < n) t += mc::fmt("\"k%zu\":{\"a\":[true,null]},", t.size()); e = "\"z\":0}"; break; case 2: t = "\""; while ((int)t.size() < n) t += "q\\n\\ud83d\\ude00\xc3\xa9"; e = "\""; break; case 3: t = "0." + std::string(n, '6'); e = "e1"; break; case 4: t = "[1" + std::string(n, ' '); e = "\n]"; break; default: t = "{\"" + std::string(n, 'n'); e = "\":\"\"}"; }
  t += e; step("kind %d size %d cut %d", k, n, c); size_t end = c < 20 ? t.size() - c : c == 20 ? t.size() / 2 : c == 21 ? t.size() / 2 + 1 : c == 22 ? 511 : n; t.resize(std::min(end, t.size())); cut(t, c % 4 == 0);
}
void mc_register() { mc::add("long-documents", long_documents, 2); mc::add("cuts", cuts, 3); mc::add("long-tokens", long_tokens, 2); mc::add("pages", pages, 2); add_families([](const std::string &t) { cut(t, false); }, "family-"); }
