#include "json.hpp"
extern "C" int mc_fprintf(FILE *, const char *, ...) { return 0; }       // the loader's diagnostics
static void check(cee_state *st, const std::string &t, bool eof) {
  Ref r = reference(t, eof); Got g = parse(st, t, eof);
  if (g.rc && !r.may) MC_CHECK(g.line == r.line, "%s: rejected at line %d, but %d line ends precede the failure", mc::quote(t).c_str(), g.line, r.line);
  if (g.rc) MC_CHECK(!g.j, "%s: rejected with a value", mc::quote(t).c_str());
  if (!g.rc && r.v != Ref::BAD && !r.nul) MC_CHECK(same(r.val, g.j), "%s parses as %s", mc::quote(t).c_str(), showj(g.j).c_str());
  MC_CHECK((g.rc == 0) == (r.v == Ref::OK) || r.v == Ref::MAY || r.may, "%s: result %d", mc::quote(t).c_str(), g.rc);
}
static void one(const std::string &t) {
  MC_CHECK(mc::live_blocks() == 0, "blocks before"); cee_state *st = cee_state_mk(4); size_t b = mc::live_blocks();
  check(st, t, true); check(st, t, false); cee_del(st);
  MC_CHECK(mc::live_blocks() == 0, "%s: %zu blocks remain after the state is deleted (a new state has %zu)", mc::quote(t).c_str(), mc::live_blocks(), b); mc::state(mc::hash_str(t));
}
static const std::vector<std::string> &docs() {
  static std::vector<std::string> d = {"{\n\"a\" : [1, 2.5, \"x\\ny\"],\r\n\"b\":{\"c\":null,\n\"d\":[true,false]}\n}\n", "[\n\n[],{},[[\n]],\"\\u00e9\",\t-1e5\n]", "\n\r\n \"lone\"\n", "{\"k\":\n{\"k\":\n{\"k\":\n[\n1\n,\n2\n]\n}\n}\n}", "\n[\"a\\u20acb\",\n\"\\ud83d\\ude00\",{\"a\":1,\"a\":2,\n\"a\":[3]}]"};
  return d; }
static std::vector<std::string> tokens(const std::string &s) {            // keeps white space as tokens of its own
  std::vector<std::string> r; for (size_t i = 0; i < s.size();) { size_t j = i + 1; if (s[i] == '"') { while (s[j] != '"') j += s[j] == '\\' ? 2 : 1; j++; } else if (isalnum(s[i]) || s[i] == '-') while (j < s.size() && (isalnum(s[j]) || s[j] == '.' || s[j] == '-' || s[j] == '+')) j++; r.push_back(s.substr(i, j - i)); i = j; } return r; }
static void truncations() { int d = choose(docs().size(), "document"), n = choose(docs()[d].size() + 1, "cut"); step("document %d cut at %d", d, n); one(docs()[d].substr(0, n)); one(docs()[d].substr(n)); }
// every token replaced, removed, doubled or preceded by another, and every byte replaced
static void corruptions() {
  static const char *X[] = {"[", "]", "{", "}", ",", ":", "1", "\"k\"", "null", "nul", "\n", "x", "\"", "01", "\"\\q\"", "\"\n\"", "//", "\r\n"}; int d = choose(docs().size(), "document"); auto tk = tokens(docs()[d]); int i = choose(tk.size(), "token"), how = choose(4, "how");
  auto join = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x; return r; }; step("document %d token %d", d, i);
  auto a = tk; if (how == 0) { a.erase(a.begin() + i); one(join(a)); } else if (how == 1) { a.insert(a.begin() + i, a[i]); one(join(a)); } else for (auto x : X) { a = tk; if (how == 2) a[i] = x; else a.insert(a.begin() + i, x); one(join(a)); }
}
static void bytes() { int d = choose(docs().size(), "document"), i = choose(docs()[d].size(), "position"); step("document %d byte %d", d, i); for (int c = 0; c < 256; c++) { std::string t = docs()[d]; t[i] = (char)c; one(t); } }
static void pairs() {                                                       // two corruptions
  int d = choose(docs().size(), "document"); auto tk = tokens(docs()[d]); int i = choose(tk.size(), "token"); static const char *X[] = {"", "[", "}", ",", "\n", "x"};
  for (size_t j = i + 1; j < tk.size(); j++) for (auto x : X) for (auto y : X) { auto a = tk; a[i] = x; a[j] = y; std::string r; for (auto &z : a) r += z; one(r); } step("document %d tokens %d,*", d, i);
}
// sequences of texts on one state, with values kept and collections in between
static void sequence(int n) {
  static const char *T[] = {"[1,2", "{\"a\":[1,{\"b\":\"\\u00e9", "\"\\ud800\"", "{\"a\" 1}", "[\"kept\",[{}],]x", "", "nul", "01", "{\"a\":{\"b\":{\"c\":[1,2,3]}}}", "[\"a\\nb\",2.5,true]", "7", "\"s\"", "[[[[[[", "{\"a\":1,\"a\":2}", "[\n\n\"x\ny\"]", "\n\n]"}; enum { N = 16 };
  cee_state *st = cee_state_mk(choose(2, "size") * 30 + 1); std::vector<std::pair<cee_json *, Val>> kept;
  for (int i = 0; i < n; i++) {
    int k = choose(N + 1, "text"); if (k == N) { step("collect"); kept.clear(); cee_state_gc(st); continue; }
    std::string t = T[k]; step("parse %s", mc::quote(t).c_str()); Ref r = reference(t, true); Got g = parse(st, t, true);
    if (r.v == Ref::BAD) MC_CHECK(g.rc && !g.j && g.line == r.line, "%s: result %d line %d, expected a failure at line %d", mc::quote(t).c_str(), g.rc, g.line, r.line);
    else { MC_CHECK(!g.rc && same(r.val, g.j), "%s parses as %s after the earlier texts", mc::quote(t).c_str(), g.rc ? "a failure" : showj(g.j).c_str()); kept.push_back({g.j, r.val}); }
    for (auto &p : kept) MC_CHECK(same(p.second, p.first), "an earlier value became %s, expected %s", showj(p.first).c_str(), show(p.second).c_str());
  }
  cee_del(st); MC_CHECK(mc::live_blocks() == 0, "%zu blocks remain", mc::live_blocks());
}
// the loader makes its own state: nothing may remain of it after a failure
static void loader() {
  int d = choose(docs().size(), "document"); const std::string &t = docs()[d]; int n = choose(t.size() + 1, "cut"), x = choose(4, "tail"); std::string u = t.substr(0, n) + (x == 0 ? "" : x == 1 ? "]" : x == 2 ? "}" : "@"); step("load %s", mc::quote(u).c_str());
  Ref r = reference(u, true); Exact e(u); cee_json *j = cee_json_load_from_buffer(e.p, e.n);
  if (r.v == Ref::MAY && !j) return; MC_CHECK((j != nullptr) == (r.v != Ref::BAD), "load of %s gives %s", mc::quote(u).c_str(), showj(j).c_str());
  if (j) { MC_CHECK(same(r.val, j), "load of %s gives %s", mc::quote(u).c_str(), showj(j).c_str()); if (j->t >= CEE_JSON_DOUBLE) cee_del(cee_get_state(j)); else return; }
  MC_CHECK(mc::live_blocks() == 0, "load of %s leaves %zu blocks", mc::quote(u).c_str(), mc::live_blocks());
}
// long and deep texts that fail at their end: lines are counted, and everything built so far is released
static void large() {
  static const int N[] = {200, 255, 256, 1000, 4095, 4096, 32768, 65535, 65536, 70000}; int shape = choose(8, "shape"), n = N[choose(shape >= 3 && shape != 5 ? 4 : 10, "size")], end = choose(4, "ending"); std::string t; static const char *E[] = {"x", "\n\"\x01", "", "]}"};
  switch (shape) { case 0: t = std::string(n, '\n'); break; case 1: t = "[" + std::string(n, '\r') + "1,"; break; case 2: for (int i = 0; i < n; i++) t += i % 3 ? "\n" : "\r\n"; t += "{\"a\":"; break; case 3: t = "["; for (int i = 0; i < n; i++) t += mc::fmt("\"s%d\",\n[%d],", i, i); break;
    case 4: t = "{"; for (int i = 0; i < n; i++) t += mc::fmt("\"k%d\":{\"v\":%d},\n", i, i); break; case 5: t = "[\"" + std::string(n, 'y') + "\\n\","; break; case 6: { int d = std::min(n, 450); for (int i = 0; i < d; i++) t += i % 2 ? "{\"k\":" : "[1,\n"; break; } default: t = "["; for (int i = 0; i < n; i++) t += "{\"a\":1,\"a\":[2],\"b\":\"\\u00e9\"},"; }
  step("shape %d size %d ending %d", shape, n, end); one(t + E[end]);
}
void mc_register() { mc::add("large", large, 2);
  mc::add("truncations", truncations, 2); mc::add("corruptions", corruptions, 2); mc::add("bytes", bytes, 2); mc::add("two-corruptions", pairs, 2); mc::add("sequences", [] { sequence(mc::tier(3, 4)); }, 2); mc::add("loader", loader, 2); add_families(one, "family-");
}
