#include "common.hpp"
static std::string word(const char *alpha, int maxlen, const char *label) {
  int n = choose(maxlen + 1, label), A = strlen(alpha); std::string s; for (int i = 0; i < n; i++) s += alpha[choose(A, "char")]; return s;
}
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
struct Exact {                       // a heap copy without slack: any read outside it is caught
  char *p; Exact(const std::string &s, bool nul) { p = (char *)malloc(s.size() + nul + (s.size() + nul == 0)); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; }
  ~Exact() { free(p); }
};
static void take(char *r, const std::string &e, const char *what) {
  MC_CHECK(r && mc::is_live(r), "%s: not a fresh block", what);
  size_t room = mc::block_room(r); MC_CHECK(room > e.size(), "%s: block of %zu bytes for %zu", what, room, e.size() + 1);
  MC_CHECK(!memcmp(r, e.c_str(), e.size() + 1), "%s: gives %s, expected %s", what, mc::quote(std::string(r, strnlen(r, room))).c_str(), mc::quote(e).c_str());
  mc::state(mc::hash_str(e)); mc::lib_free(r);
}
static void trims(const char *alpha, int len) {
  St st; int side = choose(3, "side"); std::string t = word(alpha, len, "length"), e = t; step("trim %d of %s", side, mc::quote(t).c_str());
  cee_str *p = cee_str_mk(st, "%s", t.c_str());
  if (side != 1) { cee_str_rtrim(p); while (!e.empty() && ws(e.back())) e.pop_back(); }
  if (side != 0) { cee_str_ltrim(p); while (!e.empty() && ws(e[0])) e.erase(0, 1); }
  MC_CHECK(e == (char *)p, "trim of %s gives %s, expected %s", mc::quote(t).c_str(), mc::quote((char *)p).c_str(), mc::quote(e).c_str()); mc::state(mc::hash_str(e));
  p = cee_str_catf(p, "%s", "+x"); MC_CHECK(e + "+x" == (char *)p, "append after trim gives %s", mc::quote((char *)p).c_str());
  cee_del(st.s);
}
static void at_offset(int len, int rep) {
  std::string t = word("ab", len, "text"); int off = choose(t.size() + 1, "offset"), n = choose(t.size() - off + 1, "count"); std::string r; int rl = choose(rep + 1, "replacement"); for (int i = 0; i < rl; i++) r += "xyzuvw"[i % 6];
  step("replace %d+%d of %s by %s", off, n, t.c_str(), r.c_str()); Exact et(t, true), er(r, true);
  take(str_replace_at_offset(et.p, off, n, er.p), t.substr(0, off) + r + t.substr(off + n), "str_replace_at_offset"); MC_CHECK(t == et.p, "text modified");
}
static std::string ref_all(const std::string &t, const std::vector<std::pair<std::string, std::string>> &ps) {
  std::string o; for (size_t i = 0; i < t.size();) { bool hit = false; for (auto &p : ps) if (t.compare(i, p.first.size(), p.first) == 0 && i + p.first.size() <= t.size()) { o += p.second; i += p.first.size(); hit = true; break; } if (!hit) o += t[i++]; } return o;
}
static std::string nonempty(const char *alpha, int maxlen, const char *label) { int n = 1 + choose(maxlen, label), A = strlen(alpha); std::string s; for (int i = 0; i < n; i++) s += alpha[choose(A, "char")]; return s; }
static std::string rep(int n) { std::string r; for (int i = 0; i < n; i++) r += "aXbY"[i % 4]; return r; }   // contains needle letters: no re-scanning
static void all(int len, int nl, int rl) {
  std::string o = nonempty("ab", nl, "needle"), n = rep(choose(rl + 1, "replacement")), t = word("ab", len, "text"); step("replace all %s by %s in %s", o.c_str(), n.c_str(), t.c_str());
  Exact et(t, true), eo(o, true), en(n, true); take(str_replace_all(et.p, eo.p, en.p), ref_all(t, {{o, n}}), "str_replace_all"); MC_CHECK(t == et.p, "text modified");
}
static void ext(int len, int pairs, int nl) {
  int np = choose(pairs + 1, "pairs"); std::vector<std::pair<std::string, std::string>> ps; static const int RL[] = {0, 1, 3, 7};
  for (int i = 0; i < np; i++) { std::string a = nonempty("ab", nl, "needle"); ps.push_back({a, rep(RL[choose(4, "replacement")])}); }
  std::string t = word("abc", len, "text"); size_t out = 12345; step("%d pairs over %s", np, t.c_str());
  std::string e = ref_all(t, ps); Exact et(t, false); size_t *po = (t.size() + np) % 3 == 2 ? NULL : &out; char *r;
  if (np == 0) r = str_replace_all_ext(et.p, t.size(), po, 0);
  else if (np == 1) r = str_replace_all_ext(et.p, t.size(), po, 1, ps[0].first.c_str(), ps[0].second.c_str());
  else r = str_replace_all_ext(et.p, t.size(), po, 2, ps[0].first.c_str(), ps[0].second.c_str(), ps[1].first.c_str(), ps[1].second.c_str());
  take(r, e, "str_replace_all_ext"); if (po) MC_CHECK(out == e.size(), "str_replace_all_ext reports %zu, expected %zu", out, e.size());
}
// many pairs: the inline table of 16 and the allocated one
static void many(int len) {
  static const int NP[] = {15, 16, 17, 20}; int np = NP[choose(4, "pairs")]; std::vector<std::pair<std::string, std::string>> ps; const char *a[40];
  for (int i = 0; i < 20; i++) ps.push_back({mc::fmt("%c%c", 'a' + i % 4, 'a' + (i / 4) % 5), mc::fmt("<%d>", i)}); ps.resize(np);
  for (int i = 0; i < 20; i++) { a[2 * i] = i < np ? ps[i].first.c_str() : ""; a[2 * i + 1] = i < np ? ps[i].second.c_str() : ""; }
  std::string t = word("abcde", len, "text"); size_t out = 0, before = mc::live_blocks(); step("%d pairs over %s", np, t.c_str()); Exact et(t, false);
#define A2(i) a[2 * i], a[2 * i + 1]
  char *r = str_replace_all_ext(et.p, t.size(), &out, np, A2(0), A2(1), A2(2), A2(3), A2(4), A2(5), A2(6), A2(7), A2(8), A2(9), A2(10), A2(11), A2(12), A2(13), A2(14), A2(15), A2(16), A2(17), A2(18), A2(19));
  std::string e = ref_all(t, ps); MC_CHECK(out == e.size(), "size %zu, expected %zu", out, e.size()); MC_CHECK(mc::live_blocks() == before + 1, "str_replace_all_ext leaves %zu extra blocks", mc::live_blocks() - before - 1);
  take(r, e, "str_replace_all_ext");
}
// long texts: many matches, long runs, long replacements
static void large() {
  static const int N[] = {1, 15, 16, 17, 60, 64, 65, 127, 128, 200, 255, 256, 257, 500, 1000, 1023, 1024, 2047, 4095, 4096, 5000, 33000, 70000}; int n = N[choose(23, "matches")], k = choose(4, "text"), fn = choose(4, "function"); static const int R[] = {0, 1, 2, 3, 40, 300}; int rl = R[choose(n > 3000 ? 4 : 6, "replacement")];
  std::string o = k == 3 ? std::string(30, 'n') + "d" : "ab", t, r; for (int i = 0; i < rl; i++) r += "abXY"[i % 4]; for (int i = 0; i < n; i++) { t += k == 0 ? o : k == 1 ? "-" + o : k == 2 ? (i % 7 ? "aab" : "x") : o + "nn"; } if (k & 1) t += "a"; if (n > 5000 && fn != 3 && !mc::thorough()) mc::skip(); step("function %d, %d pieces of kind %d replaced by %d bytes", fn, n, k, rl); Exact et(t, fn != 1), ez(t, true), eo(o, true), er(r, true); size_t out = 7; mc::set_budget(256u << 20);
  if (fn == 0) take(str_replace_all(et.p, eo.p, er.p), ref_all(t, {{o, r}}), "str_replace_all"); else if (fn == 1) { std::string e = ref_all(t, {{o, r}, {"x", "<>"}}); take(str_replace_all_ext(et.p, t.size(), &out, 2, eo.p, er.p, "x", "<>"), e, "str_replace_all_ext"); MC_CHECK(out == e.size(), "size %zu, expected %zu", out, e.size()); }
  else if (fn == 2) { for (size_t off : {(size_t)0, t.size() / 2, t.size() - 1, t.size()}) for (size_t l : {(size_t)0, (size_t)1, t.size() / 3, t.size() - off}) if (off + l <= t.size()) take(str_replace_at_offset(et.p, off, l, er.p), t.substr(0, off) + r + t.substr(off + l), "str_replace_at_offset"); }
  else { St st; std::string w; for (int i = 0; i < n; i++) w += " \t\n\r"[(i + k) % 4]; for (int side = 0; side < 2; side++) { std::string body = k ? "x" + w + "y" : "", all = w + body + w, e = side ? body + (k ? w : "") : (k ? w : "") + body; cee_str *p = cee_str_mk(st, "%s", all.c_str()); if (side) cee_str_ltrim(p); else cee_str_rtrim(p); MC_CHECK(e == (char *)p, "trimming %d white space at side %d leaves %zu bytes, expected %zu", n, side, strlen((char *)p), e.size()); } cee_del(st.s); }
}
void mc_register() {
  mc::add("large", large, 2);
  mc::add("trim", [] { trims(" \t\n\rab", mc::tier(6, 7)); }, 3);
  mc::add("at-offset", [] { at_offset(mc::tier(6, 8), mc::tier(6, 12)); }, 3);
  mc::add("replace-all", [] { all(mc::tier(8, 11), 3, mc::tier(7, 10)); }, 4);
  mc::add("replace-all-ext", [] { ext(mc::tier(4, 6), 2, 2); }, 4);
  mc::add("replace-all-ext-many", [] { many(mc::tier(4, 5)); }, 3);
}
