#include "json.hpp"
static void one(const std::string &t) {
  for (bool eof : {true, false}) {
    cee_state *st = cee_state_mk(4); Ref r = reference(t, eof); Got g = parse(st, t, eof);
    if (g.rc == 0) { MC_CHECK(r.v != Ref::BAD, "%s is accepted (force_eof %d) but is not JSON", mc::quote(t).c_str(), eof); MC_CHECK(g.j && g.j != (cee_json *)8, "%s: success without a value", mc::quote(t).c_str()); mc::outcome(mc::mix(g.j->t, eof)); }
    else { MC_CHECK(r.v != Ref::OK, "%s is rejected (force_eof %d) but is JSON", mc::quote(t).c_str(), eof); MC_CHECK(!g.j, "%s: rejected with a value", mc::quote(t).c_str()); }
    cee_del(st);
  }
  mc::state(mc::hash_str(t));
}
// nesting: every depth, of arrays, objects and alternations, complete, cut and with trailing text
static void depths() {
  int shape = choose(3, "shape"), form = choose(5, "form"), d = choose(mc::tier(540, 1100), "depth"); std::string t, close; step("shape %d form %d depth %d", shape, form, d);
  for (int i = 0; i < d; i++) { bool arr = shape == 0 || (shape == 2 && i % 2); t += arr ? "[" : "{\"k\":"; close.insert(0, arr ? "]" : "}"); }
  t += "7"; if (form == 0) t += close; else if (form == 1) t += close.substr(0, close.size() - (d > 0)); else if (form == 2) t += close + "]"; else if (form == 3) t += close + " \n"; else { if (!close.empty()) close[0] = close[0] == ']' ? '}' : ']'; t += close; }
  one(t);
}
static void huge() {
  int k = choose(4, "shape"), d = 1000 * (1 << choose(6, "depth")); std::string t; for (int i = 0; i < d; i++) t += k & 1 ? "{\"\":" : "["; if (k & 2) { t += "1"; for (int i = 0; i < d; i++) t += k & 1 ? "}" : "]"; }
  step("%d deep", d); cee_state *st = cee_state_mk(4); Got g = parse(st, t, true); MC_CHECK((g.rc == 0) ? (k & 2) && g.j : !g.j, "depth %d: %d", d, g.rc); cee_del(st);
}
// long and wide documents: lists and strings and numbers around growth sizes
static void wide() {
  int kind = choose(5, "kind"), n = choose(mc::tier(300, 1500), "size"), cut = choose(2, "cut"); std::string t; step("kind %d size %d", kind, n);
  switch (kind) { case 0: t = "["; for (int i = 0; i < n; i++) t += (i ? "," : "") + std::to_string(i); t += "]"; break; case 1: t = "{"; for (int i = 0; i < n; i++) t += (i ? ",\"" : "\"") + std::to_string(i) + "\":[]"; t += "}"; break; case 2: t = "\"" + std::string(n, 'x') + "\""; break; case 3: t = "1" + std::string(n, '0') + ".5"; break; default: t = "\"" + std::string(n, 'y') + "\\n\""; }
  if (cut) t.pop_back(); one(t);
}
// every \u escape in 3 contexts, every UTF-8 border, and every byte after every lead byte
static void code_units() {
  int hi = choose(256, "high byte"); step("\\u%02x..", hi);
  for (int lo = 0; lo < 256; lo++) { std::string u = mc::fmt(lo % 2 ? "\\u%02x%02x" : "\\u%02X%02X", hi, lo); one("\"" + u + "\""); one("{\"" + u + "\":\"a" + u + "b\"}"); one("\"\\ud800" + u + "\""); }
}
static void utf8_borders() {
  static const uint32_t B[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}; int k = choose(16, "character"), n = choose(mc::tier(70, 300), "before"); std::string c; RefParser::utf8(c, B[k]); step("U+%X after %d bytes", B[k], n);
  std::string p(n, 'p'); one("\"" + p + c + "\""); one("[\"" + p + c + c + "q\",1]"); one("{\"" + p + c + "\":\"" + c + "\"}"); if (B[k] < 0x10000) one("\"" + p + mc::fmt("\\u%04x", B[k]) + c + "\""); else one("\"" + p + mc::fmt("\\u%04x\\u%04X", 0xD800 + ((B[k] - 0x10000) >> 10), 0xDC00 + ((B[k] - 0x10000) & 1023)) + c + "\"");
}
// every byte after a backslash and in place of every digit of an escape; pairs of digits replaced by what number readers let pass
static void escapes() {
  static const char *D[] = {"\\u0041", "\\uAbCd", "\\ud834\\udd1e", "\\u0000"}; int d = choose(5, "escape"), b = choose(256, "byte"); std::string c(1, (char)b); step("byte %d in escape %d", b, d); if (d == 4) { for (auto x : {"", "0", "0041", "q"}) { one("\"\\" + c + x + "\""); one("{\"k\\" + c + x + "\":1}"); } return; }
  std::string s = D[d]; static const char PAIR[] = "+- xX.,0\t\ng"; for (size_t i = 0; i < s.size(); i++) { std::string t = s; t[i] = (char)b; one("\"" + t + "\""); one("[\"a" + t + "z\"]"); one("{\"" + t + "\":0}"); if (b < 11) for (size_t j = 0; j < 11; j++) if (i + 1 < s.size()) { t = s; t[i] = PAIR[b]; t[i + 1] = PAIR[j]; one("\"" + t + "\""); } }
}
// long white space, long numbers, long literals and keys: sizes across buffer limits
static void lengths() {
  static const int N[] = {0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 65535, 65536, 70000}; int n = N[choose(sizeof N / sizeof *N, "length")], k = choose(12, "kind"); if ((k == 9 || k == 10) && n > 8192) mc::skip(); int bad = choose(2, "spoilt"); std::string z(n, '0'), x(n, 'x'), t; step("kind %d length %d", k, n);
  switch (k) { case 0: t = std::string(n, ' ') + "1"; break; case 1: t = "[1" + std::string(n, '\n') + ",2]"; break; case 2: t = "-1" + z; break; case 3: t = "0." + z + "1"; break; case 4: t = "{\"" + x + "\":1}"; break; case 5: t = "[\"" + x + "\",\"" + x + "\"]"; break; case 6: t = "1e-" + z + "1"; break; case 7: for (int i = 0; i < n; i++) t += "\\n"; t = "\"" + t + "\""; break; case 8: for (int i = 0; i < n; i++) t += "\\u00e9"; t = "\"" + t + "\""; break; case 9: for (int i = 0; i < n; i++) t += i ? ",[]" : "[]"; t = "[" + t + "]"; break; case 10: for (int i = 0; i < n; i++) t += mc::fmt("%s\"%d\":%d", i ? "," : "", i, i); t = "{" + t + "}"; break; default: t = "1" + std::string(n, '\t'); }
  if (bad) t += k % 2 ? "," : "x"; one(t);
}
// valid documents of up to n members or elements with one token inserted, removed, doubled or replaced at every place
static void near_misses() {
  static const char *INS[] = {",", ":", "[", "]", "{", "}", "\"k\"", "1", "null", " ", "x"}; enum { NI = 11 }; int shape = choose(6, "shape"), n = choose(mc::tier(7, 12), "members"); std::vector<std::string> w; auto val = [&](int i) { if (shape < 2) { w.push_back(i % 2 ? "1" : "\"s\""); return; } if (shape == 2) { for (auto x : {"[", "2", "]"}) w.push_back(x); return; } if (shape == 3) { for (auto x : {"{", "\"i\"", ":", "{", "}", "}"}) w.push_back(x); return; } if (i % 2) { for (auto x : {"[", "]"}) w.push_back(x); } else for (auto x : {"{", "\"i\"", ":", "true", ",", "\"j\"", ":", "[", "{", "}", "]", "}"}) w.push_back(x); };
  bool obj = shape % 2; w.push_back(obj ? "{" : "["); for (int i = 0; i < n; i++) { if (i) w.push_back(","); if (obj) { w.push_back("\"" + std::string(1, 'a' + i) + "\""); w.push_back(":"); } val(i); } w.push_back(obj ? "}" : "]"); step("shape %d, %d members", shape, n);
  auto text = [&](size_t at, const std::string *put, bool drop) { std::string t; for (size_t i = 0; i <= w.size(); i++) { if (i == at && put) t += *put; if (i < w.size() && !(i == at && drop)) t += w[i]; } one(t); };
  text(w.size() + 1, nullptr, false); for (size_t i = 0; i <= w.size(); i++) { text(i, nullptr, true); if (i < w.size()) text(i, &w[i], false); for (int k = 0; k < NI; k++) { std::string p = INS[k]; text(i, &p, false); text(i, &p, true); } }
}
void mc_register() { mc::add("near-misses", near_misses, 2); mc::add("code-units", code_units, 1); mc::add("escapes", escapes, 1); mc::add("utf8-borders", utf8_borders, 2); mc::add("lengths", lengths, 2); add_families(one); mc::add("depth", depths, 2); mc::add("huge", huge, 2); mc::add("wide", wide, 2); }
