#include "json.hpp"
#include <cfloat>
static void one(const std::string &t) {
  Ref r = reference(t, true); if (r.v == Ref::BAD) return;
  cee_state *st = cee_state_mk(4); Got g = parse(st, t, true);
  if (g.rc == 0) {
    if (!r.nul) MC_CHECK(same(r.val, g.j), "%s parses as %s, expected %s", mc::quote(t).c_str(), showj(g.j).c_str(), show(r.val).c_str());
    mc::outcome(hashv(r.val));
  } else MC_CHECK(r.v == Ref::MAY, "%s is not parsed", mc::quote(t).c_str());
  cee_del(st); mc::state(mc::hash_str(t));
}
// every \uXXXX, upper and lower case digits, alone and between other text
static void u_escapes() {
  int hi = choose(256, "high byte"); step("\\u%02x..", hi);
  for (int lo = 0; lo < 256; lo++) { std::string l = mc::fmt("\\u%02x%02x", hi, lo), u = mc::fmt("\\u%02X%02X", hi, lo); one("\"" + l + "\""); one("[\"x" + u + "y\"]"); one("{\"" + l + "\":1}"); one("\"" + l + u + "\""); }
}
// every surrogate pair: 1024 strings of one document per high surrogate
static void pairs() {
  int hi = choose(1024, "high"); std::string t = "["; step("\\u%04x x all low surrogates", 0xD800 + hi);
  for (int lo = 0; lo < 1024; lo++) t += mc::fmt("%s\"\\u%04x\\u%04X\"", lo ? "," : "", 0xD800 + hi, 0xDC00 + lo);
  one(t + "]");
}
// high followed by every non-low code unit is rejected (so yields no wrong value)
static void bad_pairs() {
  static const int H[] = {0xD800, 0xD801, 0xDA55, 0xDBFF}; int h = H[choose(4, "high")], b = choose(256, "next high byte"); step("\\u%04x\\u%02x..", h, b);
  for (int lo = 0; lo < 256; lo++) { std::string t = mc::fmt("\"\\u%04x\\u%04x\"", h, b * 256 + lo); Ref r = reference(t, true); cee_state *st = cee_state_mk(4); Got g = parse(st, t, true); MC_CHECK((g.rc == 0) == (r.v == Ref::OK), "%s: %d", t.c_str(), g.rc); if (!g.rc) MC_CHECK(same(r.val, g.j), "%s parses as %s", t.c_str(), showj(g.j).c_str()); cee_del(st); }
}
// integers around every power of two and ten and beyond 64 bits, as value, element and member
static void integers() {
  int base = choose(2, "base"), k = choose(base ? 22 : 70, "power"), neg = choose(2, "sign"); unsigned __int128 m = 1; for (int i = 0; i < k; i++) m *= base ? 10 : 2;
  step("%s%d^%d", neg ? "-" : "", base ? 10 : 2, k);
  for (int d = -20; d <= 20; d++) { if (d < 0 && m < (unsigned)-d) continue; unsigned __int128 x = m + d; std::string t; do t.insert(0, 1, '0' + (int)(x % 10)); while (x /= 10); if (neg) t.insert(0, "-"); one(t); one("[" + t + "," + t + "]"); one("{\"k\":" + t + "}"); one(t + ".0"); one(t + "e0"); one(t + "E+2"); one(" " + t + "\n"); }
}
// decimals: all mantissas of two or three digits with a point at every place and every exponent of a range
static void decimals() {
  int neg = choose(2, "sign"), pt = choose(3, "point"), e = choose(mc::tier(90, 700), "exponent") - mc::tier(45, 350), cap = choose(3, "form"); step("exponent %d", e);
  for (int m = 0; m < 1000; m += mc::tier(7, 1)) { std::string t = std::to_string(m); if (pt) { while ((int)t.size() <= pt) t.insert(0, "0"); t.insert(t.size() - pt, "."); } if (neg) t.insert(0, "-"); if (cap) t += cap == 1 ? "e" : "E", t += e < 0 ? "-" : cap == 1 ? "+" : "", t += std::to_string(e < 0 ? -e : e); else if (!pt) continue; one(t); }
}
// doubles with exact 17-digit spellings: all exponents x boundary mantissas
static void doubles() {
  int ex = choose(2047, "exponent"); static const uint64_t M[] = {0, 1, 2, 0x8000000000000ull, 0x7ffffffffffffull, 0xfffffffffffffull, 0x5555555555555ull}; step("binary exponent %d", ex);
  for (uint64_t m : M) for (int s = 0; s < 2; s++) { uint64_t b = (uint64_t)s << 63 | (uint64_t)ex << 52 | m; double d; memcpy(&d, &b, 8); for (const char *f : {"%.17e", "%.16e", "%.20e", "%.40e"}) one(mc::fmt(f, d)); if (ex > 900 && ex < 1200) one(mc::fmt("%.30f", d)); }
}
// long numbers (the digits do not fit any fixed buffer)
static void long_numbers() { static const int BIG[] = {511, 512, 1023, 1024, 1025, 4095, 4096, 8192, 32767, 32768, 65535, 65536, 70001}; int T = mc::tier(200, 500), k = choose(4, "kind"), n = choose(T + 13, "digits"); if (n >= T) n = BIG[n - T]; step("kind %d, %d digits", k, n); std::string z(n, k == 3 ? '9' : '0'); one(k == 0 ? "1" + z : k == 1 ? "0." + z + "1" : k == 2 ? "1" + z + "e-" + std::to_string(n) : "1" + z + "." + z + "e-" + std::to_string(n)); }
// objects: all sequences of n members over names with duplicates; the last one counts
static void members() {
  int n = choose(mc::tier(6, 8), "members"); static const char *N[] = {"a", "b", "aa", "", "A", "\\u0061"}; std::string t = "{";
  for (int i = 0; i < n; i++) { int k = choose(mc::tier(5, 6), "name"); t += (i ? ",\"" : "\"") + std::string(N[k]) + "\":" + (i % 3 == 0 ? std::to_string(i) : i % 3 == 1 ? "[" + std::to_string(i) + "]" : "{\"a\":" + std::to_string(i) + "}"); }
  step("%s", (t + "}").c_str()); one(t + "}"); one("[" + t + "}," + t + "}]");
}
// two or three members of one name whose values have every shape: the last one counts, whole
static void duplicates() {
  static const char *V[] = {"1", "null", "\"s\"", "[]", "{}", "[1]", "[2,3]", "{\"x\":1}", "{\"y\":2}", "{\"x\":[5]}", "[{\"x\":1}]", "[[1]]", "{\"x\":{\"z\":1}}"}; enum { NV = 13 }; int a = choose(NV, "first"), b = choose(NV, "second"), k = choose(4, "form"); step("%s then %s", V[a], V[b]); std::string A = V[a], B = V[b];
  if (k == 0) one("{\"k\":" + A + ",\"k\":" + B + "}"); else if (k == 1) one("{\"k\":" + A + ",\"o\":" + B + ",\"\\u006b\":" + B + "}"); else if (k == 2) one("[{\"k\":" + A + ",\"k\":" + B + "},{\"k\":" + B + ",\"k\":" + A + "}]"); else for (int c = 0; c < NV; c++) one("{\"o\":{\"k\":" + A + ",\"k\":" + B + ",\"k\":" + V[c] + ",\"o\":" + A + "}}");
}
// documents with many members / elements / nested levels
static void big() {
  int n = choose(mc::tier(320, 1500), "size"), k = choose(6, "kind"); std::string t; step("kind %d size %d", k, n);
  switch (k) { case 0: t = "["; for (int i = 0; i < n; i++) t += (i ? "," : "") + std::string(i % 3 == 0 ? std::to_string(i) : i % 3 == 1 ? "\"" + std::to_string(i) + "\"" : "[" + std::to_string(i) + "]"); t += "]"; break; case 1: t = "{"; for (int i = 0; i < n; i++) t += (i ? ",\"" : "\"") + std::to_string(i * 7919 % 1009) + "\":" + std::to_string(i); t += "}"; break;
  case 2: { int d = std::min(n, 490); for (int i = 0; i < d; i++) t += mc::fmt("{\"l%d\":[%d,", i, i); t += "\"in\""; for (int i = 0; i < d / 1; i++) t += "]}"; if (d > 240) return; break; }
  case 3: t = "\""; for (int i = 0; i < n; i++) t += i % 4 == 0 ? "\\u20ac" : i % 4 == 1 ? "x" : i % 4 == 2 ? "\\\"" : "\\ud83d\\ude00"; t += "\""; break; case 4: t = "{\"" + std::string(n, 'k') + "\":1,\"" + std::string(n + 1, 'k') + "\":2}"; break; default: t = "["; for (int i = 0; i < n; i++) t += mc::fmt("%s{\"id\":%d,\"v\":[%d.5,-%d]}", i ? "," : "", i, i, i); t += "]"; }
  one(t);
}
// long strings and names: lengths around the limits of every integer width
static void lengths() {
  static const int N[] = {255, 256, 257, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1 << 20}; int n = N[choose(sizeof N / sizeof *N, "length")], k = choose(7, "kind"); std::string x(n, 'x'), t; step("kind %d length %d", k, n); for (int i = 0; i < n; i += 97) x[i] = 'a' + i % 26;
  switch (k) { case 0: t = "\"" + x + "\""; break; case 1: t = "{\"" + x + "\":\"" + x + "y\",\"" + x + "z\":[]}"; break; case 2: t = "\"" + x + "\\n\""; break; case 3: t = "\"\\u00e9" + x + "\\ud83d\\ude00" + x + "\""; break; case 4: t = "[\"" + x + "\",1,\"" + x + "\"]"; break; case 5: t = "\"\xc3\xa9" + x + "\xe2\x82\xac\""; break; default: if (n > 20000) mc::skip(); t = "["; for (int i = 0; i < n; i++) t += i ? ",7" : "7"; t += "]"; }
  one(t);
}
// all small documents
static std::string doc(int budget, int depth) {
  static const char *L[] = {"null", "true", "false", "0", "-7", "2.5", "\"s\"", "\"\""}; int k = choose(depth > 0 && budget > 0 ? 10 : 8, "value"); if (k < 8) return L[k];
  int n = choose(budget + 1, "children"); std::string r = k == 8 ? "[" : "{"; for (int i = 0; i < n; i++) { if (i) r += ","; if (k == 9) r += mc::fmt("\"%c\":", 'a' + i); r += doc(i + 1 < n ? 0 : budget - n, depth - 1); } return r + (k == 8 ? "]" : "}");
}
static void documents() { std::string t = doc(mc::tier(4, 5), 3); step("%s", t.c_str()); one(t); }
static void nul() {
  int k = choose(3, "place"); std::string t = k == 0 ? "\"a\\u0000b\"" : k == 1 ? "{\"a\\u0000b\":1}" : "[\"\\u0000\"]"; step("%s", t.c_str()); Ref r = reference(t, true); cee_state *st = cee_state_mk(4); Got g = parse(st, t, true); bool ok = g.rc == 0 && same(r.val, g.j); cee_del(st);
  if (!ok) mc::known("nul-escape", "%s parses as a string that ends at the \\u0000", t.c_str());
}
void mc_register() {
  add_families(one, "family-"); mc::add("u-escapes", u_escapes, 1); mc::add("surrogate-pairs", pairs, 1); mc::add("bad-pairs", bad_pairs, 2); mc::add("integers", integers, 3); mc::add("decimals", decimals, 3); mc::add("doubles", doubles, 1); mc::add("long-numbers", long_numbers, 2); mc::add("members", members, 2); mc::add("duplicates", duplicates, 2); mc::add("big", big, 2); mc::add("lengths", lengths, 2); mc::add("documents", documents, 3); mc::add("nul-escape", nul, 1);
}
