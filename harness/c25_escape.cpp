#include "json.hpp"
extern "C" size_t cee_json_escape_string(const char *s, size_t s_size, char *dest, size_t dest_size, char **next_dest_p, size_t *next_dest_size);
static std::string unit(unsigned char c) { switch (c) { case '"': return "\\\""; case '\\': return "\\\\"; case '\b': return "\\b"; case '\f': return "\\f"; case '\n': return "\\n"; case '\r': return "\\r"; case '\t': return "\\t"; default: return c < 0x20 ? mc::fmt("\\u%04x", c) : std::string(1, (char)c); } }
// the decoding of JSON string content, by an own evaluator (escapes may be spelled differently)
static bool decode(const std::string &t, std::string &o) { RefParser p(t); o.clear(); for (size_t i = 0; i < t.size();) { unsigned char c = t[i]; if (c < 0x20 || c == '"') return false; if (c != '\\') { o += (char)c; i++; continue; } int e = p.at(i + 1); i += 2; const char *f = "\"\\/bfnrt", *g = "\"\\/\b\f\n\r\t"; if (e == 'u') { int v = p.u4(i); if (p.bad) return false; RefParser::utf8(o, v); i += 4; } else { const char *q = e > 0 ? strchr(f, e) : nullptr; if (!q) return false; o += g[q - f]; } } return true; }
static void one(const std::string &s, int from_room, int to_room) {
  std::string full; for (unsigned char c : s) full += unit(c); Exact in(s); int L = full.size();
  for (int room = from_room; room <= L + to_room; room++) for (int outs = 0; outs < (room == L ? 4 : 1); outs++) {
    if (room < 0) continue; char *d = (char *)malloc(room + !room); memset(d, 0x7e, room + !room); char *next = (char *)1; size_t left = 99999; size_t n = cee_json_escape_string(in.p, in.n, d, room, outs & 1 ? NULL : &next, outs & 2 ? NULL : &left);
    if (!room) MC_CHECK(d[0] == 0x7e, "escaping into 0 bytes writes"); MC_CHECK(n <= (size_t)room, "%s into %d bytes reports %zu", mc::quote(s).c_str(), room, n);
    if (!(outs & 1)) MC_CHECK(next == d + n, "%s into %d bytes: next is at %td, length %zu", mc::quote(s).c_str(), room, next - d, n); if (!(outs & 2)) MC_CHECK(left == room - n, "%s into %d bytes: %zu remain, length %zu", mc::quote(s).c_str(), room, left, n);
    std::string got(d, n), dec; MC_CHECK(decode(got, dec), "%s into %d bytes gives %s, which is no JSON string content", mc::quote(s).c_str(), room, mc::quote(got).c_str());
    if (room >= L) MC_CHECK(dec == s, "%s into %d bytes gives %s", mc::quote(s).c_str(), room, mc::quote(got).c_str()); else MC_CHECK(s.compare(0, dec.size(), dec) == 0, "%s into %d bytes gives %s, not an initial part", mc::quote(s).c_str(), room, mc::quote(got).c_str());
    MC_CHECK(!memcmp(in.p, s.data(), s.size()), "the input was changed"); free(d);
  }
  mc::state(mc::hash_str(s));
}
static void bytes() { int a = choose(257, "byte") - 1; step("byte %d and every second byte", a); if (a < 0) { one("", 0, 2); return; } std::string s(1, (char)a); one(s, 0, 3); for (int b = 0; b < 256; b++) one(s + (char)b, 0, 1); }
static void classes() { words({"a", "\"", "\\", "\n", "\x01", "\x1f", std::string(1, '\0'), "\xc3", "\x7f", "u"}, mc::tier(5, 6), "", "", [](const std::string &s) { one(s, 0, 1); }, 2); }
static void chained() {                              // the next position and the remaining size feed the next call
  static const std::string P[] = {"a\"b", "", "\n\n", "\x02x", std::string("\0z", 2), "plain"}; int k = choose(4, "pieces"); std::string all, in; std::vector<std::string> ps; for (int i = 0; i < k; i++) { ps.push_back(P[choose(6, "piece")]); in += ps.back(); for (unsigned char c : ps.back()) all += unit(c); } step("%d pieces", k);
  size_t room = all.size() + choose(2, "spare"); char *d = (char *)malloc(room + !room), *p = d; size_t left = room; for (auto &x : ps) { Exact e(x); size_t was = left; size_t n = cee_json_escape_string(e.p, e.n, p, left, &p, &left); MC_CHECK(left == was - n, "remaining size"); } std::string dec; MC_CHECK(decode(std::string(d, p - d), dec) && dec == in && left == room - (p - d), "pieces escape to %s", mc::quote(std::string(d, p - d)).c_str()); free(d);
}
static void lengths() { int n = choose(mc::tier(300, 1500), "length"), k = choose(3, "filling"); std::string s; for (int i = 0; i < n; i++) s += "x\"\x01"[k]; step("%d bytes", n); one(s, (int)s.size() * (k == 0 ? 1 : k == 1 ? 2 : 6) - 8, 1); Exact e(s); char *d = (char *)malloc(n * 6 + 2); size_t m = cee_json_escape_string(e.p, e.n, d, n * 6 + 2, NULL, NULL); std::string t = "\"" + std::string(d, m) + "\""; Ref r = reference(t, true); MC_CHECK(r.v == Ref::OK && r.val.s == s, "%d bytes escape to something else", n); free(d); }
static void long_inputs() { static const int N[] = {999, 1023, 1024, 4095, 4096, 4097, 10000, 65535, 65536, 70000}; int n = N[choose(10, "length")], k = choose(4, "filling"), cutoff = choose(6, "room"); std::string s; for (int i = 0; i < n; i++) s += k < 3 ? "x\"\x01"[k] : "ab\n\x02\\z\xc3\xa9"[i % 8]; if (k == 3 && n % 8 == 7) s += '\xa9'; std::string full; for (unsigned char c : s) full += unit(c); int L = full.size(); static const int R[] = {0, -1, -5, -700, 1, 0}; step("%d bytes of filling %d", n, k); int from = cutoff == 5 ? L / 2 - L : R[cutoff];
  int room = L + from; Exact in(s); char *d = (char *)malloc(room), *next = nullptr; size_t left = 1; size_t m = cee_json_escape_string(in.p, in.n, d, room, &next, &left); std::string dec; MC_CHECK(m <= (size_t)room && next == d + m && left == room - m, "%d bytes into %d: reports %zu", n, room, m); MC_CHECK(decode(std::string(d, m), dec) && (room >= L ? dec == s : s.compare(0, dec.size(), dec) == 0), "%d bytes into %d escape wrong", n, room); free(d); mc::state(n * 100 + k * 10 + cutoff); }
void mc_register() { mc::add("long-inputs", long_inputs, 2); mc::add("bytes", bytes, 1); mc::add("classes", classes, 3); mc::add("chained", chained, 3); mc::add("lengths", lengths, 2); }
