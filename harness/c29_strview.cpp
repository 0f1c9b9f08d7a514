#include "json.hpp"
#include <climits>
extern "C" {
#include "strview.c"
uint64_t sv_chop_u64(String_View *sv);
}
// a view into the middle of an exactly sized block whose ends are poisoned by ASan
struct View { Exact e; String_View v; explicit View(const std::string &s) : e(s), v(sv_from_parts(e.p, s.size())) {} };
static std::string str(String_View v) { return std::string(v.count ? v.data : "", v.count); }
// `got` is the slice [at, at+n) of the text
static void is(const View &w, String_View got, size_t at, size_t n, const char *op, const std::string &s) {
  MC_CHECK(got.count == n, "%s of %s has %zu bytes instead of %zu", op, mc::quote(s).c_str(), (size_t)got.count, n);
  if (n) MC_CHECK(got.data == w.e.p + at, "%s of %s starts at %td instead of %zu", op, mc::quote(s).c_str(), got.data - w.e.p, at);
  else MC_CHECK(got.data >= w.e.p && got.data <= w.e.p + s.size(), "%s of %s points outside the view", op, mc::quote(s).c_str());
}
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(unsigned char c) { return c >= '0' && c <= '9'; }
static bool p_a(char c) { return c == 'a'; } static bool p_notb(char c) { return c != 'b'; } static bool p_all(char) { return true; } static bool p_none(char) { return false; } static bool p_high(char c) { return (unsigned char)c >= 0x80; }
static bool (*const PRED[])(char) = {p_a, p_notb, p_all, p_none, p_high};
static uint64_t num(const std::string &s, size_t &n) { uint64_t r = 0; n = 0; while (n < s.size() && dig(s[n])) r = r * 10 + (s[n++] - '0'); return r; }
static void unary(const std::string &s) {
  size_t L = s.size(), a = 0, b = L; while (a < L && ws(s[a])) a++; while (b > 0 && ws(s[b - 1])) b--;
  { View w(s); is(w, w.v, 0, L, "sv_from_parts", s); is(w, sv_trim_left(w.v), a, L - a, "sv_trim_left", s); is(w, sv_trim_right(w.v), 0, b, "sv_trim_right", s); is(w, sv_trim(w.v), a, a < b ? b - a : 0, "sv_trim", s);
    size_t n; uint64_t r = num(s, n); MC_CHECK(sv_to_u64(w.v) == r, "sv_to_u64 of %s is %llu", mc::quote(s).c_str(), (unsigned long long)sv_to_u64(w.v)); uint64_t g = sv_chop_u64(&w.v); MC_CHECK(g == r, "sv_chop_u64 of %s is %llu", mc::quote(s).c_str(), (unsigned long long)g); is(w, w.v, n, L - n, "the rest after sv_chop_u64", s); }
  for (size_t k = 0; k < 5; k++) { size_t n = 0; while (n < L && PRED[k](s[n])) n++; View w(s); is(w, sv_take_left_while(w.v, PRED[k]), 0, n, "sv_take_left_while", s); is(w, w.v, 0, L, "the view after taking", s); is(w, sv_chop_left_while(&w.v, PRED[k]), 0, n, "sv_chop_left_while", s); is(w, w.v, n, L - n, "the rest after sv_chop_left_while", s); }
  std::vector<size_t> ns; for (size_t n = 0; n <= L + 2; n += L > 4096 && n > 3 && n + 3 < L ? (L - 5) / 3 : 1) ns.push_back(n); for (size_t n : {(size_t)INT_MAX, (size_t)INT_MAX + 1, (size_t)UINT_MAX + 1, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX}) ns.push_back(n);
  for (size_t n : ns) { size_t m = std::min(n, L); { View w(s); is(w, sv_chop_left(&w.v, n), 0, m, "sv_chop_left", s); is(w, w.v, m, L - m, "the rest after sv_chop_left", s); } { View w(s); is(w, sv_chop_right(&w.v, n), L - m, m, "sv_chop_right", s); is(w, w.v, 0, L - m, "the rest after sv_chop_right", s); } }
  if (s.find('\0') == std::string::npos) { std::string z = s + '\0'; View w(z); is(w, sv_from_cstr(w.e.p), 0, L, "sv_from_cstr", s); }
  mc::state(mc::hash_str(s));
}
static void delim(const std::string &s, char d) {
  size_t L = s.size(), i = s.find(d); bool hit = i != std::string::npos;
  { View w(s); size_t ix = 77777; bool r = sv_index_of(w.v, d, &ix); MC_CHECK(r == hit && (hit ? ix == i : ix == 77777), "sv_index_of(%s, %d): %d, %zu", mc::quote(s).c_str(), d, r, ix); MC_CHECK(sv_index_of(w.v, d, NULL) == hit, "sv_index_of(%s, %d, NULL)", mc::quote(s).c_str(), d);
    is(w, sv_chop_by_delim(&w.v, d), 0, hit ? i : L, "sv_chop_by_delim", s); is(w, w.v, hit ? i + 1 : L, hit ? L - i - 1 : 0, "the rest after sv_chop_by_delim", s); }
  for (int out = 0; out < 2; out++) { View w(s); String_View c; c.count = 42; c.data = (char *)42; bool r = sv_try_chop_by_delim(&w.v, d, out ? &c : NULL); MC_CHECK(r == hit, "sv_try_chop_by_delim(%s, %d) is %d", mc::quote(s).c_str(), d, r); if (!hit || !out) MC_CHECK(c.count == 42 && c.data == (char *)42, "a failed sv_try_chop_by_delim writes"); else is(w, c, 0, i, "sv_try_chop_by_delim", s); is(w, w.v, hit ? i + 1 : 0, hit ? L - i - 1 : L, "the rest after sv_try_chop_by_delim", s); }
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static void binary(const std::string &s, const std::string &t) {
  size_t L = s.size(), M = t.size(); View a(s), b(t); std::string q = mc::quote(s) + ", " + mc::quote(t); bool ci = L == M; for (size_t i = 0; ci && i < L; i++) ci = low(s[i]) == low(t[i]);
  MC_CHECK(sv_eq(a.v, b.v) == (s == t), "sv_eq(%s)", q.c_str()); MC_CHECK(sv_eq_ignorecase(a.v, b.v) == ci, "sv_eq_ignorecase(%s)", q.c_str());
  MC_CHECK(sv_starts_with(a.v, b.v) == (M <= L && !s.compare(0, M, t)), "sv_starts_with(%s)", q.c_str()); MC_CHECK(sv_ends_with(a.v, b.v) == (M <= L && !s.compare(L - std::min(L, M), M, t)), "sv_ends_with(%s)", q.c_str());
  size_t i = s.find(t); bool hit = i != std::string::npos; is(a, sv_chop_by_sv(&a.v, b.v), 0, hit ? i : L, "sv_chop_by_sv", q); is(a, a.v, hit ? i + M : L, hit ? L - i - M : 0, "the rest after sv_chop_by_sv", q); is(b, b.v, 0, M, "the delimiter", q);
}
static void u1() { words({" ", "\t", "\n", "a", "b", "7", std::string(1, '\0'), "\xff"}, mc::tier(5, 6), "", "", unary); }
static void u2() { words({"0", "1", "9", "/", ":", " "}, mc::tier(6, 7), "", "", unary); }
static void bytes() { int a = choose(256, "byte"), where = choose(3, "place"); std::string s = where == 0 ? std::string(1, (char)a) : where == 1 ? std::string("a") + (char)a + "\xc3" : std::string("\x80") + (char)a; step("byte %d place %d", a, where); unary(s); for (int d = 0; d < 256; d++) delim(s, (char)d); for (int b = 0; b < 256; b++) { binary(std::string(1, (char)a), std::string(1, (char)b)); binary(std::string("q") + (char)a, std::string("Q") + (char)b); binary(s, std::string(1, (char)b)); } }
static void delims() { words({"a", "b", ",", std::string(1, '\0'), "\xff"}, mc::tier(6, 7), "", "", [](const std::string &s) { for (char d : {'a', ',', '\0', '\xff'}) delim(s, d); }); }
static void nuls() { words({std::string(1, '\0'), "a", "B", "\xff"}, mc::tier(5, 6), "", "", [](const std::string &s) { static std::vector<std::string> T; if (T.empty()) { T = {""}; for (size_t i = 0; i < T.size(); i++) if (T[i].size() < 4) for (char c : {'\0', 'a', 'b', '\xff'}) T.push_back(T[i] + c); } for (auto &t : T) binary(s, t); if (s.size() > 1) for (char c : {'\0', 'a', 'A'}) { auto t = s; t.back() = c; binary(s, t); t = s; t[0] = c; binary(s, t); } }); }
static void pairs() { words(CHARS("abA"), mc::tier(5, 6), "", "", [](const std::string &s) { static std::vector<std::string> T; if (T.empty()) { T = {""}; for (size_t i = 0; i < T.size(); i++) if (T[i].size() < 4) for (char c : {'a', 'b', 'B'}) T.push_back(T[i] + c); } for (auto &t : T) binary(s, t); }); }
static void separators() { words(CHARS("ab"), mc::tier(9, 11), "", "", [](const std::string &s) { static std::vector<std::string> T; if (T.empty()) { T = {""}; for (size_t i = 0; i < T.size(); i++) if (T[i].size() < 5) for (char c : {'a', 'b'}) T.push_back(T[i] + c); } for (auto &t : T) binary(s, t); }); }
static void numbers() { static const uint64_t V[] = {0, 9, 10, 255, 256, 65535, 65536, 2147483647, 2147483648u, 4294967295u, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 9999999999999999999ull, 18446744073709551609ull, 18446744073709551615ull}; uint64_t v = V[choose(16, "value")]; int z = choose(4, "zeros"); std::string s = std::string(z, '0') + std::to_string(v); step("%s", s.c_str()); for (const char *t : {"", "x", " 1", "-", "\xff", "."}) unary(s + t); for (const char *p : {"-", "+", " ", "a", ".", "\xb9"}) unary(p + s); }
static void empty() { step("empty views"); String_View n = SV_NULL; char c = 'x'; String_View e = sv_from_parts(&c, 0); for (String_View v : {n, e}) { String_View w = v, o; MC_CHECK(sv_trim(v).count == 0 && sv_trim_left(v).count == 0 && sv_trim_right(v).count == 0 && sv_to_u64(v) == 0 && sv_chop_u64(&w) == 0 && w.count == 0, "an empty view is not empty"); MC_CHECK(!sv_index_of(v, 'x', NULL) && !sv_try_chop_by_delim(&w, 'x', &o) && sv_chop_by_delim(&w, 'x').count == 0 && w.count == 0, "an empty view contains x"); MC_CHECK(sv_chop_left(&w, 3).count == 0 && w.count == 0 && sv_chop_right(&w, 3).count == 0 && w.count == 0, "chopping an empty view"); MC_CHECK(sv_chop_by_sv(&w, SV("x")).count == 0 && w.count == 0, "chopping an empty view by x"); MC_CHECK(sv_eq(v, n) && sv_eq_ignorecase(v, e) && sv_starts_with(v, e) && sv_ends_with(SV("x"), v) && !sv_eq(v, SV("x")), "comparing empty views"); } }
// histories: what the chops return, put together, is the text
static void histories() {
  static const std::string T[] = {"a,b,,c", "  x 12, y", "ab", "", "12ab34,a"}; std::string s = T[choose(5, "text")], left = s; View w(s); size_t at = 0; int depth = mc::tier(4, 5); step("text %s", mc::quote(s).c_str());
  for (int k = 0; k < depth; k++) { int op = choose(9, "op"); size_t n, L = left.size(), i; String_View got; auto cut = [&](size_t take, size_t drop, const char *name) { is(w, got, at, take, name, s); at += drop; left.erase(0, drop); };
    switch (op) {
    case 0: got = sv_chop_left(&w.v, 2); n = std::min<size_t>(2, L); cut(n, n, "sv_chop_left"); break;
    case 1: got = sv_chop_right(&w.v, 1); n = std::min<size_t>(1, L); is(w, got, at + L - n, n, "sv_chop_right", s); left.resize(L - n); break;
    case 2: got = sv_chop_by_delim(&w.v, ','); i = left.find(','); cut(i == left.npos ? L : i, i == left.npos ? L : i + 1, "sv_chop_by_delim"); break;
    case 3: { bool r = sv_try_chop_by_delim(&w.v, ',', &got); i = left.find(','); MC_CHECK(r == (i != left.npos), "sv_try_chop_by_delim"); if (r) cut(i, i + 1, "sv_try_chop_by_delim"); break; }
    case 4: got = sv_chop_by_sv(&w.v, SV(",,")); i = left.find(",,"); cut(i == left.npos ? L : i, i == left.npos ? L : i + 2, "sv_chop_by_sv"); break;
    case 5: got = sv_chop_left_while(&w.v, p_notb); for (n = 0; n < L && left[n] != 'b';) n++; cut(n, n, "sv_chop_left_while"); break;
    case 6: { uint64_t v = num(left, n), g = sv_chop_u64(&w.v); MC_CHECK(v == g, "sv_chop_u64"); at += n; left.erase(0, n); break; }
    case 7: w.v = sv_trim_left(w.v); for (n = 0; n < L && ws(left[n]);) n++; at += n; left.erase(0, n); break;
    case 8: w.v = sv_trim_right(w.v); while (left.size() && ws(left.back())) left.pop_back(); break; }
    step("op %d -> %s", op, mc::quote(left).c_str()); is(w, w.v, at, left.size(), "the rest", s); if (left.size()) MC_CHECK(str(w.v) == left, "the rest is %s", mc::quote(str(w.v)).c_str());
  }
  mc::state(mc::hash_str(left, at));
}
static void lengths() { int n = choose(mc::tier(300, 2000), "length"); step("length %d", n); std::string s(n, 'a'); unary(s); unary(std::string(n, ' ')); unary(s + " " + s); binary(s, s); binary(s + "b", "b"); binary(s, s + "b"); delim(s + ",", ','); std::string t = s; if (n) { t[n - 1] = 'A'; binary(s, t); t[n - 1] = '!'; binary(s, t); t = s; t[0] = '!'; binary(s, t); t = s; t[n / 2] = 'z'; binary(s, t); } }
static void large() {
  static const int N[] = {255, 256, 1000, 4096, 32768, 65535, 65536, 70000}; int n = N[choose(8, "length")], k = choose(6, "kind"); step("length %d kind %d", n, k); std::string s(n, 'a');
  auto some = [&](const std::string &t) { size_t L = t.size(), a = 0, b = L; while (a < L && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--; View w(t); is(w, sv_trim(w.v), a, b - a, "sv_trim", t); size_t d; uint64_t v = num(t, d); unary(t); MC_CHECK(sv_to_u64(w.v) == v && sv_chop_u64(&w.v) == v, "number"); is(w, w.v, d, L - d, "the rest after sv_chop_u64", t); for (size_t x : {(size_t)1, (size_t)255, (size_t)256, L / 2, L - 1, L, L + 1}) { View p(t), q(t); size_t m = std::min(x, L); is(p, sv_chop_left(&p.v, x), 0, m, "sv_chop_left", t); is(p, p.v, m, L - m, "rest", t); is(q, sv_chop_right(&q.v, x), L - m, m, "sv_chop_right", t); is(q, q.v, 0, L - m, "rest", t); } };
  switch (k) { case 0: some(s); some(std::string(n, ' ')); some(std::string(n, ' ') + "x" + std::string(n, '\t')); break; case 1: some(std::string(n, '0') + "42" + s); break; case 2: for (size_t at : {(size_t)0, (size_t)n / 2, (size_t)n - 1}) { std::string t = s; t[at] = ','; delim(t, ','); delim(t, ';'); } break;
    case 3: binary(s, s); binary(s + "b", s); binary("b" + s, s); binary(s, "b" + s); for (size_t at : {(size_t)0, (size_t)n / 2, (size_t)n - 1}) { std::string t = s; t[at] = 'A'; binary(s, t); t[at] = 'q'; binary(s, t); binary(t, s); } break;
    case 4: binary(s + std::string(300, 'b') + "x", std::string(300, 'b') + "x"); binary(s + "b", "aab"); binary(s.substr(1), s.substr(0, 200) + "b"); break;
    default: { std::string t; std::vector<std::pair<size_t, size_t>> at; for (int i = 0; (int)t.size() < n; i++) { std::string f(i % 23, 'f'); at.push_back({t.size(), f.size()}); t += f + ","; } View w(t); for (auto &x : at) { String_View g = sv_chop_by_delim(&w.v, ','); is(w, g, x.first, x.second, "sv_chop_by_delim", t); } MC_CHECK(w.v.count == 0, "%zu bytes are left", w.v.count); } }
  mc::state(n * 8 + k);
}
void mc_register() { mc::add("large", large, 2); mc::add("texts", u1); mc::add("digits", u2); mc::add("bytes", bytes); mc::add("delims", delims); mc::add("pairs", pairs); mc::add("nuls", nuls); mc::add("separators", separators); mc::add("numbers", numbers); mc::add("empty", empty, 0); mc::add("histories", histories); mc::add("lengths", lengths, 1); }
