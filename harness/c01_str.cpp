#include "common.hpp"
// content of a given length with recognisable bytes; no '%'
static std::string text(int n, int seed) { std::string s; for (int i = 0; i < n; i++) s += (char)('A' + (seed * 7 + i * 5 + i / 26) % 50); return s; }
static void agree(cee_str *p, const std::string &m, size_t room, const char *after) {
  MC_CHECK(mc::is_live(p), "%s: the string is not a live block", after);
  size_t r = mc::block_room(p); MC_CHECK(r > m.size(), "%s: block has room for %zu bytes, %zu needed", after, r, m.size() + 1);
  MC_CHECK(memcmp(p, m.c_str(), m.size() + 1) == 0, "%s: content is %s, expected %s", after, mc::quote(std::string((char *)p, std::min(strnlen((char *)p, r), (size_t)300))).c_str(), mc::quote(m).c_str());
  MC_CHECK(cee_str_end(p) == (char *)p + m.size(), "%s: end pointer at %ld, expected %zu", after, (long)(cee_str_end(p) - (char *)p), m.size());
  MC_CHECK(r >= room, "%s: block has room for %zu bytes, %zu requested", after, r, room);
  mc::state(mc::mix(mc::hash_str(m), r));
}
static cee_str *mkv(cee_state *s, const char *fmt, ...) { va_list ap; va_start(ap, fmt); cee_str *r = cee_str_mkv(s, fmt, ap); va_end(ap); return r; }
// every construction of every length
static void construct(int N) {
  St st; int how = choose(6, "constructor"), n = choose(N, "length"); std::string t = text(n, how), exact = t; cee_str *p; size_t room = 0;
  step("constructor %d with %d bytes", how, n);
  switch (how) {
  case 0: p = cee_str_mk(st, "%s", t.c_str()); break;
  case 1: p = mkv(st, "%s|%d|%c", t.c_str(), n * 1000 - 7, 'q'); t += mc::fmt("|%d|q", n * 1000 - 7); break;
  case 2: { char *b = (char *)malloc(n ? n : 1); memcpy(b, t.data(), n); p = cee_str_strn(st, b, n); free(b); break; }        // not terminated
  case 3: { int rq[] = {0, 1, n / 2, n, n + 1, n + 64, 2 * n + 500}; room = rq[choose(7, "requested")]; p = cee_str_mk_e(st, room, "%s", t.c_str()); break; }
  case 4: p = cee_str_mk_e(st, n, NULL); t = ""; room = n; break;
  default: { int w = n; p = cee_str_mk(st, "%*d%%%s", w, 42, "z"); t = mc::fmt("%*d%%%s", w, 42, "z"); }
  }
  agree(p, t, room, "construction");
  if (room) { memset(p, 'x', room); ((char *)p)[room - 1] = 0; }                     // the requested bytes are usable
  cee_del(p); cee_del(st.s);
}
static cee_str *start(cee_state *s, int how, int n, std::string &m, size_t &room) {
  room = 0; m = text(n, 3); cee_str *p;
  switch (how) {
  case 0: p = cee_str_mk(s, "%s", m.c_str()); break;
  case 1: p = cee_str_mk_e(s, 0, NULL); m = ""; break;
  case 2: p = cee_str_strn(s, (char *)m.data(), n); break;
  default: p = cee_str_mk_e(s, n + 100, "%s", m.c_str()); room = n + 100; }
  return p;
}
static void history(const std::vector<int> &starts, const std::vector<int> &lens, int depth) {
  St st; int how = choose(4, "start"), n = starts[choose(starts.size(), "length")]; std::string m; size_t room; cee_str *p = start(st, how, n, m, room);
  int ra = choose(3, "realloc"); if (ra) cee_use_realloc(p); if (ra > 1) cee_use_malloc(p); step("start %d with %d bytes, %s", how, n, ra == 1 ? "realloc" : "malloc"); agree(p, m, room, "start");
  std::string bystander = "bystander"; cee_str *by = cee_str_mk(st, "%s", bystander.c_str());
  for (int d = 0; d < depth; d++) {
    int op = choose(5, "op"), l = op == 0 || op == 4 ? 1 : lens[choose(lens.size(), "n")]; std::string t = text(l, d + 11);
    switch (op) {
    case 0: { bool hi = choose(2, "char"); char c = hi ? (char)0xe9 : 'k'; step("add a byte"); p = cee_str_add(p, c); m += c; break; }
    case 1: step("catf %d bytes", l); p = cee_str_catf(p, "%s%d", t.c_str(), l); m += t + std::to_string(l); break;
    case 2: { int k = choose(3, "take"); size_t take = k == 0 ? l : k == 1 ? l / 2 : l + 3; step("ncat %zu of %d bytes", take, l);
        if (k == 2) { p = cee_str_ncat(p, (char *)t.c_str(), take); m += t; }
        else { char *b = (char *)malloc(take ? take : 1); memcpy(b, t.data(), take); p = cee_str_ncat(p, b, take); free(b); m += t.substr(0, take); } break; }
    case 3: step("replace by %d bytes", l); p = cee_str_replace(p, "%s", t.c_str()); m = t; break;
    case 4: step("catf and replace without a format"); p = cee_str_catf(p, NULL); p = cee_str_replace(p, NULL); break; }
    agree(p, m, 0, "op");
    MC_CHECK(!strcmp((char *)by, bystander.c_str()), "another string of the state changed");
  }
  mc::outcome(mc::hash_str(m));
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks left after deleting the state", mc::live_blocks());
}
// one byte at a time across several growth steps
static void drip(int N) {
  St st; int n = choose(130, "start"), kind = choose(3, "kind"), ra = choose(2, "realloc"); std::string m = text(n, 1); cee_str *p = cee_str_mk(st, "%s", m.c_str()); if (ra) cee_use_realloc(p);
  step("%d bytes appended to %d, kind %d", N, n, kind);
  for (int i = 0; i < N; i++) { char c = 'a' + i % 26; if (kind == 0) p = cee_str_add(p, c); else if (kind == 1) p = cee_str_catf(p, "%c", c); else { char b[1] = {c}; p = cee_str_ncat(p, b, 1); } m += c; if (i % 7 == 0 || i > N - 3) agree(p, m, 0, "drip"); }
  agree(p, m, 0, "drip"); cee_del(st.s);
}
// boundary: every pair (existing length, appended length) around the rounding
static void grid(int N) {
  St st; int a = choose(N, "existing"), b = choose(N, "appended"), op = choose(3, "op"), ra = choose(2, "realloc"); std::string m = text(a, 2), t = text(b, 9);
  cee_str *p = cee_str_mk(st, "%s", m.c_str()); if (ra) cee_use_realloc(p); step("%d then op %d with %d", a, op, b);
  if (op == 0) { p = cee_str_catf(p, "%s", t.c_str()); m += t; } else if (op == 1) { p = cee_str_replace(p, "%s", t.c_str()); m = t; } else { p = cee_str_ncat(p, (char *)t.c_str(), b); m += t; }
  agree(p, m, 0, "grid"); p = cee_str_add(p, '!'); m += '!'; agree(p, m, 0, "grid+add"); cee_del(st.s);
}
// lengths far beyond and far below the present block, in sequence: every order of sizes of each magnitude
static const int BIG[] = {0, 1, 30, 100, 200, 255, 256, 500, 1000, 1023, 1024, 3000, 4095, 4096, 9000, 32768, 65535, 65536, 70000};
static void magnitudes(int depth) {
  St st; int N = 19, a = BIG[choose(N, "existing")], ra = choose(2, "realloc"), how = choose(2, "start"); std::string m = text(a, 2); cee_str *p = how ? cee_str_mk_e(st, a / 2, "%s", m.c_str()) : cee_str_strn(st, (char *)m.data(), a); if (ra) cee_use_realloc(p);
  for (int d = 0; d < depth; d++) {
    int b = BIG[choose(N, "length")], op = choose(4, "op"); std::string t = text(b, 9 + d); step("%zu then op %d with %d", m.size(), op, b);
    if (op == 0) { p = cee_str_catf(p, "%s", t.c_str()); m += t; } else if (op == 1) { p = cee_str_replace(p, "%s", t.c_str()); m = t; } else if (op == 2) { char *x = (char *)malloc(b + 1); memcpy(x, t.data(), b); p = cee_str_ncat(p, x, b); free(x); m += t; }
    else { p = cee_str_catf(p, "%d%*s%s", d, b, "r", "x"); m += std::to_string(d); if (b > 1) m += std::string(b - 1, ' '); m += "rx"; }
    agree(p, m, 0, "op"); p = cee_str_add(p, '!'); m += '!'; agree(p, m, 0, "add");
  }
  cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks left after deleting the state", mc::live_blocks());
}
// far beyond: each way of making and of growing a string
static void far() {
  static const int N[] = {100000, 131071, 131072, 131073, 262144, 1 << 20, (1 << 20) + 17}; St st; int n = N[choose(7, "length")], how = choose(8, "how"), ra = choose(2, "realloc"); std::string m = text(n, 3), t = "tail"; cee_str *p; step("%d bytes, made as %d", n, how);
  if (how < 4) p = how == 0 ? cee_str_mk(st, "%s", m.c_str()) : how == 1 ? cee_str_mk_e(st, 10, "%s", m.c_str()) : how == 2 ? cee_str_strn(st, (char *)m.data(), n) : cee_str_mk_e(st, n + 50, "%s", m.c_str());
  else { p = cee_str_mk(st, "%s", "ab"); if (ra) cee_use_realloc(p); if (how == 4) { p = cee_str_catf(p, "%s", m.c_str()); m = "ab" + m; } else if (how == 5) { p = cee_str_ncat(p, (char *)m.data(), n); m = "ab" + m; } else if (how == 6) p = cee_str_replace(p, "%s", m.c_str()); else { p = cee_str_catf(p, "%*s", n, "x"); m = "ab" + std::string(n - 1, ' ') + "x"; } }
  if (ra) cee_use_realloc(p); agree(p, m, 0, "made"); p = cee_str_add(p, '!'); m += '!'; agree(p, m, 0, "add"); p = cee_str_catf(p, "%s%d", t.c_str(), n); m += t + std::to_string(n); agree(p, m, 0, "catf"); p = cee_str_ncat(p, (char *)t.data(), 2); m += "ta"; agree(p, m, 0, "ncat"); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "%zu blocks left after deleting the state", mc::live_blocks());
}
// every ratio of appended to existing length
static void ratios() {
  int a = choose(mc::tier(24, 60), "existing") * 13, ra = choose(2, "realloc"); step("existing %d", a);
  for (int b = 0; b < mc::tier(1500, 4000); b += b < 300 ? 1 : 17) for (int op = 0; op < 3; op++) {
    cee_state *st = cee_state_mk(2); std::string m = text(a, 2), t = text(b, 9); cee_str *p = cee_str_mk(st, "%s", m.c_str()); if (ra) cee_use_realloc(p);
    if (op == 0) { p = cee_str_catf(p, "%s", t.c_str()); m += t; } else if (op == 1) { p = cee_str_replace(p, "%s", t.c_str()); m = t; } else { p = cee_str_ncat(p, (char *)t.c_str(), b); m += t; }
    agree(p, m, 0, "op"); cee_del(st);
  }
}
void mc_register() {
  mc::add("magnitudes", [] { magnitudes(mc::tier(1, 2)); }, 2);
  mc::add("ratios", ratios, 2);
  mc::add("far", far, 2);
  mc::add("construct", [] { construct(mc::tier(420, 1200)); }, 2);
  mc::add("grid", [] { grid(mc::tier(90, 210)); }, 2);
  mc::add("drip", [] { drip(mc::tier(400, 1500)); }, 2);
  mc::add("history", [] { history({0, 1, 40, 54, 55, 56, 57, 63, 64, 65, 120, 300}, {0, 1, 8, 60, 130}, mc::tier(3, 4)); }, 3);
}
