#include "common.hpp"
#include <cfloat>
#include <cmath>
#include <cinttypes>
enum { F64, F32, U64, U32, U16, U8, I64, I32, I16, I8, NT };
static const char *TN[] = {"double", "float", "u64", "u32", "u16", "u8", "i64", "i32", "i16", "i8"};
struct Val { double d; float f; uint64_t u; int64_t i; };
static cee_boxed *box(cee_state *s, int t, const Val &v) {
  switch (t) { case F64: return cee_boxed_from_double(s, v.d); case F32: return cee_boxed_from_float(s, v.f);
  case U64: return cee_boxed_from_u64(s, v.u); case U32: return cee_boxed_from_u32(s, (uint32_t)v.u); case U16: return cee_boxed_from_u16(s, (uint16_t)v.u); case U8: return cee_boxed_from_u8(s, (uint8_t)v.u);
  case I64: return cee_boxed_from_i64(s, v.i); case I32: return cee_boxed_from_i32(s, (int32_t)v.i); case I16: return cee_boxed_from_i16(s, (int16_t)v.i); default: return cee_boxed_from_i8(s, (int8_t)v.i); }
}
template <class T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool reads_back(int t, cee_boxed *b, const Val &v) {
  switch (t) { case F64: return same(cee_boxed_to_double(b), v.d); case F32: return same(cee_boxed_to_float(b), v.f);
  case U64: return cee_boxed_to_u64(b) == v.u; case U32: return cee_boxed_to_u32(b) == (uint32_t)v.u; case U16: return cee_boxed_to_u16(b) == (uint16_t)v.u; case U8: return cee_boxed_to_u8(b) == (uint8_t)v.u;
  case I64: return cee_boxed_to_i64(b) == v.i; case I32: return cee_boxed_to_i32(b) == (int32_t)v.i; case I16: return cee_boxed_to_i16(b) == (int16_t)v.i; default: return cee_boxed_to_i8(b) == (int8_t)v.i; }
}
static std::string prints(int t, const Val &v) {
  switch (t) { case F64: return mc::fmt("%g", v.d); case F32: return mc::fmt("%g", v.f);
  case U64: return mc::fmt("%" PRIu64, v.u); case U32: return mc::fmt("%" PRIu32, (uint32_t)v.u); case U16: return mc::fmt("%d", (int)(uint16_t)v.u); case U8: return mc::fmt("%d", (int)(uint8_t)v.u);
  case I64: return mc::fmt("%" PRId64, v.i); case I32: return mc::fmt("%" PRId32, (int32_t)v.i); case I16: return mc::fmt("%d", (int)(int16_t)v.i); default: return mc::fmt("%d", (int)(int8_t)v.i); }
}
static void check(cee_state *s, int t, const Val &v, bool sizes) {
  cee_boxed *b = box(s, t, v); MC_CHECK(b && mc::is_live(b), "%s: no box", TN[t]); MC_CHECK(reads_back(t, b, v), "%s: %s reads back as another value", TN[t], prints(t, v).c_str());
  std::string e = prints(t, v); size_t n = cee_boxed_snprint(NULL, 0, b); MC_CHECK(n == e.size(), "%s %s: announces %zu bytes", TN[t], e.c_str(), n);
  for (size_t room = sizes ? 0 : e.size() + 1; room <= e.size() + (sizes ? 2 : 1); room++) {
    char *buf = (char *)malloc(room ? room : 1); memset(buf, 0x7e, room ? room : 1); n = cee_boxed_snprint(buf, room, b);
    MC_CHECK(n == e.size(), "%s %s into %zu bytes returns %zu", TN[t], e.c_str(), room, n);
    if (room) { std::string got(buf, strnlen(buf, room)); MC_CHECK(got == e.substr(0, room - 1), "%s into %zu bytes prints %s, expected %s", TN[t], room, got.c_str(), e.c_str()); } else MC_CHECK(buf[0] == 0x7e, "printing into 0 bytes writes");
    free(buf);
  }
  MC_CHECK(reads_back(t, b, v), "%s: printing changes the value", TN[t]);
  mc::state(mc::hash_str(e, t)); cee_del(b);
}
static std::vector<Val> boundaries() {
  std::vector<Val> r; std::vector<int> sh = {0, 1, 7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63};
  std::vector<uint64_t> us; for (int k : sh) for (int d = -1; d <= 1; d++) { us.push_back((1ull << k) + d); us.push_back(-((1ull << k) + d)); } us.push_back(0); us.push_back(0x0123456789abcdefull); us.push_back(0xfedcba9876543210ull);
  double ds[] = {0., -0., 1., -1., 0.1, 1. / 3, 1e5, 1e6, 123456, 1234567, 1e-4, 1e-5, 1e15, 1e16, 1e17, 1e22, 1e300, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_TRUE_MIN, FLT_MAX, FLT_MIN, FLT_TRUE_MIN, INFINITY, -INFINITY, 16777217., 9007199254740993., 0.5, 2.5, -12345.6789};
  for (size_t i = 0; i < us.size(); i++) r.push_back({ds[i % (sizeof ds / sizeof *ds)], (float)ds[i % (sizeof ds / sizeof *ds)], us[i], (int64_t)us[i]});
  return r;
}
static void small() {                                  // every 8 and 16 bit value
  St st; int hi = choose(256, "high byte"); step("all values %02x..", hi);
  for (int lo = 0; lo < 256; lo++) { int x = hi << 8 | lo; Val v{(double)(int16_t)x / 7, (float)(int16_t)x / 7, (uint64_t)x, (int16_t)x};
    for (int t : {U16, I16, F64, F32, U32, I32, U64, I64}) check(st, t, v, lo == 0); if (hi == 0 || hi == 255) { check(st, U8, v, true); check(st, I8, v, true); } }
  cee_del(st.s);
}
static void boundary() { St st; auto b = boundaries(); int t = choose(NT, "type"), i = choose(b.size(), "value"); step("%s %s", TN[t], prints(t, b[i]).c_str()); check(st, t, b[i], true); cee_del(st.s); MC_CHECK(mc::live_blocks() == 0, "blocks left"); }
static void typed_reads() {
  St st; int from = choose(NT, "boxed as"), to = choose(NT, "read as"); auto bs = boundaries(); Val v = bs[choose(bs.size(), "value")]; cee_boxed *b = box(st, from, v); step("%s read as %s", TN[from], TN[to]);
  bool t = mc::traps([&] { switch (to) { case F64: cee_boxed_to_double(b); break; case F32: cee_boxed_to_float(b); break; case U64: cee_boxed_to_u64(b); break; case U32: cee_boxed_to_u32(b); break; case U16: cee_boxed_to_u16(b); break; case U8: cee_boxed_to_u8(b); break; case I64: cee_boxed_to_i64(b); break; case I32: cee_boxed_to_i32(b); break; case I16: cee_boxed_to_i16(b); break; default: cee_boxed_to_i8(b); } });
  MC_CHECK(t == (from != to), "reading a %s box as %s %s", TN[from], TN[to], t ? "traps" : "does not trap"); mc::outcome(from * NT + to);
}
// several boxes of one state keep their own values
static void many(int n) {
  St st; auto bs = boundaries(); std::vector<std::pair<int, int>> w; std::vector<cee_boxed *> p;
  for (int i = 0; i < n; i++) { int t = choose(NT, "type"), v = (i * 37 + t * 11) % bs.size(); w.push_back({t, v}); p.push_back(box(st, t, bs[v])); step("box %s", TN[t]); for (int j = 0; j <= i; j++) MC_CHECK(reads_back(w[j].first, p[j], bs[w[j].second]), "box %d lost its value", j); }
  cee_del(st.s);
}
void mc_register() {
  mc::add("boundary", boundary, 2); mc::add("typed-reads", typed_reads, 2); mc::add("many", [] { many(mc::tier(4, 5)); }, 2); mc::add("all-16-bit", small, 1);
}
