// mc.hpp - a small explicit-state / stateless model checker for the real C code.
//
// A harness is a closed program whose only nondeterminism is mc::choose().  The engine runs it
// once for every possible sequence of answers (depth-first, by replay), optionally cutting a
// branch whose canonical state was already expanded with the same remaining budget.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

namespace mc {

struct Scenario {
  std::string name;
  std::function<void()> fn;
  int split;          // number of leading choices used to divide the tree among the workers
};
void add(const std::string &name, std::function<void()> fn, int split = 2);
bool thorough();                       // VERIF_TIER=thorough
template <class T> T tier(T quick, T deep) { return thorough() ? deep : quick; }

// ---- nondeterminism -------------------------------------------------------------------------
int choose(int n, const char *label = "");            // 0..n-1, every value is explored
// deviation-bounded choice: answer 0 is the default; any other one costs one unit of `budget`.
int deviate(int n, int &budget, const char *label = "");

// ---- observation ----------------------------------------------------------------------------
void step(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // one transition of the system
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // explanation only
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void skip();              // abandon this execution (an assumption does not hold)
void state(uint64_t h);                // count a distinct state
void outcome(uint64_t h);              // count a distinct final observation
// true (and abandons the execution) when (h, remaining) was already expanded by this exploration
void prune(uint64_t h, int remaining);
// A listed known finding: abandons the execution when `id` is listed, otherwise fails.
[[noreturn]] void known(const char *id, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool is_known(const char *id);

#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

// ---- allocator of the code under test --------------------------------------------------------
size_t live_blocks();                  // blocks the library allocated and has not freed
size_t live_bytes();
bool is_live(const void *p);           // p lies inside a live library block
size_t block_room(const void *p);      // bytes from p to the end of its live block (0: none)
size_t alloc_total();                  // allocations so far in this execution
void set_budget(size_t bytes);         // live-byte budget of one execution (default 64 MB)
void refuse(size_t nth, size_t above);  // the nth next allocation, and all of more than `above` bytes, return NULL (0: none)
void forget_all();                     // free every live library block
void lib_free(void *p);                // free() as the library sees it

// ---- traps -----------------------------------------------------------------------------------
// runs f; true when it ended in SIGSEGV/SIGABRT/SIGFPE (the library's deliberate cee_segfault)
bool traps(const std::function<void()> &f);

// ---- hashing ---------------------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0x1234567) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) h = mix(h, c[i] + 1);
  return mix(h, n);
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }
std::string quote(const std::string &s);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

} // namespace mc

void mc_register();   // each harness defines this and calls mc::add()
