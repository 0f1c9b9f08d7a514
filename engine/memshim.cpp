// Allocator seam: the library objects' malloc/calloc/realloc/free/strdup are renamed to these.
#include "mc.hpp"
#include <unordered_map>

namespace {
struct Ent { char *p; size_t n; };
// open addressing table keyed by address; cleared after each execution
const size_t N = 1 << 21;
struct Slot { char *p; size_t n; uint32_t gen; bool dead; };
Slot tab[N]; uint32_t gen = 1;
std::vector<uint32_t> used;
size_t nlive, blive, budget = 64u << 20, total, refuse_at, refuse_size;
bool refused(size_t n) { return (refuse_at && --refuse_at == 0) || (refuse_size && n > refuse_size); }
size_t idx(const void *p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull) >> 43; }
void ins(char *p, size_t n) {
  size_t i = idx(p) & (N - 1);
  while (tab[i].gen == gen && !(tab[i].dead && tab[i].p == p)) i = (i + 1) & (N - 1);
  if (tab[i].gen != gen) used.push_back(i);
  if (used.size() > N / 2) {
    if (nlive > N / 4) mc::fail("more than %zu live blocks in one execution", nlive);
    std::vector<Slot> live; for (uint32_t u : used) if (tab[u].gen == gen && !tab[u].dead) live.push_back(tab[u]);
    gen++; used.clear();
    for (auto &s : live) { size_t k = idx(s.p) & (N - 1); while (tab[k].gen == gen) k = (k + 1) & (N - 1); used.push_back(k); tab[k] = {s.p, s.n, gen, false}; }
    i = idx(p) & (N - 1); while (tab[i].gen == gen) i = (i + 1) & (N - 1); used.push_back(i);
  }
  tab[i] = {p, n, gen, false}; nlive++; blive += n; total++;
}
Slot *get(const void *p) {
  size_t i = idx(p) & (N - 1);
  while (tab[i].gen == gen) { if (tab[i].p == p && !tab[i].dead) return &tab[i]; i = (i + 1) & (N - 1); }
  return nullptr;
}
void *take(size_t n, bool zero) {
  if (refused(n)) return nullptr;
  if (n > budget || blive + n > budget) mc::fail("memory budget exceeded: request of %zu bytes with %zu live", n, blive);
  char *p = (char *)malloc(n ? n : 1);
  if (!p) mc::fail("out of memory: request of %zu bytes", n);
  memset(p, zero ? 0 : 0xA5, n);
  if (n == 0) { p = (char *)realloc(p, 0 + 1); }
  ins(p, n);
  return p;
}
}
extern "C" {
void *mc_malloc(size_t n) { return take(n, false); }
void *mc_calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return take(n, true);
}
void mc_free(void *p) {
  if (!p) return;
  Slot *s = get(p);
  if (s) { s->dead = true; nlive--; blive -= s->n; }
  free(p);          // an address that is not live: AddressSanitizer reports it
}
void *mc_realloc(void *p, size_t n) {       // always moves, so stale pointers are always caught
  if (!p) return take(n, false);
  Slot *s = get(p);
  if (!s) return realloc(p, n);
  char *q = (char *)take(n, false); if (!q) return nullptr;
  memcpy(q, p, s->n < n ? s->n : n);
  mc_free(p);
  return q;
}
char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)take(n, false); if (p) memcpy(p, s, n); return p; }
char *mc_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)take(n + 1, false); if (!p) return p; memcpy(p, s, n); p[n] = 0; return p; }
}
namespace mc {
size_t live_blocks() { return nlive; }
size_t live_bytes() { return blive; }
size_t alloc_total() { return total; }
void set_budget(size_t b) { budget = b; }
bool is_live(const void *p) { return block_room(p) > 0; }
size_t block_room(const void *p) {
  const char *c = (const char *)p;
  for (uint32_t i : used) if (!tab[i].dead && c >= tab[i].p && c < tab[i].p + (tab[i].n ? tab[i].n : 1)) return tab[i].p + tab[i].n - c;
  return 0;
}
void refuse(size_t nth, size_t above) { refuse_at = nth; refuse_size = above; }
void lib_free(void *p) { mc_free(p); }
void forget_all() {
  for (uint32_t i : used) if (!tab[i].dead) free(tab[i].p);
  used.clear(); gen++; nlive = blive = total = refuse_at = refuse_size = 0;
}
}
