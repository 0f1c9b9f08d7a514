#pragma once
#include "mc.hpp"
#include "cee.h"
using mc::choose; using mc::step; using mc::fail;
struct St {                              // a fresh state per execution
  cee_state *s;
  explicit St(size_t n = 4) { s = cee_state_mk(n); MC_CHECK(s, "cee_state_mk returned NULL"); }
  operator cee_state *() const { return s; }
};
inline void *tok(long i) { return (void *)(uintptr_t)(0x1000 + 16 * i); }   // opaque elements for NOOP containers
inline long untok(const void *p) { return ((long)(uintptr_t)p - 0x1000) / 16; }
