#include "gc.hpp"
void mc_register() { register_gc(false); }
