/* Stand-in for the header of cee-utils, which is not part of this repository: what cee_dbm.c takes from it. */
#pragma once
#include <stddef.h>
#include <sys/types.h>
extern char *cee_load_whole_file(const char *filename, size_t *len);
