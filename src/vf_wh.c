// The repository's own source, with slab blocks of 32 KB instead of 2 MB so that a filter can be
// built and torn down in microseconds. The slab code itself is the repository's.
#define _GNU_SOURCE
#include "lib.h"
#define slab_create(o, b) slab_create((o), 32768)
#include "wh.c"
