#define VERIF_COUNT
#include "count.h"

static long live = 0;

void *verif_realloc(void *old, size_t size) {
    void *ptr = PyMem_RawRealloc(old, size);
    if (!old && ptr)
        live += 1;
    return ptr;
}

void verif_free(void *ptr) {
    if (ptr)
        live -= 1;
    PyMem_RawFree(ptr);
}

long verif_live(void) { return live; }
