/* memory allocated by extensions is counted */
#include <Python.h>
void *verif_realloc(void *old, size_t size);
void verif_free(void *ptr);
long verif_live(void);
#ifndef VERIF_COUNT
#define PyMem_Malloc(size) verif_realloc(NULL, size)
#define PyMem_Realloc(ptr, size) verif_realloc(ptr, size)
#define PyMem_Free(ptr) verif_free(ptr)
#endif
