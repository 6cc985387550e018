/* stand-in of hat-util header which is not available offline */
#ifndef HAT_ALLOCATOR_H
#define HAT_ALLOCATOR_H
#include <stddef.h>
typedef struct hat_allocator_t {
    void *ctx;
    void *(*alloc)(struct hat_allocator_t *a, size_t size, void *old);
} hat_allocator_t;
#endif
