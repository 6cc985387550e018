/* stand-in of hat-util header which is not available offline */
#ifndef HAT_PY_ALLOCATOR_H
#define HAT_PY_ALLOCATOR_H
#include "allocator.h"
extern hat_allocator_t hat_py_allocator;
#endif
