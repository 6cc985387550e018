/* stand-in of hat-util hash table which is not available offline */
#ifndef HAT_HT_H
#define HAT_HT_H
#include <stddef.h>
#include "allocator.h"
typedef struct hat_ht_t hat_ht_t;
typedef struct hat_ht_item_t *hat_ht_iter_t;
hat_ht_t *hat_ht_create(hat_allocator_t *a);
void hat_ht_destroy(hat_ht_t *ht);
size_t hat_ht_count(hat_ht_t *ht);
int hat_ht_set(hat_ht_t *ht, const void *key, size_t key_size, void *value);
void *hat_ht_get(hat_ht_t *ht, const void *key, size_t key_size);
void *hat_ht_pop(hat_ht_t *ht, const void *key, size_t key_size);
hat_ht_iter_t hat_ht_iter_next(hat_ht_t *ht, hat_ht_iter_t iter);
void *hat_ht_iter_key(hat_ht_iter_t iter);
size_t hat_ht_iter_key_size(hat_ht_iter_t iter);
void *hat_ht_iter_value(hat_ht_iter_t iter);
#endif
