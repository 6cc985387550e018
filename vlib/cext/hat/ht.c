/* Table of few entries: list of items, each with a copy of its key */
#include <Python.h>
#include <string.h>
#include "ht.h"
#include "py_allocator.h"

typedef struct hat_ht_item_t item_t;

struct hat_ht_item_t {
    item_t *next;
    void *value;
    size_t key_size;
    char key[];
};

struct hat_ht_t {
    hat_allocator_t *a;
    size_t count;
    item_t *head;
};

static void *py_alloc(hat_allocator_t *a, size_t size, void *old) {
    if (size)
        return PyMem_Realloc(old, size);
    PyMem_Free(old);
    return NULL;
}

hat_allocator_t hat_py_allocator = {.ctx = NULL, .alloc = py_alloc};

hat_ht_t *hat_ht_create(hat_allocator_t *a) {
    hat_ht_t *ht = a->alloc(a, sizeof(hat_ht_t), NULL);
    if (ht)
        *ht = (hat_ht_t){.a = a, .count = 0, .head = NULL};
    return ht;
}

void hat_ht_destroy(hat_ht_t *ht) {
    item_t *item = ht->head;
    while (item) {
        item_t *next = item->next;
        ht->a->alloc(ht->a, 0, item);
        item = next;
    }
    ht->a->alloc(ht->a, 0, ht);
}

size_t hat_ht_count(hat_ht_t *ht) { return ht->count; }

static item_t **find(hat_ht_t *ht, const void *key, size_t key_size) {
    item_t **i = &(ht->head);
    while (*i && ((*i)->key_size != key_size ||
                  memcmp((*i)->key, key, key_size)))
        i = &((*i)->next);
    return i;
}

int hat_ht_set(hat_ht_t *ht, const void *key, size_t key_size, void *value) {
    item_t **i = find(ht, key, key_size);
    if (*i) {
        (*i)->value = value;
        return 0;
    }
    item_t *item = ht->a->alloc(ht->a, sizeof(item_t) + key_size, NULL);
    if (!item)
        return 1;
    item->next = NULL;
    item->value = value;
    item->key_size = key_size;
    memcpy(item->key, key, key_size);
    *i = item;
    ht->count += 1;
    return 0;
}

void *hat_ht_get(hat_ht_t *ht, const void *key, size_t key_size) {
    item_t *item = *find(ht, key, key_size);
    return item ? item->value : NULL;
}

void *hat_ht_pop(hat_ht_t *ht, const void *key, size_t key_size) {
    item_t **i = find(ht, key, key_size);
    item_t *item = *i;
    if (!item)
        return NULL;
    void *value = item->value;
    *i = item->next;
    ht->count -= 1;
    ht->a->alloc(ht->a, 0, item);
    return value;
}

hat_ht_iter_t hat_ht_iter_next(hat_ht_t *ht, hat_ht_iter_t iter) {
    return iter ? iter->next : ht->head;
}

void *hat_ht_iter_key(hat_ht_iter_t iter) { return iter->key; }

size_t hat_ht_iter_key_size(hat_ht_iter_t iter) { return iter->key_size; }

void *hat_ht_iter_value(hat_ht_iter_t iter) { return iter->value; }
