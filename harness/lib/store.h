/* Caller-supplied storage: of the exact size, between canaries, checked to be left alone once everything is closed. */
#ifndef VERIF_STORE_H
#define VERIF_STORE_H
#include <cstddef>
void *store_new(size_t n);
template<class T> T *store(void) { return (T*)store_new(sizeof(T)); }
void store_check(void);         /* what is around the storages is intact; so are the ones that are dead */
void store_dead(void);          /* nothing uses any of them any more */
#endif
