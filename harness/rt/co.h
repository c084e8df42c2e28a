/* C access to the go() family: the macros are used from C code only. */
#ifndef VERIF_CO_H
#define VERIF_CO_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
int co_go(void (*fn)(void*), void *arg);
int co_go_mem(void (*fn)(void*), void *arg, void *mem, size_t len);
int co_bundle_go(int b, void (*fn)(void*), void *arg);
int co_bundle_go_mem(int b, void (*fn)(void*), void *arg, void *mem, size_t len);
struct co_big { int v[9]; };
struct co_ck { int rounds; int (*pause)(void*); void *arg; int bad, done; };
int co_go_many(struct co_ck *ck, int n, unsigned seed, int mode, int bndl, void **mem, size_t len, int *hs);
int co_frames(int depth, unsigned seed, size_t bufsz, int (*pause)(void*), void *arg);
int co_big_frame(size_t sz, unsigned seed, int (*pause)(void*), void *arg);
void co_overflow(volatile uintptr_t *lowest, size_t bytes, size_t step);
#ifdef __cplusplus
}
#endif
#endif
