#include <libdill.h>
#include "co.h"
static coroutine void co_entry(void (*fn)(void*), void *arg) { fn(arg); }
int co_go(void (*fn)(void*), void *arg) { return go(co_entry(fn, arg)); }
int co_go_mem(void (*fn)(void*), void *arg, void *mem, size_t len) {
    return go_mem(co_entry(fn, arg), mem, len); }
int co_bundle_go(int b, void (*fn)(void*), void *arg) {
    return bundle_go(b, co_entry(fn, arg)); }
int co_bundle_go_mem(int b, void (*fn)(void*), void *arg, void *mem, size_t len) {
    return bundle_go_mem(b, co_entry(fn, arg), mem, len); }

/* ---- coroutines with many arguments and deep frames (C08) -------------- */
#include <alloca.h>
#include <string.h>
static int co_cmp(const int *x, const struct co_big *s, double d0, double d1, float f, long long q, unsigned seed) {
    int i, bad = 0;
    for(i = 0; i != 8; ++i) if(x[i] != (int)(seed * (i + 3) + i)) bad |= 1;
    for(i = 0; i != 9; ++i) if(s->v[i] != (int)(seed ^ (i * 77))) bad |= 2;
    if(d0 != seed * 0.5 || d1 != seed * -3.25) bad |= 4;
    if(f != (float)(seed & 0xffff)) bad |= 8;
    if(q != ((long long)seed << 29) + 5) bad |= 16;
    return bad;
}
static coroutine void co_many(struct co_ck *ck, int a, int b, int c, int d, int e, int f, int g, int h,
      double d0, double d1, struct co_big s, float fl, long long q, unsigned seed) {
    int i, bad = 0;
    for(i = 0; i <= ck->rounds; ++i) {
        int x[8] = {a, b, c, d, e, f, g, h};
        bad |= co_cmp(x, &s, d0, d1, fl, q, seed);
        if(bad) ck->bad |= bad;
        if(i < ck->rounds) ck->pause(ck->arg);
    }
    ck->done = 1;
}
int co_go_many(struct co_ck *ck, int n, unsigned seed, int mode, int bndl, void **mem, size_t len, int *hs) {
    int i, k, bad = 0; unsigned sum = 0;
    double acc = 1.0; 
    for(k = 0; k < n; ++k) {
        unsigned sd = seed + k * 1013;
        int a = sd * 3, b = sd * 4 + 1, c = sd * 5 + 2, d = sd * 6 + 3, e = sd * 7 + 4, f = sd * 8 + 5, g = sd * 9 + 6, h = sd * 10 + 7;
        double d0 = sd * 0.5, d1 = sd * -3.25; float fl = (float)(sd & 0xffff); long long q = ((long long)sd << 29) + 5;
        struct co_big s; for(i = 0; i != 9; ++i) s.v[i] = (int)(sd ^ (i * 77));
        acc += d0; sum += sd;
        struct co_ck *cp = &ck[k];
        switch(mode) {
        case 0: hs[k] = go(co_many(cp, a, b, c, d, e, f, g, h, d0, d1, s, fl, q, sd)); break;
        case 1: hs[k] = go_mem(co_many(cp, a, b, c, d, e, f, g, h, d0, d1, s, fl, q, sd), mem[k], len); break;
        case 2: hs[k] = bundle_go(bndl, co_many(cp, a, b, c, d, e, f, g, h, d0, d1, s, fl, q, sd)); break;
        case 3: hs[k] = bundle_go_mem(bndl, co_many(cp, a, b, c, d, e, f, g, h, d0, d1, s, fl, q, sd), mem[k], len); break;
        }
        int x[8] = {a, b, c, d, e, f, g, h};
        bad |= co_cmp(x, &s, d0, d1, fl, q, sd);
    }
    double acc2 = 1.0; unsigned sum2 = 0;
    for(k = 0; k < n; ++k) { acc2 += (unsigned)(seed + k * 1013) * 0.5; sum2 += seed + k * 1013; }
    if(acc != acc2) bad |= 32;
    if(sum != sum2) bad |= 64;
    return bad;
}
__attribute__((noinline)) int co_frames(int depth, unsigned seed, size_t bufsz, int (*pause)(void*), void *arg) {
    volatile unsigned vs = seed;
    unsigned a = vs * 3, b = vs * 5, c = vs * 7, d = vs * 11, e = vs * 13, f = vs * 17;
    double x = vs * 1.5, y = vs * 2.5; long long q = (long long)vs * 0x100000001ll;
    unsigned char *buf = alloca(bufsz + 1); int bad = 0; size_t i;
    for(i = 0; i != bufsz; ++i) buf[i] = (unsigned char)(seed + i * 31);
    if(depth > 0) bad |= co_frames(depth - 1, seed * 1664525u + 1013904223u, bufsz, pause, arg);
    if(a != seed * 3 || b != seed * 5 || c != seed * 7 || d != seed * 11 || e != seed * 13 || f != seed * 17) bad |= 1;
    pause(arg);
    a += 1; b += 2; x += 1;
    if(a != seed * 3 + 1 || b != seed * 5 + 2 || c != seed * 7 || d != seed * 11 || e != seed * 13 || f != seed * 17) bad |= 1;
    if(x != seed * 1.5 + 1 || y != seed * 2.5) bad |= 2;
    if(q != (long long)seed * 0x100000001ll) bad |= 4;
    if(vs != seed) bad |= 8;
    for(i = 0; i != bufsz; ++i) if(buf[i] != (unsigned char)(seed + i * 31)) bad |= 16;
    return bad;
}
/* Use `sz` bytes of stack in one frame. */
__attribute__((noinline)) int co_big_frame(size_t sz, unsigned seed, int (*pause)(void*), void *arg) {
    volatile unsigned char *p = alloca(sz); size_t i; int bad = 0;
    for(i = sz; i-- > 0;) p[i] = (unsigned char)(seed + i * 7 + (i >> 8));
    pause(arg);
    for(i = 0; i != sz; ++i) if(p[i] != (unsigned char)(seed + i * 7 + (i >> 8))) bad = 1;
    return bad;
}
/* Write downwards from here, recording the lowest address written. */
__attribute__((noinline)) void co_overflow(volatile uintptr_t *lowest, size_t bytes, size_t step) {
    volatile unsigned char here; volatile unsigned char *p = &here; uintptr_t a = (uintptr_t)&here; size_t i;
    a -= 512; /* beyond this frame */
    for(i = 0; i < bytes; i += step) { *(volatile unsigned char*)(a - i) = 0x5a; *lowest = a - i; }
    (void)p;
}
