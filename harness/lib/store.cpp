#include "store.h"
#include "../rt/rt.h"
#include <vector>
#include <cstring>
namespace { 
#ifdef VERIF_ASAN
const size_t PAD = 0;   /* the sanitizer watches the surroundings */
#else
const size_t PAD = 64;
#endif
 struct Blk { unsigned char *p; size_t n; bool dead; }; std::vector<Blk> &blks() { static thread_local auto *v = new std::vector<Blk>; return *v; } }
void *store_new(size_t n) { unsigned char *p = (unsigned char*)::operator new(n + 2 * PAD); memset(p, 0x3C, n + 2 * PAD); memset(p + PAD, 0xAA, n); blks().push_back({p, n, false}); return p + PAD; }
void store_check(void) {
    for(auto &b : blks()) { for(size_t i = 0; i < PAD; ++i) { if(b.p[i] != 0x3C) fail("the %zu-byte storage supplied by the caller: byte %d before it was written", b.n, (int)(PAD - i)); if(b.p[PAD + b.n + i] != 0x3C) fail("the %zu-byte storage supplied by the caller: byte %zu after it was written", b.n, i); }
        if(b.dead) for(size_t i = 0; i < b.n; ++i) if(b.p[PAD + i] != 0x5C) fail("the %zu-byte storage supplied by the caller was written after the object had been closed", b.n); } }
void store_dead(void) { for(auto &b : blks()) { b.dead = true; memset(b.p + PAD, 0x5C, b.n); } }
