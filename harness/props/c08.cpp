#include "dill.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <memory>
#include <algorithm>
namespace {
/* A block of user memory inside a larger block filled with a pattern. */
struct Guarded {
    std::unique_ptr<unsigned char[]> raw; size_t pad = 8192, off, len;
    void init(size_t l, size_t mis) { len = l; off = pad + mis; raw.reset(new unsigned char[pad * 2 + len + 64]); for(size_t i = 0; i < pad * 2 + len + 64; ++i) raw[i] = (unsigned char)(i * 13 + 7); }
    unsigned char *p() { return raw.get() + off; }
    void check(const char *what, bool untouched = false) {
        for(size_t i = 0; i < pad * 2 + len + 64; ++i) {
            if(!untouched && i >= off && i < off + len) { i = off + len - 1; if(len) continue; }
            if(raw[i] != (unsigned char)(i * 13 + 7)) fail("%s: byte at offset %ld of a %zu-byte buffer was overwritten", what, (long)i - (long)off, len);
        }
    }
};
struct W { int id, depth; size_t buf; unsigned seed; int bad = 0, finished = 0, h = -1; long pauses = 0, cancelled = 0; bool nest; };
int chan_[2];
std::vector<W> ws; long switches;
int do_pause(void *arg) {
    W *w = (W*)arg; w->pauses++; int rc = 0, e; char c = (char)w->id; 
    int64_t t0 = now();
    errno = 12345;
    switch(draw(6)) {
    case 0: case 1: rc = yield(); break;
    case 2: rc = msleep(t0 + (int)draw(5)); break;
    case 3: rc = chsend(chan_[w->id & 1], &c, 1, t0 + draw(4)); if(rc < 0 && errno == ETIMEDOUT) rc = 0; break;
    case 4: { char d; rc = chrecv(chan_[w->id & 1], &d, 1, t0 + draw(4)); if(rc < 0 && errno == ETIMEDOUT) rc = 0; break; }
    case 5: break;
    }
    e = errno; switches++;
    if(rc < 0) { if(e != ECANCELED) fail("coroutine %d: a blocking call ended with %s", w->id, errname(e)); w->cancelled++; }
    return 0;
}
}
PROP_CASE(C08, frames, "at least 3 coroutines with frames 3 deep switch at least 20 times") {
    CHECK(chmake(chan_) == 0, "chmake");
    int n = 2 + draw(8); ws.resize(n); std::vector<Guarded> mem(n);
    int b = bundle(); CHECK(b >= 0, "bundle"); long deep = 0; int nmem = 0;
    for(int i = 0; i < n; ++i) {
        W &w = ws[i]; w.id = i; w.depth = draw(20); w.buf = draw(chance(1, 4) ? 2000 : 120); w.seed = draw(1u << 30); int mode = draw(4);
        if(mode & 1) { w.buf = draw(100); if(w.depth > 12) w.depth = 12; nmem++;
            size_t len = 40000 + draw(chance(1, 2) ? 17 : 60000), mis = draw(40); mem[i].init(len, mis); note("%d: own memory of %zu bytes, address mod 16 %d", i, len, (int)((uintptr_t)mem[i].p() % 16)); }
        if(w.depth >= 3) deep++;
        note("coroutine %d: depth %d buffer %zu mode %d", i, w.depth, w.buf, mode);
        auto f = [&w] { w.bad = co_frames(w.depth, w.seed, w.buf, do_pause, &w); w.finished = 1; };
        switch(mode) {
        case 0: w.h = go_fn(f); break; case 1: w.h = go_mem_fn(f, mem[i].p(), mem[i].len); break;
        case 2: w.h = bundle_go_fn(b, f); break; case 3: w.h = bundle_go_mem_fn(b, f, mem[i].p(), mem[i].len); break;
        }
        CHECK(w.h >= 0, "launch mode %d failed: %s", mode, errname(errno));
        if(mode & 2) w.h = -1;
    }
    int rounds = draw(60);
    for(int i = 0; i < rounds; ++i) {
        if(chance(1, 2)) yield(); else msleep(now() + draw(4));
        if(chance(1, 12)) { W &w = ws[draw(n)]; if(w.h >= 0) { note("close %d", w.id); CHECK(hclose(w.h) == 0, "hclose"); w.h = -1; CHECK(w.finished, "coroutine %d not finished after hclose", w.id); } }
        for(auto &w : ws) if(w.bad) fail("coroutine %d: locals changed while it was suspended (%d)", w.id, w.bad);
    }
    for(auto &w : ws) if(w.h >= 0) CHECK(hclose(w.h) == 0, "hclose");
    CHECK(hclose(b) == 0, "hclose(bundle)");
    long canc = 0;
    for(auto &w : ws) { CHECK(w.finished, "coroutine %d not finished", w.id); if(w.bad) fail("coroutine %d: locals changed while it was suspended (%d)", w.id, w.bad); canc += w.cancelled; }
    for(auto &m : mem) if(m.raw) m.check("go_mem");
    if(canc) label("cancelled"); if(nmem) label("user memory");
    nontrivial(deep >= 3 && switches >= 20);
}
static int pause_simple(void *) { switches++; if(draw(2)) yield(); else msleep(now() + draw(3)); return 0; }
PROP_CASE(C08, args, "several coroutines with 14 arguments each are suspended at the same time") {
    int n = 1 + draw(8); std::vector<co_ck> ck(n); std::vector<int> hs(n, -1); std::vector<Guarded> mem(n); std::vector<void*> mp(n);
    for(auto &c : ck) { memset(&c, 0, sizeof c); c.rounds = draw(6); c.pause = pause_simple; }
    int mode = draw(4); size_t len = 30000 + draw(5000);
    for(int i = 0; i < n; ++i) if(mode & 1) { mem[i].init(len, draw(64)); mp[i] = mem[i].p(); }
    int b = bundle(); CHECK(b >= 0, "bundle");
    int other = go_fn([] { while(yield() == 0) msleep(now() + 1); });
    unsigned seed = draw(1u << 30);
    note("%d coroutines, mode %d", n, mode);
    int bad = co_go_many(ck.data(), n, seed, mode, b, mp.data(), len, hs.data());
    for(int i = 0; i < n; ++i) CHECK(hs[i] >= 0, "launch failed: %s", errname(errno));
    if(bad) fail("the launching function's locals changed (%d)", bad);
    for(int i = draw(20); i > 0; --i) pause_simple(nullptr);
    if(!(mode & 2)) for(int h : hs) CHECK(hclose(h) == 0, "hclose");
    CHECK(hclose(b) == 0, "hclose"); CHECK(hclose(other) == 0, "hclose");
    for(int i = 0; i < n; ++i) { if(ck[i].bad) fail("coroutine %d received or kept wrong arguments (%d)", i, ck[i].bad); CHECK(ck[i].done, "coroutine %d has not finished", i); }
    for(auto &m : mem) if(m.raw) m.check("go_mem");
    nontrivial(n >= 2 && switches >= 4);
}
PROP_CASE(C08, small, "a buffer too small for a coroutine is passed") {
    int b = bundle(); CHECK(b >= 0, "bundle"); int smalls = 0;
    for(int i = 0; i < 6; ++i) {
        Guarded g; size_t len = chance(2, 3) ? draw(161) : near_size({0, 16, 64, 80, 128}, 160); int mode = draw(2);
        g.init(len, draw(64)); bool ran = false; size_t la = live_allocs();
        errno = 0;
        int rc = mode ? bundle_go_mem_fn(b, [&] { ran = true; }, g.p(), len) : go_mem_fn([&] { ran = true; }, g.p(), len); int e = errno;
        CHECK(rc == -1 && e == ENOMEM, "%s with a %zu-byte buffer: %d %s", mode ? "bundle_go_mem" : "go_mem", len, rc, errname(e));
        CHECK(!ran, "the coroutine ran");
        g.check("refused go_mem", mode == 1); smalls++;
        CHECK(live_allocs() == la, "a refused go_mem keeps memory");
        /* and everything goes on working */
        Guarded ok; size_t l2 = 20000 + draw(64); ok.init(l2, draw(64)); int st = 0;
        int h = mode ? bundle_go_mem_fn(b, [&] { st = 1; yield(); st = 2; }, ok.p(), l2) : go_mem_fn([&] { st = 1; yield(); st = 2; }, ok.p(), l2);
        CHECK(h >= 0, "go_mem: %s", errname(errno)); CHECK(st == 1, "coroutine did not start");
        yield(); CHECK(st == 2, "coroutine did not go on");
        if(!mode) CHECK(hclose(h) == 0, "hclose");
        ok.check("go_mem");
    }
    CHECK(bundle_wait(b, now() + 10) == 0, "bundle_wait: %s", errname(errno));
    CHECK(hclose(b) == 0, "hclose");
    nontrivial(smalls > 0);
}
static int pause_yield(void *) { yield(); return 0; }
/* History that exercises the stack cache: launch and finish many coroutines. */
static void churn(std::vector<int> &keep) {
    int k = draw(4);
    for(int r = 0; r < k; ++r) {
        int n = chance(1, 3) ? 60 + draw(80) : draw(10); std::vector<int> hs;
        for(int i = 0; i < n; ++i) { int h = go_fn([] { while(yield() == 0) {} }); CHECK(h >= 0, "go: %s", errname(errno)); hs.push_back(h); }
        note("churn: %d coroutines", n);
        while(!hs.empty()) { size_t i = draw(hs.size()); int h = hs[i]; hs.erase(hs.begin() + i); if(chance(1, 10)) { keep.push_back(h); continue; } CHECK(hclose(h) == 0, "hclose"); }
    }
}
PROP_CASE(C08, full, "a coroutine uses more than 200 kB of stack while others run") {
    std::vector<int> keep; churn(keep);
    int n = 1 + draw(4); std::vector<int> bad(n, -1), hs; long big = 0;
    for(int i = 0; i < n; ++i) {
        size_t sz = near_size({(size_t)245 * 1024, (size_t)200 * 1024}, 245 * 1024); if(sz > 245 * 1024) sz = 245 * 1024; if(sz > 200 * 1024) big++;
        unsigned seed = draw(1000); note("coroutine using %zu bytes", sz);
        int h = go_fn([&bad, i, sz, seed] { bad[i] = co_big_frame(sz, seed, pause_yield, nullptr); }); CHECK(h >= 0, "go"); hs.push_back(h);
        if(chance(1, 2)) churn(keep);
    }
    for(int h : hs) CHECK(hclose(h) == 0, "hclose");
    for(int i = 0; i < n; ++i) CHECK(bad[i] == 0, bad[i] < 0 ? "coroutine %d did not finish" : "stack of coroutine %d was overwritten", i);
    for(int h : keep) CHECK(hclose(h) == 0, "hclose");
    nontrivial(big > 0);
}
#ifndef VERIF_ASAN
PROP_CASE(C08, overflow, "a coroutine writes below its 256 kB stack with other stacks around") {
    struct Sh { volatile uintptr_t lowest, top; };
    Sh *sh = (Sh*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); CHECK(sh != MAP_FAILED, "mmap");
    std::vector<int> keep; churn(keep);
    int before = draw(6), after = draw(6); bool big = chance(1, 2); int own = draw(3); size_t step = chance(1, 2) ? 64 : 1 + draw(500);
    note("%d stacks before, %d after, kind %d", before, after, own);
    fflush(stdout);
    pid_t pid = fork(); CHECK(pid >= 0, "fork");
    if(pid == 0) {
        signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGABRT, SIG_DFL);
        std::vector<int> hs; int b = bundle();
        for(int i = 0; i < before; ++i) go_fn([] { while(yield() == 0) {} });
        auto f = [&] { volatile char here; sh->top = (uintptr_t)&here; for(int i = 0; i < 3; ++i) yield(); co_overflow(&sh->lowest, (big ? 270 : 262) * 1024, step); _exit(17); };
        if(own == 0) bundle_go_fn(b, f); else go_fn(f);
        for(int i = 0; i < after; ++i) go_fn([] { while(yield() == 0) {} });
        for(int i = 0; i < 10; ++i) yield();
        _exit(18);
    }
    int st; CHECK(waitpid(pid, &st, 0) == pid, "waitpid");
    size_t depth = sh->top - sh->lowest;
    if(!WIFSIGNALED(st)) fail("writing %zu bytes below the start of a 256 kB stack did not fault (status %d)", depth, st);
    CHECK(WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS, "the process ended with signal %d", WTERMSIG(st));
    CHECK(depth <= 256 * 1024, "wrote %zu bytes below the start of the coroutine before the fault", depth);
    CHECK(depth >= 250 * 1024, "faulted after only %zu bytes of stack", depth);
    for(int h : keep) CHECK(hclose(h) == 0, "hclose");
    nontrivial(before + after > 0);
}
#endif
