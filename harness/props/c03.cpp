#include "core_model.h"
#include "crowd.h"
#include <libdill.h>
#include <unistd.h>
#include <fcntl.h>
#define W(f, v) p.w_##f = v
PROP_CASE(C03, prog, "at least 4 launches or yields and at some moment at least 3 coroutines ready") {
    Profile p; W(send, 3); W(recv, 3); W(choose, 1); W(done, 1); W(yield, 9); W(sleep, 2); W(go, 5); W(bgo, 4); W(bwait, 1); W(hclose, 1); W(pread, 2); W(pwrite, 2);
    p.max_co = 14; p.max_ops = 12; p.jitter = true; p.eintr = true;
    Stats s = run_program(p);
    if(s.yields > 5) label("6+ yields"); if(s.maxready > 5) label("6+ ready at once"); if(s.fdwaits) label("fd waits"); if(s.ties) label("equal deadlines");
    nontrivial(s.gos + s.yields >= 4 && s.maxready >= 3);
}
/* Coroutines that only yield, each slice taking some CPU time, next to timers and descriptors. */
PROP_CASE(C03, starve, "busy yielding coroutines together with a timer or descriptor that becomes ready meanwhile") {
    int busy = draw(6); bool sleeps = busy && chance(1, 3); int64_t slice = 1 + draw(60);
    bool stop = false, all = false; std::vector<int> hs; long rounds = 0;
    std::vector<long> cnt(busy, 0);
    struct W { bool fd; int64_t due, seen; int p[2]; };
    int nw = 1 + draw(4); std::vector<W> ws(nw); int64_t t0 = vt_now();
    for(int i = 0; i < nw; ++i) {
        W &w = ws[i]; w.fd = chance(1, 2); w.due = t0 + draw(4000); w.seen = -1;
        if(w.fd && pipe2(w.p, O_NONBLOCK)) inconclusive("pipe");
        note("%s due +%lld", w.fd ? "fd" : "timer", (long long)(w.due - t0));
        hs.push_back(go_fn([&w]() {
            int rc = w.fd ? fdin(w.p[0], -1) : msleep(w.due);
            if(rc == 0) w.seen = vt_now();
        }));
        CHECK(hs.back() >= 0, "go");
    }
    note("busy %d slice %lld%s", busy, (long long)slice, sleeps ? ", the first coroutine sleeps" : ""); int64_t limit = t0 + 7000;
    auto feed = [&] { for(auto &w : ws) if(w.fd && w.due >= 0 && vt_now() >= w.due) { if(write(w.p[1], "x", 1) == 1) { w.due = -vt_now(); } } };
    for(int i = 0; i < busy; ++i) hs.push_back(go_fn([&, i]() {
        while(!stop) {
            vt_advance(slice); if(all) cnt[i]++;
            feed(); CHECK(vt_now() < limit + 3000, "the sleep of the first coroutine never ends");
            /* every runnable coroutine gets one slice per round */
            for(int k = 0; k < busy; ++k) CHECK(cnt[k] >= cnt[i] - 1, "coroutine %d got %ld time slices while %d got %ld", i, cnt[i], k, cnt[k]);
            if(yield() != 0) break;
        }
    }));
    all = true;
    if(sleeps) { CHECK(msleep(limit) == 0, "msleep: %s", errname(errno)); CHECK(vt_now() >= limit && vt_now() <= limit + 1050 + 2 * slice * (busy + 2), "msleep until +7000 ended at +%lld", (long long)(vt_now() - t0)); rounds = 3; }
    while(vt_now() < limit) { vt_advance(slice); rounds++; feed(); if(yield() != 0) fail("yield failed: %s", errname(errno)); }
    for(auto &w : ws) {
        int64_t due = w.due < 0 ? -w.due : w.due;
        CHECK(w.seen >= 0, "%s due at +%lld was never noticed in %lld ms although coroutines kept yielding", w.fd ? "descriptor" : "timer", (long long)(due - t0), (long long)(limit - t0));
        CHECK(w.seen >= due, "%s noticed before it was due", w.fd ? "descriptor" : "timer");
        int64_t lim = 1000 + 2 * slice * (busy + 2);
        CHECK(w.seen - due <= lim + 50, "%s due at +%lld noticed only %lld ms later (busy %d, slice %lld)", w.fd ? "descriptor" : "timer", (long long)(due - t0), (long long)(w.seen - due), busy, (long long)slice);
    }
    stop = true;
    for(int h : hs) CHECK(hclose(h) == 0, "hclose");
    nontrivial(rounds >= 3);
}
PROP_CASE(C03, crowd, "at least 50 coroutines waited or yielded at the same time") { CrowdProfile p; p.yielder = 8; p.yield = 8; p.launch = 4; CrowdStats s = crowd(p); nontrivial(s.most_waiting + s.yields >= 50); }
