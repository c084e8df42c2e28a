#include "core_model.h"
#include "crowd.h"
#include "dill.h"
#include <algorithm>
#include <memory>
#define W(f, v) p.w_##f = v
PROP_CASE(C06, prog, "a bundle_wait that blocked, and one that timed out or was woken by the last member") {
    Profile p; W(send, 2); W(recv, 2); W(choose, 1); W(done, 0); W(yield, 4); W(sleep, 5); W(go, 3); W(bgo, 7); W(bwait, 8); W(hclose, 1); W(pread, 0); W(pwrite, 0); W(bnew, 2);
    p.max_co = 14; p.max_ops = 8; p.main_ops = 16; p.inf_pct = 25; p.tie_pct = 50; p.jitter = true;
    Stats s = run_program(p);
    if(s.bwait_timeout) label("wait timed out"); if(s.bwait_block > s.bwait_timeout) label("wait satisfied or cancelled"); if(s.ties) label("equal deadlines");
    nontrivial(s.bwait_block >= 1 && s.gos >= 2);
}
/* Members with known life spans, launches that fail in between, any number of waiters: every wait has one right moment to return. */
namespace {
struct Bun { int h = -1; bool one = false; std::vector<int64_t> ends; int alive(int64_t t) const { int n = 0; for(auto e : ends) if(e > t) n++; return n; } int64_t last() const { int64_t m = 0; for(auto e : ends) m = std::max(m, e); return m; } };
struct bundle_storage_box { struct bundle_storage s; };
}
PROP_CASE(C06, faults, "a wait blocks on a bundle for which a launch has failed") {
    int nb = 1 + draw(3); std::vector<Bun> bs(nb); std::vector<std::unique_ptr<bundle_storage_box>> st; std::vector<std::unique_ptr<char[]>> mems; long failed = 0, blocked = 0, running = 0, ended = 0; std::vector<char> fb(nb, 0); bool cancelled_now = false;
    for(auto &b : bs) { if(chance(1, 3)) { st.emplace_back(new bundle_storage_box); b.h = bundle_mem(&st.back()->s); } else b.h = bundle(); CHECK(b.h >= 0, "bundle"); }
    auto member = [&](int64_t d) { return [&, end = now() + d, d] { running++; if(d) { int rc = msleep(end); if(rc == 0) CHECK(now() == end, "a member slept until %lld instead of %lld", (long long)now(), (long long)end); else CHECK(cancelled_now && errno == ECANCELED, "msleep: %s", errname(errno)); } running--; ended++; }; };
    auto launch = [&](Bun &b, int64_t d) {
        int how = weighted({4, 2, 2, 1, 1}); int rc, e; char *m = nullptr;
        switch(how) {
        case 0: rc = bundle_go_fn(b.h, member(d)); CHECK(rc == 0, "bundle_go: %s", errname(errno)); note("  member until +%lld", (long long)d); break;
        case 1: mems.emplace_back(m = new char[65536]); rc = bundle_go_mem_fn(b.h, member(d), m, 65536); CHECK(rc == 0, "bundle_go_mem: %s", errname(errno)); note("  member until +%lld", (long long)d); break;
        case 2: fi.alloc_fail_at = 0; rc = bundle_go_fn(b.h, member(d)); e = errno; if(rc < 0) CHECK(e == ENOMEM, "bundle_go without memory: %s", errname(e)); fi.alloc_fail_at = -1; note("  member until +%lld without memory: %d", (long long)d, rc); if(rc < 0) { failed++; fb[&b - bs.data()] = 1; label("no memory"); return; } break;
        case 3: { int h[2]; CHECK(chmake(h) == 0, "chmake"); rc = bundle_go_fn(h[0], member(d)); CHECK(rc == -1 && errno == ENOTSUP, "bundle_go on a channel: %d %s", rc, errname(errno)); hclose(h[0]); hclose(h[1]); rc = bundle_go_fn(h[0], member(d)); CHECK(rc == -1 && errno == EBADF, "bundle_go on a closed handle: %d %s", rc, errname(errno)); return; }
        default: { /* a launch by a coroutine that is being cancelled */ bool done = false; int c = go_fn([&] { msleep(-1); int rc = bundle_go_fn(b.h, member(d)); CHECK(rc == -1 && errno == ECANCELED, "bundle_go in a cancelled coroutine: %d %s", rc, errname(errno)); done = true; }); CHECK(c >= 0, "go"); CHECK(hclose(c) == 0 && done, "hclose"); failed++; fb[&b - bs.data()] = 1; label("cancelled launcher"); return; } }
        if(d) b.ends.push_back(now() + d); else b.ends.push_back(now()); };
    auto dur = [&]() -> int64_t { return chance(1, 5) ? 0 : 1 + draw(60); };
    int ops = 3 + draw(14);
    while(ops--) {
        int k = draw(nb); Bun &b = bs[k];
        switch(weighted({5, 4, 2, 1, 2})) {
        case 0: { int n = 1 + draw(chance(1, 6) ? 80 : 5); note("launch %d into bundle %d", n, k); while(n--) launch(b, dur()); yield(); break; }
        case 1: { int64_t t0 = now(), dl = chance(1, 4) ? (int64_t)-1 : chance(1, 5) ? t0 - draw(2) : t0 + draw(70), last = b.last(); int al = b.alive(t0); note("wait on bundle %d, deadline %lld, %d alive until %lld", k, (long long)(dl < 0 ? -1 : dl - t0), al, (long long)(last - t0)); int rc = bundle_wait(b.h, dl), e = errno; int64_t t = now() - t0;
            if(!al) { CHECK(rc == 0 && t == 0, "bundle_wait on an empty bundle: %d %s after %lld", rc, errname(e), (long long)t); break; }
            if(fb[k]) blocked++;
            int64_t w = last - t0, l = dl < 0 ? -1 : std::max<int64_t>(dl - t0, 0);
            if(l < 0 || w < l) CHECK(rc == 0 && t == w, "bundle_wait: %d %s after %lld ms, the last member has ended after %lld", rc, errname(e), (long long)t, (long long)w);
            else if(l < w) CHECK(rc == -1 && e == ETIMEDOUT && t == l, "bundle_wait: %d %s after %lld ms, the deadline is after %lld and the last member ends after %lld", rc, errname(e), (long long)t, (long long)l, (long long)w);
            else CHECK(t == w && (rc == 0 || e == ETIMEDOUT), "bundle_wait: %d %s after %lld ms", rc, errname(e), (long long)t);
            break; }
        case 2: { /* many waiters */ int n = 2 + draw(3); int64_t t0 = now(), last = b.last(); int al = b.alive(t0); note("%d coroutines wait on bundle %d, %d alive", n, k, al); std::vector<int> cs; int done = 0;
            for(int i = 0; i < n; ++i) { int64_t l = chance(1, 2) ? -1 : draw(70); int c = go_fn([&, l] { int rc = bundle_wait(b.h, l < 0 ? -1 : t0 + l), e = errno; int64_t t = now() - t0, w = al ? last - t0 : 0; if(l >= 0 && l < w) CHECK(rc == -1 && e == ETIMEDOUT && t == l, "one of many waits: %d %s after %lld instead of %lld", rc, errname(e), (long long)t, (long long)l); else if(l == w && al) CHECK(t == w, "one of many waits returns after %lld instead of %lld", (long long)t, (long long)w); else CHECK(rc == 0 && t == w, "one of many waits: %d %s after %lld instead of %lld", rc, errname(e), (long long)t, (long long)w); done++; }); CHECK(c >= 0, "go"); cs.push_back(c); }
            msleep(t0 + 200); CHECK(done == n, "%d of %d waits have not ended", n - done, n); for(int c : cs) hclose(c); if(al && fb[k]) blocked++; label("many waiters"); break; }
        case 3: msleep(now() + draw(40)); break;
        case 4: { /* a member launches others while somebody waits */ int64_t t0 = now(), d1 = 1 + draw(20), d2 = draw(20), d3 = draw(30); bool nomem = chance(1, 3); int64_t last = std::max(b.last(), t0 + d1 + d2 + d3); note("a member of bundle %d launches another after +%lld", k, (long long)d1);
            auto body = [&, d1, d2, d3, t0] { msleep(t0 + d1); if(nomem) { fi.alloc_fail_at = 0; int rc = bundle_go_fn(b.h, [] {}); CHECK(rc == 0 || errno == ENOMEM, "bundle_go"); fi.alloc_fail_at = -1; } int rc = bundle_go_fn(b.h, [t0, d1, d2, d3] { msleep(t0 + d1 + d2 + d3); }); CHECK(rc == 0, "bundle_go by a member: %s", errname(errno)); msleep(t0 + d1 + d2); }; 
            CHECK(bundle_go_fn(b.h, body) == 0, "bundle_go"); b.ends.push_back(last); int rc = bundle_wait(b.h, -1); CHECK(rc == 0 && now() == last, "bundle_wait while members launch others: %d after %lld instead of %lld", rc, (long long)(now() - t0), (long long)(last - t0)); label("launched by a member"); break; } }
    }
    /* the rest is cancelled */
    cancelled_now = true; for(int i = 0; i < nb; ++i) { int64_t t0 = now(); CHECK(hclose(bs[i].h) == 0, "hclose"); CHECK(now() == t0, "hclose took %lld ms", (long long)(now() - t0)); }
    CHECK(running == 0, "%ld coroutines still run after their bundles have been closed", running);
    if(failed) label("failed launch"); nontrivial(failed && blocked);
}
PROP_CASE(C06, crowd, "at least 50 coroutines waited at the same time, at least one bundle_wait") { CrowdProfile p; p.bundle_pct = 95; p.bwait = 12; p.sleep = 6; p.deadline_pct = 95; p.most = 900; CrowdStats s = crowd(p); nontrivial(s.most_waiting >= 50 && s.bwaits); }
