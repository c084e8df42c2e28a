#include "crowd.h"
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <libdill.h>
typedef std::string S; typedef int64_t i64;
namespace {
enum { SEND, RECV, CHOOSE, SLEEP, YIELDER };
struct W;
struct Cl { int c, d; bool snd; S buf; };
struct W { int id, kind, h = -1, b = -1, steps = 0, step = 0; i64 D = -1; std::vector<Cl> cl; std::vector<struct chclause> raw; bool waiting = false, over = false; int xrc = 0, xerr = 0; };
struct Dir { bool senders, dead = false; std::list<std::pair<W*, int>> q; };
struct Ch { int h[2]; size_t len; Dir d[2]; };
struct Ev { int id, rc, err; bool operator==(const Ev &o) const { return id == o.id && rc == o.rc && err == o.err; } };
struct Crowd {
    const CrowdProfile &p; CrowdStats st; std::vector<std::unique_ptr<W>> ws; std::vector<Ch> chs; std::vector<Ev> log, want; size_t seen = 0;
    std::deque<W*> ready; /* NULL: main */ W *closing = nullptr; int bh[2], members[2] = {0, 0}, bwaiting = -1; std::set<i64> used; std::set<std::pair<i64, W*>> timers; size_t waiting = 0; bool mainready = false;
    Crowd(const CrowdProfile &p) : p(p) {}
    void over(W *w) { want.push_back({w->id, w->xrc, w->xerr}); w->over = true; if(closing == w) { closing = nullptr; ready.push_back(nullptr); } if(w->b >= 0 && --members[w->b] == 0 && bwaiting == w->b) { bwaiting = -1; ready.push_back(nullptr); mainready = true; } }
    void wake(W *w, int rc, int err) { w->xrc = rc; w->xerr = err; w->waiting = false; waiting--; for(auto &c : w->cl) chs[c.c].d[c.d].q.remove_if([&](auto &x) { return x.first == w; }); if(w->D >= 0) timers.erase({w->D, w}); ready.push_back(w); }
    bool pop() { W *w = ready.front(); ready.pop_front(); if(!w) return true; if(w->kind == YIELDER && w->step < w->steps) { want.push_back({w->id, -100 - w->step++, 0}); ready.push_back(w); } else over(w); return false; }
    void run() { for(;;) { if(ready.empty()) fail("harness: main never runs"); if(pop()) return; } }
    void compare(const char *what) {
        if(verbose()) while(seen < log.size()) { note("   %d: %d %s", log[seen].id, log[seen].rc, errname(log[seen].err)); if(seen >= want.size() || !(log[seen] == want[seen])) break; ++seen; }
        for(size_t i = 0; i < std::min(log.size(), want.size()); ++i) if(!(log[i] == want[i])) fail("after %s: coroutine %d comes back with %d %s; expected now is %d with %d %s", what, log[i].id, log[i].rc, errname(log[i].err), want[i].id, want[i].rc, errname(want[i].err));
        if(log.size() > want.size()) fail("after %s: coroutine %d comes back with %d %s, none should", what, log[want.size()].id, log[want.size()].rc, errname(log[want.size()].err));
        if(log.size() < want.size()) fail("after %s: coroutine %d doesn't come back (%d %s)", what, want[log.size()].id, want[log.size()].rc, errname(want[log.size()].err)); log.clear(); want.clear(); seen = 0; }
    bool big = false; size_t other(size_t len, int n) { if(!chance(1, n)) return len; if(big && chance(1, 2)) return len >= 65536 ? len - 65536 : len + 65536; return chance(1, 4) ? len + 256 : len + 1 + draw(3); }
    i64 fresh(i64 span) { for(int i = 0; i < 50; ++i) { i64 d = (now() | 1) + 2 * draw(span); if(d > now() && used.insert(d).second) return d; } i64 d = used.empty() ? now() + 1 : *used.rbegin() + 2; d |= 1; used.insert(d); return d; }
    void body(W *w) {
        int rc = 0; errno = 0;
        switch(w->kind) {
        case SEND: { Ch &c = chs[w->cl[0].c]; rc = chsend(c.h[w->cl[0].d], w->cl[0].buf.empty() ? NULL : w->cl[0].buf.data(), w->cl[0].buf.size(), w->D); break; }
        case RECV: { Ch &c = chs[w->cl[0].c]; rc = chrecv(c.h[!w->cl[0].d], w->cl[0].buf.empty() ? NULL : &w->cl[0].buf[0], w->cl[0].buf.size(), w->D); break; }
        case CHOOSE: rc = choose(w->raw.data(), w->raw.size(), w->D); if(rc >= 0 && errno == 0) { log.push_back({w->id, rc, 0}); return; } break;
        case SLEEP: rc = msleep(w->D); break;
        default: for(int k = 0; k < w->steps; ++k) { log.push_back({w->id, -100 - k, 0}); rc = yield(); if(rc) break; } }
        int e = errno; log.push_back({w->id, rc, rc < 0 || w->kind == CHOOSE ? e : 0}); }
    void add(void) {
        ws.emplace_back(new W); W *w = ws.back().get(); w->id = (int)ws.size() - 1; w->kind = weighted({(uint32_t)p.send, (uint32_t)p.recv, (uint32_t)p.choose, (uint32_t)p.sleep, (uint32_t)p.yielder});
        auto clause = [&](bool snd) { Cl c; c.c = draw(chs.size()); c.d = draw(2); c.snd = snd; Ch &ch = chs[c.c]; size_t len = other(ch.len, 30); c.buf = S(len, (char)0xEE); if(snd) for(size_t i = 0; i < len; ++i) c.buf[i] = (char)(w->id * 7 + w->cl.size() * 3 + i); w->cl.push_back(c); };
        if(w->kind == SEND || w->kind == RECV) { int k = 0; do { w->cl.clear(); clause(w->kind == SEND); } while(chs[w->cl[0].c].d[w->cl[0].d].senders != (w->kind == SEND) && ++k < 20); if(k == 20) { w->cl.clear(); w->kind = SLEEP; } }
        if(w->kind == CHOOSE) { int n = 1 + (chance(1, 4) ? draw(p.clauses) : draw(std::min(p.clauses, 6))); for(int i = 0; i < n; ++i) { clause(true); Cl &c = w->cl.back(); if(!chs[c.c].d[c.d].senders) { c.snd = false; c.buf.assign(c.buf.size(), (char)0xEE); } } for(auto &c : w->cl) w->raw.push_back({c.snd ? CHSEND : CHRECV, chs[c.c].h[c.snd ? c.d : !c.d], c.buf.empty() ? NULL : &c.buf[0], c.buf.size()}); if(n > 60) st.wide++; }
        if(w->kind == SLEEP || draw(100) < (uint32_t)p.deadline_pct) w->D = fresh(2000); if(w->kind == YIELDER) { w->steps = 1 + draw(5); w->D = -1; } if(w->kind == SLEEP && chance(1, 12)) w->D = -1;
        w->b = draw(100) < (uint32_t)p.bundle_pct ? (int)draw(2) : -1; note("launch %d: kind %d, %zu clauses, deadline %lld, bundle %d", w->id, w->kind, w->cl.size(), (long long)w->D, w->b);
        /* the model: main is ready again, the new coroutine runs until it waits */
        ready.push_back(nullptr); if(w->b >= 0) members[w->b]++; int dead = -1; for(size_t i = 0; i < w->cl.size() && dead < 0; ++i) if(chs[w->cl[i].c].d[w->cl[i].d].dead) dead = i;
        if(w->kind == YIELDER) { want.push_back({w->id, -100, 0}); w->step = 1; ready.push_back(w); st.yields++; }
        else if(dead >= 0) { w->xrc = w->kind == CHOOSE ? dead : -1; w->xerr = EPIPE; over(w); }
        else { w->waiting = true; waiting++; for(size_t i = 0; i < w->cl.size(); ++i) chs[w->cl[i].c].d[w->cl[i].d].q.push_back({w, (int)i}); if(w->D >= 0) timers.insert({w->D, w}); }
        st.most_waiting = std::max(st.most_waiting, waiting); run();
        int rc = w->b >= 0 ? bundle_go_fn(bh[w->b], [this, w] { body(w); }) : go_fn([this, w] { body(w); }); CHECK(rc >= 0, "launch: %s", errname(errno)); w->h = w->b >= 0 ? -1 : rc; }
    void xfer(void) {
        int c = draw(chs.size()), d = draw(2); Ch &ch = chs[c]; Dir &di = ch.d[d]; bool snd = !di.senders; size_t len = other(ch.len, 40); S buf(len, (char)(snd ? draw(256) : 0xEE)), orig = buf; int xrc = 0, xerr = 0; W *w = nullptr; int k = 0;
        if(di.dead) xrc = -1, xerr = EPIPE; else if(di.q.empty()) xrc = -1, xerr = ETIMEDOUT; else { w = di.q.front().first; k = di.q.front().second; if(w->cl[k].buf.size() != len) { xrc = -1; xerr = EMSGSIZE; } wake(w, w->kind == CHOOSE ? k : xrc, xerr); }
        note("%s on channel %d direction %d: %d %s", snd ? "send" : "receive", c, d, xrc, errname(xerr)); S before = w ? w->cl[k].buf : S(); std::vector<S> others; if(w) for(auto &x : w->cl) others.push_back(x.buf);
        errno = 0; int rc; if(chance(1, 2)) rc = snd ? chsend(ch.h[d], len ? buf.data() : NULL, len, 0) : chrecv(ch.h[!d], len ? &buf[0] : NULL, len, 0); else { struct chclause cl = {snd ? CHSEND : CHRECV, ch.h[snd ? d : !d], len ? &buf[0] : NULL, len}; rc = choose(&cl, 1, 0); if(rc == 0 && errno) rc = -1; } int e = errno;
        CHECK(rc == xrc && (rc == 0 || e == xerr), "%s on channel %d: %d %s, expected %d %s", snd ? "send" : "receive", c, rc, rc ? errname(e) : "", xrc, errname(xerr));
        if(w && !xrc) { st.transfers++; if(w->kind == CHOOSE) st.chosen++; if(w->cl[k].buf != (snd ? orig : before) || (!snd && buf != before)) fail("coroutine %d: the message is damaged", w->id); others[k] = w->cl[k].buf; } else if(!snd && buf != orig) fail("a receive that failed has changed the buffer");
        if(w) for(size_t i = 0; i < others.size(); ++i) if(w->cl[i].buf != others[i]) fail("coroutine %d: the buffer of clause %zu has changed", w->id, i); }
    void close(W *w) {
        note("hclose of %d", w->id); if(!w->over) { closing = w; if(w->waiting) { wake(w, -1, ECANCELED); st.cancels++; } run(); } CHECK(hclose(w->h) == 0, "hclose: %s", errname(errno)); w->h = -1; }
    void sleep(int b) {   /* b: msleep if negative, otherwise bundle_wait */
        i64 t0 = now(), T = (t0 & ~1LL) + 2 + 2 * draw(chance(1, 4) ? 2500 : 60); int xrc = 0; if(b >= 0 && chance(1, 8)) T = (t0 & ~1LL); bool out = false; bwaiting = b; mainready = false; note("%s until %+lld", b < 0 ? "msleep" : "bundle_wait", (long long)(T - t0)); i64 t = t0;
        if(b >= 0 && !members[b]) bwaiting = -1; else if(T <= t0) { /* everything ready runs once, then the poll */ out = true; }
        if(b >= 0 && bwaiting < 0) {} else if(out) { bwaiting = -1; CHECK(true, ""); T = 0; xrc = -1; }
        else for(;;) { bool back = false; while(!ready.empty()) if(pop()) { back = true; break; } if(back) { break; } if(!timers.empty() && timers.begin()->first < T) { t = timers.begin()->first; W *w = timers.begin()->second; st.timeouts++; wake(w, w->kind == SLEEP ? 0 : -1, w->kind == SLEEP ? 0 : ETIMEDOUT); } else { t = T; xrc = b >= 0 ? -1 : 0; bwaiting = -1; break; } }
        if(b >= 0 && out) return;   /* how a wait with an expired deadline is scheduled is checked elsewhere */
        int rc = b < 0 ? msleep(T) : bundle_wait(bh[b], T); int e = errno; CHECK(rc == xrc && (!rc || e == ETIMEDOUT), "%s: %d %s, expected %d", b < 0 ? "msleep" : "bundle_wait", rc, rc ? errname(e) : "", xrc); CHECK(now() == t, "%s returns at %+lld instead of %+lld", b < 0 ? "msleep" : "bundle_wait", (long long)(now() - t0), (long long)(t - t0)); if(b >= 0) st.bwaits++; }
    void done(void) {
        int c = draw(chs.size()), d = draw(2); Dir &di = chs[c].d[d]; note("chdone on channel %d direction %d", c, d); bool was = di.dead; di.dead = true; st.dones++; while(!di.q.empty()) { W *w = di.q.front().first; int k = di.q.front().second; wake(w, w->kind == CHOOSE ? k : -1, EPIPE); }
        errno = 0; int rc = chdone(chs[c].h[d]); CHECK(was ? rc == -1 && errno == EPIPE : rc == 0, "chdone: %d %s", rc, errname(errno)); }
    void play(void) {
        big = p.clauses <= 8 && chance(1, 8); int n = 1 + draw(p.chans); for(int i = 0; i < n; ++i) { Ch c; CHECK(chmake(c.h) == 0, "chmake"); c.len = chance(1, 4) ? draw(3) : draw(24); if(big && chance(1, 2)) c.len += 65536; for(auto &d : c.d) d.senders = chance(1, 2); chs.push_back(c); } for(int &b : bh) { b = bundle(); CHECK(b >= 0, "bundle"); }
        int ops = 5 + draw(60), first = draw(big ? 60 : p.most); if(big) label("long messages"); while(first--) add(); compare("launching");
        while(ops--) {
            const char *what = ""; int rep = 1 + (chance(1, 4) ? draw(60) : draw(4)); int op = weighted({(uint32_t)p.xfer, (uint32_t)p.cancel, (uint32_t)p.time, (uint32_t)p.yield, (uint32_t)p.done, (uint32_t)p.bwait, (uint32_t)p.launch});
            switch(op) {
            case 0: what = "messages"; while(rep--) xfer(); break;
            case 1: what = "hclose"; while(rep--) { std::vector<W*> v; for(auto &w : ws) if(w->h >= 0 && w->kind != YIELDER) v.push_back(w.get()); if(!v.empty()) close(v[draw(v.size())]); } break;
            case 2: what = "msleep"; sleep(-1); break;
            case 3: what = "yield"; ready.push_back(nullptr); run(); CHECK(yield() == 0, "yield"); break;
            case 4: what = "chdone"; if(chance(1, 3)) done(); break;
            case 5: what = "bundle_wait"; sleep(draw(2)); break;
            default: what = "launching"; while(rep--) add(); }
            if(ready.empty() || op) { /* those woken by messages have not run yet */ } compare(what); }
        while(!ready.empty()) { ready.push_back(nullptr); run(); CHECK(yield() == 0, "yield"); compare("yield"); }
        std::vector<W*> v; for(auto &w : ws) if(w->h >= 0) v.push_back(w.get()); for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[draw(i)]); for(W *w : v) close(w); compare("hclose of all");
        std::vector<int> left; for(auto &w : ws) if(!w->over) { CHECK(w->b >= 0, "harness"); left.push_back(w->id); } for(int b : bh) CHECK(hclose(b) == 0, "hclose of a bundle"); std::vector<int> got; for(auto &e : log) { CHECK(e.rc == -1 && e.err == ECANCELED, "coroutine %d, cancelled, comes back with %d %s", e.id, e.rc, errname(e.err)); got.push_back(e.id); } std::sort(got.begin(), got.end()); CHECK(got == left, "%zu coroutines instead of %zu come back when the bundles are closed", got.size(), left.size());
        for(auto &c : chs) CHECK(hclose(c.h[0]) == 0 && hclose(c.h[1]) == 0, "hclose"); }
};
}
CrowdStats crowd(const CrowdProfile &p) { Crowd c(p); c.play(); if(c.st.most_waiting >= 256) label("256 waiting"); if(c.st.wide) label("over 60 clauses"); return c.st; }
