#include "core_model.h"
#include "crowd.h"
#include "zoo.h"
#include "tls_keys.h"
#include <libdill.h>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#define W(f, v) p.w_##f = v
static TlsEnv tls_env;
PROP_CASE(C04, prog, "at least 4 expired deadlines, and equal deadlines, an infinite or far deadline, or late or interrupted polls") {
    Profile p; W(send, 3); W(recv, 3); W(choose, 2); W(done, 0); W(yield, 1); W(sleep, 9); W(go, 5); W(bgo, 3); W(bwait, 2); W(hclose, 1); W(pread, 3); W(pwrite, 1);
    p.max_co = 12; p.max_ops = 14; p.main_ops = 12; p.jitter = true; p.eintr = true; p.far_pct = 6; p.inf_pct = 10; p.tie_pct = 40; p.past_pct = 8;
    Stats s = run_program(p);
    if(s.ties) label("equal deadlines"); if(s.far) label("far deadline"); if(vt.jitter_late) label("late polls"); if(vt.eintr_pct) label("interrupted polls");
    if(s.fdwaits) label("fd waits");
    nontrivial(s.timeouts >= 4 && (s.ties || s.far || vt.jitter_late || vt.eintr_pct));
}
/* Many deadlines pass while other coroutines keep the processor busy. */
PROP_CASE(C04, busy, "at least 3 deadlines passed between two looks of the event loop") {
    int n = 2 + draw(30), nb = 1 + draw(3); int64_t slice = 1 + draw(chance(1, 3) ? 400 : 40), t0 = now(), span = 1 + draw(chance(1, 2) ? 100 : 4000); bool stop = false; int ch[2], p[2], b = bundle(); CHECK(chmake(ch) == 0 && b >= 0 && pipe2(p, O_NONBLOCK) == 0, "chmake"); CHECK(bundle_go_fn(b, [] { msleep(-1); }) == 0, "bundle_go");
    struct Sl { int kind; int64_t dl, seen = -1; }; std::vector<Sl> v(n); std::vector<int> order, hs;
    for(int i = 0; i < n; ++i) { Sl &s = v[i]; s.kind = draw(5); if(s.kind == 4 && i) s.kind = 0; s.dl = t0 + draw(span); }
    for(int i = 0; i < n; ++i) hs.push_back(go_fn([&, i] { Sl &s = v[i]; char c; int rc, want = ETIMEDOUT; errno = 0; switch(s.kind) { case 0: rc = msleep(s.dl); want = 0; break; case 1: rc = chrecv(ch[0], &c, 1, s.dl); break; case 2: { struct chclause cl[2] = {{CHRECV, ch[0], &c, 1}, {CHSEND, ch[1], &c, 1}}; cl[1].op = CHRECV; rc = choose(cl, 2, s.dl); break; } case 3: rc = bundle_wait(b, s.dl); break; default: rc = fdin(p[0], s.dl); }
        int e = errno; if(stop) return; s.seen = now(); order.push_back(i); if(want) CHECK(rc == -1 && e == want, "kind %d: %d %s", s.kind, rc, errname(e)); else CHECK(rc == 0, "msleep: %s", errname(e)); CHECK(s.seen >= s.dl, "a deadline at +%lld expired at +%lld", (long long)(s.dl - t0), (long long)(s.seen - t0)); }));
    for(int i = 0; i < nb; ++i) hs.push_back(go_fn([&] { while(!stop) { vt_advance(slice); if(yield() != 0) break; } }));
    note("%d deadlines within %d ms, %d busy coroutines, slices of %d ms", n, (int)span, nb, (int)slice); int64_t round = slice * (nb + 2); while((int)order.size() < n && now() < t0 + span + 1500 + 3 * round) CHECK(yield() == 0, "yield");
    for(auto &s : v) { CHECK(s.seen >= 0, "the deadline at +%lld of %d was never noticed", (long long)(s.dl - t0), n); CHECK(s.seen - s.dl <= 1050 + 2 * round, "the deadline at +%lld was noticed %lld ms late", (long long)(s.dl - t0), (long long)(s.seen - s.dl)); }
    int same = 0; for(size_t k = 1; k < order.size(); ++k) { Sl &a = v[order[k - 1]], &c = v[order[k]]; CHECK(a.dl <= c.dl, "the deadline at +%lld woke its coroutine before the one at +%lld", (long long)(a.dl - t0), (long long)(c.dl - t0)); same += c.seen / 1000 == a.seen / 1000; }
    stop = true; for(int h : hs) CHECK(hclose(h) == 0, "hclose"); fdclean(p[0]); close(p[0]); close(p[1]); hclose(b); nontrivial(same >= 2);
}
/* Every call that takes a deadline, on an object on which nothing happens. */
PROP_CASE(C04, calls, "at least 3 calls timed out") {
    auto &calls = zoo_calls(); bool tls = chance(1, 6); if(tls) stk_files(); int n = 2 + draw(6), timed = 0, ticks = 0; int other = go_fn([&] { int64_t d = 1 + draw(9); while(msleep(now() + d) == 0) { ticks++; d *= 2; } });
    while(n--) {
        int kind = draw(Z_KINDS); if(kind == Z_TLS && !tls) kind = Z_WS; std::vector<const Call*> cs; for(auto &c : calls) if(c.ok & 1u << kind && (tls || !strstr(c.name, "tls")) && strcmp(c.name, "hclose") && strcmp(c.name, "hown") && strcmp(c.name, "ws_status") && !(kind == Z_WIRE && strstr(c.name, "NULL"))) cs.push_back(&c); if(cs.empty()) continue;
        vt.grace_inf = 3000; vt.grace_timed = 1u << kind & (1u << Z_TCP | 1u << Z_TCPL | 1u << Z_UDP) ? 3 : 0; AnimalP a = zoo_make(kind); if(chance(1, 3)) a->use(); const Call &c = *cs[draw(cs.size())]; int i = draw(a->n), h = a->h[i]; za.reset(); int64_t t0 = now(); switch(draw(4)) { case 0: za.dl = 0; break; case 1: za.dl = t0 - draw(2000); break; case 2: za.dl = t0 + 1 + draw(5); break; default: za.dl = t0 + 1 + draw(900); } int64_t D = std::max(t0, za.dl);
        errno = 0; long rc = c.f(h); int e = errno; int64_t t1 = now(); note("%s on %s, deadline %+lld: %ld %s at +%lld", c.name, a->name.c_str(), (long long)(za.dl - t0), rc, errname(e), (long long)(t1 - t0));
        if(rc < 0 && kind == Z_UDP && !i && e == EINVAL && strstr(c.name, "msend")) {} else if(rc < 0) { CHECK(e == ETIMEDOUT, "%s on a %s: %s", c.name, a->name.c_str(), errname(e)); CHECK(t1 == D, "%s on a %s with the deadline at %+lld timed out at +%lld", c.name, a->name.c_str(), (long long)(za.dl - t0), (long long)(t1 - t0)); timed++; label(a->name.c_str()); }
        else CHECK(t1 == t0, "%s on a %s took %lld ms", c.name, a->name.c_str(), (long long)(t1 - t0));
        if(strstr(c.name, "recv") || strstr(c.name, "accept") || !strcmp(c.name, "bundle_wait")) CHECK(rc < 0, "%s on a %s on which nothing happens: %ld", c.name, a->name.c_str(), rc);
        if(c.cls != C_PLAIN) { if(rc >= 0) { a->h[i] = strstr(c.name, "close") ? -1 : (int)rc; } else a->h[i] = -1; }
        else if(rc >= 0 && !strncmp(c.name, "hown", 4)) a->h[i] = rc;
        a->end(); }
    CHECK(hclose(other) == 0, "hclose"); nontrivial(timed >= 3);
}
/* Hundreds of deadlines at the same time, cancelled and met before they expire. */
PROP_CASE(C04, crowd, "at least 50 deadlines at the same time, at least 10 expired") { CrowdProfile p; p.sleep = 10; p.time = 10; p.deadline_pct = 95; p.cancel = 5; p.most = 900; CrowdStats s = crowd(p); nontrivial(s.most_waiting >= 50 && s.timeouts >= 10); }
