#include "conn.h"
#include <algorithm>
#include <signal.h>
typedef std::string S;
namespace {
/* One end of the model. */
struct End { uint64_t sent = 0, got = 0; bool outdone = false, outerr = false, indone = false, inerr = false, closed = false, fuzzy = false, abrupt = false, fin = false; int rst = -1; /* closed: 1 the other end must see a reset, 0 an end, -1 either */ };
struct M { Conn c; End e[2]; uint32_t seed; int fails = 0, ops = 0; bool gone(int i) { return e[!i].closed; } };
/* The end goes away without any handshake, or after one. */
void parted(M &m, int i, bool abrupt) {
    End &e = m.e[i], &p = m.e[!i]; bool unread = e.got != p.sent; if(m.c.tcp) e.rst = abrupt ? e.fin ? -1 : 1 : e.abrupt ? -1 : 0; else e.rst = e.fuzzy || e.inerr || (e.indone && unread) || p.fuzzy || p.outerr ? -1 : abrupt ? unread : 0; }
const char *st(End &e) { static char b[4][80]; static int k; char *p = b[k++ & 3]; snprintf(p, 80, "[%s%s%s%s%s]", e.outdone ? "outdone " : "", e.outerr ? "outerr " : "", e.indone ? "indone " : "", e.inerr ? "inerr " : "", e.closed ? "closed" : ""); return p; }
bool reset(int er) { return er == ECONNRESET || er == EPIPE; }
void do_send(M &m, int i) {
    End &e = m.e[i], &p = m.e[!i]; bool big = chance(1, 12); if(big && (m.c.tcp && !p.closed)) big = false; size_t n = big ? 6000000 : chance(1, 8) ? 0 : 1 + draw(60); int64_t dl = big ? now() + draw(20) : chance(1, 3) ? 0 : chance(1, 2) ? -1 : now() + draw(20), t0 = now(); if(big && !p.closed && !e.outdone && !e.outerr) label("send times out");
    S d = pats(m.seed + i, e.sent, n); errno = 0; int rc = big ? bsend(m.c.h[i], d.data(), n, dl) : bsend_any(m.c.h[i], d, dl), er = errno; note("%d: send %zu -> %d %s %s", i, n, rc, rc < 0 ? errname(er) : "", st(e));
    if(e.outdone) { CHECK(rc == -1 && er == EPIPE, "send after done: %d %s", rc, errname(er)); m.fails++; return; }
    if(e.outerr) { CHECK(rc == -1 && er == ECONNRESET, "send after a failed send: %d %s", rc, errname(er)); m.fails++; return; }
    if(n == 0) { CHECK(rc == 0, "send of nothing: %s", errname(er)); return; }
    if(p.closed) { CHECK(rc == -1 && reset(er), "send to a closed peer: %d %s", rc, rc < 0 ? errname(er) : ""); CHECK(now() == t0, "a send to a closed peer waits"); e.outerr = true; m.fails++; if(e.sent) label("send to closed"); return; }
    if(big) { CHECK(rc == -1 && er == ETIMEDOUT && now() == std::max(dl, t0), "a send nobody receives: %d %s", rc, rc < 0 ? errname(er) : ""); e.outerr = true; p.fuzzy = true; e.sent += n; m.fails++; return; }
    if(p.fuzzy && false) return; CHECK(rc == 0, "send: %s although nothing is wrong %s", errname(er), st(e)); e.sent += n; m.c.arrived(i); }
void do_recv(M &m, int i) {
    End &e = m.e[i], &p = m.e[!i]; uint64_t avail = p.sent - e.got; bool skipall = chance(1, 10); size_t n = chance(1, 8) ? 0 : avail && avail < 5000 && chance(2, 3) ? 1 + draw(avail) : chance(1, 6) ? 2000 + draw(3000) : 1 + draw(80); bool fin = p.outdone || p.closed; int64_t t0 = now(), dl = fin && !e.fuzzy ? (chance(1, 2) ? -1 : t0 + draw(20)) : chance(1, 3) ? 0 : t0 + draw(20); if(skipall && !fin) dl = t0 + draw(20);
    S g; errno = 0; int rc = skipall ? brecvl(m.c.h[i], NULL, NULL, dl) : brecv_any(m.c.h[i], n, &g, dl), er = errno; note("%d: receive %zd of %llu (dl %+lld) -> %d %s after %lld ms %s", i, skipall ? -1 : n, (unsigned long long)avail, (long long)(dl < 0 ? -1 : dl - t0), rc, rc < 0 ? errname(er) : "", (long long)(now() - t0), st(e));
    if(e.indone) { CHECK(rc == -1 && er == EPIPE, "receive after the end: %d %s", rc, rc < 0 ? errname(er) : ""); m.fails++; return; }
    if(e.inerr) { CHECK(rc == -1 && er == ECONNRESET, "receive after a failed receive: %d %s", rc, rc < 0 ? errname(er) : ""); m.fails++; return; }
    if(skipall) { CHECK(rc == -1, "skipping everything ended with success"); if(fin && (er != ETIMEDOUT)) { CHECK(er == EPIPE || (er == ECONNRESET && p.closed && p.abrupt), "skipping to the end: %s", errname(er)); CHECK(now() == t0, "waited"); if(p.closed && p.rst >= 0 && !e.outerr) CHECK((er == ECONNRESET) == p.rst, "skipping to the end: %s although the peer %s", errname(er), p.rst ? "never ended its stream" : "ended its stream"); if(er == EPIPE) e.indone = true; else e.inerr = true; e.got = p.sent; }
        else { CHECK(er == ETIMEDOUT && now() == std::max(dl, t0), "skipping everything: %s after %lld ms", errname(er), (long long)(now() - t0)); CHECK(!fin, "timed out at the end of the stream"); e.inerr = true; } m.fails++; return; }
    if(rc == 0) { CHECK(n <= avail, "received %zu bytes of %llu", n, (unsigned long long)avail); if(g != pats(m.seed + !i, e.got, n)) fail("wrong data received"); e.got += n; return; }
    m.fails++; if(n == 0) fail("receive of nothing: %s", errname(er));
    if(n <= avail && !e.fuzzy && !(p.closed && p.abrupt && m.c.tcp)) fail("receive of %zu of %llu available bytes: %s", n, (unsigned long long)avail, errname(er));
    if(er == EPIPE || er == ECONNRESET) { CHECK(fin, "an end or a reset out of nothing: %s", errname(er)); if(p.closed && p.rst >= 0 && !e.outerr && !e.fuzzy) { CHECK((er == ECONNRESET) == p.rst, "%s although the peer %s", errname(er), p.rst ? "never ended its stream" : "ended its stream"); if(p.rst) label("reset received"); } CHECK(er == EPIPE || p.abrupt, "ECONNRESET although the peer has finished in an orderly way"); CHECK(!e.fuzzy || p.closed || p.outdone, "end"); CHECK(er != EPIPE || p.outdone || p.closed, "end of a stream that is open"); CHECK(now() == t0, "waited"); if(er == EPIPE) e.indone = true; else e.inerr = true; return; }
    CHECK(er == ETIMEDOUT && dl >= 0 && now() == std::max(dl, t0), "receive: %s after %lld ms", errname(er), (long long)(now() - t0)); CHECK(!fin, "timed out although the peer has finished"); e.inerr = true; }
void do_done(M &m, int i) {
    End &e = m.e[i]; int64_t t0 = now(), dl = chance(1, 3) ? 0 : chance(1, 2) ? -1 : t0 + draw(10); int rc = m.c.done(i, dl), er = errno; note("%d: done -> %d %s %s", i, rc, rc < 0 ? errname(er) : "", st(e)); CHECK(now() == t0, "done waits");
    if(e.outdone) { CHECK(rc == -1 && er == EPIPE, "a second done: %d %s", rc, rc < 0 ? errname(er) : ""); m.fails++; return; }
    if(e.outerr) { CHECK(rc == -1 && er == ECONNRESET, "done after a failed send: %d %s", rc, rc < 0 ? errname(er) : ""); m.fails++; return; }
    if(rc < 0) { CHECK(m.gone(i) && reset(er), "done: %s", errname(er)); e.outerr = true; m.fails++; return; }
    e.outdone = e.fin = true; m.c.ready(!i, POLLRDHUP); }
void do_close(M &m, int i) {
    End &e = m.e[i], &p = m.e[!i]; bool fin = p.outdone || p.closed; int64_t t0 = now(), dl = fin && !e.fuzzy && chance(1, 2) ? -1 : chance(1, 3) ? 0 : t0 + draw(20); int rc = m.c.close(i, dl), er = errno; note("%d: close (dl %+lld) -> %d %s after %lld ms %s", i, (long long)(dl < 0 ? -1 : dl - t0), rc, rc < 0 ? errname(er) : "", (long long)(now() - t0), st(e)); m.c.released(i, "close");
    if(e.inerr || e.outerr) { CHECK(rc == -1 && er == ECONNRESET, "close of a broken connection: %d %s", rc, rc < 0 ? errname(er) : ""); CHECK(now() == t0, "close of a broken connection waits"); m.fails++; e.abrupt = true; }
    else if(e.indone || fin) { if(rc < 0) { CHECK(p.closed && p.abrupt && reset(er), "close although the peer has finished: %s", errname(er)); m.fails++; e.abrupt = true; } else CHECK(!(p.closed && p.rst == 1 && !e.indone && !e.fuzzy), "close succeeded although the peer never ended its stream"); CHECK(now() == t0, "close waits although the peer has finished"); if(rc == 0) label("closed in order"); }
    else { CHECK(rc == -1 && er == ETIMEDOUT, "close while the peer is not finished: %d %s", rc, rc < 0 ? errname(er) : ""); CHECK(now() == std::max(t0, dl), "close with the deadline at +%lld ended after %lld ms", (long long)(dl - t0), (long long)(now() - t0)); m.fails++; e.abrupt = true; label("close timed out"); }
    parted(m, i, e.inerr || e.outerr); if(e.got != p.sent) e.abrupt = true; e.outdone = true; e.closed = true; m.c.ready(!i, POLLHUP | POLLERR | POLLRDHUP); }
}
PROP_CASE(S02, history, "at least 8 operations of which at least 2 failed") {
    signal(SIGPIPE, SIG_DFL); M m; m.c.open(conn_kind(true, 30)); if(m.c.tcp) { vt.grace_inf = 3000; vt.grace_timed = 5; } m.seed = draw(1000); int n = 4 + draw(40); if(chance(1, 4)) { fi.short_io = 1 + draw(30); label("short transfers"); }
    for(int k = 0; k < n; ++k) { int i = draw(2); End &e = m.e[i]; if(e.closed) { i = !i; if(m.e[i].closed) break; } m.ops++;
        switch(weighted({10, 10, 3, 1, 1, 2, 1})) { case 0: do_send(m, i); break; case 1: do_recv(m, i); break; case 2: if(chance(1, 2)) do_done(m, i); else do_recv(m, i); break; case 3: do_close(m, i); break;
        case 4: if(chance(1, 2)) break; note("%d: hclose", i); CHECK(hclose(m.c.h[i]) == 0, "hclose"); m.c.released(i, "hclose"); parted(m, i, true); m.e[i].closed = m.e[i].abrupt = true; m.c.ready(!i, POLLHUP | POLLERR); label("hclose"); break;
        case 5: { /* invalid arguments change nothing */ char x[2] = {1, 2}; struct iolist l[2] = {{x, 1, &l[1], 0}, {x + 1, 1, NULL, 0}}; int rc; switch(draw(4)) { case 0: rc = bsendl(m.c.h[i], l, l, -1); break; case 1: rc = brecvl(m.c.h[i], NULL, l, -1); break; case 2: l[1].iol_rsvd = 1; rc = bsendl(m.c.h[i], l, l + 1, -1); break; default: l[1].iol_next = l; rc = brecvl(m.c.h[i], l, l + 1, -1); } CHECK(rc == -1 && errno == EINVAL, "a malformed list: %d %s", rc, errname(errno)); note("%d: malformed list", i); break; }
        case 6: msleep(now() + draw(10)); break; } }
    for(int i = 0; i < 2; ++i) if(!m.e[i].closed) { CHECK(hclose(m.c.h[i]) == 0, "hclose"); m.c.released(i, "hclose"); } if(m.ops >= 8 && m.fails >= 2) nontrivial();
}
/* One end is blocked in an operation while the other end acts according to a timetable. */
PROP_CASE(S02, blocked, "the operation really waited") {
    signal(SIGPIPE, SIG_DFL); Conn c; c.open(conn_kind(false)); c.small(4096); uint32_t seed = draw(1000); int a = draw(2), b = !a; enum { RECV, SKIP, CLOSE, SEND }; int op = weighted({4, 2, 3, 3}); int64_t t0 = now(); int64_t dl = chance(1, 2) ? -1 : 1 + 2 * (int)draw(30); int64_t can = chance(1, 4) ? 1 + 2 * (int)draw(30) : -1; if(can == dl) can = -1; if(chance(1, 5)) fi.eagain_pct = 30;
    size_t n = op == RECV ? 1 + draw(chance(1, 3) ? 5000 : 200) : op == SEND ? 60000 + draw(60000) : 0; size_t unread = chance(1, 4) && op != SEND ? 1 + draw(50) : 0; bool adone = op != SEND && chance(1, 5); if(unread) { CHECK(bsend_any(c.h[a], pats(seed + 9, 0, unread), -1) == 0, "send"); } if(adone) CHECK(c.done(a, -1) == 0, "done");
    struct Act { int64_t t; int k; size_t n; }; std::vector<Act> acts; int64_t t = 0; int na = draw(6); enum { PUT, DONE, HCLOSE, READ }; bool dn = false; uint64_t sent = 0; for(int k = 0; k < na; ++k) { t += 2 * (1 + draw(12)); Act x = {t, (int)weighted({4, 1, 1, 2}), 0}; if(op == SEND && x.k == PUT) x.k = READ; if(x.k == READ && op != SEND) x.k = PUT; if(x.k == PUT) { if(dn) continue; x.n = 1 + draw(chance(1, 4) ? 3000 : 60); } if(x.k == DONE && dn) continue; acts.push_back(x); if(x.k == DONE) dn = true; if(x.k == HCLOSE || x.k == READ) break; }
    /* prediction */
    int64_t end = INT64_MAX; int er = 0; bool ok = false, alt = false; for(auto &x : acts) { if(x.k == PUT) { sent += x.n; if(op == RECV && sent >= n) { end = x.t; ok = true; break; } } else if(x.k == READ) { end = x.t; ok = true; break; } else if(x.k == DONE) { if(op == SEND) continue; end = x.t; er = EPIPE; ok = op == CLOSE; break; } else { end = x.t; if(op == SEND) er = ECONNRESET; else { er = unread || (op == CLOSE && !unread && false) ? ECONNRESET : EPIPE; alt = false; ok = op == CLOSE && !unread; } break; } }
    if(dl >= 0 && dl < end) { end = dl; er = ETIMEDOUT; ok = false; } if(can >= 0 && can < end) { end = can; er = ECANCELED; ok = false; } if(end == INT64_MAX) { dl = 101; end = dl; er = ETIMEDOUT; ok = false; }
    static const char *on[] = {"receive", "skip", "close", "send"}; for(auto &x : acts) note("at %lld: %d %zu", (long long)x.t, x.k, x.n); note("%s %s %zu, deadline %lld, cancel %lld, unread %zu, done %d: %s at %lld", c.name(), on[op], n, (long long)dl, (long long)can, unread, adone, ok ? "success" : errname(er), (long long)end);
    int rc = -2, e = 0; int64_t at = -1; S g; int co = go_fn([&] { int64_t d = dl < 0 ? -1 : t0 + dl; errno = 0; if(op == RECV) rc = brecv_any(c.h[a], n, &g, d); else if(op == SKIP) rc = brecvl(c.h[a], NULL, NULL, d); else if(op == CLOSE) rc = c.close(a, d); else { S big = pats(seed, 0, n); rc = bsend_any(c.h[a], big, d); } e = errno; at = now() - t0; }); CHECK(co >= 0, "go");
    bool bclosed = false, cancelled = false; uint64_t bs = 0; int bdone = 0; S all;
    auto B = [&] { for(auto &x : acts) { if(msleep(t0 + x.t) < 0) return; if(cancelled) return; if(at >= 0 && op == CLOSE) return; if(x.k == PUT) { int r = bsend_any(c.h[b], pats(seed, bs, x.n), now() + 1); if(r < 0) return; bs += x.n; } else if(x.k == DONE) { CHECK(c.done(b, -1) == 0, "done"); bdone = 1; } else if(x.k == HCLOSE) { CHECK(hclose(c.h[b]) == 0, "hclose"); bclosed = true; c.released(b, "hclose"); } else { if(at >= 0) return; S d; CHECK(brecv_any(c.h[b], n, &d, -1) == 0, "the other end: %s", errname(errno)); CHECK(d == pats(seed, 0, n), "wrong data"); } } };
    auto C = [&] { if(can < 0) { msleep(t0 + end + 1); return; } msleep(t0 + can); if(at < 0) cancelled = true; CHECK(hclose(co) == 0, "hclose"); co = -1; };
    run_all({B, C}); if(co >= 0) { CHECK(at >= 0, "%s is still blocked after +%lld ms", on[op], (long long)(now() - t0)); CHECK(hclose(co) == 0, "hclose"); }
    fi.eagain_pct = 0; CHECK(at >= 0, "no result"); (void)alt; CHECK(ok ? rc == 0 : rc == -1, "%s: %d %s instead of %s", on[op], rc, rc < 0 ? errname(e) : "", ok ? "success" : errname(er)); if(!ok) CHECK(e == er, "%s: %s instead of %s", on[op], errname(e), errname(er)); CHECK(at == end, "%s ended at +%lld instead of +%lld", on[op], (long long)at, (long long)end); if(op == RECV && ok) CHECK(g == pats(seed, 0, n), "wrong data received");
    if(op == CLOSE) c.released(a, "close"); else { char x; if(op == SEND) { if(!ok) { CHECK(bsend(c.h[a], "a", 1, -1) == -1 && errno == ECONNRESET, "send after a failed send: %s", errname(errno)); CHECK(c.done(a, -1) == -1 && errno == ECONNRESET, "done after a failed send"); if(!bclosed) { CHECK(bdone || bsend(c.h[b], "b", 1, -1) == 0, "the other direction: %s", errname(errno)); if(!bdone) CHECK(brecv(c.h[a], &x, 1, -1) == 0 && x == 'b', "the other direction"); } } }
        else if(!ok) { CHECK(brecv(c.h[a], &x, 1, now() + 5) == -1 && errno == (er == EPIPE ? EPIPE : ECONNRESET), "receive after a failed receive: %s", errname(errno)); if(!bclosed && !adone) { S d; CHECK(bsend(c.h[a], "x", 1, -1) == 0, "the other direction: %s", errname(errno)); CHECK(brecv_any(c.h[b], unread + 1, &d, -1) == 0 && d == pats(seed + 9, 0, unread) + "x", "the other direction"); } }
        else if(op == RECV && bs > n) { S d; CHECK(brecv_any(c.h[a], bs - n, &d, -1) == 0 && d == pats(seed, n, bs - n), "the rest"); } CHECK(hclose(c.h[a]) == 0, "hclose"); c.released(a, "hclose"); }
    if(!bclosed) { CHECK(hclose(c.h[b]) == 0, "hclose"); c.released(b, "hclose"); } if(end > 0) nontrivial(); label(on[op]); label(ok ? "success" : errname(er));
}
/* The peer never stops sending. */
PROP_CASE(S02, flood, "always") {
    Conn c; c.open(conn_kind(true)); int i = draw(2); fi.flood_fd = c.fd[i]; fi.flood_ms = 1 + draw(3); int64_t t0 = now(), dl = t0 + draw(40); int op = draw(3), rc; if(op == 2 && chance(1, 2)) CHECK(c.done(i, -1) == 0, "done");
    if(op == 0) { rc = brecvl(c.h[i], NULL, NULL, dl); CHECK(rc == -1 && errno == ETIMEDOUT, "skip: %d %s", rc, errname(errno)); } else { rc = c.close(i, dl); CHECK(rc == -1 && errno == ETIMEDOUT, "close: %d %s", rc, errname(errno)); fi.flood_fd = -1; c.released(i, "close"); }
    note("%s op %d: deadline +%lld, ended at +%lld", c.name(), op, (long long)(dl - t0), (long long)(now() - t0)); CHECK(now() <= std::max(dl, t0) + 2 * fi.flood_ms, "ended at +%lld although the deadline was at +%lld", (long long)(now() - t0), (long long)(dl - t0)); nontrivial();
}
