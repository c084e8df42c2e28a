#include "conn.h"
#include "stk.h"
#include <algorithm>
typedef std::string S;
namespace {
struct Dir { uint32_t seed; uint64_t total, sent = 0, got = 0, ok = 0; bool sfail = false, rfail = false, over = false; int calls = 0; };
size_t amount(uint64_t left) { size_t n; switch(weighted({4, 4, 3, 2, 1})) { case 0: n = draw(20); break; case 1: n = draw(300); break; case 2: n = near_size({1983, 1984, 1985, 3968, 512, 2048}, 8000); break; case 3: n = draw(20000); break; default: n = draw(150000); } return n > left ? left : n; }
void rest() { switch(weighted({5, 2, 2})) { case 1: yield(); break; case 2: if(vt.grace_inf) yield(); else msleep(now() + draw(5)); break; default: break; } }
int send(int h, const S &d, int64_t dl) { if(chance(1, 12)) { /* very many elements */ size_t n = std::min<size_t>(d.size(), 900 + draw(1500)), extra = draw(100); std::vector<struct iolist> v(n + extra + 1); S c = d; size_t off = 0; size_t k = v.size(); for(size_t i = 0; i < k; ++i) { size_t l = i < n && off < d.size() ? 1 : 0; if(i == k - 1) l = d.size() - off; v[i] = {(void*)(c.data() + off), l, i + 1 < k ? &v[i + 1] : NULL, 0}; off += l; } label("list of very many elements"); return bsendl(h, &v[0], &v[k - 1], dl); } return bsend_any(h, d, dl); }
void sender(Conn &c, int i, Dir &d, bool timed) {
    while(d.sent < d.total && !d.sfail) { rest(); size_t n = amount(d.total - d.sent); int64_t dl = timed ? now() + (chance(1, 4) ? draw(6) : 2000) : -1; note("%d sends %zu at %llu%s", i, n, (unsigned long long)d.sent, dl < 0 ? "" : " with deadline"); d.calls++;
        d.sent += n; int rc = send(c.h[i], pats(d.seed, d.sent - n, n), dl); if(rc < 0) { CHECK(dl >= 0 && errno == ETIMEDOUT && now() >= dl, "%s: send of %zu: %s", c.name(), n, errname(errno)); d.sfail = true; label("send timed out"); } else d.ok = d.sent; }
    note("%d at the end, failed %d, sent %llu of %llu", i, d.sfail, (unsigned long long)d.sent, (unsigned long long)d.total); rest(); if(!d.sfail) { CHECK(c.done(i, -1) == 0, "done: %s", errname(errno)); } d.over = true; }
void receiver(Conn &c, int i, Dir &d, bool timed) {
    while(!d.rfail && d.got < d.total) { rest(); size_t n = amount(chance(1, 10) ? d.total - d.got + 50 : d.total - d.got); bool past = d.got + n > d.total; int64_t dl = timed && chance(1, 4) ? now() + draw(6) : d.sfail ? now() + 3 : timed ? now() + 1000 : -1; d.calls++;
        int rc; S exp = pats(d.seed, d.got, n); int64_t t0 = now();
        if(chance(1, 3)) { std::unique_ptr<char[]> b(new char[n]); rc = brecv(c.h[i], b.get(), n, dl); int e = errno; note("%d receives %zu at %llu: %d %s", i, n, (unsigned long long)d.got, rc, rc < 0 ? errname(e) : ""); if(rc == 0 && memcmp(b.get(), exp.data(), n)) { size_t k = 0; while(b[k] == exp[k]) k++; fail("%s: wrong data at offset %llu (%zu of a receive of %zu)", c.name(), (unsigned long long)(d.got + k), k, n); } errno = e; }
        else { List l; if(chance(1, 12) && n > 1100) { l.recv_many(n, 1000 + draw(1100)); label("list of very many elements"); } else l.recv(n, true); rc = brecvl(c.h[i], l.first(), l.last(), dl); int e = errno; note("%d receives %s at %llu: %d %s", i, l.shape().c_str(), (unsigned long long)d.got, rc, rc < 0 ? errname(e) : ""); l.check("brecvl"); if(rc == 0) { CHECK(l.matches(exp), "%s: wrong data at offset %llu into %s", c.name(), (unsigned long long)d.got, l.shape().c_str()); for(bool b : l.null) if(b) label("skip"); } errno = e; }
        if(rc == 0) { CHECK(!past, "%s: received %zu bytes beyond the end", c.name(), (size_t)(d.got + n - d.total)); d.got += n; CHECK(d.got <= d.sent, "received more than was sent"); }
        else { d.rfail = true; if(past && errno == EPIPE) { CHECK(!d.sfail, "an end out of nothing"); return; } CHECK(dl >= 0 && errno == ETIMEDOUT && now() >= std::max(dl, t0), "%s: receive of %zu at %llu of %llu: %s", c.name(), n, (unsigned long long)d.got, (unsigned long long)d.total, errname(errno)); label("receive timed out"); char x; CHECK(brecv(c.h[i], &x, 1, -1) == -1, "a receive succeeds after a failed one"); } }
    note("%d has everything", i); if(d.rfail) return; int k = 1 + draw(2); while(k--) { char x; note("%d waits for the end", i); int rc = chance(1, 2) ? brecv(c.h[i], &x, 1, -1) : brecvl(c.h[i], NULL, NULL, -1); CHECK(rc == -1 && errno == EPIPE, "%s: at the end of the stream: %d %s", c.name(), rc, rc < 0 ? errname(errno) : ""); } }
}
PROP_CASE(S01, stream, "data crossed the boundaries of the receive buffer or of short transfers in at least 6 calls") {
    Conn c; c.open(conn_kind(true, 25)); if(c.tcp) tcp_time(); if(chance(1, 2)) c.small(c.tcp ? 20000 + draw(100000) : chance(1, 2) ? 2048 : 1 + draw(20000)); 
    if(chance(1, 2)) { fi.short_io = chance(1, 2) ? 1 + draw(20) : 1 + draw(3000); fi.short_pct = 20 + draw(81); label("short transfers"); } if(chance(1, 3)) { fi.eagain_pct = 1 + draw(40); label("spurious EAGAIN"); }
    Dir d[2]; bool timed = !c.tcp && chance(1, 8); for(int i = 0; i < 2; ++i) { d[i].seed = draw(1000); d[i].total = chance(1, 8) ? 0 : draw(chance(1, 3) ? 200 : chance(1, 2) ? 10000 : fi.short_io && fi.short_io < 20 ? 20000 : 200000); }
    std::vector<std::function<void()>> f = {[&] { sender(c, 0, d[0], timed); }, [&] { receiver(c, 1, d[0], timed); }, [&] { sender(c, 1, d[1], timed); }, [&] { receiver(c, 0, d[1], timed); }};
    for(size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[draw(k)]); run_all(f);
    fi.short_io = 0; fi.eagain_pct = 0; bool broken = d[0].sfail || d[1].sfail || d[0].rfail || d[1].rfail; for(int k = 0; k < 2; ++k) { int i = k; bool hc = chance(1, 2); int rc = hc ? hclose(c.h[i]) : c.close(i, -1); if(!broken) CHECK(rc == 0, "%s: close: %s", c.name(), errname(errno)); c.released(i, hc ? "hclose" : "close"); }
    if(d[0].calls + d[1].calls >= 6 && (d[0].got + d[1].got > 3000 || fi.short_io)) nontrivial(); if(d[0].calls + d[1].calls >= 12) nontrivial(); if(timed) label("with deadlines");
}
/* One end sends and closes; the other finishes its own direction at any time and reads at its own pace. */
PROP_CASE(S01, close, "the peer had data left to read when the socket was closed") {
    Conn c; c.open(conn_kind(true, 60)); if(c.tcp) tcp_time(); if(chance(1, 2)) c.small(c.tcp ? 20000 + draw(100000) : 2048 + draw(20000)); int a = draw(2), b = !a; uint32_t seed = draw(1000); uint64_t total = draw(chance(1, 2) ? 3000 : chance(1, 4) && c.tcp ? 3000000 : 300000), back = draw(2000), got = 0, done_at = draw(total + 1); bool early = chance(1, 2), closed = false; int crc = -2; if(early) done_at = 0; bool both = chance(1, 2); uint64_t left = 0;
    auto A = [&] { uint64_t sent = 0; while(sent < total) { rest(); size_t n = chance(1, 4) ? total - sent : std::min<uint64_t>(total - sent, draw(100000)); CHECK(bsend_any(c.h[a], pats(seed, sent, n), -1) == 0, "%s: send: %s", c.name(), errname(errno)); sent += n; } 
        rest(); if(chance(1, 3)) CHECK(c.done(a, -1) == 0, "done: %s", errname(errno)); if(both) { S g; CHECK(brecv_any(c.h[a], back, &g, -1) == 0 && g == pats(seed + 1, 0, back), "the other direction: %s", errname(errno)); if(chance(1, 2)) { char x; CHECK(brecv(c.h[a], &x, 1, -1) == -1 && errno == EPIPE, "end of the other direction"); } }
        int64_t dl = chance(1, 2) || c.tcp ? -1 : now() + 100000; /* the kernel may pause a TCP connection for longer than deadlines are held back */ note("close at %llu of %llu read", (unsigned long long)got, (unsigned long long)total); int rc = c.close(a, dl); left = total - got; CHECK(rc == 0, "%s: close: %s", c.name(), errname(errno)); crc = 0; note("closed at %llu", (unsigned long long)got); c.released(a, "close"); closed = true; };
    bool fin = false; auto fine = [&](bool now_) { if(fin || (!now_ && got < done_at)) return; fin = true; CHECK(bsend_any(c.h[b], pats(seed + 1, 0, back), -1) == 0, "send: %s", errname(errno)); CHECK(c.done(b, -1) == 0, "done: %s", errname(errno)); note("peer done at %llu", (unsigned long long)got); };
    bool slow = chance(1, 2); auto B = [&] { while(got < total) { fine(false); if(slow && fin && !closed && got && chance(1, 2)) { for(int k = 0; k < 20 && !closed; ++k) yield(); } rest(); size_t n = std::min<uint64_t>(total - got, 1 + draw(50000)); S g; int rc = brecv_any(c.h[b], n, &g, -1); if(rc < 0) fail("%s: receive at %llu of %llu: %s%s", c.name(), (unsigned long long)got, (unsigned long long)total, errname(errno), closed ? " although close has reported success" : ""); if(g != pats(seed, got, n)) fail("wrong data"); got += n; }
        fine(true); char x; CHECK(brecv(c.h[b], &x, 1, -1) == -1 && errno == EPIPE, "%s: after the last byte: %s", c.name(), errname(errno)); if(chance(1, 2)) CHECK(c.close(b, -1) == 0, "%s: close: %s", c.name(), errname(errno)); else CHECK(hclose(c.h[b]) == 0, "hclose"); c.released(b, "close"); };
    if(chance(1, 2)) run_all({A, B}); else run_all({B, A}); CHECK(crc == 0, "not closed"); if(left) nontrivial(); if(left > 100000) label("much left"); if(!c.tcp) label("ipc kinds");
}
PROP_CASE(S01, many, "every case: two to four connections of any kind in use at the same time") {
    int k = 2 + draw(3); std::deque<Conn> c; struct Two { Dir d[2]; }; std::deque<Two> t; std::vector<std::function<void()>> f; bool tcp = false; bool fine = chance(1, 2);
    for(int i = 0; i < k; ++i) { c.emplace_back(); Conn &x = c.back(); x.open(conn_kind(true, 25)); if(x.tcp) tcp = true; if(chance(1, 3)) x.small(x.tcp ? 20000 + draw(100000) : 2048 + draw(20000)); }
    if(tcp) tcp_time(); if(chance(1, 2)) { fi.short_io = chance(1, 2) ? 1 + draw(20) : 1 + draw(3000); fi.short_pct = 20 + draw(81); label("short transfers"); }
    for(int i = 0; i < k; ++i) { t.emplace_back(); Dir *d = t.back().d; Conn *x = &c[i]; for(int e = 0; e < 2; ++e) { d[e].seed = i * 1000 + e * 500 + draw(400); d[e].total = draw(fine ? 300 : chance(1, 2) ? 3000 : 20000); f.push_back([x, e, d] { sender(*x, e, d[e], false); }); f.push_back([x, e, d] { receiver(*x, !e, d[e], false); }); } }
    for(size_t n = f.size(); n > 1; --n) std::swap(f[n - 1], f[draw(n)]); run_all(f); fi.short_io = 0;
    for(int i = 0; i < k; ++i) for(int e = 0; e < 2; ++e) { bool hc = chance(1, 2); int rc = hc ? hclose(c[i].h[e]) : c[i].close(e, -1); CHECK(rc == 0, "%s: close: %s", c[i].name(), errname(errno)); c[i].released(e, hc ? "hclose" : "close"); }
    label(k == 2 ? "two connections" : k == 3 ? "three connections" : "four connections"); nontrivial(); }
PROP_CASE(S01, huge, "every case") {
    Conn c; c.open(conn_kind(true, 25)); if(c.tcp) { tcp_time(); c.small(20000 + draw(100000)); } int i = draw(2);
    huge_stream(c.h[i], c.h[!i], [&](int) { CHECK(c.done(i, -1) == 0, "done: %s", errname(errno)); }); for(int e = 0; e < 2; ++e) { CHECK(hclose(c.h[e]) == 0, "hclose"); c.released(e, "hclose"); } }
