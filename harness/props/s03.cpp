#include "stk.h"
#include "conn.h"
#include "tls_keys.h"
#include <algorithm>
static TlsEnv tls_env;
typedef std::string S;
namespace {
int64_t pdl(void) { switch(draw(5)) { case 0: case 1: return -1; case 2: return 0; default: return now() + draw(10); } }
S longmsg(Stack &s) { if(!s.lays.empty() && s.lays.back().kind == L_TLS && chance(1, 2)) return gen_bytes(1 + draw(3000)); for(int k = 0; k < 4; ++k) { S m = s.msgs() ? gen_from("abcdefgh", 1 + draw(chance(1, 3) ? 3000 : 200)) : gen_bytes(1 + draw(3000)); if(s.valid(m)) return m; } return s.msg(); }
}
PROP_CASE(S03, stack, "a third coroutine tried at least 3 times to use a direction in use") {
    Stack s; bool tls = chance(1, 4); if(tls) stk_files(); std::vector<int> f0 = fd_list(); s.open(chance(1, 5) ? B_TCP : B_IPC); if(s.base == B_TCP) { tcp_time(); label("tcp"); }
    for(int fd : fd_list()) if(!std::count(f0.begin(), f0.end(), fd)) { int v = s.base == B_TCP ? 30000 : 4096; if(chance(2, 3)) { setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof v); } }
    int n = weighted({2, 4, 2, 1}); while(n--) s.push(s.gen(tls)); for(auto &l : s.lays) label(lay_name(l.kind)); bool ms = s.msgs(); note("%s", s.text().c_str()); if(chance(2, 3)) fi.eagain_pct = 10 + draw(50); if(chance(1, 3)) { fi.short_io = 1 + draw(100); }
    std::vector<S> q[2]; for(int d = 0; d < 2; ++d) { int k = draw(12); while(k--) q[d].push_back(longmsg(s)); }
    bool in[2][2] = {{false, false}, {false, false}}, over[2][2] = {{false, false}, {false, false}}; int tries = 0; 
    auto tx = [&](int i) { for(auto &m : q[i]) { if(chance(1, 3)) yield(); in[i][1] = true; int rc = ms ? msend_any(s.h[i], m, -1) : bsend_any(s.h[i], m, -1); in[i][1] = false; CHECK(rc == 0, "send %d over %s: %s", i, s.text().c_str(), errname(errno)); } over[i][1] = true; };
    auto rx = [&](int i) { for(auto &m : q[!i]) { if(chance(1, 3)) yield(); in[i][0] = true; S g; int rc = ms ? mrecv_any(s.h[i], m.size(), &m, -1) : brecv_any(s.h[i], m.size(), &g, -1); in[i][0] = false; CHECK(rc >= 0, "receive %d over %s: %s", i, s.text().c_str(), errname(errno)); if(!ms && g != m) fail("wrong data over %s", s.text().c_str()); } over[i][0] = true; };
    auto poke = [&](int i, int d) { if(!in[i][d]) return; tries++; int64_t t0 = now(), dl = pdl(); int rc; errno = 0; char b[10]; if(d) { S m = s.msg(); rc = ms ? msend_any(s.h[i], m, dl) : bsend_any(s.h[i], m.empty() ? "x" : m, dl); } else { S g; size_t z = ms && chance(1, 4) ? 10 : 1 + draw(20); rc = ms ? (z == 10 ? mrecvl(s.h[i], NULL, NULL, dl) : mrecv_any(s.h[i], z, nullptr, dl)) : brecv_any(s.h[i], z, &g, dl); } (void)b; int e = errno; note("%s in use at %d: %d %s", d ? "send" : "receive", i, rc, errname(e));
        CHECK(rc == -1 && e == EBUSY, "%s on %s while another coroutine is in the middle of one: %d %s", d ? "send" : "receive", s.text().c_str(), rc, rc < 0 ? errname(e) : ""); CHECK(now() == t0, "it waited"); };
    auto third = [&] { for(int k = 0; k < 400; ++k) { if(over[0][0] && over[0][1] && over[1][0] && over[1][1]) return; poke(draw(2), draw(2)); if(chance(1, 3) && !vt.grace_inf) msleep(now() + draw(3)); else yield(); } };
    std::vector<std::function<void()>> f = {[&] { tx(0); }, [&] { rx(1); }, [&] { tx(1); }, [&] { rx(0); }, third}; for(size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[draw(k)]); run_all(f); fi.eagain_pct = fi.short_io = 0;
    /* now one that ends in failure */
    int i = draw(2); bool timed = !vt.grace_inf && chance(1, 2); int64_t t0 = now(), dl = timed ? t0 + 1 + draw(20) : -1; int rc = 0, e = 0; bool fin = false; S m = s.msg(); if(m.empty()) m = "x"; int how = weighted({2, 1, 1}); if(vt.grace_inf && how == 1) how = 2; if(how == 2 && timed) how = 1; note("last: %d", how);
    note("m %zu peer %d timed %d", m.size(), i, timed); int co = go_fn([&] { S g; in[i][0] = true; rc = ms ? mrecv_any(s.h[i], m.size(), how ? nullptr : &m, how ? dl : -1) : brecv_any(s.h[i], m.size(), &g, how ? dl : -1); e = errno; fin = true; if(rc >= 0 && !ms) CHECK(g == m, "wrong data"); in[i][0] = false; }); CHECK(co >= 0, "go"); yield(); note("pokes"); CHECK(!fin, "a receive out of nothing over %s: %d %s", s.text().c_str(), rc, errname(e)); for(int k = draw(3); k--;) poke(i, 0);
    if(how == 0) { auto snd = [&] { CHECK((ms ? msend_any(s.h[!i], m, -1) : bsend_any(s.h[!i], m, -1)) == 0, "send"); }; run_all({snd, [&] { while(!fin) msleep(now() + 1); }}); CHECK(rc >= 0, "the receive in progress: %s", errname(e)); }
    else if(how == 1) { msleep(t0 + 40); if(timed) CHECK(fin && rc == -1 && e == ETIMEDOUT, "%d %s instead of ETIMEDOUT", rc, errname(e)); else CHECK(!fin, "it ended"); label("timed out"); }
    CHECK(hclose(co) == 0, "hclose"); CHECK(fin, "not finished"); if(rc < 0) { char b[10]; int r2 = ms ? (int)mrecv(s.h[i], b, 10, now() + 5) : brecv(s.h[i], b, 1, now() + 5); CHECK(r2 == -1 && errno != EBUSY, "after the end of the failed receive over %s: %d %s", s.text().c_str(), r2, errname(errno)); }
    else run_all({[&] { CHECK((ms ? msend_any(s.h[!i], m, -1) : bsend_any(s.h[!i], m, -1)) == 0, "send"); }, [&] { S g; CHECK((ms ? mrecv_any(s.h[i], m.size(), &m, -1) : brecv_any(s.h[i], m.size(), &g, -1)) >= 0, "receive over %s: %s", s.text().c_str(), errname(errno)); }});
    if(chance(1, 3)) { /* a send for which there is no room fails, and isn't in progress any more */
        int d = draw(2); S big; char c = 'a'; do big = S(30000, c++); while(ms && !s.valid(big) && c <= 'z'); if(ms && !s.valid(big)) big = s.msg(); bool cut = !vt.grace_inf && chance(1, 2); int64_t t1 = now(), dl2 = cut ? t1 + 1 + draw(20) : -1; int r = 0, er = 0; bool end = false; note("send that never ends at %d", d);
        int g = go_fn([&] { in[d][1] = true; for(int k = 0; k < 600 && r == 0; ++k) r = ms ? msend_any(s.h[d], big, dl2) : bsend_any(s.h[d], big, dl2); er = errno; in[d][1] = false; end = true; }); CHECK(g >= 0, "go"); yield();
        if(!end) { for(int k = draw(3); k--;) poke(d, 1); if(cut) { msleep(dl2 + 1); CHECK(end && r == -1 && er == ETIMEDOUT, "send without end over %s: %d %s", s.text().c_str(), r, errname(er)); } label("send cut"); }
        CHECK(hclose(g) == 0, "hclose"); CHECK(end, "not finished"); if(r < 0) { int r2 = ms ? msend_any(s.h[d], m, vt.grace_inf ? -1 : now() + 5) : bsend_any(s.h[d], m, vt.grace_inf ? -1 : now() + 5); CHECK(r2 == -1 && errno != EBUSY, "after the end of the failed send over %s: %d %s", s.text().c_str(), r2, errname(errno)); } }
    s.close(0); s.close(1); if(tries >= 3) nontrivial();
}
/* Datagrams: one coroutine waits in udp_recv. */
PROP_CASE(S03, udp, "a second receive was tried while the first one was waiting") {
    vt.grace_inf = 3000; vt.grace_timed = 5; struct ipaddr a[2]; int h[2]; for(int i = 0; i < 2; ++i) { CHECK(ipaddr_local(&a[i], "127.0.0.1", 0, 0) == 0, "ipaddr_local"); h[i] = udp_open(&a[i], NULL); CHECK(h[i] >= 0, "udp_open: %s", errname(errno)); }
    int n = 1 + draw(5); for(int k = 0; k < n; ++k) {
        int i = draw(2), how = draw(3); bool fin = false; ssize_t rc = 0; int e = 0; char b[64]; struct ipaddr from; S m = gen_bytes(draw(40)); int64_t dl = how == 1 ? now() + 3 + draw(10) : -1; bool gen = chance(1, 2); note("receive at %d, then %d", i, how);
        int co = go_fn([&] { rc = gen ? mrecv(h[i], b, 64, dl) : udp_recv(h[i], &from, b, 64, dl); e = errno; fin = true; }); CHECK(co >= 0, "go"); yield(); CHECK(!fin, "udp_recv out of nothing: %zd %s", rc, errname(e));
        for(int t = draw(4); t--;) { char x[9]; int64_t t0 = now(), d2 = pdl(); ssize_t r; List l; switch(draw(4)) { case 0: r = udp_recv(h[i], NULL, x, 9, d2); break; case 1: r = mrecv(h[i], x, 9, d2); break; case 2: l.recv(20, false); r = udp_recvl(h[i], NULL, l.first(), l.last(), d2); break; default: l.recv(20, false); r = mrecvl(h[i], l.first(), l.last(), d2); } CHECK(r == -1 && errno == EBUSY, "a second receive on a UDP socket: %zd %s", r, r < 0 ? errname(errno) : ""); CHECK(now() == t0 && !fin, "it waited"); nontrivial(); }
        if(chance(1, 2)) { /* the other direction is not in use */ S m2 = gen_bytes(draw(40)); int r = udp_send(h[i], &a[!i], m2.data(), m2.size()); CHECK(r == 0, "udp_send while another coroutine is receiving: %s", errname(errno)); char x[64]; ssize_t z = udp_recv(h[!i], NULL, x, 64, -1); CHECK(z == (ssize_t)m2.size() && !memcmp(x, m2.data(), z), "the datagram sent meanwhile: %zd %s", z, errname(errno)); CHECK(!fin, "the receive has ended: %zd %s", rc, errname(e)); label("sent meanwhile"); }
        if(how == 0) { CHECK(udp_send(h[!i], &a[i], m.data(), m.size()) == 0, "udp_send: %s", errname(errno)); while(!fin) msleep(now() + 1); CHECK(rc == (ssize_t)m.size() && !memcmp(b, m.data(), rc), "the receive in progress: %zd %s", rc, errname(e)); if(!gen) CHECK(ipaddr_equal(&from, &a[!i], 0), "wrong sender"); }
        else if(how == 1) { msleep(dl + 1); CHECK(fin && rc == -1 && e == ETIMEDOUT, "%zd %s", rc, errname(e)); }
        CHECK(hclose(co) == 0, "hclose"); if(how == 2) CHECK(fin && rc == -1 && e == ECANCELED, "%zd %s", rc, errname(e));
        CHECK(udp_send(h[!i], &a[i], "again", 5) == 0, "udp_send: %s", errname(errno)); char x[9]; ssize_t z = udp_recv(h[i], NULL, x, 9, -1); CHECK(z == 5 && !memcmp(x, "again", 5), "after the end of the first receive: %zd %s", z, errname(errno)); }
    CHECK(hclose(h[0]) == 0 && hclose(h[1]) == 0, "hclose");
}
/* Descriptors and bytes over the same IPC connection; listeners. */
PROP_CASE(S03, fds, "always") {
    Conn c; c.open(draw(3)); int i = draw(2), nfd; if(chance(1, 2)) { int p[2]; if(pipe(p)) inconclusive("pipe"); ::close(p[1]); nfd = p[0]; } else { nfd = ::open("/dev/null", O_RDONLY); } 
    if(chance(1, 2)) { bool fin = false, infd = chance(1, 2); int rc = 0, e = 0; char b[4]; int how = draw(3); int64_t t0 = now(), dl = how == 1 ? t0 + 1 + draw(10) : -1; note("%s in progress, then %d", infd ? "ipc_recvfd" : "brecv", how); label(infd ? "recvfd" : "brecv");
        int co = go_fn([&] { rc = infd ? ipc_recvfd(c.h[i], dl) : brecv(c.h[i], b, 4, dl); e = errno; fin = true; }); CHECK(co >= 0, "go"); yield(); CHECK(!fin, "%d %s", rc, errname(e));
        for(int t = 1 + draw(3); t--;) { char x[4]; int64_t d2 = pdl(), t1 = now(); int r = chance(1, 2) ? ipc_recvfd(c.h[i], d2) : brecv(c.h[i], x, 1 + draw(4), d2); CHECK(r == -1 && errno == EBUSY, "a second receive while %s is in progress: %d %s", infd ? "ipc_recvfd" : "brecv", r, r < 0 ? errname(errno) : ""); CHECK(now() == t1 && !fin, "it waited"); }
        if(how == 0) { if(infd) CHECK(ipc_sendfd(c.h[!i], nfd, -1) == 0, "ipc_sendfd: %s", errname(errno)); else { CHECK(bsend(c.h[!i], "ab", 2, -1) == 0, "bsend"); yield(); msleep(now() + 1); CHECK(!fin, "finished early"); CHECK(brecv(c.h[i], b, 1, -1) == -1 && errno == EBUSY, "not busy in the middle of the data"); CHECK(bsend(c.h[!i], "cd", 2, -1) == 0, "bsend"); } msleep(now() + 1); CHECK(fin && rc >= 0, "the receive in progress: %d %s", rc, errname(e)); if(infd) ::close(rc); else CHECK(!memcmp(b, "abcd", 4), "wrong data"); }
        else if(how == 1) { msleep(dl + 1); CHECK(fin && rc == -1 && e == ETIMEDOUT, "%d %s", rc, errname(e)); } CHECK(hclose(co) == 0, "hclose"); CHECK(fin, "not finished"); char x; if(how) { int r = brecv(c.h[i], &x, 1, now()); CHECK(r == -1 && errno != EBUSY, "still busy"); }
        CHECK(bsend(c.h[i], "x", 1, -1) == 0 && brecv(c.h[!i], &x, 1, -1) == 0 && x == 'x', "the other direction: %s", errname(errno)); }
    else { bool fin = false; int rc = 0, e = 0; c.small(2048); S big = gen_bytes(100000); int how = draw(2); int co = go_fn([&] { rc = bsend(c.h[i], big.data(), big.size(), -1); e = errno; fin = true; }); CHECK(co >= 0, "go"); yield(); CHECK(!fin, "%d %s", rc, errname(e)); label("bsend");
        for(int t = 1 + draw(3); t--;) { int64_t d2 = pdl(), t1 = now(); int r = chance(2, 3) ? ipc_sendfd(c.h[i], nfd, d2) : bsend(c.h[i], "z", 1, d2); CHECK(r == -1 && errno == EBUSY, "a second send while bsend is in progress: %d %s", r, r < 0 ? errname(errno) : ""); CHECK(now() == t1 && !fin, "it waited"); }
        if(how) { S g; CHECK(brecv_any(c.h[!i], big.size(), &g, -1) == 0 && g == big, "wrong data"); while(!fin) msleep(now() + 1); CHECK(rc == 0, "the send in progress: %s", errname(e)); CHECK(ipc_sendfd(c.h[i], nfd, -1) == 0, "ipc_sendfd afterwards: %s", errname(errno)); int r = ipc_recvfd(c.h[!i], -1); CHECK(r >= 0, "ipc_recvfd afterwards: %s", errname(errno)); ::close(r); }
        CHECK(hclose(co) == 0, "hclose"); }
    ::close(nfd); hclose(c.h[0]); hclose(c.h[1]); nontrivial();
}
PROP_CASE(S03, accept, "always") {
    bool tcp = chance(1, 3); struct ipaddr a; S p; int ls; if(tcp) { vt.grace_inf = 3000; vt.grace_timed = 5; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr_local"); ls = tcp_listen(&a, 10); } else { p = scratch_dir() + "/l"; ls = ipc_listen(p.c_str(), 10); } CHECK(ls >= 0, "listen: %s", errname(errno));
    auto acc = [&](int64_t dl) { return tcp ? tcp_accept(ls, NULL, dl) : ipc_accept(ls, dl); }; auto con = [&] { return tcp ? tcp_connect(&a, -1) : ipc_connect(p.c_str(), -1); };
    int rounds = 1 + draw(4); while(rounds--) { bool fin = false; int rc = 0, e = 0, how = draw(3); int64_t dl = how == 1 ? now() + 1 + draw(10) : -1; note("%d", how); int co = go_fn([&] { rc = acc(dl); e = errno; fin = true; }); yield(); CHECK(!fin, "accepted nothing: %d %s", rc, errname(e));
        for(int t = draw(3); t--;) { int64_t t0 = now(); int r = acc(pdl()); CHECK(r == -1 && errno == EBUSY, "a second accept: %d %s", r, r < 0 ? errname(errno) : ""); CHECK(now() == t0 && !fin, "it waited"); }
        int x = -1; if(how == 0) { x = con(); CHECK(x >= 0, "connect: %s", errname(errno)); while(!fin) msleep(now() + 1); CHECK(rc >= 0, "the accept in progress: %s", errname(e)); } else if(how == 1) { msleep(dl + 1); CHECK(fin && rc == -1 && e == ETIMEDOUT, "%d %s", rc, errname(e)); }
        CHECK(hclose(co) == 0, "hclose"); if(how == 2) CHECK(fin && rc == -1 && e == ECANCELED, "%d %s", rc, errname(e)); if(how) { x = con(); CHECK(x >= 0, "connect"); rc = acc(-1); CHECK(rc >= 0, "accept afterwards: %s", errname(errno)); }
        CHECK(bsend(x, "q", 1, -1) == 0, "bsend"); char ch; CHECK(brecv(rc, &ch, 1, -1) == 0 && ch == 'q', "brecv"); CHECK(hclose(x) == 0 && hclose(rc) == 0, "hclose"); }
    CHECK(hclose(ls) == 0, "hclose"); nontrivial();
}
