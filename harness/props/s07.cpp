#include "conn.h"
#include <arpa/inet.h>
#include <algorithm>
typedef std::string S;
namespace {
struct Dgram { S d; struct ipaddr from; bool raw; };
struct Sock { int h = -1, raw = -1; struct ipaddr a; bool bound = false, hasremote = false, any = false; struct ipaddr remote; std::deque<Dgram> q; };
bool same(const struct ipaddr &x, const struct ipaddr &y) { /* own comparison */ struct sockaddr *p = (struct sockaddr*)&x, *q = (struct sockaddr*)&y; if(p->sa_family != q->sa_family) return false; if(p->sa_family == AF_INET) { auto a = (struct sockaddr_in*)p, b = (struct sockaddr_in*)q; return a->sin_port == b->sin_port && a->sin_addr.s_addr == b->sin_addr.s_addr; } auto a = (struct sockaddr_in6*)p, b = (struct sockaddr_in6*)q; return a->sin6_port == b->sin6_port && !memcmp(&a->sin6_addr, &b->sin6_addr, 16); }
const char *loop(int fam) { return fam == AF_INET ? "127.0.0.1" : "::1"; }
int port_of(const struct ipaddr &a) { return ntohs(((struct sockaddr_in*)&a)->sin_port); }
S astr(const struct ipaddr &a) { char b[64] = "?"; if(((struct sockaddr*)&a)->sa_family == AF_INET) inet_ntop(AF_INET, &((struct sockaddr_in*)&a)->sin_addr, b, 64); else inet_ntop(AF_INET6, &((struct sockaddr_in6*)&a)->sin6_addr, b, 64); return S(b) + ":" + std::to_string(port_of(a)); }
int fam_of(const struct ipaddr &a) { return ((struct sockaddr*)&a)->sa_family; }
/* A plain OS socket as an independent peer. */
void raw_open(Sock &s, int fam) { s.raw = socket(fam, SOCK_DGRAM, 0); memset(&s.a, 0, sizeof s.a); socklen_t l; if(fam == AF_INET) { auto p = (struct sockaddr_in*)&s.a; p->sin_family = AF_INET; p->sin_addr.s_addr = htonl(INADDR_LOOPBACK); l = sizeof *p; } else { auto p = (struct sockaddr_in6*)&s.a; p->sin6_family = AF_INET6; p->sin6_addr = in6addr_loopback; l = sizeof *p; } if(s.raw < 0 || bind(s.raw, (struct sockaddr*)&s.a, l) || getsockname(s.raw, (struct sockaddr*)&s.a, &l)) inconclusive("socket"); s.bound = true; }
socklen_t alen(const struct ipaddr &a) { return fam_of(a) == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6); }
S payload() { switch(weighted({3, 5, 3, 2})) { case 0: return gen_bytes(draw(4)); case 1: return gen_bytes(draw(100)); case 2: return gen_bytes(draw(2000)); default: return gen_bytes(draw(9000)); } }
}
PROP_CASE(S07, model, "at least 4 datagrams arrived and one operation failed or dropped something") {
    vt.grace_inf = 3000; vt.grace_timed = 4; bool v6 = have_ip6() && chance(1, 3); int fam = v6 ? AF_INET6 : AF_INET; int n = 2 + draw(3); std::vector<Sock> s(n); int ok = 0, bad = 0; size_t load = 0; label(v6 ? "IPv6" : "IPv4");
    for(int i = 0; i < n; ++i) { Sock &x = s[i]; if(i && chance(1, 4)) { raw_open(x, fam); note("%d: OS socket %s", i, astr(x.a).c_str()); continue; }
        bool local = i == 0 || chance(5, 6); x.any = local && chance(1, 8); x.hasremote = i && chance(1, 2); struct ipaddr l, keep; if(x.hasremote) x.remote = s[draw(i)].a; if(x.hasremote && port_of(x.remote) == 0) x.hasremote = false; if(!local && !x.hasremote && v6) local = true;
        CHECK(ipaddr_local(&l, x.any ? NULL : loop(fam), 0, v6 ? IPADDR_IPV6 : IPADDR_IPV4) == 0, "ipaddr_local: %s", errname(errno)); keep = x.remote; void *st = NULL; if(chance(1, 2)) { st = malloc(sizeof(struct udp_storage)); memset(st, 0xA5, sizeof(struct udp_storage)); }
        x.h = st ? udp_open_mem(local ? &l : NULL, x.hasremote ? &x.remote : NULL, (struct udp_storage*)st) : udp_open(local ? &l : NULL, x.hasremote ? &x.remote : NULL); CHECK(x.h >= 0, "udp_open: %s", errname(errno)); if(x.hasremote) CHECK(!memcmp(&keep, &x.remote, sizeof keep), "udp_open changed the remote address");
        if(local) { CHECK(port_of(l) > 0, "the port was not filled in"); x.a = l; x.bound = true; /* another socket of the OS agrees that it is taken */ int t = socket(fam, SOCK_DGRAM, 0); CHECK(bind(t, (struct sockaddr*)&l, alen(l)) == -1 && errno == EADDRINUSE, "nothing is bound to the address udp_open has filled in"); ::close(t); if(x.any) { struct ipaddr lo; CHECK(ipaddr_local(&lo, loop(fam), port_of(l), v6 ? IPADDR_IPV6 : IPADDR_IPV4) == 0, "ipaddr_local"); x.a = lo; } } else { memset(&x.a, 0, sizeof x.a); }
        note("%d: udp socket %s%s%s", i, x.bound ? astr(x.a).c_str() : "unbound", x.any ? " (any)" : "", x.hasremote ? (" remote " + astr(x.remote)).c_str() : ""); }
    int ops = 5 + draw(40); while(ops--) { int i = draw(n); Sock &x = s[i]; int kind = weighted({6, 6, 1, 1});
        if(kind == 0) { if(load > 120000) continue; int j = draw(n); S d = payload(); bool def = x.h >= 0 && chance(1, 3); Sock *to = nullptr; struct ipaddr dst; if(!def) { if(!s[j].bound) continue; dst = s[j].a; to = &s[j]; } else if(x.hasremote) { for(auto &y : s) if(y.bound && same(y.a, x.remote)) to = &y; }
            int rc; errno = 0; if(x.raw >= 0) { rc = sendto(x.raw, d.data(), d.size(), 0, (struct sockaddr*)&dst, alen(dst)) < 0 ? -1 : 0; }
            else { List l; switch(draw(def ? 4 : 2)) { case 0: rc = udp_send(x.h, def ? NULL : &dst, d.data(), d.size()); break; case 1: l.send(d); rc = udp_sendl(x.h, def ? NULL : &dst, l.first(), l.last()); break; case 2: rc = msend(x.h, d.data(), d.size(), chance(1, 2) ? -1 : 0); break; default: l.send(d); rc = msendl(x.h, l.first(), l.last(), -1); } l.check("send"); }
            int er = errno; note("%d sends %zu bytes to %s -> %d %s", i, d.size(), def ? x.hasremote ? astr(x.remote).c_str() : "nobody" : astr(dst).c_str(), rc, rc < 0 ? errname(er) : "");
            if(def && !x.hasremote) { CHECK(rc == -1 && er == EINVAL, "a send to nobody: %d %s", rc, rc < 0 ? errname(er) : ""); bad++; label("no destination"); continue; }
            CHECK(rc == 0, "send: %s", errname(er)); if(!x.bound) { /* it has an address now: learn it from the first datagram */ } 
            if(to) { struct ipaddr src = x.a; if(!x.bound) memset(&src, 0, sizeof src); load += d.size() + 1500; to->q.push_back({d, src, x.raw >= 0}); } }
        else if(kind == 1) { if(x.raw >= 0) { char b[10000]; struct ipaddr f; socklen_t fl = sizeof f; struct pollfd p = {x.raw, POLLIN, 0}; if(x.q.empty()) continue; if(__real_poll(&p, 1, 2000) != 1) fail("a datagram did not arrive"); ssize_t z = recvfrom(x.raw, b, sizeof b, 0, (struct sockaddr*)&f, &fl); auto g = x.q.front(); x.q.pop_front(); load -= g.d.size() + 1500; if(z != (ssize_t)g.d.size() || memcmp(b, g.d.data(), z)) fail("a plain socket receives %s instead of %s", hex(b, z).c_str(), hex(g.d.data(), g.d.size()).c_str()); if(port_of(g.from)) CHECK(same(f, g.from), "it came from %s instead of %s", astr(f).c_str(), astr(g.from).c_str()); ok++; continue; }
            std::deque<Dgram> &q = x.q; if(x.hasremote) for(size_t k = 0; k < q.size();) { if(port_of(q[k].from) && !same(q[k].from, x.remote)) { load -= q[k].d.size() + 1500; q.erase(q.begin() + k); bad++; label("foreign datagram"); } else if(!port_of(q[k].from)) { /* from a socket that was not bound: its address differs from every known one */ load -= q[k].d.size() + 1500; q.erase(q.begin() + k); bad++; label("foreign datagram"); } else k++; }
            size_t next = q.empty() ? 50 : q.front().d.size(); size_t cap = chance(1, 5) && next ? draw(next) : next + draw(30); int64_t t0 = now(), dl = q.empty() ? (chance(1, 2) ? 0 : t0 + draw(10)) : chance(1, 2) ? -1 : t0 + 100; struct ipaddr from; memset(&from, 0x5a, sizeof from); struct ipaddr f0 = from; bool wf = chance(2, 3); std::unique_ptr<char[]> b(new char[cap]); ssize_t rc; S got; errno = 0; int form = draw(6); List l; int er; if(form == 5 && q.empty()) form = 0; fi.eagain_pct = chance(1, 4) ? 30 : 0;
            switch(form) { case 0: rc = udp_recv(x.h, wf ? &from : NULL, b.get(), cap, dl); break; case 1: case 4: l.recv(cap, true); rc = udp_recvl(x.h, wf ? &from : NULL, l.first(), l.last(), dl); break; case 2: rc = mrecv(x.h, b.get(), cap, dl); break; case 3: l.recv(cap, true); rc = mrecvl(x.h, l.first(), l.last(), dl); break; default: rc = mrecvl(x.h, NULL, NULL, dl); label("dropped"); } er = errno; fi.eagain_pct = 0;
            bool haslist = form == 1 || form == 3 || form == 4; if(haslist) l.check("receive"); bool addr = wf && (form == 0 || form == 1 || form == 4); note("%d receives into %zu, form %d -> %zd %s", i, cap, form, rc, rc < 0 ? errname(er) : "");
            if(q.empty()) { CHECK(rc == -1 && er == ETIMEDOUT, "a datagram of %zd bytes out of nothing (%s)", rc, rc < 0 ? errname(er) : "success"); CHECK(now() == std::max(dl, t0), "deadline +%d, ended at +%d", (int)(dl - t0), (int)(now() - t0)); bad++; continue; }
            size_t k = 0; /* in order unless another one fits better */ if(rc >= 0) for(size_t j = 0; j < q.size(); ++j) { if((ssize_t)q[j].d.size() != rc) continue; bool m = form == 5 || (haslist ? l.matches(q[j].d) : !memcmp(b.get(), q[j].d.data(), rc)); if(m && (!addr || !port_of(q[j].from) || same(from, q[j].from))) { k = j; break; } }
            Dgram g = q[k]; q.erase(q.begin() + k); load -= g.d.size() + 1500;
            if(form != 5 && g.d.size() > cap) { CHECK(rc == -1 && er == EMSGSIZE, "a datagram of %zu bytes into a buffer of %zu: %zd %s", g.d.size(), cap, rc, rc < 0 ? errname(er) : ""); CHECK(!addr || !memcmp(&from, &f0, 0), "x"); bad++; label("too long"); continue; }
            CHECK(rc == (ssize_t)g.d.size(), "a datagram of %zu bytes: %zd %s", g.d.size(), rc, rc < 0 ? errname(er) : ""); if(form != 5) { if(haslist ? !l.matches(g.d) : memcmp(b.get(), g.d.data(), rc)) fail("received %s instead of %s", haslist ? hex(l.got(rc).data(), rc).c_str() : hex(b.get(), rc).c_str(), hex(g.d.data(), g.d.size()).c_str()); } if(addr && port_of(g.from)) CHECK(same(from, g.from), "it came from %s instead of %s", astr(from).c_str(), astr(g.from).c_str()); ok++; }
        else if(kind == 2) { if(x.raw >= 0) continue; struct ipaddr d = s[0].a; S big(65508 + draw(3000), 'b'); if(chance(1, 2)) big.resize(65600); int rc = udp_send(x.h, &d, big.data(), big.size()); if(v6 && big.size() <= 65527) { if(rc == 0) inconclusive("x"); } CHECK(rc == -1 && errno == EMSGSIZE, "a datagram of %zu bytes: %d %s", big.size(), rc, errname(errno)); bad++; label("too long to send"); }
        else { /* address in use, not ours, of the other family */ struct ipaddr l; int rc, what = draw(4); errno = 0; int fds = open_fds(); if(what == 0 && s[0].bound) { l = s[0].a; rc = udp_open(&l, NULL); CHECK(rc == -1 && errno == EADDRINUSE, "opened at an address in use: %d %s", rc, rc < 0 ? errname(errno) : ""); } else if(what == 1) { CHECK(ipaddr_local(&l, v6 ? "2001:db8::1" : "192.0.2.1", draw(2) * 5000, v6 ? IPADDR_IPV6 : IPADDR_IPV4) == 0, "ipaddr_local"); rc = udp_open(&l, NULL); CHECK(rc == -1 && errno == EADDRNOTAVAIL, "opened at an address which is not ours: %d %s", rc, rc < 0 ? errname(errno) : ""); }
            else if(what == 2) { struct ipaddr r; CHECK(ipaddr_local(&l, loop(fam), 0, v6 ? IPADDR_IPV6 : IPADDR_IPV4) == 0, "local"); CHECK(ipaddr_remote(&r, v6 ? "127.0.0.1" : "::1", 5000, v6 ? IPADDR_IPV4 : IPADDR_IPV6, -1) == 0, "ipaddr_remote"); rc = udp_open(&l, &r); CHECK(rc == -1 && errno == EINVAL, "addresses of two families: %d %s", rc, rc < 0 ? errname(errno) : ""); } else { CHECK(ipaddr_local(&l, loop(fam), 0, v6 ? IPADDR_IPV6 : IPADDR_IPV4) == 0, "local"); rc = udp_open_mem(&l, NULL, NULL); CHECK(rc == -1 && errno == EINVAL, "no memory given: %d %s", rc, errname(errno)); } CHECK(open_fds() == fds, "a descriptor leaked"); bad++; label("open fails"); } }
    for(int i = 0; i < n; ++i) if(s[i].raw >= 0) ::close(s[i].raw); else { int fds = open_fds(); CHECK(hclose(s[i].h) == 0, "hclose"); CHECK(open_fds() == fds - 1, "the descriptor is still open"); if(s[i].bound && !s[i].any) { int t = socket(fam, SOCK_DGRAM, 0); if(bind(t, (struct sockaddr*)&s[i].a, alen(s[i].a)) != 0) note("the port is taken again"); ::close(t); } }
    if(ok >= 4 && bad) nontrivial();
}
/* A blocked receive ends exactly when its datagram comes, its deadline passes or it is cancelled; foreign datagrams do not count. */
PROP_CASE(S07, blocked, "always") {
    vt.grace_inf = 3000; vt.grace_timed = 4; struct ipaddr a, b, o; int hb, ho; CHECK(ipaddr_local(&b, "127.0.0.1", 0, 0) == 0 && ipaddr_local(&o, "127.0.0.1", 0, 0) == 0 && ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr_local"); hb = udp_open(&b, NULL); ho = udp_open(&o, NULL); CHECK(hb >= 0 && ho >= 0, "udp_open"); int ha = udp_open(&a, &b); CHECK(ha >= 0, "udp_open");
    struct Act { int64_t t; bool foreign; S d; }; std::vector<Act> acts; int64_t t = 0; for(int k = draw(5); k--;) { t += 2 * (1 + draw(6)); acts.push_back({t, chance(1, 2), gen_bytes(draw(50))}); } int64_t dl = chance(2, 3) ? 1 + 2 * (int)draw(20) : -1, can = chance(1, 4) ? 101 : -1; size_t cap = 25 + draw(30);
    int64_t end = INT64_MAX; int ex = 0; S d; for(auto &x : acts) if(!x.foreign) { end = x.t; d = x.d; ex = d.size() > cap ? EMSGSIZE : 0; break; } if(dl >= 0 && dl < end) { end = dl; ex = ETIMEDOUT; } if(end == INT64_MAX) can = 101; if(can >= 0 && can < end) { end = can; ex = ECANCELED; } note("deadline %d: %s at %d", (int)dl, ex ? errname(ex) : "success", (int)end);
    int64_t t0 = now(), at = -1; ssize_t rc = -2; int er = 0; S g(cap, 0); struct ipaddr from; int co = go_fn([&] { errno = 0; rc = udp_recv(ha, &from, &g[0], cap, dl < 0 ? -1 : t0 + dl); er = errno; at = now() - t0; }); CHECK(co >= 0, "go");
    for(auto &x : acts) { msleep(t0 + x.t); CHECK(udp_send(x.foreign ? ho : hb, &a, x.d.data(), x.d.size()) == 0, "udp_send: %s", errname(errno)); if(x.t == end && !x.foreign) for(int k = 0; k < 3000 && at < 0; ++k) { struct pollfd p = {-1, 0, 0}; __real_poll(&p, 1, 0); yield(); if(k > 5) msleep(now()); } } if(end > t) msleep(t0 + std::min<int64_t>(end, 1000) + (ex == ETIMEDOUT ? 1 : 0)); CHECK(hclose(co) == 0, "hclose"); CHECK(at >= 0, "no result");
    if(ex) CHECK(rc == -1 && er == ex, "%zd %s instead of %s", rc, rc < 0 ? errname(er) : "", errname(ex)); else CHECK(rc == (ssize_t)d.size() && !memcmp(g.data(), d.data(), rc) && same(from, b), "%zd %s", rc, rc < 0 ? errname(er) : ""); CHECK(at >= end && at <= end + (ex == ETIMEDOUT || ex == ECANCELED ? 0 : 2), "ended at %d instead of %d", (int)at, (int)end); hclose(ha); hclose(hb); hclose(ho); label(ex ? errname(ex) : "success"); nontrivial();
}
PROP_CASE(S07, flood, "always") {
    struct ipaddr a, r; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0 && ipaddr_remote(&r, "127.0.0.1", 1 + draw(60000), 0, -1) == 0, "ipaddr"); std::vector<int> f0 = fd_list(); int h = udp_open(&a, &r); CHECK(h >= 0, "udp_open"); int fd = -1; for(int f : fd_list()) if(!std::count(f0.begin(), f0.end(), f)) { int t; socklen_t l = sizeof t; if(getsockopt(f, SOL_SOCKET, SO_TYPE, &t, &l) == 0) fd = f; } CHECK(fd >= 0, "no socket");
    struct ipaddr from; CHECK(ipaddr_remote(&from, chance(1, 2) ? "127.0.0.1" : "127.0.0.2", (port_of(r) % 60000) + 1, 0, -1) == 0, "ipaddr"); fi.flood_fd = fd; fi.flood_ms = 1 + draw(3); fi.flood_name.assign((char*)&from, sizeof(struct sockaddr_in)); int64_t t0 = now(), dl = t0 + draw(40); char b[10]; ssize_t rc = chance(1, 2) ? udp_recv(h, NULL, b, 10, dl) : mrecv(h, b, 10, dl); CHECK(rc == -1 && errno == ETIMEDOUT, "%zd %s", rc, errname(errno)); CHECK(now() <= std::max(dl, t0) + 2 * fi.flood_ms, "ended at +%d although the deadline was at +%d", (int)(now() - t0), (int)(dl - t0)); nontrivial();
}
