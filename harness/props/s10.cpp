#include "dnssrv.h"
#include "conn.h"
#include <arpa/inet.h>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
typedef std::string S;
namespace {
/* What happens when an address is connected to. */
struct Plan { int fam; bool accept = false, never = false; int delay = 0, err = ECONNREFUSED; bool used = false; };
struct Attempt { int64_t t; int fam; S addr; int port; int fd, peer; };
S raw(const struct sockaddr *a) { return a->sa_family == AF_INET ? S((char*)&((struct sockaddr_in*)a)->sin_addr, 4) : S((char*)&((struct sockaddr_in6*)a)->sin6_addr, 16); }
S text(const S &r) { char b[64] = "?"; inet_ntop(r.size() == 4 ? AF_INET : AF_INET6, r.data(), b, sizeof b); return b; }
struct World {
    std::map<S, Plan> plan; std::vector<Attempt> log; int64_t t0 = 0; int port = 0; std::vector<int> cos; int delay[2] = {0, 0}; bool silent[2] = {false, false}; int rcode[2] = {0, 0}; std::vector<S> recs[2]; DnsSrv srv; int base = 0;
    void start(void) {
        vt.grace_timed = 3; vt.grace_inf = 3000; dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", NULL);
        ev.connect = [this](int s, const struct sockaddr *a, unsigned, int &e) { Attempt x; x.t = now() - t0; x.fam = a->sa_family == AF_INET; x.addr = raw(a); x.port = ntohs(a->sa_family == AF_INET ? ((struct sockaddr_in*)a)->sin_port : ((struct sockaddr_in6*)a)->sin6_port); x.fd = s; x.peer = -1; note("at %d: attempt to connect to %s", (int)x.t, text(x.addr).c_str()); auto i = plan.find(x.addr); if(i == plan.end()) fail("connects to %s, which is not an address of the host", text(x.addr).c_str()); if(i->second.used) fail("connects to %s twice", text(x.addr).c_str()); CHECK(x.port == port, "connects to port %d instead of %d", x.port, port); i->second.used = true; Plan &p = i->second;
            if(!p.accept && !p.never && !p.delay) { log.push_back(x); e = p.err; return true; }
            int sp[2]; bool keep = fi.off; fi.off = true; if(socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) inconclusive("no sockets"); fi.off = keep; if(dup2(sp[0], s) != s) fail("dup2"); ::close(sp[0]); fcntl(s, F_SETFL, O_NONBLOCK); fcntl(sp[1], F_SETFL, O_NONBLOCK); x.peer = sp[1]; log.push_back(x); if(p.accept && !p.delay && !p.never) { e = 0; return true; }
            static char junk[4096]; while(::send(s, junk, sizeof junk, MSG_NOSIGNAL | MSG_DONTWAIT) > 0); e = EINPROGRESS; if(p.never) return true; size_t k = log.size() - 1; bool ok = p.accept; int d = p.delay; bool o2 = fi.off; fi.off = true; cos.push_back(go_fn([this, k, ok, d] { if(msleep(now() + d)) return; if(ok) { static char b[4096]; while(::recv(log[k].peer, b, sizeof b, MSG_DONTWAIT) > 0); } else { ::close(log[k].peer); log[k].peer = -1; } })); fi.off = o2; return true; };
        srv.start([this](DnsQ q) { int t = q.type == T_A; if(q.type != T_A && q.type != T_AAAA) fail("question of type %d", q.type); if(silent[t]) return; DnsPkt p; p.id = q.id; p.qname = q.name; p.qtype = q.type; if(rcode[t]) p.rcode = rcode[t]; else for(auto &r : recs[t]) p.an.push_back({q.name, q.type, r}); srv.reply(q, p.encode(), delay[t]); });
        base = open_fds();
    }
    void stop(void) { for(int h : cos) if(h >= 0) hclose(h); cos.clear(); for(auto &x : log) if(x.peer >= 0) { ::close(x.peer); x.peer = -1; } log.clear(); for(auto &p : plan) p.second.used = false; }
};
/* What has to happen: attempts (time, family) up to the end. */
struct Expect { std::vector<std::pair<int64_t, int>> att; };
std::vector<std::pair<int64_t, int>> schedule(int n6, int d6, bool nul6, int n4, int d4, int64_t horizon) { std::vector<std::pair<int64_t, int>> r; int left[2] = {std::min(n6, 10), std::min(n4, 10)}; int d[2] = {d6, d4}; int64_t T; int pref = 0; if(left[0] && d6 < 50) T = d6; else if(!left[0] && nul6 && d6 < 50) T = d6; else T = 50;
    while(T < horizon) { bool av[2] = {left[0] && d[0] <= T, left[1] && d[1] <= T}; if(!av[0] && !av[1]) { int64_t nx = -1; for(int k = 0; k < 2; ++k) if(left[k] && (nx < 0 || d[k] < nx)) nx = d[k]; if(nx < 0) break; T = nx; continue; } int k = av[pref] ? pref : !pref; r.push_back({T, k}); left[k]--; pref = !k; T += 300; } return r; }
void make_world(World &w, bool sure) {
    int n[2]; for(int t = 0; t < 2; ++t) { n[t] = draw(chance(1, 8) ? 13 : 4); w.delay[t] = chance(1, 3) ? 0 : chance(1, 2) ? draw(8) * 10 + (t ? 6 : 3) : draw(100) * 10 + (t ? 6 : 3); if(!n[t]) { w.silent[t] = chance(1, 4); w.rcode[t] = chance(1, 2) ? 0 : (int[]){2, 3, 5}[draw(3)]; } }
    if(w.delay[0] == 0 && w.delay[1] == 0) w.delay[1] = 6; (void)sure; int k = 0; int style = draw(4); /* several attempts may end at the same moment */ int tie = chance(1, 3) ? 7 + 10 * draw(30) : 0; for(int t = 0; t < 2; ++t) for(int i = 0; i < n[t]; ++i) { S a(t ? 4 : 16, 0); if(t) { a[0] = 10; a[1] = 1; a[2] = (char)draw(256); a[3] = (char)++k; } else { a[0] = 0x20; a[1] = 1; a[14] = (char)draw(256); a[15] = (char)++k; } w.recs[t].push_back(a); Plan p; p.fam = t; p.accept = style == 0 || (style != 3 && chance(1, 3)); p.never = style == 2 ? chance(1, 2) : chance(1, 4); if(p.never) p.accept = false; p.delay = tie ? tie + 300 * draw(4) : chance(1, 3) ? 0 : 7 + 10 * draw(chance(1, 2) ? 25 : 250); static const int errs[] = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL, ETIMEDOUT}; p.err = errs[draw(6)]; w.plan[a] = p; }
    do w.port = chance(1, 3) ? (int[]){1, 80, 65535}[draw(3)] : 1 + draw(65535); while(w.port == 53);
    note("IPv6: %zu after %d%s, IPv4: %zu after %d%s", w.recs[0].size(), w.delay[0], w.silent[0] ? " (never)" : "", w.recs[1].size(), w.delay[1], w.silent[1] ? " (never)" : ""); for(auto &p : w.plan) note("%s %s after %d", text(p.first).c_str(), p.second.never ? "never" : p.second.accept ? "accepts" : "refuses", p.second.delay);
}
/* go() inside of the library moves the stack pointer by means of a variable-length array; what the sanitizer marked around it stays marked. */
#ifdef VERIF_ASAN
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
__attribute__((noinline)) void wash(void) { char *p = (char*)__builtin_frame_address(0); __asan_unpoison_memory_region(p - 40000, 40000 - 32); }
#else
void wash(void) {}
#endif
int he_connect(const char *name, int port, int64_t dl) { int s = happyeyeballs_connect(name, port, dl); int e = errno; wash(); errno = e; return s; }
/* The connection works in both directions and belongs to this attempt. */
int check_conn(World &w, int s) { int k = -1; S x = gen_bytes(1 + draw(200)); int rc = bsend(s, x.data(), x.size(), now() + 1000); CHECK(rc == 0, "the new connection doesn't send: %s", errname(errno)); for(size_t i = 0; i < w.log.size(); ++i) if(w.log[i].peer >= 0) { static char b[300]; ssize_t n = ::recv(w.log[i].peer, b, sizeof b, MSG_DONTWAIT); if(n == (ssize_t)x.size() && !memcmp(b, x.data(), n)) { CHECK(k < 0, "data arrived twice"); k = i; } else if(n > 0) { /* never completed: its junk */ } } CHECK(k >= 0, "the connection isn't one of those accepted"); S y = gen_bytes(1 + draw(100)); CHECK(::send(w.log[k].peer, y.data(), y.size(), MSG_NOSIGNAL) == (ssize_t)y.size(), "send"); S z(y.size(), 0); rc = brecv(s, &z[0], z.size(), now() + 1000); CHECK(rc == 0 && z == y, "the new connection doesn't receive"); return k; }
bool peer_gone(int fd) { static char b[8192]; ssize_t n; while((n = ::recv(fd, b, sizeof b, MSG_DONTWAIT)) > 0); return n == 0 || (n < 0 && errno == ECONNRESET); }
}
/* Exact schedule of the attempts and exact outcome. */
PROP_CASE(S10, model, "at least two attempts were due") {
    World w; make_world(w, false); w.start(); int rounds = 1 + chance(1, 4); while(rounds--) { int64_t limit = chance(1, 8) ? draw(60) : 1 + draw(chance(1, 2) ? 9000 : 1200); bool cancel = chance(1, 6); if(chance(1, 6)) { /* just when an attempt ends */ auto sc = schedule(w.recs[0].size(), w.delay[0], !w.silent[0], w.recs[1].size(), w.delay[1], 9000); if(sc.size() && !w.plan.empty()) { auto p = w.plan.begin(); std::advance(p, draw(w.plan.size())); limit = sc[draw(sc.size())].first + p->second.delay + draw(2); } } auto sch = schedule(w.recs[0].size(), w.delay[0], !w.silent[0], w.recs[1].size(), w.delay[1], limit + 1); 
        S name = chance(1, 2) ? "www.example.org" : "a.b"; std::unique_ptr<char[]> nm(new char[name.size() + 1]); memcpy(nm.get(), name.c_str(), name.size() + 1); w.t0 = now(); int s = -2, er = 0; int64_t took = -1; int hs = -1; auto call = [&](int64_t dl) { s = he_connect(nm.get(), w.port, dl); er = errno; took = now() - w.t0; };
        if(cancel) { int h = go_fn([&] { call(-1); }); CHECK(h >= 0, "go"); msleep(w.t0 + limit); bool fin = s != -2; CHECK(hclose(h) == 0, "hclose"); CHECK(s != -2, "not finished"); if(!fin) { CHECK(s == -1 && er == ECANCELED, "cancelled: %d %s", s, s < 0 ? errname(er) : ""); label("cancelled"); } else if(s < 0) fail("failed without a deadline: %s", errname(er)); } else { int64_t dl = w.t0 + limit; if(limit == 0 && chance(1, 2)) dl = 0; call(dl); }
        note("limit %d%s: %d %s after %d", (int)limit, cancel ? " (cancel)" : "", s, s < 0 ? errname(er) : "", (int)took); CHECK(took <= limit, "took %d ms, deadline %d", (int)took, (int)limit); if(s < 0 && !cancel) { CHECK(er == ETIMEDOUT, "failed with %s", errname(er)); CHECK(took == limit, "timed out at %d instead of %d", (int)took, (int)limit); }
        /* the attempts */ size_t i = 0; for(; i < w.log.size(); ++i) { if(i >= sch.size()) fail("unexpected attempt at %d", (int)w.log[i].t); CHECK(w.log[i].t == sch[i].first, "attempt %zu was made at %d instead of %d", i, (int)w.log[i].t, (int)sch[i].first); CHECK(w.log[i].fam == sch[i].second, "attempt %zu is to an IPv%d address", i, w.log[i].fam ? 4 : 6); } for(size_t k = i; k < sch.size(); ++k) CHECK(sch[k].first >= took, "the attempt due at %d was not made", (int)sch[k].first);
        /* the outcome */ int64_t best = -1; for(auto &x : w.log) { Plan &p = w.plan[x.addr]; if(p.accept && (best < 0 || x.t + p.delay < best)) best = x.t + p.delay; } if(best >= 0 && best < limit) { CHECK(s >= 0, "not connected although a connection was accepted at %d", (int)best); CHECK(took == best, "connected at %d instead of %d", (int)took, (int)best); } else if(best < 0 || best > limit) CHECK(s < 0, "connected to nobody"); if(sch.size() >= 2) nontrivial(); if(s >= 0) label("connected");
        if(s >= 0) { int k = check_conn(w, s); Plan &p = w.plan[w.log[k].addr]; CHECK(w.log[k].t + p.delay == best, "not the first connection that was accepted"); for(size_t j = 0; j < w.log.size(); ++j) if((int)j != k && w.log[j].peer >= 0) CHECK(peer_gone(w.log[j].peer), "the attempt to %s was not cancelled", text(w.log[j].addr).c_str()); CHECK(hclose(s) == 0, "hclose"); CHECK(peer_gone(w.log[k].peer), "the connection was not closed"); } else for(auto &x : w.log) if(x.peer >= 0) CHECK(peer_gone(x.peer), "the attempt to %s was not cancelled", text(x.addr).c_str());
        (void)hs; w.stop(); CHECK(open_fds() == w.base, "descriptors leak: %d, then %d", w.base, open_fds()); }
    w.srv.stop();
}
/* Several connections are made at the same time. */
PROP_CASE(S10, parallel, "always") {
    World w; make_world(w, false); for(auto &p : w.plan) { p.second.accept = true; p.second.never = false; if(p.second.delay > 300) p.second.delay = 117; } bool any = !w.plan.empty(); /* the same address may be used by every caller */ w.start(); auto inner = ev.connect; int n = 2 + draw(3), fin = 0; ev.connect = [&w, inner](int s, const struct sockaddr *a, unsigned l, int &e) { for(auto &p : w.plan) p.second.used = false; return inner(s, a, l, e); }; std::vector<int> hs, cs; w.t0 = now();
    for(int i = 0; i < n; ++i) { bool c = chance(1, 4); int64_t dl = c || !any ? now() + draw(800) : -1; int64_t st = draw(400); hs.push_back(go_fn([&, dl, st] { if(msleep(now() + st)) return; int s = he_connect("www.example.org", w.port, dl); if(s < 0) CHECK(dl >= 0 && errno == ETIMEDOUT, "failed: %s", errname(errno)); else cs.push_back(s); fin++; })); } while(fin < n) msleep(now() + 50); for(int h : hs) hclose(h); for(int s : cs) { check_conn(w, s); hclose(s); } for(auto &x : w.log) if(x.peer >= 0) CHECK(peer_gone(x.peer), "the attempt to %s was not cancelled", text(x.addr).c_str()); w.stop(); CHECK(open_fds() == w.base, "descriptors leak: %d, then %d", w.base, open_fds()); w.srv.stop(); nontrivial();
}
/* Memory or descriptors run out somewhere. */
PROP_CASE(S10, faults, "the fault happened") {
    World w; make_world(w, false); w.start(); bool mem = chance(2, 3); int at = draw(mem ? (chance(1, 2) ? 12 : 60) : 8); int en = chance(1, 2) ? EMFILE : ENFILE; int n = 1 + draw(chance(1, 2) ? 1 : 4); /* load the files first */ if(chance(1, 2)) { struct ipaddr a[3]; ipaddr_remotes(a, 3, "x.example.org", 1, IPADDR_IPV4, now() + 20000); w.base = open_fds(); } w.t0 = now(); int64_t limit = 1 + draw(4000);
    if(mem) { fi.alloc_fail_at = fi.allocs + at; fi.alloc_fail_n = n; } else { fi.fdmake_fail_at = fi.fdmakes + at; fi.fdmake_errno = en; } errno = 0; int s = he_connect("www.example.org", w.port, w.t0 + limit); int er = errno; fi.alloc_fail_at = fi.fdmake_fail_at = -1; int64_t took = now() - w.t0; bool hit = mem ? fi.alloc_failed > 0 : fi.fdmake_failed > 0; if(hit) nontrivial(); note("%s %d x%d: %d %s after %d of %d", mem ? "allocation" : "descriptor", at, n, s, s < 0 ? errname(er) : "", (int)took, (int)limit); CHECK(took <= limit, "took %d of %d", (int)took, (int)limit);
    if(s < 0) CHECK(er == ETIMEDOUT || (hit && (mem ? er == ENOMEM : er == EMFILE || er == ENFILE)), "failed with %s", errname(er)); else { check_conn(w, s); CHECK(hclose(s) == 0, "hclose"); } for(auto &x : w.log) if(x.peer >= 0) CHECK(peer_gone(x.peer), "the attempt to %s was not cancelled", text(x.addr).c_str()); w.stop(); CHECK(open_fds() <= w.base, "descriptors leak: %d, then %d", w.base, open_fds());
    /* everything works again */ int64_t best = -1; auto sch = schedule(w.recs[0].size(), w.delay[0], !w.silent[0], w.recs[1].size(), w.delay[1], 20000); (void)sch; bool ok = false; for(auto &p : w.plan) if(p.second.accept) ok = true; w.t0 = now(); (void)best; if(w.recs[0].size() <= 10 && w.recs[1].size() <= 10) { s = he_connect("www.example.org", w.port, now() + 30000); if(ok) { CHECK(s >= 0, "afterwards: %s", errname(errno)); check_conn(w, s); CHECK(hclose(s) == 0, "hclose"); } else CHECK(s < 0, "connected to nobody"); } w.stop(); CHECK(open_fds() <= w.base, "descriptors leak: %d, then %d", w.base, open_fds()); w.srv.stop();
}
/* Arguments. */
PROP_CASE(S10, args, "always") {
    vt.grace_timed = 3; vt.grace_inf = 3000; dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", NULL); DnsSrv srv; srv.start([&](DnsQ) { fail("a question is asked"); }); int base = open_fds(); int64_t t = now(); int k = draw(5), s = 0; errno = 0; switch(k) { case 0: s = he_connect(NULL, 80, -1); break; case 1: s = he_connect("www.example.org", 0, -1); break; case 2: s = he_connect("www.example.org", -(int)draw(70000) - 1, -1); break; case 3: s = he_connect("www.example.org", 65536 + draw(1000000), -1); break; default: s = he_connect(NULL, 65536 + draw(10), now() + 10); } CHECK(s == -1 && errno == EINVAL, "case %d: %d %s", k, s, s < 0 ? errname(errno) : ""); CHECK(now() == t, "took time"); CHECK(open_fds() == base, "descriptors leak"); srv.stop(); nontrivial();
}
