#include "zoo.h"
#include "work.h"
#include "store.h"
#include "tls_keys.h"
#include <algorithm>
typedef std::string S;
static TlsEnv tls_env;
namespace {
/* The fault under way: the at-th allocation or descriptor creation of the call fails, and perhaps all later ones. */
struct Plan { bool fd; long at; int err; bool all; } plan; long injected, made; S what;
int tight = -1;     /* that many more handles fit in the table of handles */
struct Obj { struct hvfs hv; int closes = 0; };
void *oq(struct hvfs *v, const void *t) { if(t == &what) return v; errno = ENOTSUP; return NULL; }
void oc(struct hvfs *v) { ((Obj*)v)->closes++; }
void cl(int h) { CHECK(hclose(h) == 0, "hclose: %s", errname(errno)); }
/* Runs the call with the fault armed. True: the fault has happened, the call has failed and reported it. */
template<class F> bool armed(F f, long *res = nullptr) {
    std::vector<int> fill; static Obj o; o.hv.query = oq; o.hv.close = oc; if(tight >= 0) { int n = (int)free_numbers().size() - 8 - tight; if(n < 1100) for(int i = 0; i < n; ++i) { int h = hmake(&o.hv); CHECK(h >= 0, "hmake"); fill.push_back(h); } }
    char here; fi.lo = &here - (1 << 20); fi.hi = &here + 4096; long a0 = fi.alloc_failed, d0 = fi.fdmake_failed, m0 = fi.allocs;
    if(plan.fd) { fi.fdmake_fail_at = plan.at; fi.fdmake_errno = plan.err; } else { fi.alloc_fail_at = plan.at; fi.alloc_fail_n = plan.all ? 1000000 : 1; }
    errno = 0; long rc = f(); int e = errno; made = fi.allocs - m0; fi.fdmake_fail_at = fi.alloc_fail_at = -1; fi.alloc_fail_n = 1; fi.lo = fi.hi = nullptr; clean_stack();
    bool hit = fi.alloc_failed > a0 || fi.fdmake_failed > d0; if(res) *res = rc;
    if(hit && fill.size() && chance(1, 3)) { /* the table that could not grow grows now */ static Obj more[24]; int n = 1 + draw(24); for(int i = 0; i < n; ++i) { more[i].hv.query = oq; more[i].hv.close = oc; int h = hmake(&more[i].hv); CHECK(h >= 0, "hmake after a failed %s: %s", what.c_str(), errname(errno)); if(std::count(fill.begin(), fill.end(), h)) fail("handle %d is given out twice after a failed %s", h, what.c_str()); CHECK(hquery(h, &what) == &more[i].hv, "the new handle %d stands for another object", h); fill.push_back(h); } label("grows later"); }
    for(int h : fill) cl(h);
    note("%s, %s %ld%s: %s", what.c_str(), plan.fd ? "descriptor" : "allocation", plan.at, plan.all ? " and all later" : "", hit ? rc < 0 ? errname(e) : "success" : "no fault");
    if(hit) { injected++; CHECK(rc == -1, "%s reports success (%ld) although %s has failed", what.c_str(), rc, plan.fd ? "the creation of a descriptor" : "an allocation"); CHECK(e == plan.err, "%s reports %s instead of %s", what.c_str(), errname(e), errname(plan.err)); }
    else CHECK(rc >= 0, "%s: %s (no fault injected)", what.c_str(), errname(e));
    return hit; }
bool alive(int h) { errno = 0; void *p = hquery(h, &injected); CHECK(!p, "hquery"); return errno == ENOTSUP; }
void swap2(int c, int d) { char b = 0; CHECK(bsend(c, "x", 1, -1) == 0 && brecv(d, &b, 1, -1) == 0 && b == 'x' && bsend(d, "y", 1, -1) == 0 && brecv(c, &b, 1, -1) == 0 && b == 'y', "the new connection does not work: %s", errname(errno)); }
const char *const names[] = {"go", "bundle_go", "go_mem", "bundle_go_mem", "bundle", "bundle_mem", "chmake", "chmake_mem", "hmake", "hown", "ipc_listen", "ipc_connect", "ipc_accept", "ipc_pair", "ipc_fromfd", "ipc_listener_fromfd", "tcp_listen", "tcp_connect", "tcp_accept", "tcp_fromfd", "tcp_listener_fromfd", "udp_open", "http_attach", "attach", "attach", "attach", "attach", "attach", "attach", "attach", "ipaddr_local"};
enum { GO, BUNDLE_GO, GO_MEM, BUNDLE_GO_MEM, BUNDLE, BUNDLE_MEM, CHMAKE, CHMAKE_MEM, HMAKE, HOWN, IPC_LISTEN, IPC_CONNECT, IPC_ACCEPT, IPC_PAIR, IPC_FROMFD, IPC_LFROMFD, TCP_LISTEN, TCP_CONNECT, TCP_ACCEPT, TCP_FROMFD, TCP_LFROMFD, UDP_OPEN, HTTP_ATTACH, ATTACH, IPADDR_LOCAL = 30, CONS };
bool mem; Lay lay; int end_i, base_k, serial, bg_n;
S newpath(void) { return scratch_dir() + "/c" + std::to_string(serial++); }
struct ipaddr anyport(void) { struct ipaddr a; CHECK(ipaddr_local(&a, "127.0.0.1", 0, IPADDR_IPV4) == 0, "ipaddr_local"); return a; }
/* One constructor: preparation, the call with the fault, check of what is there afterwards, cleanup. */
bool step(int con) {
    long r; what = S(names[con]) + (mem ? "_mem" : "");
    switch(con) {
    case GO: case GO_MEM: { bool ran = false; static char *st = new char[65536]; bool hit = armed([&] { return con == GO ? go_fn([&] { ran = true; yield(); }) : go_mem_fn([&] { ran = true; yield(); }, st, 65536); }, &r); if(hit) { for(int i = 0; i < 3; ++i) yield(); CHECK(!ran, "the coroutine runs although go() has failed"); } else { for(int i = 0; i < 3 && !ran; ++i) yield(); CHECK(ran, "the coroutine doesn't run"); cl(r); } return hit; }
    case BUNDLE_GO: case BUNDLE_GO_MEM: { int b = bundle(), other = 0; bool ran = false; static char *st = new char[65536]; CHECK(b >= 0, "bundle"); int n = bg_n; for(int i = 0; i < n; ++i) CHECK(bundle_go_fn(b, [&] { yield(); yield(); other++; }) == 0, "bundle_go"); bool hit = armed([&] { return con == BUNDLE_GO ? bundle_go_fn(b, [&] { ran = true; }) : bundle_go_mem_fn(b, [&] { ran = true; }, st, 65536); });
        CHECK(bundle_wait(b, -1) == 0, "bundle_wait: %s", errname(errno)); CHECK(other == n, "the other coroutines of the bundle have not finished"); CHECK(ran == !hit, "bundle_go"); cl(b); return hit; }
    case BUNDLE: case BUNDLE_MEM: { bool hit = armed([&] { return con == BUNDLE ? bundle() : bundle_mem(store<struct bundle_storage>()); }, &r); if(!hit) { bool ran = false; CHECK(bundle_go_fn(r, [&] { ran = true; }) == 0 && bundle_wait(r, -1) == 0 && ran, "the bundle doesn't work"); cl(r); } return hit; }
    case CHMAKE: case CHMAKE_MEM: { int c[2] = {-7, -7}; bool hit = armed([&] { return con == CHMAKE ? chmake(c) : chmake_mem(store<struct chstorage>(), c); }); if(!hit) { int d = draw(2), v = draw(100), w = 0; int g = go_fn([&] { chsend(c[d], &v, sizeof v, -1); }); CHECK(chrecv(c[!d], &w, sizeof w, -1) == 0 && v == w, "the channel doesn't work"); cl(g); cl(c[d]); cl(c[!d]); } return hit; }
    case HMAKE: { static Obj o; o.hv.query = oq; o.hv.close = oc; o.closes = 0; bool hit = armed([&] { return hmake(&o.hv); }, &r); CHECK(!o.closes, "hmake has closed the object"); if(!hit) { CHECK(hquery(r, &what) == &o.hv, "hquery"); cl(r); CHECK(o.closes == 1, "hclose"); } return hit; }
    case HOWN: { static Obj o; o.hv.query = oq; o.hv.close = oc; o.closes = 0; int h = hmake(&o.hv); CHECK(h >= 0, "hmake"); bool hit = armed([&] { return hown(h); }, &r); CHECK(!alive(h), "the old handle is still valid after hown"); if(hit) CHECK(o.closes == 1, "the object was closed %d times by the failed hown", o.closes); else { CHECK(!o.closes && hquery(r, &what) == &o.hv, "hown"); cl(r); CHECK(o.closes == 1, "hclose"); } return hit; }
    case IPC_LISTEN: { S p = newpath(); bool hit = armed([&] { return mem ? ipc_listen_mem(p.c_str(), 5, store<struct ipc_listener_storage>()) : ipc_listen(p.c_str(), 5); }, &r); if(hit) { int c = ipc_connect(p.c_str(), -1); CHECK(c < 0, "one can connect to the address although ipc_listen has failed"); unlink(p.c_str()); } else { int c = ipc_connect(p.c_str(), -1), d = ipc_accept(r, -1); CHECK(c >= 0 && d >= 0, "the new listener doesn't work"); swap2(c, d); cl(c); cl(d); cl(r); } return hit; }
    case TCP_LISTEN: { struct ipaddr a = anyport(); bool hit = armed([&] { return mem ? tcp_listen_mem(&a, 5, store<struct tcp_listener_storage>()) : tcp_listen(&a, 5); }, &r); if(hit) { if(ipaddr_port(&a)) { int c = tcp_connect(&a, -1); CHECK(c < 0, "one can connect to the address although tcp_listen has failed"); } } else { int c = tcp_connect(&a, -1), d = tcp_accept(r, NULL, -1); CHECK(c >= 0 && d >= 0, "the new listener doesn't work"); swap2(c, d); cl(c); cl(d); cl(r); } return hit; }
    case IPC_CONNECT: { S p = newpath(); int l = ipc_listen(p.c_str(), 5); CHECK(l >= 0, "ipc_listen"); bool hit = armed([&] { return mem ? ipc_connect_mem(p.c_str(), store<struct ipc_storage>(), -1) : ipc_connect(p.c_str(), -1); }, &r); int d = ipc_accept(l, hit ? now() + 10 : -1); if(hit) { if(d >= 0) { char b; CHECK(brecv(d, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "the connection stays although ipc_connect has failed"); cl(d); } } else { CHECK(d >= 0, "ipc_accept"); swap2(r, d); cl(r); cl(d); } cl(l); return hit; }
    case TCP_CONNECT: { struct ipaddr a = anyport(); int l = tcp_listen(&a, 5); CHECK(l >= 0, "tcp_listen"); bool hit = armed([&] { return mem ? tcp_connect_mem(&a, store<struct tcp_storage>(), -1) : tcp_connect(&a, -1); }, &r); int d = tcp_accept(l, NULL, hit ? now() + 10 : -1); if(hit) { if(d >= 0) { char b; CHECK(brecv(d, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "the connection stays although tcp_connect has failed"); cl(d); } } else { CHECK(d >= 0, "tcp_accept"); swap2(r, d); cl(r); cl(d); } cl(l); return hit; }
    case IPC_ACCEPT: { S p = newpath(); int l = ipc_listen(p.c_str(), 5), c = ipc_connect(p.c_str(), -1); CHECK(l >= 0 && c >= 0, "listener"); auto acc = [&] { return mem ? ipc_accept_mem(l, store<struct ipc_storage>(), -1) : ipc_accept(l, -1); }; bool hit = armed(acc, &r); if(hit) { /* the connection still waits, or it is closed */ r = ipc_accept(l, now() + 10); if(r < 0) { char b; CHECK(brecv(c, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "the connection is lost but not closed"); cl(c); c = ipc_connect(p.c_str(), -1); CHECK(c >= 0, "ipc_connect: %s", errname(errno)); r = acc(); } CHECK(r >= 0, "the listener doesn't work after a failed ipc_accept: %s", errname(errno)); } swap2(c, r); cl(c); cl(r); cl(l); return hit; }
    case TCP_ACCEPT: { struct ipaddr a = anyport(), pa; int l = tcp_listen(&a, 5), c = tcp_connect(&a, -1); CHECK(l >= 0 && c >= 0, "listener"); bool na = chance(1, 2); auto acc = [&] { return mem ? tcp_accept_mem(l, na ? &pa : NULL, store<struct tcp_storage>(), -1) : tcp_accept(l, na ? &pa : NULL, -1); }; bool hit = armed(acc, &r); if(hit) { r = tcp_accept(l, NULL, now() + 10); if(r < 0) { char b; CHECK(brecv(c, &b, 1, -1) == -1 && (errno == EPIPE || errno == ECONNRESET), "the connection is lost but not closed"); cl(c); c = tcp_connect(&a, -1); CHECK(c >= 0, "tcp_connect: %s", errname(errno)); r = acc(); } CHECK(r >= 0, "the listener doesn't work after a failed tcp_accept: %s", errname(errno)); } swap2(c, r); cl(c); cl(r); cl(l); return hit; }
    case IPC_PAIR: { int p[2] = {-7, -7}; bool hit = armed([&] { return mem ? ipc_pair_mem(store<struct ipc_pair_storage>(), p) : ipc_pair(p); }); if(!hit) { swap2(p[0], p[1]); cl(p[0]); cl(p[1]); } return hit; }
    case IPC_FROMFD: case TCP_FROMFD: { int f[2]; if(con == IPC_FROMFD) CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, f) == 0, "socketpair"); else { int ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; if(bind(ls, (struct sockaddr*)&a, l) || listen(ls, 5) || getsockname(ls, (struct sockaddr*)&a, &l)) inconclusive("listen"); f[0] = socket(AF_INET, SOCK_STREAM, 0); if(connect(f[0], (struct sockaddr*)&a, l)) inconclusive("connect"); f[1] = accept(ls, NULL, NULL); ::close(ls); }
        bool hit = armed([&] { return con == IPC_FROMFD ? mem ? ipc_fromfd_mem(f[0], store<struct ipc_storage>()) : ipc_fromfd(f[0]) : mem ? tcp_fromfd_mem(f[0], store<struct tcp_storage>()) : tcp_fromfd(f[0]); }, &r); if(hit) { /* whose the descriptor is now isn't said anywhere */ if(fcntl(f[0], F_GETFD) >= 0) { CHECK(::send(f[0], "a", 1, MSG_NOSIGNAL) == 1, "the descriptor is damaged"); ::close(f[0]); } } else { CHECK(bsend(r, "a", 1, -1) == 0, "bsend"); char b = 0; CHECK(::recv(f[1], &b, 1, 0) == 1 && b == 'a', "recv"); cl(r); } ::close(f[1]); return hit; }
    case IPC_LFROMFD: case TCP_LFROMFD: { bool ipc = con == IPC_LFROMFD; S p = newpath(); struct ipaddr at; int f = socket(ipc ? AF_UNIX : AF_INET, SOCK_STREAM, 0); if(ipc) { struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, p.c_str()); if(bind(f, (struct sockaddr*)&a, sizeof a) || listen(f, 5)) inconclusive("listen"); } else { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; if(bind(f, (struct sockaddr*)&a, l) || listen(f, 5) || getsockname(f, (struct sockaddr*)&a, &l)) inconclusive("listen"); CHECK(ipaddr_local(&at, "127.0.0.1", ntohs(a.sin_port), IPADDR_IPV4) == 0, "ipaddr_local"); }
        bool hit = armed([&] { return ipc ? mem ? ipc_listener_fromfd_mem(f, store<struct ipc_listener_storage>()) : ipc_listener_fromfd(f) : mem ? tcp_listener_fromfd_mem(f, store<struct tcp_listener_storage>()) : tcp_listener_fromfd(f); }, &r); if(hit) { if(fcntl(f, F_GETFD) >= 0) ::close(f); } else { int c = ipc ? ipc_connect(p.c_str(), -1) : tcp_connect(&at, -1), d = ipc ? ipc_accept(r, -1) : tcp_accept(r, NULL, -1); CHECK(c >= 0 && d >= 0, "the new listener doesn't work"); swap2(c, d); cl(c); cl(d); cl(r); } return hit; }
    case UDP_OPEN: { struct ipaddr a = anyport(); bool no = chance(1, 3); bool hit = armed([&] { struct ipaddr *l = no ? NULL : &a; return mem ? udp_open_mem(l, NULL, store<struct udp_storage>()) : udp_open(l, NULL); }, &r); if(!hit) { if(!no) { int o = udp_open(NULL, &a); char b = 0; CHECK(o >= 0 && msend(o, "z", 1, -1) == 0 && mrecv(r, &b, 1, -1) == 1 && b == 'z', "the new socket doesn't work"); cl(o); } cl(r); } return hit; }
    case IPADDR_LOCAL: { struct ipaddr a; bool nul = chance(1, 2); what = "ipaddr_local"; return armed([&] { return nul ? ipaddr_local(&a, NULL, 80, 0) : ipaddr_local(&a, "lo", 80, 0); }); }
    case HTTP_ATTACH: { Wire *w[2]; sim_pair(w[0], w[1]); int o = w[0]->h; bool hit = armed([&] { return mem ? http_attach_mem(o, store<struct http_storage>()) : http_attach(o); }, &r); if(hit) { if(alive(o)) { swap2(o, w[1]->h); cl(o); } else CHECK(w[0]->closes == 1, "the handle is closed, but not the socket behind it"); } else { char a[20], b[20]; int q = http_attach(w[1]->h); CHECK(q >= 0 && http_sendrequest(r, "GET", "/x", -1) == 0 && http_recvrequest(q, a, sizeof a, b, sizeof b, -1) == 0 && !strcmp(b, "/x"), "the new socket doesn't work"); cl(q); cl(r); return hit; } cl(w[1]->h); return hit; }
    default: { /* the layers of the stack, with a real other end where there is a handshake */
        Stack s; s.open(base_k); if(lay.kind == L_TERM) { Lay p; p.kind = L_PREFIX; p.n = 2; s.push(p); } Lay l = lay; l.srv = lay.srv; l.mem[end_i] = mem; what = S(lay_name(l.kind)) + "_attach" + (l.kind == L_TLS || l.kind == L_WS ? l.srv == end_i ? "_server" : "_client" : "") + (l.kind == L_WS && !l.http ? "(nohttp)" : "") + (mem ? "_mem" : ""); int me = end_i, o = s.h[me], oo = s.h[!me], pr = -1; bool hs = l.kind == L_TLS || (l.kind == L_WS && l.http); bool done = false;
        int pg = -1; if(hs) { pg = go_fn([&] { pr = s.attach(!me, l, -1); done = true; }); CHECK(pg >= 0, "go"); } 
        bool hit = armed([&] { return s.attach(me, l, -1); }, &r);
        if(hit) { if(alive(o) && !hs) { s.exchange(2); if(chance(1, 2)) { /* again, with what is left */ s.push(l); s.exchange(2); cl(s.h[0]); cl(s.h[1]); return true; } } if(alive(o)) cl(o); else if(base_k == B_SIM && lay.kind != L_TERM) CHECK(s.w[me]->closes == 1, "the handle is closed, but not the socket behind it");
            if(hs) { for(int i = 0; i < 20 && !done; ++i) msleep(now() + 1); CHECK(done, "the other end still waits for the handshake: the connection has not been closed"); cl(pg); if(pr >= 0) cl(pr); else if(alive(oo)) cl(oo); } else { /* the other end sees that it is over */ char b; ssize_t rc = lay.kind == L_TERM ? mrecv(oo, &b, 1, -1) : brecv(oo, &b, 1, -1); CHECK(rc == -1 && (errno == EPIPE || errno == ECONNRESET), "the other end doesn't see that the connection is closed: %zd %s", rc, errname(errno)); cl(oo); }
        } else { if(hs) { for(int i = 0; i < 20 && !done; ++i) msleep(now() + 1); CHECK(done && pr >= 0, "the other end of the handshake: %s", errname(errno)); cl(pg); } else pr = s.attach(!me, l, -1); s.h[me] = r; s.h[!me] = pr; s.lays.push_back(l); s.exchange(2); cl(s.h[0]); cl(s.h[1]); }
        return hit; } } }
struct Use { size_t allocs, bytes; int fds; long tls; std::vector<int> nums; };
Use measure(void) { Use u; u.nums = free_numbers(); u.allocs = live_allocs(); u.bytes = live_bytes(); u.fds = open_fds(); u.tls = TlsEnv::live(); return u; }
}
PROP_CASE(C11, constructors, "at least 2 faults were injected") {
    vt.grace_inf = 3000; vt.grace_timed = 3; vt.deadlock = nullptr; injected = 0; scratch_dir(); bool net = chance(1, 3), tls = chance(1, 6); if(tls) stk_files();
    std::vector<AnimalP> zoo; int n = 1 + draw(5); for(int i = 0; i < n; ++i) { int k; do k = draw(Z_KINDS); while((k == Z_TLS && !tls) || (!net && (k == Z_TCP || k == Z_TCPL || k == Z_UDP))); note("make %s", zoo_name(k)); zoo.push_back(zoo_make(k)); zoo.back()->use(); }
    std::vector<int> sleepers; tight = chance(1, 3) ? (int)draw(3) : -1; if(tight >= 0) label("table full");
    int m = 1 + draw(4);
    while(m--) {
        int con; do con = draw(CONS); while(!net && con >= TCP_LISTEN && con <= UDP_OPEN); mem = con == BUNDLE_MEM || con == CHMAKE_MEM ? false : chance(1, 2); if(con <= BUNDLE_MEM || con == CHMAKE || con == CHMAKE_MEM || con == HMAKE || con == HOWN) mem = false;
        bg_n = draw(3); base_k = chance(1, 3) ? B_IPC : B_SIM; end_i = draw(2); lay = Lay(); if(con >= ATTACH && con != IPADDR_LOCAL) { int kinds[] = {L_PREFIX, L_SUFFIX, L_WS, L_TERM, L_TLS}; do lay.kind = kinds[draw(5)]; while(lay.kind == L_TLS && !tls); lay.n = 1 + draw(8); lay.flags = draw(2); lay.t = lay.kind == L_SUFFIX ? "\r\n" : "end"; lay.srv = draw(2); lay.http = chance(1, 2); lay.mem[!end_i] = chance(1, 2); }
        bool drain = (con == GO || con == BUNDLE_GO) && chance(3, 4);
        for(int fd = 0; fd < 2; ++fd) for(long at = 0; at < 40; ++at) {
            plan.fd = fd; plan.at = at; plan.all = !fd && chance(1, 3); plan.err = fd ? chance(1, 2) ? EMFILE : ENFILE : ENOMEM; bool hit = false; Use u[4]; int k = 0;
            if(drain) { for(int i = 0; i < 200; ++i) { long a = fi.allocs; int h = go_fn([] { while(msleep(-1) == 0); }); CHECK(h >= 0, "go"); sleepers.push_back(h); if(fi.allocs - a >= 2) break; } }
            u[0] = measure(); do { hit = step(con); u[++k] = measure(); if(!u[k].nums.empty()) for(int n : u[k - 1].nums) if(!std::binary_search(u[k].nums.begin(), u[k].nums.end(), n)) fail("%s with %s %ld failing: the handle number %d can never be used again", what.c_str(), fd ? "descriptor" : "allocation", at, n); for(auto &a : zoo) if(chance(1, 2)) a->use(); } while(k < 3 && (u[k].allocs > u[k - 1].allocs || (tight < 0 && u[k].bytes > u[k - 1].bytes) || u[k].fds > u[k - 1].fds || u[k].tls > u[k - 1].tls));
            auto grows = [&](auto get) { for(int i = 1; i <= k; ++i) if(get(u[i]) <= get(u[i - 1])) return false; return k == 3; };
            if(grows([](const Use &x) { return x.allocs; }) || (tight < 0 && grows([](const Use &x) { return x.bytes; }))) fail("%s with %s %ld failing loses memory: %zu %zu %zu %zu blocks", what.c_str(), fd ? "descriptor" : "allocation", at, u[0].allocs, u[1].allocs, u[2].allocs, u[3].allocs);
            if(grows([](const Use &x) { return x.fds; })) fail("%s with %s %ld failing loses a descriptor: %d %d %d %d", what.c_str(), fd ? "descriptor" : "allocation", at, u[0].fds, u[1].fds, u[2].fds, u[3].fds);
            if(grows([](const Use &x) { return x.tls; })) fail("%s with %s %ld failing loses memory of OpenSSL: %ld %ld %ld %ld", what.c_str(), fd ? "descriptor" : "allocation", at, u[0].tls, u[1].tls, u[2].tls, u[3].tls);
            if(!hit) break; if(at == 39) fail("harness: too many faults"); label(names[con] == S("attach") ? lay_name(lay.kind) : names[con]); }
    }
    for(auto &a : zoo) { a->use(); a->end(); } for(int h : sleepers) cl(h); store_check(); if(injected >= 2) nontrivial();
}
