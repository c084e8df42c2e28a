#include "zoo.h"
#include "tls_keys.h"
#include <algorithm>
typedef std::string S;
static TlsEnv tls_env;
namespace {
std::vector<AnimalP> zoo; int refused;
int garbage(void) { static const int g[] = {-1, -2, INT_MIN, INT_MAX, 1 << 30, 1000000, 0x7fffff00, INT_MIN + 1}; return chance(1, 3) ? (int)(100000 + draw(1u << 30)) : g[draw(8)]; }
int64_t dl(void) { switch(draw(3)) { case 0: return -1; case 1: return 0; default: return now() + 1 + draw(100); } }
/* The call on a number that is not an open handle. */
void on_dead(const Call &c, int h, const char *what) {
    za.reset(); za.dl = dl(); int64_t t = now(); errno = 0; long rc = c.f(h); int e = errno; note("%s on %s (%d): %ld %s", c.name, what, h, rc, errname(e));
    CHECK(rc == -1 && e == EBADF, "%s on %s: %ld %s", c.name, what, rc, rc < 0 ? errname(e) : ""); CHECK(now() == t && za.canary() && !za.ran, "%s on %s has done something", c.name, what); refused++; }
bool alive(int h) { errno = 0; void *p = hquery(h, &refused); CHECK(!p, "hquery"); CHECK(errno == EBADF || errno == ENOTSUP, "hquery of an unknown type: %s", errname(errno)); return errno == ENOTSUP; }
/* The call on an object of a kind it is not for. */
void on_wrong(const Call &c, size_t j) {
    Animal *a = zoo[j].get(); int i = draw(a->n), h = a->h[i]; za.reset(); za.dl = dl(); int64_t t = now(); errno = 0; note("%s...", c.name); long rc = c.f(h); int e = errno, want = c.cls == C_ATTACH ? EPROTO : ENOTSUP; note("%s on a %s (%d): %ld %s", c.name, a->name.c_str(), h, rc, errname(e));
    CHECK(rc == -1 && e == want, "%s on a %s: %ld %s", c.name, a->name.c_str(), rc, rc < 0 ? errname(e) : ""); CHECK(now() == t && za.canary() && !za.ran, "%s on a %s has done something", c.name, a->name.c_str()); refused++; label(a->name.c_str());
    if(c.cls != C_PLAIN && !alive(h)) { CHECK(a->closed(i), "%s on a %s: the handle is closed, but not what is behind it", c.name, a->name.c_str()); a->h[i] = -1; on_dead(zoo_calls()[draw(zoo_calls().size())], h, "a closed handle"); a->end(); zoo.erase(zoo.begin() + j); label("closed by the refused call"); return; }
    CHECK(alive(h), "%s on a %s has closed the handle", c.name, a->name.c_str()); if(chance(1, 2)) a->use(); }
}
PROP_CASE(S06, matrix, "at least 20 calls were refused and objects of at least 6 kinds worked before and after") {
    tcp_time(); refused = 0; auto &calls = zoo_calls(); bool tls = chance(1, 6); unsigned kinds = 0; int n = 6 + draw(8);
    for(int k = 0; k < n; ++k) { int kind = draw(Z_KINDS); if(kind == Z_TLS && !tls) kind = Z_WIRE; note("make %s", zoo_name(kind)); zoo.push_back(zoo_make(kind)); kinds |= 1u << kind; }
    for(auto &a : zoo) { note("use %s", a->name.c_str()); a->use(); }
    auto body = [&] {
        int ops = 20 + draw(60);
        while(ops--) {
            const Call &c = calls[draw(calls.size())];
            switch(weighted({10, 3, 1, 1})) {
            case 0: { std::vector<size_t> j; for(size_t k = 0; k < zoo.size(); ++k) if(!(c.ok & 1u << zoo[k]->kind)) j.push_back(k); if(!j.empty()) on_wrong(c, j[draw(j.size())]); break; }
            case 1: on_dead(c, garbage(), "a number never handed out"); break;
            case 2: { if(zoo.empty()) break; Animal *a = zoo[draw(zoo.size())].get(); int i = draw(a->n), o = a->h[i]; int h = hown(o); CHECK(h >= 0, "hown: %s", errname(errno)); note("hown of %s: %d -> %d", a->name.c_str(), o, h); if(h != o) { a->h[i] = h; for(int k = 0; k < 2; ++k) on_dead(calls[draw(calls.size())], o, "a number given up by hown"); } a->use(); break; }
            case 3: { if(zoo.size() < 5) { int kind = draw(Z_KINDS); if(kind == Z_TLS) kind = Z_CHAN; zoo.push_back(zoo_make(kind)); kinds |= 1u << kind; zoo.back()->use(); break; }
                size_t j = draw(zoo.size()); Animal *a = zoo[j].get(); int o[2] = {a->h[0], a->h[1]}; note("end of %s", a->name.c_str()); a->end(); for(int i = 0; i < a->n; ++i) on_dead(calls[draw(calls.size())], o[i], "a closed handle"); zoo.erase(zoo.begin() + j); break; } } }
        for(auto &a : zoo) { note("use %s", a->name.c_str()); a->use(); }
        for(auto &a : zoo) { note("end of %s", a->name.c_str()); int o[2] = {a->h[0], a->h[1]}; a->end(); for(int i = 0; i < a->n; ++i) on_dead(calls[draw(calls.size())], o[i], "a closed handle"); } };
    if(chance(1, 3)) run_all({body}); else body();
    if(refused >= 20 && __builtin_popcount(kinds) >= 6) nontrivial();
}
namespace {
struct Bad { const char *name; unsigned kinds; int cls; std::function<long(int)> f; };
#define K(x) (1u << Z_##x)
const std::vector<Bad> &bads(void) {
    static std::vector<Bad> v; if(!v.empty()) return v; static const unsigned BYTES = K(TCP) | K(IPC) | K(WIRE), MSGS = K(UDP) | K(PREFIX) | K(SUFFIX) | K(WS) | K(TERM), NONE = 1u << Z_KINDS;
    static S longs(256, 'x'); static struct iolist l; static S big(124, 'y');
#define X(n, k, c, e) v.push_back({n, k, c, [](int h) -> long { int64_t dl = za.dl; (void)dl; (void)h; char *b = za.buf; (void)b; return e; }})
    X("prefix_attach, no header", BYTES, C_CONSUME, prefix_attach(h, 0, 0)); X("prefix_attach_mem(NULL)", BYTES, C_CONSUME, prefix_attach_mem(h, 2, 0, NULL));
    X("suffix_attach, no suffix", BYTES, C_CONSUME, suffix_attach(h, NULL, 2)); X("suffix_attach, empty suffix", BYTES, C_CONSUME, suffix_attach(h, "x", 0)); X("suffix_attach, long suffix", BYTES, C_CONSUME, suffix_attach(h, longs.data(), 33 + draw(200))); X("suffix_attach_mem(NULL)", BYTES, C_CONSUME, suffix_attach_mem(h, "x", 1, NULL));
    X("term_attach, long terminator", MSGS, C_CONSUME, term_attach(h, longs.data(), 33 + draw(200))); X("term_attach, no terminator", MSGS, C_CONSUME, term_attach(h, NULL, 1 + draw(32))); X("term_attach_mem(NULL)", MSGS, C_CONSUME, term_attach_mem(h, "x", 1, NULL));
    X("http_attach_mem(NULL)", BYTES, C_CONSUME, http_attach_mem(h, NULL)); X("tls_attach_client_mem(NULL)", BYTES, C_CONSUME, tls_attach_client_mem(h, NULL, dl)); X("tls_attach_server_mem(NULL)", BYTES, C_CONSUME, tls_attach_server_mem(h, "a", "b", NULL, dl));
    X("ws_attach_client, no resource", BYTES, C_CONSUME, ws_attach_client(h, 0, NULL, "host", dl)); X("ws_attach_client, no host", BYTES, C_CONSUME, ws_attach_client(h, 0, "/", NULL, dl)); X("ws_attach_client_mem(NULL)", BYTES, C_CONSUME, ws_attach_client_mem(h, WS_NOHTTP, NULL, NULL, NULL, dl)); X("ws_attach_server_mem(NULL)", BYTES, C_CONSUME, ws_attach_server_mem(h, WS_NOHTTP, NULL, 0, NULL, 0, NULL, dl));
    X("tcp_accept_mem(NULL)", K(TCPL), C_PLAIN, tcp_accept_mem(h, NULL, NULL, dl)); X("ipc_accept_mem(NULL)", K(IPCL), C_PLAIN, ipc_accept_mem(h, NULL, dl)); X("ipc_sendfd(-1)", K(IPC), C_PLAIN, ipc_sendfd(h, -1 - (int)draw(5), dl));
    X("bsendl, no list", BYTES, C_PLAIN, bsendl(h, NULL, NULL, dl)); X("bsendl, no last", BYTES, C_PLAIN, bsendl(h, &l, NULL, dl)); X("brecvl, no first", BYTES, C_PLAIN, brecvl(h, NULL, &l, dl)); X("msendl, no list", MSGS, C_PLAIN, msendl(h, NULL, NULL, dl)); X("mrecvl, no last", MSGS, C_PLAIN, mrecvl(h, &l, NULL, dl));
    X("http_sendrequest, no command", K(HTTP), C_PLAIN, http_sendrequest(h, "", "/", dl)); X("http_sendrequest, command with space", K(HTTP), C_PLAIN, http_sendrequest(h, "GE T", "/", dl)); X("http_sendrequest, no resource", K(HTTP), C_PLAIN, http_sendrequest(h, "GET", "", dl)); X("http_sendrequest, resource with newline", K(HTTP), C_PLAIN, http_sendrequest(h, "GET", "/a\nb", dl));
    X("http_sendstatus, small", K(HTTP), C_PLAIN, http_sendstatus(h, (int)draw(100), "OK", dl)); X("http_sendstatus, large", K(HTTP), C_PLAIN, http_sendstatus(h, 600 + (int)draw(10000), "OK", dl)); X("http_sendstatus, negative", K(HTTP), C_PLAIN, http_sendstatus(h, -(int)draw(1000), "OK", dl)); X("http_sendstatus, reason with newline", K(HTTP), C_PLAIN, http_sendstatus(h, 200, "O\rK", dl));
    X("http_sendfield, bad name", K(HTTP), C_PLAIN, http_sendfield(h, "a:b", "v", dl)); X("http_sendfield, bad value", K(HTTP), C_PLAIN, http_sendfield(h, "a", "v\r\nx", dl));
    X("ws_done, bad status", K(WS), C_PLAIN, ws_done(h, (int[]){1, 999, 5000, -1, 65536, INT_MAX}[draw(6)], NULL, 0, dl)); X("ws_done, no status but text", K(WS), C_PLAIN, ws_done(h, 0, "a", 1, dl)); X("ws_done, no text", K(WS), C_PLAIN, ws_done(h, 1000, NULL, 3, dl)); X("ws_done, long text", K(WS), C_PLAIN, ws_done(h, 1000, big.data(), 124, dl)); X("ws_status, no buffer", K(WS), C_PLAIN, ws_status(h, NULL, NULL, 10));
    X("udp_send, no address", K(UDP), C_PLAIN, udp_send(h, NULL, "x", 1)); 
    X("socks5_client_connect, no address", BYTES, C_PLAIN, socks5_client_connect(h, NULL, NULL, NULL, dl)); X("socks5_client_connect, long user", BYTES, C_PLAIN, socks5_client_connect(h, longs.c_str(), "p", &za.addr, dl)); X("socks5_client_connect, long password", BYTES, C_PLAIN, socks5_client_connect(h, "u", longs.c_str(), &za.addr, dl)); X("socks5_client_connectbyname, no name", BYTES, C_PLAIN, socks5_client_connectbyname(h, NULL, NULL, NULL, 80, dl)); X("socks5_client_connectbyname, long name", BYTES, C_PLAIN, socks5_client_connectbyname(h, NULL, NULL, longs.c_str(), 80, dl)); X("socks5_client_connectbyname, bad port", BYTES, C_PLAIN, socks5_client_connectbyname(h, NULL, NULL, "host", (int[]){0, -1, 65536, INT_MAX}[draw(4)], dl)); X("socks5_proxy_sendreply, bad reply", BYTES, C_PLAIN, socks5_proxy_sendreply(h, (int[]){-1, 9, 255, 256}[draw(4)], &za.addr, dl));
    /* no handle needed */
    X("bundle_mem(NULL)", NONE, C_PLAIN, bundle_mem(NULL)); X("chmake_mem(NULL)", NONE, C_PLAIN, ({ int c[2]; chmake_mem(NULL, c); })); X("hmake(NULL)", NONE, C_PLAIN, hmake(NULL)); X("hmake, no query", NONE, C_PLAIN, ({ static struct hvfs q; q.close = (void(*)(struct hvfs*))1; q.query = NULL; hmake(&q); })); X("hmake, no close", NONE, C_PLAIN, ({ static struct hvfs q; q.query = (void*(*)(struct hvfs*, const void*))1; q.close = NULL; hmake(&q); }));
    X("tcp_listen_mem(NULL)", NONE, C_PLAIN, tcp_listen_mem(&za.addr, 10, NULL)); X("tcp_connect_mem(NULL)", NONE, C_PLAIN, tcp_connect_mem(&za.addr, NULL, dl)); X("tcp_fromfd(-1)", NONE, C_PLAIN, tcp_fromfd(-1 - (int)draw(9))); X("tcp_fromfd_mem(NULL)", NONE, C_PLAIN, tcp_fromfd_mem(0, NULL)); X("tcp_listener_fromfd(-1)", NONE, C_PLAIN, tcp_listener_fromfd(-1)); X("tcp_listener_fromfd_mem(NULL)", NONE, C_PLAIN, tcp_listener_fromfd_mem(0, NULL));
    X("ipc_listen_mem(NULL)", NONE, C_PLAIN, ipc_listen_mem("/nonexistent/x", 10, NULL)); X("ipc_connect_mem(NULL)", NONE, C_PLAIN, ipc_connect_mem("/nonexistent/x", NULL, dl)); X("ipc_fromfd(-1)", NONE, C_PLAIN, ipc_fromfd(-1)); X("ipc_fromfd_mem(NULL)", NONE, C_PLAIN, ipc_fromfd_mem(0, NULL)); X("ipc_listener_fromfd(-1)", NONE, C_PLAIN, ipc_listener_fromfd(-1)); X("ipc_listener_fromfd_mem(NULL)", NONE, C_PLAIN, ipc_listener_fromfd_mem(0, NULL)); X("ipc_pair_mem(NULL)", NONE, C_PLAIN, ({ int c[2]; ipc_pair_mem(NULL, c); })); X("udp_open_mem(NULL)", NONE, C_PLAIN, udp_open_mem(NULL, NULL, NULL));
    X("udp_open, two families", NONE, C_PLAIN, ({ struct ipaddr q; int rc = ipaddr_remote(&q, "::1", 1000, 0, -1); rc ? (errno = EINVAL, -1) : udp_open(&za.addr, &q); })); X("ws_request_key(NULL)", NONE, C_PLAIN, ws_request_key(NULL)); X("ws_response_key(NULL)", NONE, C_PLAIN, ws_response_key(NULL, b)); X("ws_response_key, nowhere to put it", NONE, C_PLAIN, ws_response_key("dGhlIHNhbXBsZSBub25jZQ==", NULL));
    X("ipaddr_local(NULL)", NONE, C_PLAIN, ipaddr_local(NULL, NULL, 5555, 0)); X("ipaddr_local, bad port", NONE, C_PLAIN, ipaddr_local((struct ipaddr*)b, NULL, draw(2) ? -1 : 65536, 0)); X("ipaddr_remote(NULL)", NONE, C_PLAIN, ipaddr_remote(NULL, "127.0.0.1", 5555, 0, dl)); X("ipaddr_remote, bad port", NONE, C_PLAIN, ipaddr_remote((struct ipaddr*)b, "127.0.0.1", 65536 + (int)draw(10), 0, dl)); X("ipaddr_remotes, no room", NONE, C_PLAIN, ipaddr_remotes((struct ipaddr*)b, -(int)draw(2), "127.0.0.1", 5555, 0, dl));
    X("happyeyeballs_connect(NULL)", NONE, C_PLAIN, happyeyeballs_connect(NULL, 80, dl)); X("happyeyeballs_connect, bad port", NONE, C_PLAIN, happyeyeballs_connect("127.0.0.1", (int[]){0, -1, 65536}[draw(3)], dl));
    X("choose, negative number of clauses", NONE, C_PLAIN, ({ struct chclause c; memset(&c, 0, sizeof c); choose(&c, -1 - (int)draw(5), dl); })); X("choose(NULL)", NONE, C_PLAIN, choose(NULL, 1 + draw(5), dl));
    return v; }
}
PROP_CASE(S06, args, "at least 15 calls with invalid arguments were refused and objects of at least 5 kinds worked before and after") {
    tcp_time(); refused = 0; auto &list = bads(); int n = 6 + draw(6); unsigned kinds = 0; static const int use[] = {Z_WIRE, Z_TCP, Z_IPC, Z_TCPL, Z_IPCL, Z_UDP, Z_PREFIX, Z_SUFFIX, Z_WS, Z_TERM, Z_HTTP, Z_WS, Z_HTTP, Z_WIRE};
    for(int k = 0; k < n; ++k) { int kind = use[draw(14)]; note("make %s", zoo_name(kind)); zoo.push_back(zoo_make(kind)); kinds |= 1u << kind; } for(auto &a : zoo) a->use();
    int ops = 15 + draw(50);
    while(ops--) { const Bad &c = list[draw(list.size())]; Animal *a = nullptr; size_t j = 0; if(c.kinds != 1u << Z_KINDS) { std::vector<size_t> p; for(size_t k = 0; k < zoo.size(); ++k) if(c.kinds & 1u << zoo[k]->kind) p.push_back(k); if(p.empty()) { for(int k : use) if(c.kinds & 1u << k) { zoo.push_back(zoo_make(k)); p.push_back(zoo.size() - 1); break; } } j = p[draw(p.size())]; a = zoo[j].get(); }
        int i = 0; if(a) { i = draw(a->n); if(!strcmp(c.name, "udp_send, no address")) i = 0; } int h = a ? a->h[i] : -1; za.reset(); za.dl = dl(); int64_t t = now(); errno = 0; long rc = c.f(h); int e = errno; note("%s on %s: %ld %s", c.name, a ? a->name.c_str() : "nothing", rc, errname(e));
        CHECK(rc == -1 && e == EINVAL, "%s: %ld %s", c.name, rc, rc < 0 ? errname(e) : ""); CHECK(now() == t && za.canary() && !za.ran, "%s has done something", c.name); refused++; if(!a) continue; label(a->name.c_str());
        if(c.cls != C_PLAIN && !alive(h)) { CHECK(a->closed(i), "%s: the handle is closed, but not what is behind it", c.name); a->h[i] = -1; a->end(); zoo.erase(zoo.begin() + j); } else { CHECK(alive(h), "%s has closed the handle", c.name); a->use(); } }
    for(auto &a : zoo) a->use(); for(auto &a : zoo) a->end(); if(refused >= 15 && __builtin_popcount(kinds) >= 5) nontrivial();
}
/* Layers are put on and taken off: same socket below, numbers given up are invalid. */
PROP_CASE(S06, layers, "at least 4 attach and detach calls") {
    auto &calls = zoo_calls(); Stack s; bool tls = chance(1, 6); if(tls) stk_files(); s.open(chance(1, 3) ? B_IPC : B_SIM); int n = 4 + draw(12), done = 0; refused = 0;
    while(n--) { int o[2] = {s.h[0], s.h[1]}; bool down = !s.lays.empty() && (s.lays.size() > 4 || chance(1, 2)); 
        if(down) s.pop(); else { Lay l = s.gen(tls); if(l.kind < 0) continue; s.push(l); } done++;
        for(int i = 0; i < 2; ++i) if(o[i] != s.h[0] && o[i] != s.h[1]) for(int k = 0; k < 2; ++k) on_dead(calls[draw(calls.size())], o[i], down ? "a number given up by detach" : "a number given up by attach");
        if(chance(1, 2)) s.exchange(draw(4)); }
    while(!s.lays.empty() && chance(3, 4)) s.pop(); s.exchange(2); int o[2] = {s.h[0], s.h[1]}; s.close(0); s.close(1); for(int i = 0; i < 2; ++i) on_dead(calls[draw(calls.size())], o[i], "a closed handle"); if(done >= 4) nontrivial(); }
/* Descriptors of every kind offered to every function that wraps descriptors. */
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <unistd.h>
namespace { enum { FD_T4, FD_T6, FD_TL4, FD_TL6, FD_TBOUND, FD_U, FD_UL, FD_UBOUND, FD_UDP, FD_UDGRAM, FD_SEQ, FD_PIPE, FD_FILE, FD_CLOSED, FD_KINDS };
const char *const fd_names[] = {"TCP connection", "TCP/IPv6 connection", "listening TCP socket", "listening TCP/IPv6 socket", "bound TCP socket", "UNIX connection", "listening UNIX socket", "bound UNIX socket", "UDP socket", "UNIX datagram socket", "UNIX sequenced packet socket", "pipe", "file", "closed descriptor"};
struct Fd { int fd = -1, peer = -1; struct sockaddr_storage a; socklen_t al = 0; };
Fd fd_make(int k, const S &dir, int id) {
    Fd r; memset(&r.a, 0, sizeof r.a); auto sock = [](int f, int t) { int s = socket(f, t, 0); if(s < 0) inconclusive("socket"); return s; };
    auto ip = [&](int s, bool v6) { struct sockaddr_in *i = (struct sockaddr_in*)&r.a; struct sockaddr_in6 *j = (struct sockaddr_in6*)&r.a; if(v6) { j->sin6_family = AF_INET6; j->sin6_addr = in6addr_loopback; r.al = sizeof *j; } else { i->sin_family = AF_INET; i->sin_addr.s_addr = htonl(INADDR_LOOPBACK); r.al = sizeof *i; } if(bind(s, (struct sockaddr*)&r.a, r.al)) inconclusive("bind"); getsockname(s, (struct sockaddr*)&r.a, &r.al); };
    auto un = [&](int s) { struct sockaddr_un *u = (struct sockaddr_un*)&r.a; u->sun_family = AF_UNIX; snprintf(u->sun_path, sizeof u->sun_path, "%s/%d", dir.c_str(), id); r.al = sizeof *u; if(bind(s, (struct sockaddr*)u, r.al)) inconclusive("bind: %s", errname(errno)); };
    int p[2];
    switch(k) {
    case FD_T4: case FD_T6: { int f = k == FD_T4 ? AF_INET : AF_INET6, l = sock(f, SOCK_STREAM); ip(l, f == AF_INET6); if(listen(l, 1)) inconclusive("listen"); r.peer = sock(f, SOCK_STREAM); if(connect(r.peer, (struct sockaddr*)&r.a, r.al)) inconclusive("connect"); r.fd = ::accept(l, NULL, NULL); if(r.fd < 0) inconclusive("accept"); close(l); break; }
    case FD_TL4: case FD_TL6: case FD_TBOUND: r.fd = sock(k == FD_TL6 ? AF_INET6 : AF_INET, SOCK_STREAM); ip(r.fd, k == FD_TL6); if(k != FD_TBOUND && listen(r.fd, 5)) inconclusive("listen"); break;
    case FD_U: case FD_SEQ: case FD_UDGRAM: if(socketpair(AF_UNIX, k == FD_U ? SOCK_STREAM : k == FD_SEQ ? SOCK_SEQPACKET : SOCK_DGRAM, 0, p)) inconclusive("socketpair"); r.fd = p[0]; r.peer = p[1]; break;
    case FD_UL: case FD_UBOUND: r.fd = sock(AF_UNIX, SOCK_STREAM); un(r.fd); if(k == FD_UL && listen(r.fd, 5)) inconclusive("listen"); break;
    case FD_UDP: r.fd = sock(AF_INET, SOCK_DGRAM); break;
    case FD_PIPE: if(pipe(p)) inconclusive("pipe"); r.fd = p[0]; r.peer = p[1]; break;
    case FD_FILE: r.fd = open("/dev/null", O_RDWR); break;
    case FD_CLOSED: r.fd = chance(1, 2) ? 300 + (int)draw(600) : 100000 + (int)draw(1 << 30); break;
    }
    return r;
}
int fds_open(void) { int n = 0; for(int i = 0; i < 1024; ++i) if(fcntl(i, F_GETFD) >= 0) n++; return n; }
}
PROP_CASE(S06, fds, "at least 6 descriptors refused and 2 accepted") {
    tcp_time(); S dir = scratch_dir(); int n = 8 + draw(16), bad = 0, good = 0; CHECK(msleep(now() + 1) == 0, "msleep");
    for(int k = 0; k < n; ++k) {
        int base = fds_open(), kind = draw(FD_KINDS), fn = draw(4); bool mem = chance(1, 2), nb = chance(1, 3); Fd d = fd_make(kind, dir, k); int fd = d.fd; if(kind != FD_CLOSED && nb) fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); int fl = fcntl(fd, F_GETFL);
        static struct tcp_storage ts; static struct ipc_storage is; static struct tcp_listener_storage tl; static struct ipc_listener_storage il; static const char *const F[] = {"tcp_fromfd", "tcp_listener_fromfd", "ipc_fromfd", "ipc_listener_fromfd"};
        errno = 0; int h = fn == 0 ? mem ? tcp_fromfd_mem(fd, &ts) : tcp_fromfd(fd) : fn == 1 ? mem ? tcp_listener_fromfd_mem(fd, &tl) : tcp_listener_fromfd(fd) : fn == 2 ? mem ? ipc_fromfd_mem(fd, &is) : ipc_fromfd(fd) : mem ? ipc_listener_fromfd_mem(fd, &il) : ipc_listener_fromfd(fd); int e = errno;
        note("%s%s of a %s: %d %s", F[fn], mem ? "_mem" : "", fd_names[kind], h, h < 0 ? errname(e) : "");
        bool ok = fn == 0 ? kind == FD_T4 || kind == FD_T6 : fn == 1 ? kind == FD_TL4 || kind == FD_TL6 : fn == 2 ? kind == FD_U : kind == FD_UL, open = (fn == 0 && kind == FD_TBOUND) || (fn == 2 && kind == FD_UBOUND);
        if(open) { if(h >= 0) CHECK(hclose(h) == 0, "hclose"); else close(fd); }
        else if(ok) {
            good++; CHECK(h >= 0, "%s of a %s: %s", F[fn], fd_names[kind], errname(e)); char c = 0;
            if(fn == 0 || fn == 2) { CHECK(bsend(h, "a", 1, -1) == 0, "bsend: %s", errname(errno)); CHECK(::recv(d.peer, &c, 1, 0) == 1 && c == 'a', "recv"); CHECK(::send(d.peer, "b", 1, 0) == 1, "send"); CHECK(brecv(h, &c, 1, -1) == 0 && c == 'b', "brecv: %s", errname(errno)); }
            else { int s = socket(d.a.ss_family, SOCK_STREAM, 0); CHECK(!connect(s, (struct sockaddr*)&d.a, d.al), "connect: %s", errname(errno)); int x = fn == 1 ? tcp_accept(h, NULL, -1) : ipc_accept(h, -1); CHECK(x >= 0, "accept: %s", errname(errno)); CHECK(bsend(x, "a", 1, -1) == 0, "bsend"); CHECK(::recv(s, &c, 1, 0) == 1 && c == 'a', "recv"); CHECK(hclose(x) == 0, "hclose"); close(s); }
            CHECK(hclose(h) == 0, "hclose");
        } else {
            bad++; CHECK(h == -1, "%s accepts a %s", F[fn], fd_names[kind]);
            if(kind == FD_CLOSED) CHECK(e == EBADF, "%s of a closed descriptor: %s", F[fn], errname(e));
            else { if(kind != FD_PIPE && kind != FD_FILE) CHECK(e == EINVAL, "%s of a %s: %s", F[fn], fd_names[kind], errname(e)); CHECK(fcntl(fd, F_GETFL) == fl, "%s has closed or changed the %s it refused", F[fn], fd_names[kind]); close(fd); }
        }
        if(d.peer >= 0) close(d.peer);
        CHECK(fds_open() == base, "%s of a %s leaks a descriptor", F[fn], fd_names[kind]);
    }
    if(bad >= 6 && good >= 2) nontrivial();
}
