#include "conn.h"
#include "store.h"
#include <algorithm>
#include <set>
#include <sys/ioctl.h>
#include <linux/sockios.h>
typedef std::string S;
bool have_ip6(void) { static int r = -1; if(r < 0) { int s = socket(AF_INET6, SOCK_STREAM, 0); struct sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; r = s >= 0 && bind(s, (struct sockaddr*)&a, sizeof a) == 0; if(s >= 0) ::close(s); } return r; }
int conn_kind(bool tcp_ok, int pct) { if(tcp_ok && chance(pct, 100)) { int k = K_TCP4 + draw(3); return k == K_TCP6 && !have_ip6() ? K_TCP4 : k; } return draw(3); }
static std::set<int> fds(void) { std::set<int> r; if(rt_in_thread()) return r; for(int f : fd_list()) { int t; socklen_t l = sizeof t; if(getsockopt(f, SOL_SOCKET, SO_TYPE, &t, &l) == 0) r.insert(f); } return r; }
static int other(const std::set<int> &a) { int r = -1; if(rt_in_thread()) return r; for(int f : fds()) if(!a.count(f)) { CHECK(r < 0, "more than one new socket"); r = f; } CHECK(r >= 0, "no new socket"); return r; }
const char *Conn::name(void) const { static const char *n[] = {"ipc_pair", "ipc", "ipc_fromfd", "tcp4", "tcp6", "tcp_fromfd"}; return n[kind]; }
void Conn::open(int k) {
    kind = k; tcp = k >= K_TCP4; mem[0] = chance(1, 3); mem[1] = chance(1, 3); lmem = chance(1, 3); note("%s mem %d %d", name(), mem[0], mem[1]); label(name());
    if(mem[0] || mem[1]) label("_mem"); for(int i = 0; i < 2; ++i) { m[i] = (Mem*)store_new(k == K_TCP4 || k == K_TCP6 || k == K_TCPFD ? sizeof(struct tcp_storage) : sizeof(struct ipc_storage)); }
    std::set<int> before = fds();
    if(k == K_PAIR) { struct ipc_pair_storage *ps; int hh[2], rc; if(mem[0]) { ps = (struct ipc_pair_storage*)store_new(sizeof *ps); rc = ipc_pair_mem(ps, hh); } else rc = ipc_pair(hh); CHECK(rc == 0, "ipc_pair: %s", errname(errno)); h[0] = hh[0]; h[1] = hh[1]; std::set<int> now = fds(); std::vector<int> nf; for(int f : now) if(!before.count(f)) nf.push_back(f); if(rt_in_thread()) return; CHECK(nf.size() == 2, "%zu new sockets", nf.size());
        /* which one is which: the descriptors are made in order */ fd[0] = nf[0]; fd[1] = nf[1]; return; }
    auto ifrom = [&](int i, int f) { h[i] = tcp ? mem[i] ? tcp_fromfd_mem(f, &m[i]->t) : tcp_fromfd(f) : mem[i] ? ipc_fromfd_mem(f, &m[i]->i) : ipc_fromfd(f); CHECK(h[i] >= 0, "fromfd: %s", errname(errno)); };
    if(k == K_IPCFD || k == K_TCPFD) { int f[2]; int rc;
        if(k == K_IPCFD) { rc = socketpair(AF_UNIX, SOCK_STREAM, 0, f); if(rc) inconclusive("socketpair"); }
        else { int ls = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; if(bind(ls, (struct sockaddr*)&a, l) || listen(ls, 5) || getsockname(ls, (struct sockaddr*)&a, &l)) inconclusive("listen"); f[0] = socket(AF_INET, SOCK_STREAM, 0); if(connect(f[0], (struct sockaddr*)&a, l)) inconclusive("connect"); f[1] = accept(ls, NULL, NULL); if(f[1] < 0) inconclusive("accept"); ::close(ls); }
        std::set<int> b2 = before; b2.insert(f[1]); ifrom(0, f[0]); fd[0] = other(b2); b2 = before; b2.insert(fd[0]); ifrom(1, f[1]); fd[1] = other(b2); return; }
    if(k == K_IPC) { S p = scratch_dir() + "/s"; struct ipc_listener_storage *lst = (struct ipc_listener_storage*)store_new(sizeof *lst); int ls = lmem ? ipc_listen_mem(p.c_str(), 5, lst) : ipc_listen(p.c_str(), 5); CHECK(ls >= 0, "ipc_listen: %s", errname(errno)); if(chance(1, 4)) label("listener before"); std::set<int> b2 = fds();
        h[0] = mem[0] ? ipc_connect_mem(p.c_str(), &m[0]->i, -1) : ipc_connect(p.c_str(), -1); CHECK(h[0] >= 0, "ipc_connect: %s", errname(errno)); fd[0] = other(b2); b2.insert(fd[0]); h[1] = mem[1] ? ipc_accept_mem(ls, &m[1]->i, -1) : ipc_accept(ls, -1); CHECK(h[1] >= 0, "ipc_accept: %s", errname(errno)); fd[1] = other(b2);
        if(chance(1, 2)) CHECK(ipc_close(ls, -1) == 0, "closing the listener: %s", errname(errno)); else CHECK(hclose(ls) == 0, "hclose"); unlink(p.c_str()); }
    else { struct ipaddr a, ra; CHECK(ipaddr_local(&a, k == K_TCP4 ? "127.0.0.1" : "::1", 0, k == K_TCP4 ? IPADDR_IPV4 : IPADDR_IPV6) == 0, "ipaddr_local: %s", errname(errno)); struct tcp_listener_storage *lst = (struct tcp_listener_storage*)store_new(sizeof *lst); int ls = lmem ? tcp_listen_mem(&a, 5, lst) : tcp_listen(&a, 5); CHECK(ls >= 0, "tcp_listen: %s", errname(errno)); CHECK(ipaddr_port(&a) > 0, "tcp_listen has not filled in the port"); std::set<int> b2 = fds();
        h[0] = mem[0] ? tcp_connect_mem(&a, &m[0]->t, -1) : tcp_connect(&a, -1); CHECK(h[0] >= 0, "tcp_connect: %s", errname(errno)); fd[0] = other(b2); b2.insert(fd[0]); bool na = chance(1, 3); h[1] = mem[1] ? tcp_accept_mem(ls, na ? NULL : &ra, &m[1]->t, -1) : tcp_accept(ls, na ? NULL : &ra, -1); CHECK(h[1] >= 0, "tcp_accept: %s", errname(errno)); fd[1] = other(b2);
        if(!na && fd[0] >= 0) { struct sockaddr_storage ss; socklen_t l = sizeof ss; if(getsockname(fd[0], (struct sockaddr*)&ss, &l)) inconclusive("getsockname"); CHECK(l == (socklen_t)ipaddr_len(&ra) && !memcmp(&ss, ipaddr_sockaddr(&ra), l), "tcp_accept reports a wrong address of the peer"); }
        if(chance(1, 2)) CHECK(tcp_close(ls, -1) == 0, "closing the listener: %s", errname(errno)); else CHECK(hclose(ls) == 0, "hclose"); }
}
void Conn::small(int bytes) { for(int i = 0; i < 2; ++i) { int v = bytes; setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &v, sizeof v); } note("buffers %d", bytes); label("small buffers"); }
void Conn::released(int i, const char *what) { CHECK(hquery(h[i], bsock_type) == NULL && errno == EBADF, "the handle is still open after %s", what); CHECK(fcntl(fd[i], F_GETFD) == -1 && errno == EBADF, "the descriptor is still open after %s", what); h[i] = -1; }
void Conn::ready(int i, int ev) { if(!tcp) return; struct pollfd p = {fd[i], (short)ev, 0}; __real_poll(&p, 1, 2000); }
void Conn::arrived(int i) { if(!tcp) return; for(int k = 0; k < 2000; ++k) { int n = 0; if(ioctl(fd[i], SIOCOUTQ, &n) || n == 0) return; struct pollfd p = {-1, 0, 0}; __real_poll(&p, 1, 1); } }
