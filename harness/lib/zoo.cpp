#include "zoo.h"
#include "store.h"
#include <sys/stat.h>
typedef std::string S;
thread_local Args za;
static const char *znames[] = {"coroutine", "bundle", "channel", "user object", "tcp listener", "tcp", "ipc listener", "ipc", "udp", "user bytestream", "prefix", "suffix", "ws", "term", "tls", "http"};
const char *zoo_name(int k) { return znames[k]; }
bool Args::canary() const { for(char c : buf) if(c != (char)0xEE) return false; return true; }
void Args::reset() { memset(buf, 0xEE, sizeof buf); ran = false; CHECK(ipaddr_local(&addr, "127.0.0.1", 5555, 0) == 0, "ipaddr_local"); }
namespace {
struct UserObj { struct hvfs hv; int closes = 0; };
const int user_type_ = 0; const void *user_type = &user_type_;
void *uq(struct hvfs *v, const void *t) { if(t == user_type) return v; errno = ENOTSUP; return NULL; }
void uc(struct hvfs *v) { ((UserObj*)v)->closes++; }
void swap_bytes(int a, int b) { S x = gen_bytes(1 + draw(20)), y = gen_bytes(1 + draw(20)), g; CHECK(bsend_any(a, x, -1) == 0, "bsend: %s", errname(errno)); CHECK(bsend_any(b, y, -1) == 0, "bsend: %s", errname(errno)); CHECK(brecv_any(b, x.size(), &g, -1) == 0 && g == x, "brecv: %s", errname(errno)); CHECK(brecv_any(a, y.size(), &g, -1) == 0 && g == y, "brecv: %s", errname(errno)); }
void both(Animal *a) { a->end = [a] { for(int i = 0; i < 2; ++i) if(a->h[i] >= 0) { CHECK(hclose(a->h[i]) == 0, "hclose(%s): %s", a->name.c_str(), errname(errno)); a->h[i] = -1; } }; }
}
AnimalP zoo_make(int kind) {
    AnimalP p(new Animal); Animal *a = p.get(); a->kind = kind; a->name = znames[kind];
    switch(kind) {
    case Z_CO: { struct St { int ch[2]; int got = 0; bool fin = false; }; auto s = std::make_shared<St>(); CHECK(chmake(s->ch) == 0, "chmake");
        a->h[0] = go_fn([s] { int v; while(chrecv(s->ch[1], &v, sizeof v, -1) == 0) s->got += v; s->fin = true; }); CHECK(a->h[0] >= 0, "go");
        a->use = [s] { CHECK(!s->fin, "the coroutine has ended"); int v = 1 + draw(100), g = s->got; CHECK(chsend(s->ch[0], &v, sizeof v, -1) == 0, "chsend"); for(int i = 0; i < 50 && s->got == g; ++i) yield(); CHECK(s->got == g + v, "the coroutine doesn't run"); };
        a->closed = [s](int) { return s->fin; };
        a->end = [a, s] { if(a->h[0] >= 0) CHECK(hclose(a->h[0]) == 0, "hclose(coroutine)"); CHECK(s->fin, "the coroutine has not ended"); hclose(s->ch[0]); hclose(s->ch[1]); }; break; }
    case Z_BUNDLE: { struct St { int live = 0, fin = 0; }; auto s = std::make_shared<St>(); a->h[0] = bundle(); CHECK(a->h[0] >= 0, "bundle"); int n = 1 + draw(3); for(int i = 0; i < n; ++i) { CHECK(bundle_go_fn(a->h[0], [s] { s->live++; while(msleep(now() + 1000) == 0); s->fin++; }) == 0, "bundle_go"); }
        a->use = [a, s, n] { CHECK(s->fin == 0, "a coroutine has ended"); CHECK(s->live >= n, "a coroutine does not run"); CHECK(bundle_wait(a->h[0], 0) == -1 && errno == ETIMEDOUT, "bundle_wait: %s", errname(errno)); bool r = false; CHECK(bundle_go_fn(a->h[0], [&] { r = true; }) == 0, "bundle_go"); for(int i = 0; i < 50 && !r; ++i) yield(); CHECK(r, "bundle_go does not work"); };
        a->closed = [s, n](int) { return s->fin == n; };
        a->end = [a, s, n] { if(a->h[0] >= 0) CHECK(hclose(a->h[0]) == 0, "hclose(bundle)"); CHECK(s->fin == n, "the coroutines have not ended"); }; yield(); break; }
    case Z_CHAN: { a->n = 2; if(chance(1, 2)) CHECK(chmake(a->h) == 0, "chmake"); else { CHECK(chmake_mem(store<struct chstorage>(), a->h) == 0, "chmake_mem"); }
        a->use = [a] { int d = draw(2), v = draw(1000), w = -1; int c = go_fn([&] { CHECK(chsend(a->h[d], &v, sizeof v, -1) == 0, "chsend: %s", errname(errno)); }); CHECK(c >= 0, "go"); CHECK(chrecv(a->h[!d], &w, sizeof w, now() + 100) == 0 && w == v, "chrecv: %s", errname(errno)); CHECK(hclose(c) == 0, "hclose"); };
        a->closed = [](int) { return true; }; both(a); break; }
    case Z_USER: { auto s = std::make_shared<UserObj>(); s->hv.query = uq; s->hv.close = uc; a->h[0] = hmake(&s->hv); CHECK(a->h[0] >= 0, "hmake");
        a->use = [a, s] { CHECK(hquery(a->h[0], user_type) == &s->hv, "hquery"); CHECK(s->closes == 0, "closed"); };
        a->closed = [s](int) { return s->closes == 1; };
        a->end = [a, s] { if(a->h[0] >= 0) CHECK(hclose(a->h[0]) == 0, "hclose"); CHECK(s->closes == 1, "closed %d times", s->closes); }; break; }
    case Z_TCPL: { auto ad = std::make_shared<struct ipaddr>(); CHECK(ipaddr_local(ad.get(), "127.0.0.1", 0, 0) == 0, "ipaddr_local"); a->h[0] = tcp_listen(ad.get(), 10); CHECK(a->h[0] >= 0, "tcp_listen");
        a->use = [a, ad] { int c = tcp_connect(ad.get(), -1); CHECK(c >= 0, "tcp_connect: %s", errname(errno)); int d = tcp_accept(a->h[0], NULL, -1); CHECK(d >= 0, "tcp_accept: %s", errname(errno)); swap_bytes(c, d); hclose(c); hclose(d); };
        a->closed = [ad](int) { int c = tcp_connect(ad.get(), -1); int e = errno; if(c >= 0) hclose(c); return c < 0 && e == ECONNREFUSED; };
        a->end = [a] { if(a->h[0] >= 0) CHECK(hclose(a->h[0]) == 0, "hclose"); }; break; }
    case Z_IPCL: { auto path = std::make_shared<S>(scratch_dir()); static thread_local int k; *path += "/z" + std::to_string(k++); a->h[0] = ipc_listen(path->c_str(), 10); CHECK(a->h[0] >= 0, "ipc_listen: %s", errname(errno));
        a->use = [a, path] { int c = ipc_connect(path->c_str(), -1); CHECK(c >= 0, "ipc_connect: %s", errname(errno)); int d = ipc_accept(a->h[0], -1); CHECK(d >= 0, "ipc_accept: %s", errname(errno)); swap_bytes(c, d); hclose(c); hclose(d); };
        a->closed = [path](int) { int c = ipc_connect(path->c_str(), -1); if(c >= 0) hclose(c); return c < 0; };
        a->end = [a] { if(a->h[0] >= 0) CHECK(hclose(a->h[0]) == 0, "hclose"); }; break; }
    case Z_TCP: case Z_IPC: { auto c = std::make_shared<Conn>(); c->open(kind == Z_TCP ? (int[]){K_TCP4, K_TCPFD}[draw(2)] : (int[]){K_PAIR, K_IPC, K_IPCFD}[draw(3)]); a->n = 2; a->bytes = true; for(int i = 0; i < 2; ++i) a->h[i] = c->h[i];
        a->use = [a] { swap_bytes(a->h[0], a->h[1]); };
        a->closed = [a, c](int i) { char b; int rc = brecv(a->h[!i], &b, 1, -1); return rc == -1 && (errno == EPIPE || errno == ECONNRESET); }; both(a); break; }
    case Z_UDP: { struct St { struct ipaddr ad[2]; }; auto s = std::make_shared<St>(); a->n = 2; a->msgs = true; for(int i = 0; i < 2; ++i) { CHECK(ipaddr_local(&s->ad[i], "127.0.0.1", 0, 0) == 0, "ipaddr_local"); a->h[i] = udp_open(&s->ad[i], i ? &s->ad[0] : NULL); CHECK(a->h[i] >= 0, "udp_open: %s", errname(errno)); }
        a->use = [a, s] { S x = gen_bytes(1 + draw(20)); CHECK(msend_any(a->h[1], x, -1) == 0, "msend: %s", errname(errno)); CHECK(mrecv_any(a->h[0], 100, &x, now() + 1000) == (ssize_t)x.size(), "mrecv: %s", errname(errno)); x = gen_bytes(1 + draw(20)); CHECK(udp_send(a->h[0], &s->ad[1], x.data(), x.size()) == 0, "udp_send: %s", errname(errno)); CHECK(mrecv_any(a->h[1], 100, &x, now() + 1000) == (ssize_t)x.size(), "mrecv: %s", errname(errno)); };
        a->closed = [s](int i) { int h = udp_open(&s->ad[i], NULL); if(h >= 0) hclose(h); return h >= 0; }; both(a); break; }
    case Z_HTTP: { struct St { Wire *w[2]; bool c = true; }; auto s = std::make_shared<St>(); sim_pair(s->w[0], s->w[1]); a->n = 2; for(int i = 0; i < 2; ++i) { int o = s->w[i]->h; a->h[i] = chance(1, 2) ? http_attach(o) : http_attach_mem(o, store<struct http_storage>()); CHECK(a->h[i] >= 0, "http_attach: %s", errname(errno)); } CHECK(http_sendrequest(a->h[0], "GET", "/", -1) == 0, "http_sendrequest");
        char x[20], y[20]; CHECK(http_recvrequest(a->h[1], x, sizeof x, y, sizeof y, -1) == 0 && !strcmp(x, "GET") && !strcmp(y, "/"), "http_recvrequest"); CHECK(http_sendstatus(a->h[1], 200, "OK", -1) == 0, "http_sendstatus"); CHECK(http_recvstatus(a->h[0], x, sizeof x, -1) == 200, "http_recvstatus");
        a->use = [a] { for(int d = 0; d < 2; ++d) { S v = "v" + std::to_string(draw(1000)); char n[30], w[30]; CHECK(http_sendfield(a->h[d], "Name", v.c_str(), -1) == 0, "http_sendfield: %s", errname(errno)); CHECK(http_recvfield(a->h[!d], n, sizeof n, w, sizeof w, -1) == 0 && !strcmp(n, "Name") && v == w, "http_recvfield: %s", errname(errno)); } };
        a->closed = [s](int i) { return s->w[i]->closes == 1; }; both(a); break; }
    default: { auto s = std::make_shared<Stack>(); s->open(kind != Z_WIRE && chance(1, 4) ? B_IPC : B_SIM); Wire *w[2] = {s->w[0], s->w[1]}; a->n = 2; if(kind == Z_TLS) stk_files();
        if(kind == Z_TERM) { Lay l; l.kind = L_PREFIX; l.n = 2; s->push(l); }
        if(kind != Z_WIRE) { Lay l; l.kind = kind == Z_PREFIX ? L_PREFIX : kind == Z_SUFFIX ? L_SUFFIX : kind == Z_WS ? L_WS : kind == Z_TERM ? L_TERM : L_TLS; l.n = 1 + draw(8); l.flags = draw(2); l.t = l.kind == L_SUFFIX ? "\r\n" : "end"; l.srv = draw(2); for(bool &m : l.mem) m = chance(1, 2); l.http = chance(1, 2); s->push(l); }
        a->msgs = s->msgs(); a->bytes = !a->msgs; for(int i = 0; i < 2; ++i) a->h[i] = s->h[i]; 
        a->use = [a, s] { for(int i = 0; i < 2; ++i) s->h[i] = a->h[i]; s->exchange(3); };
        a->closed = [a, s](int i) { if(s->base == B_SIM) return s->w[i]->closes == 1; if(a->kind == Z_TLS) return true; char b; ssize_t rc = a->msgs ? mrecv(a->h[!i], &b, 1, -1) : brecv(a->h[!i], &b, 1, -1); return rc == -1 && (errno == EPIPE || errno == ECONNRESET); }; both(a); break; }
    }
    return p;
}
#define K(x) (1u << Z_##x)
static const unsigned BYTES = K(TCP) | K(IPC) | K(WIRE) | K(TLS), MSGS = K(UDP) | K(PREFIX) | K(SUFFIX) | K(WS) | K(TERM), ALL = (1u << Z_KINDS) - 1;
const std::vector<Call> &zoo_calls(void) {
    static std::vector<Call> v; if(!v.empty()) return v;
#define P(n, ok, e) v.push_back({n, ok, C_PLAIN, [](int h) -> long { int64_t dl = za.dl; (void)dl; char *b = za.buf; (void)b; return e; }})
#define CO(n, ok, e) v.push_back({n, ok, C_CONSUME, [](int h) -> long { int64_t dl = za.dl; (void)dl; return e; }})
#define AT(n, ok, e) v.push_back({n, ok, C_ATTACH, [](int h) -> long { int64_t dl = za.dl; (void)dl; return e; }})
#define MEM(t) (store<t>())
    P("hquery", 0u, (hquery(h, &za) ? 0 : -1));
    P("hclose", ALL, hclose(h)); P("hown", ALL, hown(h));
    P("bundle_wait", K(BUNDLE) | K(CO), bundle_wait(h, dl)); P("bundle_go", K(BUNDLE) | K(CO), bundle_go_fn(h, [] { za.ran = true; }));
    v.push_back({"bundle_go_mem", K(BUNDLE) | K(CO), C_PLAIN, [](int h) -> long { static thread_local char *m = new char[65536]; return bundle_go_mem_fn(h, [] { za.ran = true; }, m, 65536); }});
    P("chsend", K(CHAN), chsend(h, "x", 1, dl)); P("chrecv", K(CHAN), chrecv(h, b, 1, dl)); P("chdone", K(CHAN), chdone(h));
    v.push_back({"choose", K(CHAN), C_PLAIN, [](int h) -> long { struct chclause c = {draw(2) ? CHSEND : CHRECV, h, za.buf, 1}; errno = 0; int rc = choose(&c, 1, za.dl); return rc == 0 && errno ? -1 : rc == -1 ? -2 : rc; }});
    P("bsend", BYTES, bsend(h, "abc", 3, dl)); P("brecv", BYTES, brecv(h, b, 10, dl)); P("msend", MSGS, msend(h, "abc", 3, dl)); P("mrecv", MSGS, mrecv(h, b, 100, dl));
#define IOL(call) ([&]() -> long { struct dill_iolist l = {za.buf, 10, NULL, 0}; return call; }())
    P("bsendl", BYTES, IOL(bsendl(h, &l, &l, dl))); P("brecvl", BYTES, IOL(brecvl(h, &l, &l, dl))); P("msendl", MSGS, IOL(msendl(h, &l, &l, dl))); P("mrecvl", MSGS, IOL(mrecvl(h, &l, &l, dl)));
    P("brecvl(NULL)", BYTES, brecvl(h, NULL, NULL, dl)); P("mrecvl(NULL)", MSGS, mrecvl(h, NULL, NULL, dl));
    P("tcp_accept", K(TCPL), tcp_accept(h, chance(1, 2) ? NULL : (struct ipaddr*)b, dl)); P("tcp_accept_mem", K(TCPL), tcp_accept_mem(h, NULL, MEM(struct tcp_storage), dl)); P("tcp_done", K(TCP), tcp_done(h, dl)); CO("tcp_close", K(TCP) | K(TCPL), tcp_close(h, dl));
    P("ipc_accept", K(IPCL), ipc_accept(h, dl)); P("ipc_accept_mem", K(IPCL), ipc_accept_mem(h, MEM(struct ipc_storage), dl)); P("ipc_done", K(IPC), ipc_done(h, dl)); CO("ipc_close", K(IPC) | K(IPCL), ipc_close(h, dl)); P("ipc_sendfd", K(IPC), ipc_sendfd(h, 2, dl)); P("ipc_recvfd", K(IPC), ipc_recvfd(h, dl));
    P("udp_send", K(UDP), udp_send(h, &za.addr, "x", 1)); P("udp_recv", K(UDP), udp_recv(h, NULL, b, 10, dl)); P("udp_sendl", K(UDP), IOL(udp_sendl(h, &za.addr, &l, &l))); P("udp_recvl", K(UDP), IOL(udp_recvl(h, chance(1, 2) ? NULL : (struct ipaddr*)(za.buf + 100), &l, &l, dl)));
    AT("prefix_attach", BYTES, prefix_attach(h, 2, 0)); AT("prefix_attach_mem", BYTES, prefix_attach_mem(h, 2, 0, MEM(struct prefix_storage))); CO("prefix_detach", K(PREFIX), prefix_detach(h));
    AT("suffix_attach", BYTES, suffix_attach(h, "\r\n", 2)); AT("suffix_attach_mem", BYTES, suffix_attach_mem(h, "\r\n", 2, MEM(struct suffix_storage))); CO("suffix_detach", K(SUFFIX), suffix_detach(h, dl));
    AT("term_attach", MSGS, term_attach(h, "end", 3)); AT("term_attach_mem", MSGS, term_attach_mem(h, NULL, 0, MEM(struct term_storage))); P("term_done", K(TERM), term_done(h, dl)); CO("term_detach", K(TERM), term_detach(h, dl));
    AT("http_attach", BYTES, http_attach(h)); AT("http_attach_mem", BYTES, http_attach_mem(h, MEM(struct http_storage))); P("http_done", K(HTTP), http_done(h, dl)); CO("http_detach", K(HTTP), http_detach(h, dl));
    P("http_sendrequest", K(HTTP), http_sendrequest(h, "GET", "/", dl)); P("http_recvrequest", K(HTTP), http_recvrequest(h, b, 50, b + 100, 50, dl)); P("http_sendstatus", K(HTTP), http_sendstatus(h, 200, "OK", dl)); P("http_recvstatus", K(HTTP), http_recvstatus(h, b, 50, dl)); P("http_sendfield", K(HTTP), http_sendfield(h, "a", "b", dl)); P("http_recvfield", K(HTTP), http_recvfield(h, b, 50, b + 100, 50, dl));
    AT("tls_attach_client", BYTES, tls_attach_client(h, dl)); AT("tls_attach_client_mem", BYTES, tls_attach_client_mem(h, MEM(struct tls_storage), dl)); AT("tls_attach_server", BYTES, tls_attach_server(h, (stk_cert.empty() ? "cert.pem" : stk_cert.c_str()), (stk_cert.empty() ? "key.pem" : stk_key.c_str()), dl)); AT("tls_attach_server_mem", BYTES, tls_attach_server_mem(h, (stk_cert.empty() ? "cert.pem" : stk_cert.c_str()), (stk_cert.empty() ? "key.pem" : stk_key.c_str()), MEM(struct tls_storage), dl)); P("tls_done", K(TLS), tls_done(h, dl)); CO("tls_detach", K(TLS), tls_detach(h, dl));
    AT("ws_attach_client", BYTES, ws_attach_client(h, WS_TEXT, "/", "host", dl)); AT("ws_attach_client_mem", BYTES, ws_attach_client_mem(h, WS_NOHTTP, NULL, NULL, MEM(struct ws_storage), dl)); AT("ws_attach_server", BYTES, ws_attach_server(h, WS_NOHTTP, NULL, 0, NULL, 0, dl)); AT("ws_attach_server_mem", BYTES, ws_attach_server_mem(h, 0, za.buf, 50, za.buf + 100, 50, MEM(struct ws_storage), dl));
    P("ws_send", K(WS), ws_send(h, WS_TEXT, "abc", 3, dl)); P("ws_recv", K(WS), ws_recv(h, (int*)(b + 200), b, 100, dl)); P("ws_sendl", K(WS), IOL(ws_sendl(h, 0, &l, &l, dl))); P("ws_recvl", K(WS), IOL(ws_recvl(h, NULL, &l, &l, dl))); P("ws_done", K(WS), ws_done(h, 1000, "bye", 3, dl)); CO("ws_detach", K(WS), ws_detach(h, 1000, "bye", 3, dl)); P("ws_status", K(WS), ws_status(h, (int*)(b + 200), b, 100));
    P("socks5_client_connect", BYTES, socks5_client_connect(h, NULL, NULL, &za.addr, dl)); P("socks5_client_connectbyname", BYTES, socks5_client_connectbyname(h, "u", "p", "host", 80, dl)); P("socks5_proxy_auth", BYTES, socks5_proxy_auth(h, NULL, dl)); P("socks5_proxy_recvcommand", BYTES, socks5_proxy_recvcommand(h, (struct ipaddr*)b, dl)); P("socks5_proxy_recvcommandbyname", BYTES, socks5_proxy_recvcommandbyname(h, b, (int*)(b + 300), dl)); P("socks5_proxy_sendreply", BYTES, socks5_proxy_sendreply(h, 0, &za.addr, dl));
    return v;
}
