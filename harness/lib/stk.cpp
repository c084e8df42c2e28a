#include "stk.h"
#include "store.h"
#include "tls_keys.h"
#include <algorithm>
#include <fcntl.h>
typedef std::string S;
std::string stk_cert, stk_key;
static S stk_dir;
void stk_files(void) { if(stk_cert.empty()) { stk_dir = scratch_dir(); tls_files(stk_dir, stk_cert, stk_key); 
#ifndef VERIF_TSAN
    freopen("/dev/null", "w", stderr);
#endif
    } }
const char *lay_name(int k) { static const char *n[] = {"tls", "prefix", "suffix", "ws", "term", "http", "socks5"}; return n[k]; }
void Stack::open(int b) {
    base = b;
    if(b == B_SIM) { sim_pair(w[0], w[1]); h[0] = w[0]->h; h[1] = w[1]->h; return; }
    if(b == B_IPC) { CHECK(ipc_pair(h) == 0, "ipc_pair: %s", errname(errno)); return; }
    struct ipaddr a; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr_local"); int l = tcp_listen(&a, 10); CHECK(l >= 0, "tcp_listen: %s", errname(errno));
    h[0] = tcp_connect(&a, -1); CHECK(h[0] >= 0, "tcp_connect: %s", errname(errno)); h[1] = tcp_accept(l, NULL, -1); CHECK(h[1] >= 0, "tcp_accept: %s", errname(errno)); CHECK(hclose(l) == 0, "hclose"); }
static bool suffix_ok(const S &d, const S &m) { return (m + d).find(d) == m.size(); }
bool Stack::valid(const S &m) const {
    for(auto &l : lays) { if(l.kind == L_PREFIX && l.n == 1 && m.size() > 255) return false; if(l.kind == L_SUFFIX && !suffix_ok(l.t, m)) return false; if(l.kind == L_TERM && m == l.t) return false; }
    return true; }
S Stack::msg() const {
    for(int i = 0; i < 50; ++i) { S m; switch(draw(5)) { case 0: m = gen_from("abc\r\n", draw(12)); break; case 1: { m = gen_bytes(draw(8)); if(!lays.empty()) m = lays[draw(lays.size())].t.substr(0, draw(6)) + m; break; } case 2: m = gen_bytes(draw(60)); break; case 3: m = gen_bytes(draw(300)); break; default: m = gen_from("xyz", draw(20)); }
        if(base != B_SIM && m.size() > 25) for(auto &l : lays) if(l.kind == L_WS) { m.resize(25); break; } /* sent byte by byte: the kernel's buffer is soon full */
        if(valid(m)) return m; }
    for(int i = 0;; ++i) { S m = S(1 + i, 'q') + std::to_string(i); if(valid(m)) return m; if(i > 100) fail("harness: no valid message"); } }
Lay Stack::gen(bool tls, int want) const {
    Lay l; l.mem[0] = chance(1, 2); l.mem[1] = chance(1, 2); l.srv = draw(2);
    if(!msgs()) { l.kind = tls && chance(1, 4) ? L_TLS : want >= 0 ? want : L_PREFIX + draw(3);
        if(l.kind == L_PREFIX) { l.n = 1 + draw(8); l.flags = draw(2); } else if(l.kind == L_SUFFIX) { l.t = chance(1, 3) ? S("\r\n") : gen_from("ab\r\n", 1 + draw(chance(1, 4) ? 32 : 4)); } else if(l.kind == L_WS) { l.flags = draw(2); l.http = chance(1, 2); l.res = "/" + gen_from("abc/", draw(30)); l.host = "w" + gen_from("xyz.", draw(30)); } }
    else { l.kind = L_TERM; for(int i = 0; i < 30; ++i) { l.t = chance(1, 6) ? S() : gen_from("abc", 1 + draw(chance(1, 5) ? 32 : 5)); if(valid(l.t)) return l; } l.kind = -1; }
    return l; }
int Stack::attach(int i, const Lay &l, int64_t dl) {
    size_t need = l.kind == L_TLS ? sizeof(tls_storage) : l.kind == L_PREFIX ? sizeof(prefix_storage) : l.kind == L_SUFFIX ? sizeof(suffix_storage) : l.kind == L_WS ? sizeof(ws_storage) : sizeof(term_storage); void *m = nullptr; int s = h[i];
    if(l.mem[i]) { m = store_new(need); }
    Exact x(l.t);
    switch(l.kind) {
    case L_TLS: { const char *c = stk_cert.c_str(), *k = stk_key.c_str(); if(l.srv == i) return m ? tls_attach_server_mem(s, c, k, (tls_storage*)m, dl) : tls_attach_server(s, c, k, dl); return m ? tls_attach_client_mem(s, (tls_storage*)m, dl) : tls_attach_client(s, dl); }
    case L_PREFIX: return m ? prefix_attach_mem(s, l.n, l.flags, (prefix_storage*)m) : prefix_attach(s, l.n, l.flags);
    case L_SUFFIX: return m ? suffix_attach_mem(s, x.p.get(), x.n, (suffix_storage*)m) : suffix_attach(s, x.p.get(), x.n);
    case L_WS: { int f = l.flags | (l.http ? 0 : WS_NOHTTP); if(l.srv != i) { const char *r = l.http ? l.res.c_str() : NULL, *o = l.http ? l.host.c_str() : NULL; return m ? ws_attach_client_mem(s, f, r, o, (ws_storage*)m, dl) : ws_attach_client(s, f, r, o, dl); }
        char r[64] = "", o[64] = ""; int rc = m ? ws_attach_server_mem(s, f, l.http ? r : NULL, l.http ? sizeof r : 0, l.http ? o : NULL, l.http ? sizeof o : 0, (ws_storage*)m, dl) : ws_attach_server(s, f, l.http ? r : NULL, l.http ? sizeof r : 0, l.http ? o : NULL, l.http ? sizeof o : 0, dl); 
        if(rc >= 0 && l.http) CHECK(r == l.res && o == l.host, "resource '%s' and host '%s' instead of '%s' and '%s'", r, o, l.res.c_str(), l.host.c_str()); return rc; }
    case L_TERM: return m ? term_attach_mem(s, x.p.get(), x.n, (term_storage*)m) : term_attach(s, x.p.get(), x.n);
    }
    fail("harness: layer"); }
int Stack::detach(int i, const Lay &l, int s, int64_t dl) {
    switch(l.kind) { case L_TLS: return tls_detach(s, dl); case L_PREFIX: return prefix_detach(s); case L_SUFFIX: return suffix_detach(s, dl); case L_WS: return ws_detach(s, 1000, "bye", 3, dl); case L_TERM: return term_detach(s, dl); }
    fail("harness: layer"); }
int Stack::done(int i, int64_t dl) { switch(lays.back().kind) { case L_TLS: return tls_done(h[i], dl); case L_WS: return ws_done(h[i], 1000, "bye", 3, dl); case L_TERM: return term_done(h[i], dl); } fail("harness: done"); }
void Stack::push(const Lay &l) {
    if(l.kind < 0) return; note("push %s", lay_name(l.kind)); int old[2] = {h[0], h[1]}, nh[2];
    auto f = [&](int i) { nh[i] = attach(i, l, -1); CHECK(nh[i] >= 0, "attaching %s to %s (%d): %s", lay_name(l.kind), text().c_str(), i, errname(errno)); };
    run_all({[&] { f(0); }, [&] { f(1); }});
    for(int i = 0; i < 2; ++i) { CHECK(nh[i] == old[i] || (hquery(old[i], bsock_type) == NULL && errno == EBADF) || old[i] == nh[1 - i], "the handle of the socket below is still valid"); h[i] = nh[i]; }
    lays.push_back(l); }
void Stack::pop(void) {
    Lay l = lays.back(); note("pop %s", lay_name(l.kind)); int u[2], old[2] = {h[0], h[1]};
    auto f = [&](int i) { u[i] = detach(i, l, h[i], -1); CHECK(u[i] >= 0, "detaching %s from %s (%d): %s", lay_name(l.kind), text().c_str(), i, errname(errno)); };
    if(l.kind == L_PREFIX || l.kind == L_SUFFIX || chance(1, 2)) run_all({[&] { f(0); }, [&] { f(1); }}); else run_all({[&] { f(1); }, [&] { f(0); }});
    lays.pop_back(); for(int i = 0; i < 2; ++i) { if(lays.empty() && base == B_SIM) CHECK(sim_is(u[i], w[i]), "not the same socket"); if(old[i] != u[0] && old[i] != u[1]) CHECK(hquery(old[i], bsock_type) == NULL && errno == EBADF, "handle still valid after detach"); h[i] = u[i]; 
        CHECK((hquery(h[i], msock_type) != NULL) == msgs() && (hquery(h[i], bsock_type) != NULL) == !msgs(), "wrong type of socket after detach"); } }
void Stack::exchange(int n) {
    bool ms = msgs(); std::deque<S> q[2];
    for(int k = 0; k < n; ++k) { int d = draw(2); 
        if(q[d].size() < 6 && chance(1, 2)) { S m = msg(); note("%d sends %s", d, hex(m.data(), m.size()).c_str()); int rc = ms ? msend_any(h[d], m, -1) : bsend_any(h[d], m, -1); CHECK(rc == 0, "send over %s: %s", text().c_str(), errname(errno)); q[d].push_back(m); }
        else if(!q[d].empty()) { S m = q[d].front(); q[d].pop_front(); if(ms) { ssize_t rc = chance(1, 8) ? mrecvl(h[!d], NULL, NULL, -1) : mrecv_any(h[!d], m.size() + draw(20), &m, -1); CHECK(rc == (ssize_t)m.size(), "receive over %s: %zd %s instead of %zu", text().c_str(), rc, rc < 0 ? errname(errno) : "", m.size()); } 
            else { S g; CHECK(brecv_any(h[!d], m.size(), &g, -1) == 0, "receive over %s: %s", text().c_str(), errname(errno)); if(g != m) fail("received %s instead of %s over %s", hex(g.data(), g.size()).c_str(), hex(m.data(), m.size()).c_str(), text().c_str()); } } }
    for(int d = 0; d < 2; ++d) while(!q[d].empty()) { S m = q[d].front(); q[d].pop_front(); if(ms) { ssize_t rc = mrecv_any(h[!d], m.size(), &m, -1); CHECK(rc == (ssize_t)m.size(), "receive over %s: %zd %s", text().c_str(), rc, errname(errno)); } else { S g; CHECK(brecv_any(h[!d], m.size(), &g, -1) == 0, "receive over %s: %s", text().c_str(), errname(errno)); if(g != m) fail("received %s instead of %s over %s", hex(g.data(), g.size()).c_str(), hex(m.data(), m.size()).c_str(), text().c_str()); } } }
static S token(void) { return "t" + gen_from("abcXYZ019-", draw(12)); }
static S auth_user, auth_password; static int auth_calls;
void Stack::phase(int kind) {
    int c = draw(2); S early[2] = {gen_bytes(1 + draw(10)), gen_bytes(1 + draw(10))}; note("phase %s", lay_name(kind));
    auto tail = [&](int i) { CHECK(bsend_any(h[i], early[i], -1) == 0, "bsend"); S g; CHECK(brecv_any(h[i], early[!i].size(), &g, -1) == 0, "brecv: %s", errname(errno)); if(g != early[!i]) fail("behind the %s exchange over %s: %s instead of %s", lay_name(kind), text().c_str(), hex(g.data(), g.size()).c_str(), hex(early[!i].data(), early[!i].size()).c_str()); };
    if(kind == L_HTTP) { S cmd = token(), res = "/" + token(), reason = token() + " " + token(); int st = 100 + draw(500); std::vector<std::pair<S, S>> f[2]; for(int i = 0; i < 2; ++i) for(int k = draw(3); k > 0; --k) f[i].push_back({token(), token()});
        auto one = [&](int i) { int u = http_attach(h[i]); CHECK(u >= 0, "http_attach: %s", errname(errno)); char a[100], b[100]; int rc;
            auto out = [&] { rc = i == c ? http_sendrequest(u, cmd.c_str(), res.c_str(), -1) : http_sendstatus(u, st, reason.c_str(), -1); CHECK(rc == 0, "http send: %s", errname(errno)); for(auto &x : f[i]) CHECK(http_sendfield(u, x.first.c_str(), x.second.c_str(), -1) == 0, "http_sendfield"); CHECK(http_done(u, -1) == 0, "http_done"); };
            auto in = [&] { if(i == c) { rc = http_recvstatus(u, a, sizeof a, -1); CHECK(rc == st && a == reason, "http_recvstatus: %d %s instead of %d %s", rc, rc < 0 ? errname(errno) : a, st, reason.c_str()); } else { rc = http_recvrequest(u, a, sizeof a, b, sizeof b, -1); CHECK(rc == 0, "http_recvrequest: %s", errname(errno)); CHECK(a == cmd && b == res, "http_recvrequest: %s %s instead of %s %s", a, b, cmd.c_str(), res.c_str()); }
                for(auto &x : f[!i]) { CHECK(http_recvfield(u, a, sizeof a, b, sizeof b, -1) == 0, "http_recvfield: %s", errname(errno)); CHECK(a == x.first && b == x.second, "http_recvfield: %s: %s instead of %s: %s", a, b, x.first.c_str(), x.second.c_str()); }
                CHECK(http_recvfield(u, a, sizeof a, b, sizeof b, -1) == -1 && errno == EPIPE, "end of the header"); };
            if(i == c) { out(); in(); } else { in(); out(); } h[i] = http_detach(u, -1); CHECK(h[i] >= 0, "http_detach: %s", errname(errno)); tail(i); };
        run_all({[&] { one(0); }, [&] { one(1); }}); }
    else { struct ipaddr ip, got; int cp = 1 + draw(65535), rp = 1 + draw(65535), ra = draw(256); S host = "h" + gen_from("abc.-", draw(100)), lit = "10.1.2." + std::to_string(ra), us = token(), pw = token(); CHECK(ipaddr_remote(&ip, lit.c_str(), cp, IPADDR_IPV4, -1) == 0, "ipaddr"); struct ipaddr rip; S rl = "10.7.8." + std::to_string(ra); CHECK(ipaddr_remote(&rip, rl.c_str(), rp, IPADDR_IPV4, -1) == 0, "ipaddr"); (void)got; bool nm = chance(1, 2), au = chance(2, 3); int calls = auth_calls;
        auto one = [&](int i) { if(i == c) { int rc = nm ? socks5_client_connectbyname(h[i], au ? us.c_str() : NULL, au ? pw.c_str() : NULL, host.c_str(), cp, -1) : socks5_client_connect(h[i], au ? us.c_str() : NULL, au ? pw.c_str() : NULL, &ip, -1); CHECK(rc == 0, "socks5_client_connect: %s", errname(errno)); }
            else { auto cb = [](const char *u, const char *p) { auth_user = u; auth_password = p; auth_calls++; return 1; };
                CHECK(socks5_proxy_auth(h[i], au ? +cb : nullptr, -1) == 0, "socks5_proxy_auth: %s", errname(errno)); char hn[256]; int port = 0; int rc = socks5_proxy_recvcommandbyname(h[i], hn, &port, -1); CHECK(rc == SOCKS5_CONNECT, "socks5_proxy_recvcommandbyname: %d %s", rc, errname(errno)); CHECK(port == cp && hn == (nm ? host : lit), "socks5_proxy_recvcommandbyname: %s:%d instead of %s:%d", hn, port, (nm ? host : lit).c_str(), cp); CHECK(socks5_proxy_sendreply(h[i], 0, &rip, -1) == 0, "socks5_proxy_sendreply: %s", errname(errno)); }
            tail(i); };
        run_all({[&] { one(0); }, [&] { one(1); }}); (void)calls; } }
void Stack::flow(int n) {
    bool ms = msgs(); std::vector<std::function<void()>> fs; std::vector<S> m[2]; for(int d = 0; d < 2; ++d) for(int k = draw(n + 1); k > 0; --k) m[d].push_back(msg());
    for(int d = 0; d < 2; ++d) {
        fs.push_back([&, d] { for(auto &x : m[d]) { if(chance(1, 3)) msleep(now() + draw(4)); int rc = ms ? msend_any(h[d], x, -1) : bsend_any(h[d], x, -1); CHECK(rc == 0, "send over %s: %s", text().c_str(), errname(errno)); } });
        fs.push_back([&, d] { for(auto &x : m[d]) { if(chance(1, 3)) msleep(now() + draw(4)); if(ms) { if(chance(1, 10)) { ssize_t rc = mrecvl(h[!d], NULL, NULL, -1); CHECK(rc == (ssize_t)x.size(), "message dropped over %s: %zd %s instead of %zu", text().c_str(), rc, rc < 0 ? errname(errno) : "", x.size()); continue; }
                ssize_t rc = mrecv_any(h[!d], x.size() + draw(20), &x, -1); CHECK(rc == (ssize_t)x.size(), "receive over %s: %zd %s instead of %zu", text().c_str(), rc, rc < 0 ? errname(errno) : "", x.size()); }
            else { S g; CHECK(brecv_any(h[!d], x.size(), &g, -1) == 0, "receive over %s: %s", text().c_str(), errname(errno)); if(g != x) fail("received %s instead of %s over %s", hex(g.data(), g.size()).c_str(), hex(x.data(), x.size()).c_str(), text().c_str()); } } }); }
    run_all(fs); }
void Stack::close(int i) { int hh = h[i]; CHECK(hclose(hh) == 0, "hclose"); CHECK(hclose(hh) == -1 && errno == EBADF, "handle still valid after hclose"); if(base == B_SIM) CHECK(w[i]->closes == 1, "hclose on top closed the lowest socket %d times", w[i]->closes); h[i] = -1; }
S Stack::text() const { S s = base == B_SIM ? "sim" : base == B_IPC ? "ipc" : "tcp"; for(auto &l : lays) { s += "/"; s += lay_name(l.kind); if(l.kind == L_PREFIX) s += std::to_string(l.n); } return s; }

/* Unrelated connections, each with its own layers and its own data, progress at the same time: none may notice the others. */
void stk_many(int kind) {
    int k = 2 + draw(3); bool tls = kind == L_TLS; if(tls) stk_files(); std::deque<Stack> st; std::vector<std::vector<Lay>> plan(k); std::vector<std::function<void()>> fs; int n = 2 + draw(8); if(chance(1, 2)) n = 2;
    for(int i = 0; i < k; ++i) { st.emplace_back(); Stack &s = st.back(); s.open(chance(1, 5) ? B_IPC : B_SIM);
        if(s.base == B_SIM) for(int e = 0; e < 2; ++e) { s.w[e]->jitter = chance(4, 5) ? 1 + draw(5) : 0; if(kind != L_TLS && chance(1, 3)) s.w[e]->cap = (kind == L_HTTP || kind == L_SOCKS ? 30 : 1) + draw(200); }
        fs.push_back([&st, i, kind, n] { Stack &s = st[i]; if(chance(1, 3)) msleep(now() + draw(4));
            int rounds = 1 + draw(2); while(rounds--) { size_t base = s.lays.size();
            if(kind == L_HTTP || kind == L_SOCKS) { s.phase(kind); if(chance(1, 2)) s.phase(kind); continue; }
            if(kind == L_TERM) { Lay l; l = s.gen(false, L_PREFIX + draw(3)); s.push(l); }
            Lay l; int tries = 0; if(kind == L_TLS) { l.kind = L_TLS; l.srv = draw(2); l.mem[0] = chance(1, 2); l.mem[1] = chance(1, 2); } else do l = s.gen(false, kind); while(l.kind < 0 && ++tries < 5); if(l.kind < 0) break;
            s.push(l); s.flow(n); if(kind != L_TLS && kind != L_WS && chance(1, 4)) { Lay t = s.gen(false); if(t.kind >= 0) { s.push(t); s.flow(n); } }
            if(s.base == B_SIM && kind != L_HTTP && kind != L_SOCKS) s.w[0]->cap = s.w[1]->cap = 0; /* both ends send at once when they part */
            if(kind == L_WS && chance(1, 3)) { s.goodbye(); break; }
            while(s.lays.size() > base) s.pop(); s.flow(2); } }); }
    run_all(fs); label(k == 2 ? "two connections" : k == 3 ? "three connections" : "four connections");
    for(auto &s : st) { if(s.h[0] < 0) continue; int f = draw(2); s.close(f); s.close(!f); } }
/* the closing handshake of a WebSocket, with this connection's own status and text; both ends are closed then */
void Stack::goodbye(void) {
    int st[2]; S tx[2]; for(int i = 0; i < 2; ++i) { st[i] = 1000 + draw(4) ; if(st[i] > 1003) st[i] = 1003; if(chance(1, 2)) st[i] = 3000 + draw(2000); tx[i] = gen_from("bye now", draw(40)); }
    auto one = [&](int i) { int rc = ws_done(h[i], st[i], tx[i].data(), tx[i].size(), -1); CHECK(rc == 0, "ws_done: %s", errname(errno)); char c; ssize_t sz = mrecv(h[i], &c, 1, -1); CHECK(sz == -1 && errno == EPIPE, "end of the messages: %zd %s", sz, errname(errno));
        int s = -1; char b[200]; sz = ws_status(h[i], &s, b, sizeof b); CHECK(sz >= 0, "ws_status: %s", errname(errno)); if(s != st[!i] || S(b, sz) != tx[!i]) fail("ws_status: %d %s instead of %d %s", s, hex(b, sz).c_str(), st[!i], hex(tx[!i].data(), tx[!i].size()).c_str()); };
    run_all({[&] { one(0); }, [&] { one(1); }}); for(int i = 0; i < 2; ++i) close(i); label("goodbye"); }

/* Sends and receives of more than 2 or 4 GB on a bytestream, of which only the beginning gets through; h[0] is used by the long operation. */
void huge_stream(int hs, int hr, std::function<void(int)> finish) {
    char *z = huge_region(); uint64_t n = huge_size(); size_t k = draw(200000); int64_t t0 = now(), dl = t0 + 5 + draw(100); note("%llu bytes, %zu get through", (unsigned long long)n, k); S head = gen_bytes(1 + draw(50000)); S exp = head; exp.resize(std::max(k, head.size())); exp.resize(k); bool fin = false, list = chance(1, 2); uint64_t a = chance(1, 2) ? draw(100) : n / 2; struct iolist y = {z + a, n - a, NULL, 0}, x = {z, a, &y, 0};
    if(chance(1, 2)) { memcpy(z, head.data(), head.size());
        run_all({[&] { int rc = list ? bsendl(hs, &x, &y, dl) : bsend(hs, z, n, dl), e = errno; CHECK(rc == -1 && e == ETIMEDOUT && now() == dl, "bsend of %llu bytes: %d %s at +%d, deadline +%d", (unsigned long long)n, rc, rc ? errname(e) : "", (int)(now() - t0), (int)(dl - t0)); },
                 [&] { size_t got = 0; while(got < k) { size_t m = std::min<size_t>(k - got, 1 + draw(70000)); S g; CHECK(brecv_any(hr, m, &g, -1) == 0, "brecv: %s", errname(errno)); if(g != exp.substr(got, m)) fail("received data differ, at %zu", got); got += m; } }}); label("send"); }
    else { if(k > head.size()) { k = head.size(); exp.resize(k); } fin = finish && chance(1, 2);
        run_all({[&] { int rc = list ? brecvl(hr, &x, &y, dl) : brecv(hr, z, n, dl), e = errno; CHECK(rc == -1 && e == (fin ? EPIPE : ETIMEDOUT), "brecv of %llu bytes: %d %s", (unsigned long long)n, rc, rc ? errname(e) : ""); if(fin) CHECK(now() < dl, "the end is noticed late"); else CHECK(now() == dl, "brecv timed out at +%d instead of +%d", (int)(now() - t0), (int)(dl - t0)); if(memcmp(z, exp.data(), k)) fail("wrong data in front"); for(size_t i = 0; i < 5000; ++i) CHECK(z[k + i] == 0, "a byte behind the received data was changed"); },
                 [&] { CHECK(bsend_any(hs, exp, -1) == 0, "bsend: %s", errname(errno)); if(fin) finish(hs); }}); label(fin ? "receive, ended" : "receive"); }
    nontrivial(); }
