#include "work.h"
#include "store.h"
#include <algorithm>
#include <unistd.h>
typedef std::string S;
thread_local WorkStats wst;
bool h_alive(int h) { if(h < 0) return false; int e = errno; void *p = hquery(h, &wst); bool r = p || errno == ENOTSUP; errno = e; return r; }
static void drop(int h) { if(h_alive(h)) CHECK(hclose(h) == 0, "hclose: %s", errname(errno)); }
namespace { struct Dummy { struct hvfs hv; }; void *dq(struct hvfs *, const void *) { errno = ENOTSUP; return NULL; } void dc(struct hvfs *) {} }
std::vector<int> free_numbers(void) {
    std::vector<int> v; static Dummy d; d.hv.query = dq; d.hv.close = dc; std::vector<char> seen; int idle = 0;
    for(int i = 0; i < 100000 && idle < 20; ++i) { int h = hmake(&d.hv); CHECK(h >= 0, "hmake: %s", errname(errno)); CHECK(hclose(h) == 0, "hclose"); if((int)seen.size() <= h) seen.resize(h + 1); if(seen[h]) idle++; else { seen[h] = 1; v.push_back(h); idle = 0; } }
    std::sort(v.begin(), v.end()); if(v.size() < 10) v.clear(); return v; }
namespace {
thread_local std::vector<AnimalP> pool; thread_local bool w_tls, w_net;
/* A call that may block, ended by a deadline or by cancelation, now and then. */
template<class F> void bounded(F f) {
    int64_t dl = now() + draw(30); 
    if(chance(1, 3)) { int c = go_fn([&] { f(-1); }); CHECK(c >= 0, "go"); msleep(dl); CHECK(hclose(c) == 0, "hclose"); } else if(chance(1, 4)) f((int64_t)0); else f(dl); }
int kind_any(void) { for(;;) { int k = draw(Z_KINDS); if(k == Z_TLS && !w_tls) continue; if(!w_net && (k == Z_TCPL || k == Z_TCP || k == Z_UDP)) continue; return k; } }
void op_zoo(void) { AnimalP a = zoo_make(kind_any()); note("make %s", a->name.c_str()); if(chance(1, 2)) a->use(); if(chance(1, 2)) a->end(); else pool.push_back(a); }
void op_pool(void) {
    if(pool.empty()) return; size_t j = draw(pool.size()); AnimalP a = pool[j]; int i = draw(a->n);
    switch(draw(4)) {
    case 0: note("end of %s", a->name.c_str()); a->end(); pool.erase(pool.begin() + j); break;
    case 1: { int h = hown(a->h[i]); CHECK(h >= 0, "hown"); a->h[i] = h; a->use(); break; }
    case 2: { /* refused calls, some of which consume the handle */ auto &calls = zoo_calls(); const Call &c = calls[draw(calls.size())]; if(c.ok & 1u << a->kind) break; za.reset(); za.dl = 0; note("%s on %s", c.name, a->name.c_str()); CHECK(c.f(a->h[i]) == -1, "%s on %s", c.name, a->name.c_str()); wst.failed++; if(!h_alive(a->h[i])) { a->h[i] = -1; a->end(); pool.erase(pool.begin() + j); } break; }
    case 3: { /* one end only, then calls on the other one */ if(a->n < 2) break; note("one end of %s", a->name.c_str()); CHECK(hclose(a->h[i]) == 0, "hclose"); a->h[i] = -1; int h = a->h[!i], k = draw(4); char b[100];
        while(k--) bounded([&](int64_t dl) { if(a->msgs) { if(draw(2)) mrecv(h, b, sizeof b, dl); else msend(h, "abc", 3, dl); } else if(a->bytes) { if(draw(2)) brecv(h, b, draw(sizeof b), dl); else bsend(h, "abc", 3, dl); } else if(a->kind == Z_CHAN) { if(draw(2)) chsend(h, b, 1, dl); else chrecv(h, b, 1, dl); } else { if(draw(2)) http_recvfield(h, b, 50, b + 50, 50, dl); else http_sendfield(h, "a", "b", dl); } });
        if(h_alive(h)) a->end(); pool.erase(pool.begin() + j); wst.failed++; break; } } }
void op_stack(void) {
    Stack s; s.open(chance(1, 4) ? B_IPC : B_SIM); int n = draw(5); while(n--) { Lay l = s.gen(w_tls && chance(1, 3)); s.push(l); } s.exchange(draw(4)); note("stack %s", s.text().c_str());
    auto junk = [&](int d) { S m = s.msg(); if(s.msgs()) msend(s.h[d], m.data(), m.size(), now() + 10); else bsend(s.h[d], m.data(), m.size(), now() + 10); };
    int k = draw(6), f = draw(2), c = draw(4); while(c--) junk(draw(2));
    if(k == 0) { bool ok = true; for(auto &l : s.lays) if(l.kind == L_PREFIX || l.kind == L_SUFFIX || l.kind == L_TLS) ok = false; if(ok) while(!s.lays.empty()) s.pop(); s.close(0); s.close(1); }
    else if(k == 1) { hclose(s.h[f]); char b[400]; ssize_t rc; int n = draw(8); while(n--) bounded([&](int64_t dl) { if(draw(2)) { if(s.msgs()) mrecv(s.h[!f], b, sizeof b, dl); else brecv(s.h[!f], b, 1 + draw(sizeof b), dl); } else junk(!f); }); drop(s.h[!f]); }
    else if(k == 2 && s.has_done()) { bounded([&](int64_t dl) { s.done(f, dl); }); drop(s.h[f]); drop(s.h[!f]); }
    else if(k == 3 && !s.lays.empty()) { /* detaching while the other end does something else */ int h = s.h[f]; Lay l = s.lays.back(); bounded([&](int64_t dl) { int u = s.detach(f, l, h, dl); if(u < 0) wst.failed++; if(u >= 0) { if(u != h) CHECK(!h_alive(h), "open after detach"); h = u; } }); drop(h); drop(s.h[!f]); }
    else if(k == 4 && s.base == B_SIM) { /* faults */ Wire *w = s.w[draw(2)]; switch(draw(3)) { case 0: w->out_err_at = w->out.size() + draw(60); break; case 1: w->in_err = ECONNRESET; break; default: w->eof = true; } int n = 2 + draw(8); char b[400]; while(n--) { int d = draw(2); bounded([&](int64_t dl) { if(draw(2)) { if(s.msgs()) mrecv(s.h[d], b, draw(sizeof b), dl); else brecv(s.h[d], b, 1 + draw(sizeof b), dl); } else junk(d); }); }
        int h = s.h[f]; if(!s.lays.empty() && chance(1, 2)) { Lay l = s.lays.back(); bounded([&](int64_t dl) { int u = s.detach(f, l, h, dl); if(u >= 0) h = u; }); } drop(h); drop(s.h[!f]); wst.failed++; }
    else { drop(s.h[f]); drop(s.h[!f]); } }
/* Handshakes that go wrong in any way. */
void op_handshake(void) {
    Stack s; s.open(B_SIM); int pre = draw(2); while(pre--) { Lay l = s.gen(false); if(!s.msgs() && l.kind == L_TLS) break; if(l.kind < 0) break; s.push(l); if(s.msgs()) break; }
    int how = draw(5); if(how < 2) for(int i = 0; i < 2; ++i) if(s.w[i]) { if(how) s.w[i]->out_err_at = s.w[i]->out.size() + draw(w_tls ? 2000 : 200); else if(draw(2)) s.w[i]->put(gen_from("HTTP/1.1 101 Switching Protocols\r\nabc: x", draw(60))); }
    Lay l; if(s.msgs()) { l.kind = L_TERM; l.t = "abc"; } else { l.kind = w_tls && chance(1, 2) ? L_TLS : L_WS; l.flags = draw(2); l.http = true; } l.srv = draw(2); for(bool &m : l.mem) m = chance(1, 2); note("handshake of %s, %d", lay_name(l.kind), how);
    auto end = [&](int i) { int h = s.h[i]; bounded([&](int64_t dl) { int n = s.attach(i, l, dl); if(n >= 0) { s.h[i] = n; if(l.kind == L_TERM && chance(1, 2)) { int u = term_detach(n, dl); if(u >= 0) s.h[i] = u; } } else wst.failed++; }); if(h == s.h[i] && !h_alive(h)) s.h[i] = -1; };
    int which = draw(3); if(which == 0) end(0); else if(which == 1) end(1); else run_all({[&] { end(0); }, [&] { end(1); }}); drop(s.h[0]); drop(s.h[1]);
    /* http */
    if(chance(1, 3)) { Wire *w = sim_new(); if(draw(2)) w->put(gen_from("HTTP/1.1 200 OK\r\n\r\na: b", draw(80))); else w->put("HTTP/1.1 200 OK\r\na: b\r\n\r\nrest"); if(draw(2)) w->eof = true; int h = chance(1, 2) ? http_attach(w->h) : w->h; char a[50], b[50]; if(h == w->h) { h = http_attach_mem(w->h, store<struct http_storage>()); } CHECK(h >= 0, "http_attach"); int n = draw(5); if(draw(2)) bounded([&](int64_t dl) { http_recvstatus(h, a, draw(sizeof a), dl); }); while(n--) bounded([&](int64_t dl) { http_recvfield(h, a, draw(sizeof a), b, draw(sizeof b), dl); }); if(draw(2)) bounded([&](int64_t dl) { http_done(h, dl); }); if(draw(2)) bounded([&](int64_t dl) { int u = http_detach(h, dl); if(u >= 0) h = u; else wst.failed++; }); drop(h); } }
/* Constructors that fail. */
void op_fail(void) {
    struct ipaddr a; int k = draw(w_net ? 12 : 5); note("failing constructor %d", k); wst.failed++;
    struct sockaddr_un un; int h, fd[2]; bool mem = chance(1, 2); auto &ts = *store<struct tcp_storage>(); auto &tl = *store<struct tcp_listener_storage>(); auto &is = *store<struct ipc_storage>(); auto &il = *store<struct ipc_listener_storage>(); auto &us = *store<struct udp_storage>(); S p = scratch_dir() + "/none";
    switch(k) {
    case 0: CHECK((mem ? ipc_connect_mem(p.c_str(), &is, -1) : ipc_connect(p.c_str(), -1)) < 0, "ipc_connect to nothing"); break;
    case 1: { S q = scratch_dir() + "/no/such/dir"; CHECK((mem ? ipc_listen_mem(q.c_str(), 10, &il) : ipc_listen(q.c_str(), 10)) < 0, "ipc_listen nowhere"); break; }
    case 2: CHECK(pipe(fd) == 0, "pipe"); h = draw(4); h = h == 0 ? (mem ? ipc_fromfd_mem(fd[0], &is) : ipc_fromfd(fd[0])) : h == 1 ? (mem ? ipc_listener_fromfd_mem(fd[0], &il) : ipc_listener_fromfd(fd[0])) : h == 2 ? (mem ? tcp_fromfd_mem(fd[0], &ts) : tcp_fromfd(fd[0])) : (mem ? tcp_listener_fromfd_mem(fd[0], &tl) : tcp_listener_fromfd(fd[0])); CHECK(h < 0, "fromfd on a pipe"); close(fd[0]); close(fd[1]); break;
    case 3: { S q = scratch_dir() + "/l"; unlink(q.c_str()); int l = ipc_listen(q.c_str(), 10); CHECK(l >= 0, "ipc_listen"); bounded([&](int64_t dl) { int c = mem ? ipc_accept_mem(l, &is, dl) : ipc_accept(l, dl); CHECK(c < 0, "ipc_accept"); }); hclose(l); break; }
    case 4: CHECK(bundle_mem(NULL) < 0 && prefix_attach(-1, 2, 0) < 0 && hmake(NULL) < 0, "invalid arguments"); break;
    case 5: { int l; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr_local"); l = tcp_listen(&a, 10); CHECK(l >= 0, "tcp_listen"); hclose(l); h = mem ? tcp_connect_mem(&a, &ts, -1) : tcp_connect(&a, -1); CHECK(h < 0, "tcp_connect to nothing"); break; }
    case 6: { int l; CHECK(ipaddr_local(&a, "127.0.0.1", 0, 0) == 0, "ipaddr_local"); l = tcp_listen(&a, 10); CHECK(l >= 0, "tcp_listen"); h = mem ? tcp_listen_mem(&a, 10, &tl) : tcp_listen(&a, 10); CHECK(h < 0, "tcp_listen twice"); bounded([&](int64_t dl) { int c = mem ? tcp_accept_mem(l, NULL, &ts, dl) : tcp_accept(l, NULL, dl); CHECK(c < 0, "tcp_accept"); }); hclose(l); break; }
    case 7: CHECK(ipaddr_remote(&a, "192.0.2.1", 80, 0, -1) == 0, "ipaddr_remote"); h = mem ? udp_open_mem(&a, NULL, &us) : udp_open(&a, NULL); CHECK(h < 0, "udp_open on a foreign address"); break;
    case 8: CHECK(ipaddr_remote(&a, "192.0.2.1", 80, 0, -1) == 0, "ipaddr_remote"); h = mem ? tcp_listen_mem(&a, 10, &tl) : tcp_listen(&a, 10); CHECK(h < 0, "tcp_listen on a foreign address"); break;
    case 9: CHECK(ipaddr_remote(&a, "127.0.0.1", 1, 0, -1) == 0, "ipaddr_remote"); ev.connect = [](int, const struct sockaddr *, unsigned, int &e) { e = EINPROGRESS; return true; }; bounded([&](int64_t dl) { int c = mem ? tcp_connect_mem(&a, &ts, dl) : tcp_connect(&a, dl); if(c >= 0) hclose(c); }); ev.connect = nullptr; break;
    case 10: ev.connect = [](int, const struct sockaddr *, unsigned, int &e) { e = ECONNREFUSED; return true; }; bounded([&](int64_t dl) { int c = happyeyeballs_connect("127.0.0.1", 1, dl < 0 ? now() + 100 : dl); clean_stack(); CHECK(c < 0, "happyeyeballs_connect"); }); ev.connect = nullptr; break;
    case 11: CHECK(ipaddr_remotes(&a, 1, "127.0.0.1", 80, 0, -1) == 1, "ipaddr_remotes"); ipaddr_local(&a, "nosuchinterface", 80, 0); break;
    } }
/* Coroutines, bundles and channels. */
void op_core(void) {
    int n = 1 + draw(6), b = bundle(), ch[2]; auto &bs = *store<struct bundle_storage>(); auto &cs = *store<struct chstorage>(); bool mem = chance(1, 2); int b2 = mem ? bundle_mem(&bs) : bundle(); CHECK(b >= 0 && b2 >= 0 && (mem ? chmake_mem(&cs, ch) : chmake(ch)) == 0, "constructors"); std::vector<int> hs; std::vector<char*> mems;
    note("%d coroutines", n);
    for(int i = 0; i < n; ++i) { int what = draw(7); int64_t t = now() + draw(20); int w = draw(3);
        auto f = [=] { char c = 'x'; switch(what) { case 0: msleep(t); break; case 1: yield(); break; case 2: chsend(ch[0], &c, 1, t); break; case 3: chrecv(ch[1], &c, 1, -1); break; case 4: bundle_wait(b2, -1); break; case 5: { int h = go_fn([=] { msleep(t + 5); }); if(h >= 0) { msleep(t); hclose(h); } break; } case 6: { struct chclause q[2] = {{CHSEND, ch[0], (void*)"a", 1}, {CHRECV, ch[1], &c, 1}}; choose(q, 2, t); break; } } };
        if(w == 0) { int h = go_fn(f); CHECK(h >= 0, "go"); hs.push_back(h); } else if(w == 1) CHECK(bundle_go_fn(b, f) == 0, "bundle_go"); else { char *m = new char[65536]; mems.push_back(m); if(draw(2)) { int h = go_mem_fn(f, m, 65536); CHECK(h >= 0, "go_mem"); hs.push_back(h); } else CHECK(bundle_go_mem_fn(b, f, m, 65536) == 0, "bundle_go_mem"); } 
        if(chance(1, 4)) msleep(now() + draw(10)); }
    int x = bundle_go_fn(b2, [t = now() + 10] { msleep(t); }); CHECK(x == 0, "bundle_go"); if(chance(1, 2)) bundle_wait(b, now() + draw(30)); if(chance(1, 3)) chdone(ch[draw(2)]);
    hclose(b); std::reverse(hs.begin(), hs.end()); for(int h : hs) hclose(h); hclose(b2); int f = draw(2); hclose(ch[f]); hclose(ch[!f]); for(char *m : mems) delete[] m; }
/* Descriptors on their way. */
void op_fds(void) {
    int h[2]; auto &ps = *store<struct ipc_pair_storage>(); if(chance(1, 2)) CHECK(ipc_pair(h) == 0, "ipc_pair"); else CHECK(ipc_pair_mem(&ps, h) == 0, "ipc_pair_mem"); int n = draw(6), q = 0; note("descriptors");
    while(n--) { int p[2]; if(draw(2)) { CHECK(pipe(p) == 0, "pipe"); if(q < 4) { CHECK(ipc_sendfd(h[0], p[draw(2)], -1) == 0, "ipc_sendfd"); q++; } close(p[0]); close(p[1]); } else if(q) { q--; if(draw(3)) { int fd = ipc_recvfd(h[1], -1); CHECK(fd >= 0, "ipc_recvfd: %s", errname(errno)); close(fd); } else { char c; brecv(h[1], &c, 1, -1); } } else bounded([&](int64_t dl) { CHECK(ipc_recvfd(h[1], dl) < 0, "ipc_recvfd"); }); if(!h_alive(h[1])) break; if(chance(1, 6)) break; }
    int f = draw(2); if(chance(1, 4)) bounded([&](int64_t dl) { ipc_close(h[f], dl); }); drop(h[f]); drop(h[!f]); }
/* Connections with data nobody has received. */
void op_conn(void) {
    Conn c; int k; do k = conn_kind(w_net); while(!w_net && k >= K_TCP4); c.open(k); note("%s", c.name()); int n = draw(8); char b[3000]; memset(b, 1, sizeof b);
    while(n--) { int d = draw(2); size_t l = draw(sizeof b); bounded([&](int64_t dl) { if(draw(2)) bsend(c.h[d], b, l, dl); else brecv(c.h[d], b, l, dl); }); }
    int f = draw(2); switch(draw(4)) { case 0: bounded([&](int64_t dl) { c.done(f, dl); }); break; case 1: { int h = c.h[f]; bounded([&](int64_t dl) { c.close(f, dl); }); CHECK(!h_alive(h), "open after close"); c.h[f] = -1; break; } case 2: drop(c.h[f]); c.h[f] = -1; bounded([&](int64_t dl) { c.close(!f, dl); }); c.h[!f] = -1; break; }
    for(int i = 0; i < 2; ++i) if(c.h[i] >= 0) drop(c.h[i]); }
}
void work(int ops, bool tls, bool net) {
    w_tls = tls; w_net = net; pool.clear();
    while(ops--) { wst.ops++; switch(weighted({4, 4, 3, 3, 2, 3, 1, 2})) { case 0: op_zoo(); break; case 1: op_pool(); break; case 2: op_stack(); break; case 3: op_handshake(); break; case 4: op_fail(); break; case 5: op_core(); break; case 6: op_fds(); break; case 7: op_conn(); break; }  }
    for(auto &a : pool) { note("end of %s", a->name.c_str()); a->end(); } pool.clear(); store_check(); store_dead(); }
