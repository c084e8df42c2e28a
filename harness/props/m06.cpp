#include "sim.h"
#include "stk.h"
#include "ws_ref.h"
#include <algorithm>
using namespace wsref;
namespace {
ws_storage mem[4]; int nmem = 0;
int attach(int s, bool server, int flags) {
    int h, m = chance(1, 2) && nmem < 4; flags |= WS_NOHTTP;
    if(server) h = m ? ws_attach_server_mem(s, flags, NULL, 0, NULL, 0, &mem[nmem++], -1) : ws_attach_server(s, flags, NULL, 0, NULL, 0, -1);
    else h = m ? ws_attach_client_mem(s, flags, NULL, NULL, &mem[nmem++], -1) : ws_attach_client(s, flags, NULL, NULL, -1);
    CHECK(h >= 0, "ws_attach: %s", errname(errno)); return h; }
struct Close { int status = 0; std::string text; };
Close gen_close() { Close c; if(chance(3, 4)) { c.status = chance(1, 3) ? 1000 : chance(1, 5) ? 4999 : 1000 + draw(4000); if(chance(2, 3)) c.text = gen_bytes(chance(1, 4) ? 120 + draw(4) : draw(30)); } return c; }
void check_status(int h, const Close *c) {
    int st = -7; 
    if(!c) { char b[130]; int rc = ws_status(h, chance(1, 2) ? &st : NULL, chance(1, 2) ? b : NULL, 0), e = errno; CHECK(rc == -1 && e == EAGAIN, "ws_status before the close frame: %d %s", rc, errname(e)); return; }
    switch(draw(4)) {
    case 0: { int rc = ws_status(h, &st, NULL, 0); CHECK(rc == (int)c->text.size() && st == c->status, "ws_status: %d, status %d instead of %zu, %d", rc, st, c->text.size(), c->status); break; }
    case 1: if(c->text.empty()) break; { size_t k = draw(c->text.size()); std::unique_ptr<char[]> b(new char[k]); ssize_t rc = ws_status(h, &st, b.get(), k); int e = errno; CHECK(rc == -1 && e == EMSGSIZE, "ws_status into a buffer of %zu bytes for %zu: %zd %s", k, c->text.size(), rc, errname(e)); break; }
    case 2: CHECK(ws_status(h, &st, NULL, 1 + draw(100)) == -1 && errno == EINVAL, "ws_status without a buffer but with a length"); /* fall through */
    default: { size_t k = c->text.size() + (chance(1, 2) ? 0 : draw(100)); std::unique_ptr<char[]> b(new char[k]); ssize_t rc = ws_status(h, chance(1, 5) ? (st = c->status, (int*)nullptr) : &st, b.get(), k);
        CHECK(rc == (ssize_t)c->text.size() && st == c->status, "ws_status: %zd, status %d instead of %zu, %d", rc, st, c->text.size(), c->status); if(memcmp(b.get(), c->text.data(), rc)) fail("ws_status: text %s instead of %s", hex(b.get(), rc).c_str(), hex(c->text.data(), c->text.size()).c_str()); } }
}
}
PROP_CASE(M06, closing, "a close frame with status or text received and messages received before it") {
    Wire *w[2]; sim_pair(w[0], w[1]); int srv = draw(2); int h[2]; for(int i = 0; i < 2; ++i) h[i] = attach(w[i]->h, i == srv, WS_BINARY);
    std::deque<std::string> q[2]; bool done[2] = {false, false}, ended[2] = {false, false}; Close cl[2]; int got = 0, told = 0;
    size_t off[2] = {0, 0};
    auto wire_close = [&](int d) { Frame f; std::string rest = w[d]->out.substr(off[d]); std::string pay; if(cl[d].status) pay = be(cl[d].status, 2) + cl[d].text;
        CHECK(decode(rest, 0, f) && f.end == rest.size() && f.op == 8 && f.fin && !f.rsv && f.masked == (d != srv), "no single close frame on the wire: %s", hex(rest.data(), rest.size()).c_str());
        if(f.payload != pay) fail("close frame carries %s instead of %s", hex(f.payload.data(), f.payload.size()).c_str(), hex(pay.data(), pay.size()).c_str()); off[d] = w[d]->out.size(); };
    int n = 4 + draw(25);
    for(int i = 0; i < n; ++i) {
        int d = draw(2), r = 1 - d, rc, e;
        switch(weighted({8, 8, 2, 2})) {
        case 0: { std::string m = gen_bytes(draw(40)); if(done[d]) { rc = msend_any(h[d], m, -1); e = errno; CHECK(rc == -1 && e == EPIPE, "send after ws_done: %d %s", rc, errname(e)); CHECK(w[d]->out.size() == off[d], "bytes sent after ws_done"); break; }
            if(q[d].size() > 6) break; note("%d sends %zu", d, m.size()); CHECK(msend_any(h[d], m, -1) == 0, "msend: %s", errname(errno)); off[d] = w[d]->out.size(); q[d].push_back(m); break; }
        case 1: {
            if(q[d].empty() && !done[d]) break;
            if(q[d].empty()) { bool first = !ended[d]; note("%d receives the end", r); rc = chance(1, 3) ? mrecvl(h[r], NULL, NULL, -1) : mrecv_any(h[r], draw(60), nullptr, -1); e = errno; CHECK(rc == -1 && e == EPIPE, "receiving %s the close frame: %d %s", first ? "" : "behind", rc, errname(e)); ended[d] = true; if(first && got && cl[d].status) told++; check_status(h[r], &cl[d]); break; }
            std::string m = q[d].front(); q[d].pop_front(); note("%d receives", r); ssize_t sz = mrecv_any(h[r], m.size() + draw(10), &m, -1); CHECK(sz >= 0, "mrecv: %s", errname(errno)); got++; break; }
        case 2: if(chance(1, 2)) check_status(h[r], ended[d] ? &cl[d] : nullptr); break;
        case 3: {
            if(chance(1, 3)) { /* refused */
                size_t before = w[d]->out.size(); int st = 1000; std::string t = "x"; bool nul = false;
                switch(draw(4)) { case 0: t = gen_bytes(124 + draw(300)); break; case 1: st = chance(1, 2) ? 1 + draw(999) : 5000 + draw(70000); break; case 2: nul = true; break; default: st = -(int)draw(2000) - 1; break; }
                Exact x(t); rc = ws_done(h[d], st, nul ? NULL : x.p.get(), t.size(), -1); e = errno; CHECK(rc == -1 && (e == EINVAL || e == EMSGSIZE || (done[d] && e == EPIPE)), "ws_done(%d, text of %zu%s): %d %s", st, t.size(), nul ? ", NULL" : "", rc, errname(e)); CHECK(w[d]->out.size() == before, "a refused ws_done sent something"); label("refused"); break; }
            Close c = gen_close(); Exact x(c.text); note("%d done %d, %zu", d, c.status, c.text.size());
            rc = ws_done(h[d], c.status, c.text.empty() && chance(1, 2) ? NULL : x.p.get(), c.text.size(), -1); e = errno;
            if(done[d]) { CHECK(rc == -1 && e == EPIPE, "second ws_done: %d %s", rc, errname(e)); CHECK(w[d]->out.size() == off[d], "bytes sent by the second ws_done"); break; }
            CHECK(rc == 0, "ws_done: %s", errname(e)); done[d] = true; cl[d] = c; wire_close(d); break; }
        }
    }
    if(chance(1, 8)) { for(int i = 0; i < 2; ++i) CHECK(hclose(h[i]) == 0, "hclose"); for(int i = 0; i < 2; ++i) CHECK(w[i]->closes == 1, "underlying socket closed %d times", w[i]->closes); nontrivial(told); return; }
    std::string post[2] = {gen_bytes(1 + draw(30)), gen_bytes(1 + draw(30))}; int u[2]; int64_t pause[2] = {(int64_t)draw(4), (int64_t)draw(4)}; bool was[2] = {done[0], done[1]};
    auto side = [&](int i) { return [&, i] {
        if(pause[i]) msleep(now() + pause[i]);
        Close c = gen_close(); if(!was[i]) cl[i] = c; Exact x(c.text); 
        u[i] = ws_detach(h[i], c.status, c.text.empty() ? NULL : x.p.get(), c.text.size(), -1); CHECK(u[i] >= 0 && sim_is(u[i], w[i]), "ws_detach: %d %s", u[i], errname(errno));
        if(!was[i]) wire_close(i); else CHECK(w[i]->out.size() == off[i], "ws_detach after ws_done sent %zu bytes", w[i]->out.size() - off[i]);
        CHECK(bsend_any(u[i], post[i], -1) == 0, "bsend after detach: %s", errname(errno));
        std::string g; CHECK(brecv_any(u[i], post[1 - i].size(), &g, -1) == 0 && g == post[1 - i], "after ws_detach the stream does not continue behind the close frame: received %s instead of %s", hex(g.data(), g.size()).c_str(), hex(post[1 - i].data(), post[1 - i].size()).c_str()); }; };
    run_all({side(0), side(1)});
    for(int i = 0; i < 2; ++i) { if(h[i] != u[0] && h[i] != u[1]) CHECK(hclose(h[i]) == -1 && errno == EBADF, "the handle is still open after detach"); CHECK(w[i]->pending().empty(), "bytes left behind"); CHECK(hclose(u[i]) == 0, "hclose"); CHECK(w[i]->closes == 1, "underlying sockets closed"); }
    nontrivial(told);
}
PROP_CASE(M06, scripted, "a close frame of a foreign peer, or a failing detach") {
    Wire *w = sim_new(); bool server = chance(1, 2); std::string in; int n = draw(4); auto add = [&](int op, const std::string &p, bool fin = true) { Frame f; f.op = op; f.fin = fin; f.payload = p; f.masked = server; f.mask = gen_bytes(4); in += encode(f); };
    std::vector<std::string> ms; for(int i = 0; i < n; ++i) { ms.push_back(gen_bytes(draw(30))); add(2, ms.back()); }
    bool partial = chance(1, 6); if(partial) add(2, gen_bytes(draw(10)), false);
    Close c = gen_close(); int how = draw(5); std::string pay = c.status ? be(c.status, 2) + c.text : "", tail = gen_bytes(draw(20)); bool bad = false;
    if(how == 0) { bad = true; pay = chance(1, 2) ? gen_bytes(1) : be(chance(1, 2) ? draw(1000) : 5000 + draw(60000), 2); }
    int64_t dl = -1; bool none = false;
    if(how == 1) { none = true; if(chance(1, 2)) w->in_err = ECONNRESET; else dl = now() + draw(30); } else { add(8, pay); in += tail; }
    size_t seg = 1 + draw(20); for(size_t i = 0; i < in.size(); i += seg) w->put(in.substr(i, seg));
    int h = attach(w->h, server, WS_BINARY); size_t k = draw(ms.size() + 2);
    for(size_t i = 0; i < k && i < ms.size(); ++i) { check_status(h, nullptr); ssize_t rc = mrecv_any(h, 100, &ms[i], -1); CHECK(rc >= 0, "mrecv: %s", errname(errno)); }
    if(k > ms.size() && !none && !partial) { ssize_t rc = mrecv_any(h, 100, nullptr, -1); int e = errno; CHECK(rc == -1 && e == (bad ? EPROTO : EPIPE), "receiving the close frame %s: %zd %s", hex(pay.data(), pay.size()).c_str(), rc, errname(e)); if(!bad) { check_status(h, &c); rc = mrecv_any(h, 100, nullptr, -1); e = errno; CHECK(rc == -1 && e == EPIPE, "receiving behind the close frame: %zd %s", rc, errname(e)); check_status(h, &c); } else { CHECK(mrecv_any(h, 100, nullptr, -1) == -1, "receiving succeeds after an invalid close frame"); } 
        if(bad) { CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "closed"); nontrivial(true); return; } }
    bool badarg = chance(1, 8); int64_t t0 = now();
    int u = badarg ? ws_detach(h, 1 + draw(999), NULL, 0, dl) : ws_detach(h, 1000, "bye", 3, dl), e = errno;
    if(badarg) CHECK(u == -1 && e == EINVAL, "ws_detach with an invalid status: %d %s", u, errname(e));
    else if(none) { CHECK(u == -1 && e == (dl >= 0 ? ETIMEDOUT : ECONNRESET), "ws_detach: %d %s", u, errname(e)); if(dl >= 0) CHECK(now() == std::max(t0, dl), "ws_detach timed out at +%lld instead of +%lld", (long long)(now() - t0), (long long)(dl - t0)); }
    else if(bad) CHECK(u == -1 && e == EPROTO, "ws_detach met an invalid close frame: %d %s", u, errname(e));
    else { CHECK(u >= 0 && sim_is(u, w), "ws_detach: %d %s", u, errname(e)); CHECK(w->pending() == tail, "ws_detach did not stop behind the close frame"); CHECK(hclose(u) == 0, "hclose"); }
    if(u < 0) { CHECK(w->closes == 1, "the socket is left open after a failed ws_detach"); CHECK(hclose(h) == -1 && errno == EBADF, "the handle is left open after a failed ws_detach"); }
    CHECK(w->closes == 1, "underlying socket closed %d times", w->closes);
    nontrivial(true);
}
PROP_CASE(M06, many, "every case: two to four connections in use at the same time") { stk_many(L_WS); nontrivial(true); }
