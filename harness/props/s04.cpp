#include "stk.h"
#include "conn.h"
#include <algorithm>
typedef std::string S;
namespace {
/* A list with exactly one defect. */
struct Bad {
    std::vector<struct iolist> v; std::vector<struct iolist> copy; std::vector<std::unique_ptr<char[]>> b; std::vector<size_t> cap; struct iolist *first, *last; S what;
    void gen(bool sending, bool both_null_ok) {
        size_t k = chance(1, 12) ? 20 + draw(2000) : 1 + draw(6); /* the last one is outside of the list */
        for(size_t i = 0; i <= k; ++i) { size_t n = chance(1, 4) ? 0 : 1 + draw(9); bool null = n ? !sending && chance(1, 8) : chance(1, 3); b.emplace_back(null ? nullptr : new char[n]); cap.push_back(null ? 0 : n); if(!null && n) memset(b.back().get(), sending ? 's' : 0xEE, n); struct iolist e; memset(&e, 0, sizeof e); e.iol_base = b.back().get(); e.iol_len = n; v.push_back(e); }
        for(size_t i = 0; i + 1 < k; ++i) v[i].iol_next = &v[i + 1]; first = &v[0]; last = &v[k - 1]; struct iolist *spare = &v[k];
        switch(draw(both_null_ok ? 10 : 9)) {
        case 0: last->iol_next = spare; what = "an element behind the last one"; break;
        case 1: if(k > 1) { last = &v[draw(k - 1)]; what = "last in the middle"; } else { last->iol_next = last; what = "a single element loop"; } break;
        case 2: last = spare; what = "last not in the list"; break;
        case 3: { size_t j = draw(k); v[k - 1].iol_next = &v[j]; last = spare; what = "a loop, last elsewhere"; break; }
        case 4: v[k - 1].iol_next = &v[draw(k)]; what = "a loop through last"; break;
        case 5: { size_t j = draw(k); v[j].iol_rsvd = (int[]){1, 2, -1, INT_MIN, 1 << 16, 256}[draw(6)]; what = "reserved field set in element " + std::to_string(j) + " of " + std::to_string(k); break; }
        case 6: first = nullptr; what = "no first"; break;
        case 7: last = nullptr; what = "no last"; break;
        case 8: if(k > 1) { size_t j = draw(k - 1), l = draw(j + 1); v[j].iol_next = &v[l]; what = "a loop before last"; } else { last = spare; what = "last not in the list"; } break;
        default: first = last = nullptr; what = "no list"; }
        copy = v; if(k > 20) label("long list"); }
    void check(const char *op, bool sending) { for(size_t i = 0; i < v.size(); ++i) { if(memcmp(&v[i], &copy[i], sizeof v[i])) fail("%s has changed element %zu of a list with %s", op, i, what.c_str()); for(size_t j = 0; j < cap[i]; ++j) if(b[i][j] != (sending ? 's' : (char)0xEE)) fail("%s has touched the buffers of a list with %s", op, what.c_str()); } }
};
int bads = 0;
/* Every list-taking call on the socket. */
void attempt(int h, bool msgs, bool ws, bool udp, const struct ipaddr *to) {
    Bad l; int form = draw(msgs && (ws || udp) ? 4 : 2); bool sending = form % 2 == 0, own = form >= 2; l.gen(sending, sending && !own); int64_t dl = chance(1, 2) ? -1 : chance(1, 2) ? 0 : now() + draw(100), t0 = now(); ssize_t rc; int flags = 0x55; struct ipaddr from; memset(&from, 0x77, sizeof from); struct ipaddr f0 = from; const char *op; errno = 0;
    if(!own) { op = msgs ? sending ? "msendl" : "mrecvl" : sending ? "bsendl" : "brecvl"; rc = msgs ? sending ? msendl(h, l.first, l.last, dl) : mrecvl(h, l.first, l.last, dl) : sending ? bsendl(h, l.first, l.last, dl) : brecvl(h, l.first, l.last, dl); }
    else if(ws) { op = sending ? "ws_sendl" : "ws_recvl"; rc = sending ? ws_sendl(h, draw(2), l.first, l.last, dl) : ws_recvl(h, chance(1, 2) ? &flags : NULL, l.first, l.last, dl); }
    else { op = sending ? "udp_sendl" : "udp_recvl"; rc = sending ? udp_sendl(h, to, l.first, l.last) : udp_recvl(h, chance(1, 2) ? &from : NULL, l.first, l.last, dl); }
    int er = errno; note("%s with %s -> %zd %s", op, l.what.c_str(), rc, rc < 0 ? errname(er) : ""); CHECK(rc == -1 && er == EINVAL, "%s with %s: %zd %s", op, l.what.c_str(), rc, rc < 0 ? errname(er) : ""); CHECK(now() == t0, "%s with %s took %d ms", op, l.what.c_str(), (int)(now() - t0)); l.check(op, sending); if(own && udp && !sending) CHECK(!memcmp(&from, &f0, sizeof from), "%s has set the address", op); bads++; label(op); }
}
PROP_CASE(S04, stack, "at least 4 malformed lists were refused between successful exchanges") {
    Stack s; bool tls = chance(1, 5); if(tls) stk_files(); s.open(weighted({6, 2, 1})); if(s.base == B_TCP) tcp_time(); bads = 0; int n = s.base == B_SIM ? draw(4) : draw(3); for(int i = 0; i < n; ++i) { Lay l = s.gen(tls && i == 0); s.push(l); } note("%s", s.text().c_str()); label(s.lays.empty() ? "bare" : lay_name(s.lays.back().kind));
    bool ms = s.msgs(), ws = ms && s.lays.back().kind == L_WS; std::deque<S> q[2]; int ops = 5 + draw(25), got = 0;
    if(s.base == B_SIM && s.lays.empty()) { /* the library's part is the check of the list */ }
    while(ops-- || !q[0].empty() || !q[1].empty()) { int d = draw(2);
        if(ops < 0) ops = 0;
        switch(weighted({3, 3, 5})) {
        case 0: if(q[d].size() < 4 && ops) { S m = s.msg(); int rc = ms ? msend_any(s.h[d], m, -1) : bsend_any(s.h[d], m, -1); CHECK(rc == 0, "send over %s: %s", s.text().c_str(), errname(errno)); q[d].push_back(m); note("%d sends %zu", d, m.size()); } break;
        case 1: if(!q[d].empty()) { S m = q[d].front(); q[d].pop_front(); note("%d receives %zu", !d, m.size()); if(ms) { ssize_t rc = mrecv_any(s.h[!d], m.size() + draw(20), &m, -1); CHECK(rc == (ssize_t)m.size(), "receive over %s: %zd %s", s.text().c_str(), rc, rc < 0 ? errname(errno) : ""); } else { S g; CHECK(brecv_any(s.h[!d], m.size(), &g, -1) == 0, "receive over %s: %s", s.text().c_str(), errname(errno)); if(g != m) fail("received %s instead of %s over %s", hex(g.data(), g.size()).c_str(), hex(m.data(), m.size()).c_str(), s.text().c_str()); } if(bads) got++; } break;
        default: if(ops) { size_t o[2], u[2]; for(int i = 0; i < 2; ++i) if(s.w[i]) { o[i] = s.w[i]->out.size(); u[i] = s.w[i]->unread(); } attempt(s.h[d], ms, ws, false, NULL); for(int i = 0; i < 2; ++i) if(s.w[i]) CHECK(s.w[i]->out.size() == o[i] && s.w[i]->unread() == u[i], "a refused call over %s has sent or received something", s.text().c_str()); } } }
    s.close(0); s.close(1); if(bads >= 4 && got) nontrivial();
}
PROP_CASE(S04, conn, "at least 4 malformed lists were refused between successful transfers") {
    Conn c; c.open(conn_kind()); if(c.tcp) tcp_time(); bads = 0; uint64_t so[2] = {0, 0}, ro[2] = {0, 0}; int ops = 5 + draw(25), got = 0; label(c.name());
    while(ops--) { int d = draw(2); switch(weighted({3, 3, 5})) {
        case 0: if(so[d] - ro[d] < 6000) { size_t n = draw(chance(1, 4) ? 4000 : 30); CHECK(bsend_any(c.h[d], pats(d, so[d], n), -1) == 0, "send: %s", errname(errno)); so[d] += n; } break;
        case 1: { size_t n = draw(so[d] - ro[d] + 1); if(chance(1, 3)) n = std::min<size_t>(n, 20); S g; CHECK(brecv_any(c.h[!d], n, &g, -1) == 0, "receive: %s", errname(errno)); if(g != pats(d, ro[d], n)) fail("wrong data at %llu", (unsigned long long)ro[d]); ro[d] += n; if(bads) got++; break; }
        default: attempt(c.h[d], false, false, false, NULL); } }
    for(int d = 0; d < 2; ++d) { size_t n = so[d] - ro[d]; S g; CHECK(brecv_any(c.h[!d], n, &g, -1) == 0, "receive: %s", errname(errno)); if(g != pats(d, ro[d], n)) fail("wrong data at the end"); CHECK(c.done(d, -1) == 0, "done: %s", errname(errno)); char x; CHECK(brecv(c.h[!d], &x, 1, -1) == -1 && errno == EPIPE, "something was sent by a refused call"); }
    hclose(c.h[0]); hclose(c.h[1]); if(bads >= 4 && got) nontrivial();
}
PROP_CASE(S04, udp, "always") {
    vt.grace_inf = 3000; vt.grace_timed = 4; struct ipaddr a[2]; int h[2]; bads = 0; for(int i = 0; i < 2; ++i) { CHECK(ipaddr_local(&a[i], "127.0.0.1", 0, 0) == 0, "ipaddr_local"); h[i] = udp_open(&a[i], i ? &a[0] : NULL); CHECK(h[i] >= 0, "udp_open"); } std::deque<S> q; int ops = 4 + draw(14);
    while(ops--) switch(weighted({3, 3, 5})) {
        case 0: if(q.size() < 5) { S m = gen_bytes(draw(60)); CHECK(msend_any(h[1], m, -1) == 0, "send: %s", errname(errno)); q.push_back(m); } break;
        case 1: if(!q.empty()) { S m = q.front(); q.pop_front(); ssize_t rc = mrecv_any(h[0], m.size() + draw(9), &m, -1); CHECK(rc == (ssize_t)m.size(), "receive: %zd %s", rc, rc < 0 ? errname(errno) : ""); } break;
        default: { int i = draw(2); attempt(h[i], true, false, true, chance(1, 2) && i ? NULL : &a[!i]); } }
    while(!q.empty()) { S m = q.front(); q.pop_front(); ssize_t rc = mrecv_any(h[0], m.size() + draw(9), &m, -1); CHECK(rc == (ssize_t)m.size(), "receive: %zd %s", rc, rc < 0 ? errname(errno) : ""); } 
    struct pollfd p = {-1, 0, 0}; for(int i = 0; i < 2; ++i) { char x[10]; CHECK(mrecv(h[i], x, sizeof x, 0) == -1 && errno == ETIMEDOUT, "a datagram was sent by a refused call"); hclose(h[i]); } nontrivial();
}
/* A list and one buffer of the same size give the same result, also when the operation fails, and the list stays as it was. */
PROP_CASE(S04, same, "the list has several elements or the operation fails") {
    Stack s[2]; Wire *w[2][2]; for(int k = 0; k < 2; ++k) s[k].open(B_SIM); int n = 1 + draw(3); for(int i = 0; i < n; ++i) { Lay l = s[0].gen(false); if(l.kind < 0) break; s[0].push(l); s[1].push(l); s[1].lays.back() = l; } for(int k = 0; k < 2; ++k) for(int i = 0; i < 2; ++i) w[k][i] = s[k].w[i]; note("%s", s[0].text().c_str()); bool haswsclient = false; for(auto &l : s[0].lays) if(l.kind == L_WS) haswsclient = true;
    int msgs = 1 + draw(4); for(int k = 0; k < 2; ++k) for(int i = 0; i < 2; ++i) w[k][i]->merge = true;
    for(int m = 0; m < msgs; ++m) { bool last = m + 1 == msgs; S d = s[0].msg(); if(chance(1, 15) && s[0].lays.size() == 1) { S b(400 + draw(3000), 'm'); if(s[0].valid(b)) d = b; } int fs = last ? weighted({3, 1, 1, 1}) : 0; int64_t dl = -1; size_t out0[2]; 
        for(int k = 0; k < 2; ++k) out0[k] = w[k][0]->out.size(); size_t lim = draw(d.size() + 6); if(fs == 1) for(int k = 0; k < 2; ++k) w[k][0]->cap = 1 + lim; if(fs == 2) for(int k = 0; k < 2; ++k) w[k][0]->out_err_at = out0[k] + lim; if(fs == 3) for(int k = 0; k < 2; ++k) w[k][0]->cap = 1 + lim; if(fs == 1) dl = 5 + draw(20);
        int rc[2], er[2]; List l; if(chance(1, 10)) { l.recv_many(d.size(), 50 + draw(400)); size_t o = 0; for(size_t i = 0; i < l.v.size(); ++i) { if(l.cap[i]) memcpy(l.bufs[i].get(), d.data() + o, l.cap[i]); o += l.cap[i]; } } else l.send(d, true); if(l.v.size() > 1) nontrivial();
        for(int k = 0; k < 2; ++k) { rc[k] = -2; Exact x(d); int64_t t = now(); auto f = [&] { errno = 0; rc[k] = k ? msend(s[1].h[0], x.p.get(), x.n, dl < 0 ? -1 : t + dl) : msendl(s[0].h[0], l.first(), l.last(), dl < 0 ? -1 : t + dl); er[k] = errno; }; if(fs == 3) { int co = go_fn(f); CHECK(co >= 0, "go"); msleep(now() + draw(10)); hclose(co); } else f(); if(!k) l.check("msendl"); }
        note("send %zu as %s, failure %d after %zu: %d %s / %d %s", d.size(), l.shape().c_str(), fs, lim, rc[0], rc[0] < 0 ? errname(er[0]) : "", rc[1], rc[1] < 0 ? errname(er[1]) : ""); CHECK(rc[0] == rc[1] && (rc[0] == 0 || er[0] == er[1]), "msendl over %s: %d %s, msend: %d %s", s[0].text().c_str(), rc[0], rc[0] < 0 ? errname(er[0]) : "", rc[1], rc[1] < 0 ? errname(er[1]) : "");
        CHECK(w[0][0]->out.size() == w[1][0]->out.size() && (haswsclient || w[0][0]->out == w[1][0]->out), "msendl and msend put different bytes on the wire"); if(rc[0] < 0) { label("send fails"); nontrivial(); break; }
        int fr = last ? weighted({3, 2, 2, 2, 1}) : 0; size_t cap = fr == 0 ? d.size() + draw(20) : draw(d.size() + 20); if(fr == 1 && d.size()) cap = draw(d.size()); size_t keep = draw(w[0][1]->unread() + 1); S tail; if(fr >= 2) for(int k = 0; k < 2; ++k) { S all = w[k][1]->pending(); w[k][1]->in.clear(); w[k][1]->put(all.substr(0, keep)); if(fr == 2) w[k][1]->eof = true; if(fr == 3) w[k][1]->in_err = ECONNRESET; } int64_t rdl = fr == 4 ? 3 + draw(20) : -1; bool can = fr == 4 && chance(1, 2); if(can) rdl = -1;
        List r; if(chance(1, 10)) r.recv_many(cap, 50 + draw(400)); else r.recv(cap, true); if(r.v.size() > 1) nontrivial(); ssize_t rr[2]; std::unique_ptr<char[]> b(new char[cap]); int64_t tt[2];
        for(int k = 0; k < 2; ++k) { rr[k] = -2; int64_t t = now(); auto f = [&] { errno = 0; rr[k] = k ? mrecv(s[1].h[1], b.get(), cap, rdl < 0 ? -1 : t + rdl) : mrecvl(s[0].h[1], r.first(), r.last(), rdl < 0 ? -1 : t + rdl); er[k] = errno; tt[k] = now() - t; }; if(can) { int co = go_fn(f); CHECK(co >= 0, "go"); msleep(now() + 7); hclose(co); } else f(); if(!k) r.check("mrecvl"); }
        note("receive into %s (%zu), failure %d after %zu: %zd %s / %zd %s", r.shape().c_str(), cap, fr, keep, rr[0], rr[0] < 0 ? errname(er[0]) : "", rr[1], rr[1] < 0 ? errname(er[1]) : ""); CHECK(rr[0] == rr[1] && (rr[0] >= 0 || er[0] == er[1]), "mrecvl over %s: %zd %s, mrecv: %zd %s", s[0].text().c_str(), rr[0], rr[0] < 0 ? errname(er[0]) : "", rr[1], rr[1] < 0 ? errname(er[1]) : ""); CHECK(tt[0] == tt[1], "mrecvl took %d ms, mrecv %d", (int)tt[0], (int)tt[1]);
        CHECK(w[0][1]->consumed - w[1][1]->consumed == 0, "mrecvl and mrecv have taken different numbers of bytes"); if(rr[0] >= 0) { if(rr[0] != (ssize_t)d.size() || !r.matches(d)) fail("received %s instead of %s", hex(r.got(rr[0]).data(), rr[0]).c_str(), hex(d.data(), d.size()).c_str()); if(memcmp(b.get(), d.data(), rr[0])) fail("mrecv received something else"); } else { label("receive fails"); nontrivial(); break; } }
}
/* The same for bytestreams of the OS, with lists of any length and operations that do not finish. */
PROP_CASE(S04, bytes, "the list has several elements or the operation fails") {
    Conn c; c.open(conn_kind()); if(c.tcp) tcp_time(); uint64_t so = 0, ro = 0; int ops = 1 + draw(6); label(c.name()); if(chance(1, 3)) fi.eagain_pct = 30; if(chance(1, 2)) fi.short_io = 1 + draw(50);
    while(ops--) { int kind = ops ? 0 : draw(4); size_t n = draw(chance(1, 3) ? 9000 : 60); if(kind == 1) n = 400000 + draw(400000); S d = pats(1, so, n); List l; if(chance(1, 6)) { l.recv_many(n, 2 + draw(4000)); size_t o = 0; for(size_t i = 0; i < l.v.size(); ++i) { if(l.cap[i]) memcpy(l.bufs[i].get(), d.data() + o, l.cap[i]); o += l.cap[i]; } label("long list"); } else l.send(d, true); if(l.v.size() > 1) nontrivial();
        if(kind == 1) { /* does not fit */ fi.short_io = 0; if(c.tcp) c.small(4096); bool can = chance(1, 2); int rc = -2, er = 0; int64_t t = now(); auto f = [&] { rc = bsendl(c.h[0], l.first(), l.last(), can ? -1 : t + 5); er = errno; }; int co = go_fn(f); CHECK(co >= 0, "go"); msleep(t + (can ? 4 : 10)); if(rc == -2 && !can) msleep(t + 50); hclose(co); l.check("bsendl"); if(rc == 0) inconclusive("it all fitted"); CHECK(rc == -1 && er == (can ? ECANCELED : ETIMEDOUT), "bsendl of too much: %d %s", rc, errname(er)); label("send fails"); nontrivial(); break; }
        int rc = bsendl(c.h[0], l.first(), l.last(), -1); CHECK(rc == 0, "bsendl %s: %s", l.shape().c_str(), errname(errno)); l.check("bsendl"); so += n;
        size_t have = so - ro, want = kind == 0 ? (chance(1, 2) ? have : draw(have + 1)) : have + 1 + draw(50); List r; if(chance(1, 6)) r.recv_many(want, 2 + draw(4000)); else r.recv(want, true); if(r.v.size() > 1) nontrivial(); int64_t t = now(); int er; note("receive %zu of %zu into %zu elements", want, have, r.v.size());
        if(kind == 0) { rc = brecvl(c.h[1], r.first(), r.last(), -1); CHECK(rc == 0, "brecvl %s: %s", r.shape().c_str(), errname(errno)); r.check("brecvl"); if(!r.matches(pats(1, ro, want))) fail("brecvl %s: wrong data", r.shape().c_str()); ro += want; }
        else { if(kind == 2) { if(c.tcp) c.arrived(0); rc = brecvl(c.h[1], r.first(), r.last(), t + 5); er = errno; CHECK(rc == -1 && er == ETIMEDOUT, "brecvl of too much: %d %s", rc, errname(er)); } else { if(chance(1, 2)) { hclose(c.h[0]); c.h[0] = -1; } else c.done(0, -1); rc = brecvl(c.h[1], r.first(), r.last(), -1); er = errno; CHECK(rc == -1 && (er == EPIPE || er == ECONNRESET), "brecvl of too much: %d %s", rc, errname(er)); } r.check("brecvl"); label("receive fails"); nontrivial(); break; } }
    if(c.h[0] >= 0) hclose(c.h[0]); hclose(c.h[1]);
}
