#include "sim.h"
#include "stk.h"
#include "ws_ref.h"
#include <algorithm>
#include <set>
using namespace wsref;
namespace {
ws_storage mem[4]; int nmem = 0;
int attach(int s, bool server, int flags) {
    int h, m = chance(1, 2) && nmem < 4; flags |= WS_NOHTTP;
    if(server) h = m ? ws_attach_server_mem(s, flags, NULL, 0, NULL, 0, &mem[nmem++], -1) : ws_attach_server(s, flags, NULL, 0, NULL, 0, -1);
    else h = m ? ws_attach_client_mem(s, flags, NULL, NULL, &mem[nmem++], -1) : ws_attach_client(s, flags, NULL, NULL, -1);
    CHECK(h >= 0, "ws_attach: %s", errname(errno)); return h; }
size_t gen_size(bool big) { switch(weighted({6, 2, big ? 1u : 0u})) { case 0: return size_upto(40); case 1: return 123 + draw(6); default: return chance(1, 2) ? 65533 + draw(6) : 200 + draw(1500); } }
int send_any(int h, int own, int type, const std::string &m) { /* by whichever call */
    if(type == own && chance(1, 2)) return msend_any(h, m, -1);
    if(chance(1, 2)) { std::unique_ptr<char[]> b(new char[m.size()]); memcpy(b.get(), m.data(), m.size()); return ws_send(h, type, b.get(), m.size(), -1); }
    List l; l.send(m); int rc = ws_sendl(h, type, l.first(), l.last(), -1), e = errno; l.check("ws_sendl"); if(l.v.size() > 1) label("list"); errno = e; return rc; }
/* fl is set to -1 if the call does not tell the type */
ssize_t recv_any(int h, int how, size_t cap, const std::string *exp, int *fl) {
    ssize_t rc; int e; *fl = -1;
    switch(how) {
    case 0: return mrecv_any(h, cap, exp, -1);
    case 1: return mrecvl(h, NULL, NULL, -1);
    case 2: return ws_recvl(h, fl, NULL, NULL, -1);
    case 3: { std::unique_ptr<char[]> b(new char[cap]); *fl = 77; rc = ws_recv(h, fl, b.get(), cap, -1); e = errno;
        if(rc >= 0 && exp) { CHECK((size_t)rc == exp->size(), "ws_recv returned %zd instead of %zu", rc, exp->size()); CHECK((size_t)rc <= cap, "too long"); if(memcmp(b.get(), exp->data(), rc)) fail("ws_recv: received %s instead of %s", hex(b.get(), rc).c_str(), hex(exp->data(), rc).c_str()); } errno = e; return rc; }
    default: { List l; l.recv(cap, true); *fl = 77; rc = ws_recvl(h, chance(1, 8) ? (*fl = -1, (int*)nullptr) : fl, l.first(), l.last(), -1); e = errno; l.check("ws_recvl"); if(l.v.size() > 1) label("list");
        if(rc >= 0 && exp) { CHECK((size_t)rc == exp->size(), "ws_recvl returned %zd instead of %zu into list %s", rc, exp->size(), l.shape().c_str()); CHECK((size_t)rc <= cap, "too long"); if(!l.matches(*exp)) fail("ws_recvl: received %s instead of %s into list %s", hex(l.got(rc).data(), rc).c_str(), hex(exp->data(), rc).c_str(), l.shape().c_str()); } errno = e; return rc; } }
}
}
PROP_CASE(M05, roundtrip, "at least 3 messages received in the two directions together") {
    Wire *w[2]; sim_pair(w[0], w[1]); int srv = draw(2); int own[2] = {chance(1, 2) ? WS_TEXT : WS_BINARY, chance(1, 2) ? WS_TEXT : WS_BINARY};
    int h[2]; for(int i = 0; i < 2; ++i) h[i] = attach(w[i]->h, i == srv, own[i]);
    struct M { std::string d; int t; }; std::deque<M> q[2]; size_t off[2] = {0, 0}; bool rdead[2] = {false, false}; int got = 0, bigs = 0, masks = 0; std::set<std::string> seen;
    int n = 4 + draw(30);
    for(int i = 0; i < n; ++i) {
        int d = draw(2);
        if(chance(1, 2)) {
            if(q[d].size() > 8) continue;
            size_t sz = gen_size(bigs < 2); if(sz > 200) bigs++; M m{gen_bytes(sz), chance(1, 2) ? WS_TEXT : WS_BINARY}; 
            note("%s sends %zu bytes as %s", d == srv ? "server" : "client", sz, m.t == WS_TEXT ? "text" : "binary");
            CHECK(send_any(h[d], own[d], m.t, m.d) == 0, "send: %s", errname(errno)); q[d].push_back(m);
            /* the frames on the wire */
            std::string re; bool first = true; Frame f;
            for(;;) { CHECK(decode(w[d]->out, off[d], f), "incomplete frame on the wire: %s", hex(w[d]->out.data() + off[d], std::min<size_t>(w[d]->out.size() - off[d], 40)).c_str()); off[d] = f.end;
                CHECK(f.rsv == 0, "reserved bits set"); CHECK(f.masked == (d != srv), "%s frame is %smasked", d == srv ? "server" : "client", f.masked ? "" : "not "); CHECK(f.form == minimal(f.payload.size()), "length %zu not in the minimal form", f.payload.size());
                CHECK(f.op == (first ? (m.t == WS_TEXT ? 1 : 2) : 0), "wrong opcode %d", f.op); if(f.masked) { masks++; seen.insert(f.mask); } re += f.payload; first = false; if(f.fin) break; }
            CHECK(off[d] == w[d]->out.size(), "superfluous bytes on the wire");
            if(re != m.d) fail("the frame on the wire carries %s instead of %s", hex(re.data(), re.size()).c_str(), hex(m.d.data(), m.d.size()).c_str());
        } else {
            if(rdead[d] || q[d].empty()) continue;
            M m = q[d].front(); q[d].pop_front(); int r = 1 - d, fl; bool small = !m.d.empty() && chance(1, 12); size_t cap = small ? (chance(1, 2) ? m.d.size() - 1 : draw(m.d.size())) : m.d.size() + (chance(1, 2) ? 0 : draw(20)); int how = draw(small ? 2 : 5); if(small) how = how ? 3 : 0; if(!small && m.t != own[r] && chance(3, 4)) how = 2 + draw(3);
            bool mismatch = how <= 1 && m.t != own[r]; note("%s receives into %zu by %d", r == srv ? "server" : "client", cap, how);
            ssize_t rc = recv_any(h[r], how, cap, small || mismatch ? nullptr : &m.d, &fl); int e = errno;
            if(small) { CHECK(rc == -1 && (e == EMSGSIZE || (mismatch && e == EPROTO)), "message of %zu bytes into %zu: %zd %s", m.d.size(), cap, rc, errname(e)); rdead[d] = true; rc = recv_any(h[r], 3, 100000, nullptr, &fl); CHECK(rc == -1, "receive succeeds after EMSGSIZE"); label("oversized"); continue; }
            if(mismatch) { CHECK(rc == -1 && e == EPROTO, "message of the other type received by mrecv: %zd %s", rc, rc < 0 ? errname(e) : ""); rdead[d] = true; label("type mismatch"); continue; }
            CHECK(rc == (ssize_t)m.d.size(), "receiving %zu bytes: %zd %s", m.d.size(), rc, rc < 0 ? errname(e) : ""); if(fl != -1) CHECK(fl == m.t, "type %d instead of %d", fl, m.t); got++;
        }
    }
    if(masks >= 4) CHECK(seen.size() > 1, "every frame is masked with the same key");
    for(int i = 0; i < 2; ++i) { CHECK(hclose(h[i]) == 0, "hclose"); CHECK(w[i]->closes == 1, "underlying socket closed %d times", w[i]->closes); }
    if(bigs) label("big"); nontrivial(got >= 3);
}
PROP_CASE(M05, frames, "a fragmented message received, or an invalid frame met") {
    Wire *w = sim_new(); bool server = chance(1, 2); int own = chance(1, 2) ? WS_TEXT : WS_BINARY; std::string in; int n = 1 + draw(10); int budget = 2;
    /* mostly valid sequences, with one flaw now and then */
    bool open = false, closed = false; int flaws = 0; bool lied = false;
    for(int i = 0; i < n && !closed && !lied; ++i) {
        Frame f; f.masked = server; f.mask = gen_bytes(4); f.fin = chance(2, 3); f.op = open ? 0 : 1 + draw(2); size_t sz = gen_size(budget > 0); if(sz > 200) budget--; f.payload = gen_bytes(sz);
        if(chance(1, 15)) { f.op = 8; f.fin = true; f.payload.resize(std::min<size_t>(sz, 125)); if(f.payload.size() == 1) f.payload = ""; if(f.payload.size() >= 2) { int st = 1000 + draw(4000); f.payload[0] = (char)(st >> 8); f.payload[1] = (char)st; } }
        bool lie = false;
        if(chance(1, 8)) { flaws++; switch(draw(9)) {
            case 0: f.rsv = 1 + draw(7); break;
            case 1: f.masked = !f.masked; break;
            case 2: { static const int bad[] = {3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15}; f.op = bad[draw(12)]; if(f.op >= 8) { f.fin = true; f.payload.resize(std::min<size_t>(sz, 125)); } break; }
            case 3: f.op = open ? 1 + draw(2) : 0; break;
            case 4: f.op = 8; f.fin = false; f.payload = ""; break;
            case 5: f.op = 8; f.fin = true; f.payload = gen_bytes(126 + draw(10)); f.payload[0] = 3; f.payload[1] = (char)0xe8; break;
            case 6: f.op = 8; f.fin = true; f.payload = chance(1, 2) ? gen_bytes(1) : be(chance(1, 2) ? draw(1000) : 5000 + draw(60000), 2) + gen_bytes(draw(5)); break;
            case 7: lie = true; f.claimed = chance(1, 3) ? ~0ull >> draw(10) : f.payload.size() + 1 + draw(1u << draw(31)); break;
            case 8: f.form = 1 + draw(2); break; } }
        in += encode(f, lie); if(lie) lied = true;
        if(f.op < 8 && f.rsv == 0) open = !f.fin; if(f.op == 8) closed = true;
    }
    if(chance(1, 8)) in += gen_bytes(draw(30)); if(chance(1, 8) && !in.empty()) in.resize(draw(in.size()));
    size_t seg = chance(1, 2) ? 1 + draw(20) : 1 + draw(2000); for(size_t i = 0; i < in.size(); i += seg) w->put(in.substr(i, seg)); w->eof = true;
    note("%s, inbound %s", server ? "server" : "client", hex(in.data(), std::min<size_t>(in.size(), 300)).c_str());
    int h = attach(w->h, server, own); size_t pos = 0; bool dead = false; int frag = 0, invalid = 0;
    for(int i = 0; i < 12; ++i) {
        int how = draw(5), fl; size_t cap = chance(1, 6) ? draw(50) : 140000; if(how == 1 || how == 2) cap = SIZE_MAX / 2;
        /* what has to happen, by the reference decoder: a set of acceptable errors, or a message */
        std::set<int> errs; std::string m; int type = -1, parts = 0; bool either = false, done = false; bool any = dead;
        bool inside = false;
        while(!dead && !done) {
            Frame f; bool whole = decode(in, pos, f); size_t left = in.size() - pos;
            if(left < 2) { errs.insert(EPIPE); break; }
            uint8_t a = in[pos], b = in[pos + 1]; int op = a & 15; bool bad = (a & 0x70) || (op > 2 && op != 8) || !!(b & 0x80) != server || (op == 0 && !inside) || ((op == 1 || op == 2) && inside) || (op == 8 && (!(a & 0x80) || (b & 0x7f) > 125));
            if(bad) { errs.insert(EPROTO); if(f.claimed >> 63) errs.insert(EMSGSIZE); if(!whole || (op == 8 && f.form && f.payload.size() <= 125)) errs.insert(EPIPE); break; }
            if(!whole) { errs.insert(EPIPE); 
                uint64_t c = f.claimed; if(f.form >= 0 && m.size() + c > cap) errs.insert(EMSGSIZE); if(c >> 63 || m.size() + c < c) errs.insert({EMSGSIZE, EPROTO}); if(c > cap) errs.insert(EMSGSIZE); if(f.form > 0 && f.form != minimal(c)) errs.insert(EPROTO); break; }
            if(f.form != minimal(f.payload.size())) { either = true; errs.insert(EPROTO); }
            if(op == 8) { if(f.payload.size() == 1) errs.insert(EPROTO); else if(f.payload.size() >= 2 && ((uint8_t)f.payload[0] << 8 | (uint8_t)f.payload[1]) / 1000 - 1 > 3u) errs.insert(EPROTO); else errs.insert(EPIPE); pos = f.end; break; }
            if(op) type = op == 1 ? WS_TEXT : WS_BINARY;
            m += f.payload; parts++; pos = f.end; inside = true;
            if(m.size() > cap) { errs.insert(EMSGSIZE); 
                /* a later flaw of the same message may be met first or not at all */ any = true; break; }
            if(f.fin) done = true;
        }
        bool mismatch = done && how <= 1 && type != own; bool ok = done && !mismatch && !dead;
        ssize_t rc = recv_any(h, how, std::min<size_t>(cap, 140000), ok ? &m : nullptr, &fl); int e = errno;
        if(ok) {
            if(rc < 0 && either && errs.count(e)) { dead = true; continue; }
            CHECK(rc == (ssize_t)m.size(), "receiving a message of %zu bytes in %d frames: %zd %s", m.size(), parts, rc, rc < 0 ? errname(e) : ""); if(fl != -1) CHECK(fl == type, "type %d instead of %d", fl, type); if(parts > 1) frag++; }
        else { CHECK(rc == -1, "an invalid or incomplete message was received (%zd bytes)", rc);
            if(mismatch) { CHECK(e == EPROTO, "message of the other type: %s", errname(e)); break; }
            if(!any) CHECK(errs.count(e), "error %s instead of %s", errname(e), errname(*errs.begin())); else if(!dead) CHECK(e == EMSGSIZE || e == EPROTO, "error %s instead of EMSGSIZE", errname(e));
            if(!dead && e == EPROTO) invalid++; dead = true; }
    }
    CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "underlying socket closed %d times", w->closes);
    if(frag) label("fragmented"); if(invalid) label("invalid"); nontrivial(frag || invalid);
}
PROP_CASE(M05, many, "every case: two to four connections in use at the same time") { stk_many(L_WS); nontrivial(true); }

PROP_CASE(M05, huge, "every case") {
    Wire *w = sim_new(); char *z = huge_region(); bool rx = chance(1, 2); int fl = chance(1, 2) ? WS_TEXT : WS_BINARY; int h = attach(w->h, !rx, fl); uint64_t n = huge_size(); note("%llu bytes", (unsigned long long)n); auto head = [&](bool fin, int op, uint64_t n) { return std::string(1, (char)((fin ? 0x80 : 0) | op)) + (char)127 + be(n, 8); }; int op = fl == WS_TEXT ? 1 : 2;
    if(!rx) { w->sink = true; uint64_t a = chance(1, 2) ? 0 : 2000000 + draw(1000); struct iolist y = {z + a, n - a, NULL, 0}, x = {z, a, &y, 0}; int rc = a ? msendl(h, &x, &y, -1) : chance(1, 2) ? msend(h, z, n, -1) : ws_send(h, fl, z, n, -1); CHECK(rc == 0, "send: %s", errname(errno)); std::string exp = head(true, op, n) + (a ? "<" + std::to_string(a) + "><" + std::to_string(n - a) + ">" : "<" + std::to_string(n) + ">"); CHECK(w->out == exp, "sent %s", hex(w->out.data(), w->out.size()).c_str()); }
    else { /* one frame, or a small one in front of it, or half of it in a second frame */
        std::string pre = gen_bytes(draw(20)); int k = draw(3); uint64_t total = n; Frame f; f.op = op; f.payload = "next"; std::string next = encode(f);
        if(k == 0) { w->put(head(true, op, n)); w->zeros = n; w->after = next; } else { f.fin = false; f.op = op; f.payload = pre; w->put(encode(f) + head(true, 0, n)); w->zeros = n; w->after = next; total += pre.size(); }
        int how = draw(3), t = -1; note("shape %d, way %d", k, how); ssize_t rc; uint64_t cap = total + (chance(1, 2) ? 0 : draw(1000)), a = chance(1, 2) ? draw(30) : cap / 2; if(how == 0) rc = chance(1, 2) ? mrecvl(h, NULL, NULL, -1) : ws_recvl(h, &t, NULL, NULL, -1); else if(how == 1) rc = ws_recv(h, &t, z, cap, -1); else { struct iolist y = {z + a, cap - a, NULL, 0}, x = {z, a, &y, 0}; rc = ws_recvl(h, &t, &x, &y, -1); }
        CHECK((uint64_t)rc == total, "receive of %llu bytes: %zd %s", (unsigned long long)total, rc, rc < 0 ? errname(errno) : ""); if(t >= 0) CHECK((t & (WS_TEXT | WS_BINARY)) == fl || t == fl, "type %d", t); if(how && k) CHECK(!memcmp(z, pre.data(), pre.size()), "wrong data"); std::string nx = "next"; note("behind: %s", hex(w->pending().data(), w->pending().size()).c_str()); CHECK(mrecv_any(h, 10, &nx, -1) == 4, "the next message: %s", errname(errno)); }
    CHECK(hclose(h) == 0 && w->closes == 1, "hclose"); nontrivial(); }
