#include "stk.h"
#include "tls_keys.h"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
static TlsEnv tls_env;
typedef std::string S;
static int sockets(void) { int n = 0; for(int fd : fd_list()) { char b[100], l[100]; snprintf(b, sizeof b, "/proc/self/fd/%d", fd); ssize_t k = readlink(b, l, sizeof l); if(k > 7 && !memcmp(l, "socket:", 7)) n++; } return n; }
PROP_CASE(M10, walk, "at least three layers or phases were put on and taken off") {
    Stack s; int socks = sockets(); bool tls = chance(1, 4); if(tls) stk_files(); s.open(chance(1, 3) ? B_IPC : B_SIM); int n = 3 + draw(10), done = 0; size_t deep = 0; bool both = chance(1, 8); 
    for(int k = 0; k < n; ++k) {
        switch(weighted({5, 3, 3, 2})) {
        case 0: if(s.lays.size() < 6) { Lay l = s.gen(tls); s.push(l); deep = std::max(deep, s.lays.size()); done++; } break;
        case 1: if(!s.lays.empty()) { int t = s.lays.back().kind;
                if((t == L_TERM || t == L_WS) && chance(1, 2)) { /* messages nobody receives */ for(int d = 0; d < 2; ++d) { int c = draw(3); while(c--) CHECK(msend_any(s.h[d], s.msg(), -1) == 0, "msend"); } label("unread messages dropped"); }
                s.pop(); done++; s.exchange(draw(4)); } break;
        case 2: s.exchange(1 + draw(12)); break;
        case 3: if(!s.msgs()) { s.phase(chance(1, 2) ? L_HTTP : L_SOCKS); done++; } break; } }
    for(auto &l : s.lays) label(lay_name(l.kind)); if(s.lays.size() >= 3) label("three layers open"); if(s.base) label("ipc");
    if(both) while(!s.lays.empty()) s.pop(); int f = draw(2); note("end of the walk over %s", s.text().c_str());
    if(s.has_done() && chance(1, 2)) { CHECK(s.done(f, -1) == 0, "done on %s: %s", s.text().c_str(), errname(errno)); char c; int rc = s.msgs() ? (mrecv(s.h[!f], &c, 1, -1) < 0 ? -1 : 0) : brecv(s.h[!f], &c, 1, -1); CHECK(rc == -1 && errno == EPIPE, "receiving the end over %s: %s", s.text().c_str(), errname(errno)); }
    s.close(f); s.close(!f); 
    CHECK(sockets() == socks, "descriptors are left open: %d instead of %d", sockets(), socks); if(deep >= 3) label("deep"); if(done >= 3) nontrivial();
}
namespace {
/* The same program of operations on two stacks with the same top protocol; the transcripts must be the same. */
struct Op { int k, d; S m; size_t cap; int64_t dl; bool list; };
struct Plan { std::vector<Op> ops; Lay top; };
std::vector<S> run_plan(Stack &s, const Plan &p) {
    std::vector<S> out; bool ms = s.msgs(); bool closed[2] = {false, false}, big[2] = {false, false};
    for(auto &o : p.ops) { char t[200]; int64_t dl = dl0(now() + o.dl), t0 = now(); int rc = 0; errno = 0; S got; if(closed[o.d]) { out.push_back("-"); continue; } int h = s.h[o.d];
        switch(o.k) {
        case 0: { Exact x(o.m); if(o.list) { struct iolist b = {x.p.get() + x.n / 2, x.n - x.n / 2, NULL, 0}, a = {x.p.get(), x.n / 2, &b, 0}; rc = ms ? msendl(h, &a, &b, dl) : bsendl(h, &a, &b, dl); } else rc = ms ? msend(h, x.p.get(), x.n, dl) : bsend(h, x.p.get(), x.n, dl); break; }
        case 1: { if(big[o.d]) { out.push_back("-"); continue; } std::unique_ptr<char[]> b(new char[o.cap]); if(o.list) { struct iolist y = {b.get() + o.cap / 2, o.cap - o.cap / 2, NULL, 0}, x = {b.get(), o.cap / 2, &y, 0}; rc = ms ? mrecvl(h, &x, &y, dl) : brecvl(h, &x, &y, dl); } else rc = ms ? mrecv(h, b.get(), o.cap, dl) : brecv(h, b.get(), o.cap, dl); int e = errno; if(rc >= 0) got.assign(b.get(), ms ? rc : o.cap); errno = e; break; }
        case 2: if(big[o.d]) { out.push_back("-"); continue; } rc = ms ? mrecvl(h, NULL, NULL, dl) : 0; break;
        case 3: rc = s.has_done() ? s.done(o.d, dl) : 0; break;
        case 4: rc = hclose(h); closed[o.d] = true; break; }
        int e = errno; if(rc < 0 && e == EMSGSIZE) big[o.d] = true; snprintf(t, sizeof t, "op %d of %d: %d %s after %d ms ", o.k, o.d, rc, rc < 0 ? errname(e) : "", (int)(now() - t0)); out.push_back(t + hex(got.data(), got.size(), 300)); }
    for(int i = 0; i < 2; ++i) if(!closed[i]) s.close(i);
    return out; }
}
PROP_CASE(M10, same, "messages were received and at least one call failed") {
    bool tls = chance(1, 4); if(tls) stk_files(); Stack a, b; a.open(B_SIM); b.open(chance(1, 4) ? B_IPC : B_SIM); int extra = 0; Lay top;
    if(chance(1, 3)) { /* term at the top; below it the same message protocol, with further term layers in b only */
        Lay l = b.gen(false); if(tls) { Lay t; t.kind = L_TLS; t.srv = draw(2); t.mem[0] = chance(1, 2); b.push(t); extra++; } b.push(l); Lay l2 = l; l2.mem[0] = !l.mem[0]; a.push(l2); int n = tls ? draw(3) : 1 + draw(2); while(n--) { Lay t = b.gen(false); if(t.kind >= 0) { b.push(t); extra++; } } top = b.gen(false); if(top.kind < 0) return; }
    else { do { top = a.gen(false); } while(top.kind == L_TLS); if(tls) { Lay t; t.kind = L_TLS; int n = 1 + draw(2); while(n--) { t.srv = draw(2); b.push(t); extra++; } } int n = draw(3); while(n--) b.phase(chance(1, 2) ? L_HTTP : L_SOCKS); }
    a.push(top); Lay t2 = top; t2.mem[0] = !t2.mem[0]; t2.mem[1] = chance(1, 2); b.push(t2); note("%s and %s", a.text().c_str(), b.text().c_str());
    Plan p; int n = 4 + draw(30); std::deque<S> q[2]; bool any = false;
    for(int k = 0; k < n; ++k) { Op o; o.d = draw(2); o.k = weighted({10, 10, 1, 1, 1}); if(o.k == 4 && (b.base != B_SIM || chance(1, 2))) o.k = 0; o.dl = chance(1, 2) ? 0 : 1 + draw(20); o.list = chance(1, 3); o.cap = 0; if(o.k == 0) { o.m = b.msg(); q[!o.d].push_back(o.m); } 
        if(o.k == 1 || o.k == 2) { if(q[o.d].empty()) { if(!chance(1, 6)) continue; o.cap = draw(20); } else { o.cap = q[o.d].front().size(); q[o.d].pop_front(); if(chance(1, 12) && o.cap) o.cap--; else if(chance(1, 3)) o.cap += draw(20); any = true; } } p.ops.push_back(o); }
    /* what happens to a socket behind an oversized message is not specified */
    auto x = run_plan(a, p), y = run_plan(b, p); bool failed = false;
    for(size_t i = 0; i < x.size(); ++i) { note("%s%s%s", x[i].c_str(), x[i] == y[i] ? "" : "   |   ", x[i] == y[i] ? "" : y[i].c_str()); if(x[i].find(": -1") != S::npos) failed = true; }
    for(size_t i = 0; i < x.size(); ++i) if(x[i] != y[i]) fail("%s over a bare connection: %s; over %s: %s", lay_name(top.kind), x[i].c_str(), b.text().c_str(), y[i].c_str());
    if(any && failed) nontrivial(); label(lay_name(top.kind)); if(extra) label("extra layers"); if(b.base) label("ipc");
}
