#include "sim.h"
#include "stk.h"
#include "tls_keys.h"
#include <algorithm>
#include <stdio.h>
static TlsEnv tls_env;
namespace {
typedef std::string S;
S g_cert, g_key;
struct Files { Files() { tls_files(scratch_dir(), g_cert, g_key); freopen("/dev/null", "w", stderr); } };
struct End { Wire *w; bool server; std::unique_ptr<struct tls_storage> st; int h = -1; S rx; };
int attach(End &e, bool mem, int64_t dl) {
    int h; if(mem) e.st.reset(new struct tls_storage);
    if(e.server) h = mem ? tls_attach_server_mem(e.w->h, g_cert.c_str(), g_key.c_str(), e.st.get(), dl) : tls_attach_server(e.w->h, g_cert.c_str(), g_key.c_str(), dl);
    else h = mem ? tls_attach_client_mem(e.w->h, e.st.get(), dl) : tls_attach_client(e.w->h, dl);
    return e.h = h; }
size_t sz() { switch(draw(6)) { case 0: return draw(4); case 1: return 1 + draw(30); case 2: return draw(600); case 3: return 16380 + draw(10); case 4: return draw(20000); default: return 2040 + draw(20); } }
std::vector<S> gen_parts() { std::vector<S> v; size_t n = draw(6); for(size_t i = 0; i < n; ++i) v.push_back(gen_bytes(sz())); return v; }
S cat(const std::vector<S> &v) { S r; for(auto &x : v) r += x; return r; }
void send_all(End &e, const std::vector<S> &v) { for(auto &x : v) CHECK(bsend_any(e.h, x, -1) == 0, "bsend of %zu bytes: %s", x.size(), errname(errno)); }
void recv_all(End &e, const S &exp) {
    while(e.rx.size() < exp.size()) { size_t n = std::min<size_t>(exp.size() - e.rx.size(), sz()); S g;
        if(chance(1, 8)) { CHECK(brecv(e.h, NULL, n, -1) == 0, "brecv skipping %zu bytes: %s", n, errname(errno)); e.rx += exp.substr(e.rx.size(), n); label("skip"); continue; }
        CHECK(brecv_any(e.h, n, &g, -1) == 0, "brecv of %zu bytes: %s", n, errname(errno)); if(g != exp.substr(e.rx.size(), n)) fail("received data differ from those sent, at %zu", e.rx.size()); e.rx += g; } }
}
PROP_CASE(M09, stream, "the TLS session was set up and ended in an orderly way") {
    Files files; End e[2]; sim_pair(e[0].w, e[1].w); e[0].server = false; e[1].server = true; if(chance(1, 2)) { for(auto &x : e) x.w->cap = 1500 + draw(3000); }
    std::vector<S> tx[2] = {gen_parts(), gen_parts()}; bool mem[2] = {chance(1, 2), chance(1, 2)}, duplex = chance(1, 3); int first = draw(2); int64_t dl = chance(1, 2) ? -1 : now() + 1000000; bool half = chance(1, 2); if(duplex) label("full duplex");
    S all[2] = {cat(tx[0]), cat(tx[1])}; S plain[2] = {gen_bytes(1 + draw(40)), gen_bytes(1 + draw(40))}; bool det = chance(3, 4); size_t cut[2] = {0, 0};
    auto side = [&](int i) { End &m = e[i]; CHECK(attach(m, mem[i], dl) >= 0, "attach (%s): %s", i ? "server" : "client", errname(errno));
        CHECK(hquery(m.w->h, bsock_type) == NULL && errno == EBADF, "the handle of the underlying socket is still valid");
        bool dn = half; auto tx_fn = [&, i] { send_all(e[i], tx[i]); if(dn) { CHECK(tls_done(e[i].h, dl) == 0, "tls_done: %s", errname(errno)); CHECK(bsend_any(e[i].h, "x", -1) == -1 && errno == EPIPE, "send after done"); CHECK(tls_done(e[i].h, -1) == -1 && errno == EPIPE, "second done"); } };
        auto rx_fn = [&, i] { if(half && chance(1, 4)) { label("skips all"); if(chance(1, 2)) recv_all(e[i], all[!i].substr(0, draw(all[!i].size() + 1))); CHECK(brecvl(e[i].h, NULL, NULL, dl) == -1 && errno == EPIPE, "skipping everything: %s", errname(errno)); } else recv_all(e[i], all[!i]); if(half) { S g; int n = 1 + draw(2); while(n--) CHECK(brecv_any(e[i].h, 1 + draw(30), &g, dl) == -1 && errno == EPIPE, "receive behind the end: %s", errname(errno)); } };
        if(duplex) { run_all({tx_fn, rx_fn}); } else if(i == first) { tx_fn(); rx_fn(); } else { rx_fn(); tx_fn(); }
        cut[i] = m.w->out.size(); if(det) { int u = tls_detach(m.h, dl); CHECK(u >= 0, "tls_detach (%s): %s", i ? "server" : "client", errname(errno)); CHECK(sim_is(u, m.w), "detach returns a different socket"); CHECK(m.w->closes == 0, "closed"); 
            CHECK(bsend_any(u, plain[i], -1) == 0, "bsend on the detached socket"); S g; CHECK(brecv_any(u, plain[!i].size(), &g, -1) == 0, "brecv on the detached socket: %s", errname(errno)); if(g != plain[!i]) fail("plain data behind TLS: %s instead of %s", hex(g.data(), g.size()).c_str(), hex(plain[!i].data(), plain[!i].size()).c_str()); CHECK(hclose(u) == 0, "hclose"); }
        else CHECK(hclose(m.h) == 0, "hclose");
        CHECK(m.w->closes == 1, "underlying socket closed %d times", m.w->closes); };
    run_all({[&] { side(0); }, [&] { side(1); }});
    for(int i = 0; i < 2; ++i) for(auto &p : tx[i]) if(p.size() >= 24 && p.substr(0, 24) != S(24, p[0]) && e[i].w->out.substr(0, cut[i]).find(p.substr(0, 24)) != S::npos) fail("plaintext of %zu bytes is visible on the wire", p.size());
    if(all[0].size() > 16384 || all[1].size() > 16384) label("several records"); if(half) label("half-close"); nontrivial();
}
namespace {
struct Scn { int dir = 0, kind = 0; long at = -1; int err = 0; S junk; std::vector<S> tx[2]; bool mem[2], half; int64_t dl; int first; };
Scn gen_scn() { Scn s; s.dir = draw(2); s.kind = draw(6); s.at = chance(1, 2) ? draw(200) : chance(1, 2) ? draw(2500) : 1200 + draw(1400); s.err = chance(1, 2) ? ECONNRESET : ECONNABORTED; s.junk = gen_bytes(1 + draw(40));
    for(int i = 0; i < 2; ++i) { size_t n = draw(3); while(n--) s.tx[i].push_back(gen_bytes(chance(1, 3) ? draw(2000) : draw(100))); s.mem[i] = chance(1, 2); } s.half = chance(1, 2); s.dl = 1 + draw(200); s.first = draw(2); return s; }
/* One session with a fault somewhere on the wire. */
bool run_scn(const Scn &s) {
    End e[2]; sim_pair(e[0].w, e[1].w); e[0].server = false; e[1].server = true; Wire *w = e[s.dir].w; bool hit = false; int64_t late = 0; bool fell[2] = {false, false};
    w->filter = [&, w](long off, S d) -> S { 
        if(off + (long)d.size() <= s.at) return d; 
        switch(s.kind) { case 0: /* silence */ hit = true; return off < s.at ? d.substr(0, s.at - off) : ""; 
        case 1: hit = true; w->peer->eof = true; return off < s.at ? d.substr(0, s.at - off) : ""; case 2: hit = true; w->peer->in_err = s.err; return off < s.at ? d.substr(0, s.at - off) : ""; 
        case 3: if(off <= s.at) { hit = true; d[s.at - off] ^= 1 + s.junk[0] % 255; } return d; 
        case 4: if(off <= s.at) { hit = true; return d.substr(0, s.at - off) + s.junk + d.substr(s.at - off); } return d;
        default: if(off <= s.at) { hit = true; size_t k = s.at - off, n = std::min(s.junk.size(), d.size() - k); return d.substr(0, k) + d.substr(k + n); } return d; } };
    S all[2] = {cat(s.tx[0]), cat(s.tx[1])};
    auto op = [&](int i, const char *what, std::function<int(int64_t)> f) -> bool { int64_t t = now(), dl = t + s.dl; e[i].w->last_err = 0; errno = 0; int rc = f(dl), er = errno;
        CHECK(now() <= dl, "%s with the deadline at +%d returned at +%d", what, (int)s.dl, (int)(now() - t)); if(rc >= 0) return true;
        CHECK(er != 0, "%s fails without an error", what); if(er == ETIMEDOUT) CHECK(now() >= dl, "%s timed out at +%d instead of +%d", what, (int)(now() - t), (int)s.dl);
        int le = e[i].w->last_err; if(le && le != EPIPE && er != EFAULT) CHECK(er == le, "%s: %s although the underlying socket failed with %s", what, errname(er), errname(le));
        if(!hit && !fell[!i]) fail("%s (%s) fails with %s without reason", what, i ? "server" : "client", errname(er)); fell[i] = true; note("%s (%s): %s", what, i ? "server" : "client", errname(er)); return false; };
    auto side = [&](int i) { End &m = e[i]; if(!op(i, "attach", [&](int64_t dl) { return attach(m, s.mem[i], dl); })) { CHECK(m.w->closes == 1, "a failed attach closed the underlying socket %d times", m.w->closes); return; }
        bool sok = true, rok = true; auto tx = [&] { for(auto &x : s.tx[i]) if(!op(i, "bsend", [&](int64_t dl) { return bsend(m.h, x.data(), x.size(), dl); })) { sok = false; return; } if(s.half && !op(i, "tls_done", [&](int64_t dl) { return tls_done(m.h, dl); })) sok = false; };
        auto rx = [&] { S g; for(auto &x : s.tx[!i]) { S b(x.size(), 0); if(!op(i, "brecv", [&](int64_t dl) { return brecv(m.h, &b[0], b.size(), dl); })) { rok = false; return; } if(b != x) fail("received data differ from those sent"); } };
        if(i == s.first) { tx(); rx(); } else { rx(); tx(); }
        if(!sok) { CHECK(bsend(m.h, "x", 1, now() + s.dl) == -1, "bsend succeeds after a failure"); } if(!rok) { char c; CHECK(brecv(m.h, &c, 1, now() + s.dl) == -1, "brecv succeeds after a failure"); }
        if(sok && rok && (s.half || s.dl % 2)) { int u = -1; if(op(i, "tls_detach", [&](int64_t dl) { return u = tls_detach(m.h, dl); })) { CHECK(sim_is(u, m.w), "detach returns a different socket"); CHECK(hclose(u) == 0, "hclose"); } else CHECK(m.w->closes == 1, "a failed detach closed the underlying socket %d times", m.w->closes); }
        else { fell[i] = true; CHECK(hclose(m.h) == 0, "hclose"); }
        CHECK(m.w->closes == 1, "underlying socket closed %d times", m.w->closes); };
    run_all({[&] { side(0); }, [&] { side(1); }});
    static const char *kinds[] = {"silence", "end", "error", "corruption", "insertion", "deletion"}; if(hit) label(kinds[s.kind]); return hit;
}
}
PROP_CASE(M09, broken, "the fault took place") { Files files; Scn s = gen_scn(); note("kind %d at %ld of direction %d", s.kind, s.at, s.dir); if(run_scn(s)) nontrivial(); }
PROP_CASE(M09, leak, "the same session four times") {
    Files files; Scn s = gen_scn(); if(chance(1, 4)) s.at = 1000000; note("kind %d at %ld of direction %d", s.kind, s.at, s.dir); long l[5]; size_t a[5]; 
    for(int i = 0; i < 5; ++i) { run_scn(s); l[i] = TlsEnv::live(); a[i] = live_allocs(); }
    if(l[4] > l[3] && l[3] > l[2]) fail("OpenSSL objects leak: %ld %ld %ld %ld %ld", l[0], l[1], l[2], l[3], l[4]); if(a[4] > a[3] && a[3] > a[2]) fail("allocations leak: %zu %zu %zu %zu %zu", a[0], a[1], a[2], a[3], a[4]); nontrivial();
}
PROP_CASE(M09, misuse, "the call was refused") {
    Files files; Wire *w = sim_new(); struct tls_storage st; int64_t dl = -1; int k = draw(6), h;
    switch(k) { 
    case 0: { int ch[2]; CHECK(chmake(ch) == 0, "chmake"); h = chance(1, 2) ? tls_attach_client(ch[0], dl) : tls_attach_server(ch[0], g_cert.c_str(), g_key.c_str(), dl); CHECK(h == -1 && errno == EPROTO, "attach to a channel: %s", errname(errno)); CHECK(hclose(ch[1]) == 0, "hclose"); break; }
    case 1: { h = chance(1, 2) ? tls_attach_client(12345, dl) : tls_attach_server(12345, g_cert.c_str(), g_key.c_str(), dl); CHECK(h == -1 && errno == EBADF, "attach to a bad handle: %s", errname(errno)); break; }
    case 2: { S bad = scratch_dir() + "/none"; h = chance(1, 2) ? tls_attach_server(w->h, bad.c_str(), g_key.c_str(), dl) : tls_attach_server(w->h, g_cert.c_str(), bad.c_str(), dl); CHECK(h == -1, "attach without a certificate"); CHECK(w->closes == 1, "not closed"); w = nullptr; break; }
    case 3: { h = chance(1, 2) ? tls_attach_client_mem(w->h, NULL, dl) : tls_attach_server_mem(w->h, g_cert.c_str(), g_key.c_str(), NULL, dl); CHECK(h == -1 && errno == EINVAL, "attach without storage: %s", errname(errno)); CHECK(w->closes == 1, "not closed"); w = nullptr; break; }
    case 4: { CHECK(tls_done(w->h, dl) == -1 && errno == ENOTSUP, "tls_done on a different socket: %s", errname(errno)); CHECK(tls_detach(w->h, dl) == -1 && errno == ENOTSUP, "tls_detach on a different socket: %s", errname(errno)); CHECK(w->closes == 0, "closed"); break; }
    default: { w->put(gen_bytes(1 + draw(3000))); w->eof = true; bool srv = chance(1, 2); h = srv ? tls_attach_server(w->h, g_cert.c_str(), g_key.c_str(), dl) : tls_attach_client(w->h, dl); CHECK(h == -1, "attach to garbage succeeds"); CHECK(w->closes == 1, "not closed"); w = nullptr; label("garbage"); break; } }
    if(w) CHECK(hclose(w->h) == 0, "hclose"); nontrivial();
}
PROP_CASE(M09, deadlines, "a receive and sends with different deadlines were under way at the same time") {
    Files files; End e[2]; sim_pair(e[0].w, e[1].w); e[0].server = false; e[1].server = true; if(chance(1, 2)) std::swap(e[0].server, e[1].server);
    run_all({[&] { CHECK(attach(e[0], chance(1, 2), -1) >= 0, "attach"); }, [&] { CHECK(attach(e[1], chance(1, 2), -1) >= 0, "attach"); }});
    { S g; run_all({[&] { CHECK(bsend(e[0].h, "abc", 3, -1) == 0, "bsend"); }, [&] { CHECK(brecv_any(e[1].h, 3, &g, -1) == 0, "brecv"); }}); run_all({[&] { CHECK(bsend(e[1].h, "abc", 3, -1) == 0, "bsend"); }, [&] { CHECK(brecv_any(e[0].h, 3, &g, -1) == 0, "brecv"); }}); }
    S held, msg = gen_bytes(1 + draw(40)); bool stop = false, over = false; long limit = chance(1, 2) ? 1000 : draw(msg.size() + 40); e[1].w->filter = [&](long, S d) { held += d; return S(); };
    CHECK(bsend(e[1].h, msg.data(), msg.size(), -1) == 0, "bsend"); int64_t t0 = now(), rdl = t0 + 1 + draw(60), end = 0; int sends = 0; bool got = false; e[0].w->cap = chance(1, 2) ? 0 : 1500;
    auto release = [&] { while(!over && !held.empty() && limit > 0) { msleep(now() + 1 + draw(10)); size_t n = std::min<size_t>(1 + draw(20), held.size()); n = std::min<long>(n, limit); limit -= n; e[0].w->put(held.substr(0, n)); held.erase(0, n); if(held.empty()) end = now(); } };
    auto rx = [&] { S b(msg.size(), 0); int rc = brecv(e[0].h, &b[0], b.size(), rdl), er = errno; over = true; if(rc == 0) { CHECK(b == msg, "wrong data"); CHECK(end && now() <= rdl && now() <= end + 1, "received at +%d", (int)(now() - t0)); got = true; label("received"); } else { CHECK(er == ETIMEDOUT, "brecv: %s", errname(er)); CHECK(now() == rdl, "brecv with the deadline at +%d timed out at +%d", (int)(rdl - t0), (int)(now() - t0)); label("timed out"); } };
    auto tx = [&] { size_t total = 0; while(!over) { msleep(now() + draw(12)); if(over) break; int64_t t = now(), dl = chance(1, 3) ? -1 : t + draw(40); size_t n = 1 + draw(chance(1, 3) ? 900 : 20); if(dl < 0 && e[0].w->cap && total + n + 60 * (sends + 1) > e[0].w->cap - 400) break; S d = gen_bytes(n); int rc = bsend(e[0].h, d.data(), d.size(), dl0(dl)), er = errno; sends++; total += n;
        if(rc) { CHECK(er == ETIMEDOUT && dl >= 0 && now() == dl, "bsend with the deadline at %+d: %s at %+d", (int)(dl - t), errname(er), (int)(now() - t)); label("send timed out"); break; } else CHECK(dl < 0 || now() <= dl, "bsend is late"); } };
    run_all({release, rx, tx}); CHECK(hclose(e[0].h) == 0 && hclose(e[1].h) == 0, "hclose"); if(sends) nontrivial();
}
PROP_CASE(M09, many, "every case: two to four connections in use at the same time") { stk_many(L_TLS); nontrivial(true); }

PROP_CASE(M09, huge, "every case") {
    Files files; End e[2]; sim_pair(e[0].w, e[1].w); e[0].server = chance(1, 2); e[1].server = !e[0].server; run_all({[&] { CHECK(attach(e[0], chance(1, 2), -1) >= 0, "attach"); }, [&] { CHECK(attach(e[1], chance(1, 2), -1) >= 0, "attach"); }}); e[0].w->cap = e[1].w->cap = 20000 + draw(60000);
    { S g; run_all({[&] { CHECK(bsend(e[0].h, "abc", 3, -1) == 0, "bsend"); }, [&] { CHECK(brecv_any(e[1].h, 3, &g, -1) == 0, "brecv"); }}); run_all({[&] { CHECK(bsend(e[1].h, "abc", 3, -1) == 0, "bsend"); }, [&] { CHECK(brecv_any(e[0].h, 3, &g, -1) == 0, "brecv"); }}); }
    huge_stream(e[0].h, e[1].h, [](int h) { CHECK(tls_done(h, -1) == 0, "tls_done: %s", errname(errno)); }); CHECK(hclose(e[0].h) == 0 && hclose(e[1].h) == 0, "hclose"); }
