#include "sim.h"
#include "stk.h"
#include <algorithm>
namespace {
term_storage mem[4]; prefix_storage pmem[4]; int nmem = 0, npm = 0;
int tattach(int s, const std::string &t) {
    std::unique_ptr<char[]> c(new char[t.size()]); memcpy(c.get(), t.data(), t.size());
    const void *p = t.empty() && chance(1, 2) ? nullptr : c.get();
    int h = chance(1, 2) && nmem < 4 ? term_attach_mem(s, p, t.size(), &mem[nmem++]) : term_attach(s, p, t.size()); CHECK(h >= 0, "term_attach: %s", errname(errno)); return h; }
std::string gen_text(size_t n) { return gen_from("abc\n\0", n); }
std::string gen_msg(const std::string &t) {
    std::string m;
    switch(weighted({3, 1, 1, 1, 1, 1})) {
    case 0: m = gen_text(draw(chance(1, 8) ? 500 : 45)); break;
    case 1: m = t.substr(0, draw(t.size() + 1)); break;
    case 2: m = t + gen_text(1 + draw(5)); break;
    case 3: m = t; if(!m.empty()) m[draw(m.size())] ^= 1 << draw(3); break;
    case 4: m = gen_text(t.size()); break;
    case 5: m = gen_text(1 + draw(3)) + t; break;
    }
    for(auto &c : m) if(c == '\r') c = 'r';
    if(m == t) m += 'z';
    return m;
}
}
PROP_CASE(M03, dialogue, "at least 3 messages received and the terminator received by one side at least") {
    Wire *a, *b; sim_pair(a, b); int kind = draw(2); size_t hl = 1 + draw(8); if(hl < 2) hl = 2;
    std::string t = gen_text(chance(1, 5) ? 0 : chance(1, 4) ? 32 - draw(2) : draw(8));
    note("over %s, terminator %s", kind ? "prefix" : "suffix", hex(t.data(), t.size()).c_str());
    int u[2], h[2]; Wire *w[2] = {a, b};
    for(int i = 0; i < 2; ++i) { u[i] = kind ? (chance(1, 2) ? prefix_attach_mem(w[i]->h, hl, 0, &pmem[npm++]) : prefix_attach(w[i]->h, hl, 0)) : suffix_attach(w[i]->h, "\r\n", 2); CHECK(u[i] >= 0, "attach"); }
    if(chance(1, 4)) { std::string pre = chance(1, 2) ? t : gen_text(4); CHECK(msend(u[0], pre.data(), pre.size(), -1) == 0, "msend below"); CHECK(mrecv_any(u[1], 100, &pre, -1) >= 0, "mrecv below"); }
    for(int i = 0; i < 2; ++i) h[i] = tattach(u[i], t);
    /* per direction: messages not yet received; whether the terminator is behind them */
    std::deque<std::string> q[2]; bool term[2] = {false, false}, done[2] = {false, false}, ended[2] = {false, false}, rdead[2] = {false, false}; int got = 0;
    int n = 4 + draw(40); bool bad = false;
    for(int i = 0; i < n; ++i) {
        int d = draw(2);
        switch(weighted({8, 8, 1, 1})) {
        case 0: {
            std::string m = gen_msg(t); 
            if(done[d]) { int rc = msend_any(h[d], m, -1), e = errno; CHECK(rc == -1 && e == EPIPE, "msend after term_done: %d %s", rc, errname(e)); label("send after done"); break; }
            if(q[d].size() > 8) break;
            note("%d sends %s", d, hex(m.data(), m.size()).c_str());
            CHECK(msend_any(h[d], m, -1) == 0, "msend: %s", errname(errno)); if(!term[d]) q[d].push_back(m); else q[d].push_back(m); break; }
        case 1: {
            if(rdead[d]) break;
            if(ended[d]) { ssize_t rc = chance(1, 3) ? mrecvl(h[1 - d], NULL, NULL, -1) : mrecv_any(h[1 - d], draw(50), nullptr, -1); int e = errno; CHECK(rc == -1 && e == EPIPE, "mrecv after the terminator: %zd %s", rc, errname(e)); label("receive after end"); break; }
            if(q[d].empty() && !term[d]) { /* nothing to receive: only with a deadline, and the socket is unusable then */ break; }
            if(q[d].empty()) {
                note("%d receives the terminator", 1 - d);
                ssize_t rc = chance(1, 4) ? mrecvl(h[1 - d], NULL, NULL, -1) : mrecv_any(h[1 - d], chance(1, 2) ? draw(t.size() + 1) : draw(100), nullptr, -1); int e = errno;
                CHECK(rc == -1 && e == EPIPE, "mrecv of the terminator: %zd %s", rc, errname(e)); ended[d] = true; break; }
            std::string m = q[d].front(); q[d].pop_front();
            switch(weighted({8, 2, bad || m.empty() ? 0u : 1u})) {
            case 0: { size_t cap = m.size() + (chance(1, 2) ? 0 : draw(40)); note("%d receives into %zu", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, &m, -1); CHECK(rc >= 0, "mrecv of %zu bytes into %zu: %s", m.size(), cap, errname(errno)); got++; break; }
            case 1: { note("%d drops", 1 - d); ssize_t rc = mrecvl(h[1 - d], NULL, NULL, -1); CHECK(rc == (ssize_t)m.size(), "mrecvl(NULL, NULL) returned %zd %s for a message of %zu bytes", rc, errname(errno), m.size()); break; }
            case 2: { size_t cap = chance(1, 2) ? m.size() - 1 : draw(m.size()); note("%d receives into %zu, too small", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, nullptr, -1); int e = errno; CHECK(rc == -1 && e == EMSGSIZE, "mrecv of %zu bytes into %zu: %zd %s", m.size(), cap, rc, errname(e)); rdead[d] = true; bad = true; label("oversized"); break; }
            }
            break; }
        case 2: { int rc = term_done(h[d], -1), e = errno; note("%d done", d); if(done[d]) CHECK(rc == -1 && e == EPIPE, "second term_done: %d %s", rc, errname(e)); else { CHECK(rc == 0, "term_done: %s", errname(e)); done[d] = term[d] = true; } break; }
        case 3: break;
        }
    }
    if(bad) { for(int i = 0; i < 2; ++i) CHECK(hclose(h[i]) == 0, "hclose"); CHECK(a->closes == 1 && b->closes == 1, "underlying sockets closed %d and %d times", a->closes, b->closes); nontrivial(got >= 3 && (ended[0] || ended[1])); return; }
    /* both sides detach in their own time; then the streams below continue */
    std::string post[2] = {gen_text(draw(40)), chance(1, 3) ? t : gen_text(draw(40))}; int64_t pause[2] = {(int64_t)draw(5), (int64_t)draw(5)};
    auto side = [&](int i) { return [&, i] {
        if(pause[i]) msleep(now() + pause[i]);
        int r = term_detach(h[i], -1); CHECK(r >= 0, "term_detach: %s", errname(errno));
        if(h[i] != r) { int old = h[i]; (void)old; }
        void *q = hquery(r, msock_type); CHECK(q, "term_detach did not return a message socket");
        CHECK(msend_any(r, post[i], -1) == 0, "msend below after detach: %s", errname(errno));
        ssize_t sz = mrecv_any(r, 200, &post[1 - i], -1); CHECK(sz >= 0, "mrecv below after detach: %s", errname(errno));
        u[i] = r; }; };
    run_all({side(0), side(1)});
    for(int i = 0; i < 2; ++i) { if(h[i] != u[0] && h[i] != u[1]) { int rc = hclose(h[i]), e = errno; CHECK(rc == -1 && e == EBADF, "the handle is still open after detach: hclose gives %d %s", rc, errname(e)); } }
    for(int i = 0; i < 2; ++i) { if(chance(1, 2)) { int x = kind ? prefix_detach(u[i]) : suffix_detach(u[i], -1); CHECK(x >= 0 && sim_is(x, w[i]), "detach of the layer below"); u[i] = x; } CHECK(w[i]->pending().empty(), "bytes left behind"); CHECK(hclose(u[i]) == 0, "hclose"); }
    CHECK(a->closes == 1 && b->closes == 1, "underlying sockets closed %d and %d times", a->closes, b->closes);
    nontrivial(got >= 3);
}
PROP_CASE(M03, detach_errors, "the stream below ends, fails or stalls during term_detach or term_done") {
    Wire *w = sim_new(); std::string t = gen_text(draw(10)); int u = suffix_attach(w->h, "\r\n", 2); 
    int n = draw(4); std::string in; for(int i = 0; i < n; ++i) in += gen_msg(t) + "\r\n";
    int how = draw(3); int64_t dl = -1; int ee = 0;
    if(how == 0) { w->eof = true; ee = EPIPE; if(chance(1, 2)) in += "ab"; } else if(how == 1) { w->in_err = ECONNRESET; ee = ECONNRESET; } else { dl = now() + draw(30); ee = ETIMEDOUT; }
    w->put(in); int h = tattach(u, t); 
    if(how == 0 && chance(1, 1)) { /* the end of the stream below is not the terminator */ }
    int64_t t0 = now(); int rc = term_detach(h, dl); int e = errno;
    if(how == 2) { CHECK(rc == -1 && e == ETIMEDOUT, "term_detach: %d %s", rc, errname(e)); CHECK(now() == std::max(t0, dl), "term_detach timed out at +%lld instead of +%lld", (long long)(now() - t0), (long long)(dl - t0)); }
    else if(how == 1) CHECK(rc == -1 && e == ee, "term_detach: %d %s, expected %s", rc, errname(e), errname(ee));
    else { if(rc >= 0) hclose(rc); }
    if(rc == -1) { CHECK(w->closes == 1, "the underlying socket is left open after a failed detach"); }
    CHECK(hclose(h) == -1 && errno == EBADF, "the handle is left open after a failed detach");
    nontrivial(true);
}
PROP_CASE(M03, badargs, "") {
    Wire *w = sim_new(); int u = suffix_attach(w->h, "\r\n", 2); CHECK(u >= 0, "suffix_attach");
    size_t n = 33 + draw(300); std::unique_ptr<char[]> c(new char[n]); memset(c.get(), 'x', n); term_storage ms; int rc, ee = EINVAL;
    switch(draw(5)) {
    case 0: rc = term_attach(u, c.get(), n); break;
    case 1: rc = term_attach_mem(u, c.get(), n, &ms); break;
    case 2: rc = term_attach_mem(u, c.get(), draw(33), NULL); break;
    case 3: rc = term_attach(u, NULL, 1 + draw(32)); break;
    default: { int v = suffix_detach(u, -1); CHECK(v >= 0, "detach"); rc = term_attach(v, "x", 1); ee = EPROTO; } break; }
    CHECK(rc == -1 && errno == ee, "term_attach: %d %s", rc, errname(errno)); CHECK(w->closes == 1, "the underlying socket is left open after a failed attach"); nontrivial(true);
}
PROP_CASE(M03, many, "every case: two to four connections in use at the same time") { stk_many(L_TERM); nontrivial(true); }

PROP_CASE(M03, huge, "every case") {
    Wire *w = sim_new(); char *z = huge_region(); std::string t = gen_text(draw(33)); int p = prefix_attach(w->h, 8, 0); CHECK(p >= 0, "prefix_attach"); int h = tattach(p, t); uint64_t n = huge_size(); note("%llu bytes, terminator of %zu", (unsigned long long)n, t.size());
    auto be = [](uint64_t n) { std::string s; for(int i = 8; i-- > 0;) s += (char)(n >> (8 * i)); return s; };
    if(chance(1, 3)) { w->sink = true; CHECK(msend(h, z, n, -1) == 0, "msend: %s", errname(errno)); CHECK(w->out == be(n) + "<" + std::to_string(n) + ">", "sent %s", hex(w->out.data(), w->out.size()).c_str()); }
    else { w->put(be(n)); w->zeros = n; w->after = be(t.size()) + t; int k = draw(3); ssize_t rc; uint64_t a = chance(1, 2) ? draw(40) : n / 2; if(k == 0) rc = mrecvl(h, NULL, NULL, -1); else if(k == 1) rc = mrecv(h, z, n, -1); else { struct iolist y = {z + a, n - a, NULL, 0}, x = {z, a, &y, 0}; rc = mrecvl(h, &x, &y, -1); CHECK(x.iol_next == &y && y.iol_next == NULL && x.iol_len == a && y.iol_len == n - a, "the list is modified"); }
        CHECK((uint64_t)rc == n, "mrecv of %llu bytes: %zd %s", (unsigned long long)n, rc, rc < 0 ? errname(errno) : ""); char c[40]; CHECK(mrecv(h, c, sizeof c, -1) == -1 && errno == EPIPE, "the terminator behind it: %s", errname(errno)); }
    CHECK(hclose(h) == 0 && w->closes == 1, "hclose"); nontrivial(); }
