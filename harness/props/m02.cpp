#include "sim.h"
#include "stk.h"
#include <algorithm>
namespace {
suffix_storage mem[4]; int nmem = 0;
int attach(int s, const std::string &d) {
    std::unique_ptr<char[]> c(new char[d.size()]); memcpy(c.get(), d.data(), d.size());
    int h = chance(1, 2) && nmem < 4 ? suffix_attach_mem(s, c.get(), d.size(), &mem[nmem++]) : suffix_attach(s, c.get(), d.size()); CHECK(h >= 0, "suffix_attach: %s", errname(errno)); return h; }
std::string gen_delim(std::string &alpha) {
    size_t n = chance(1, 2) ? 1 + draw(4) : chance(1, 6) ? 31 + draw(2) : 1 + draw(32);
    switch(draw(4)) { case 0: alpha = "ab"; break; case 1: alpha = "\r\n"; break; case 2: alpha = std::string("\0\xff" "c", 3); break; default: alpha = "a"; }
    std::string d;
    if(chance(1, 3)) { std::string u = gen_from(alpha, 1 + draw(3)); while(d.size() < n) d += u; d.resize(n); }  /* periodic */
    else d = gen_from(alpha, n);
    if(chance(1, 2)) alpha += "xy"; 
    if(alpha.size() == 1) alpha += "b";
    return d;
}
std::string gen_raw(const std::string &d, const std::string &alpha, size_t n) {
    std::string m;
    while(m.size() < n) switch(draw(3)) {
        case 0: m += gen_from(alpha, 1 + draw(4)); break;
        case 1: m += d.substr(0, draw(d.size())); break;       /* partial delimiter */
        case 2: m += d.substr(draw(d.size())); m += alpha[draw(alpha.size())]; break; }
    m.resize(n); return m;
}
std::string gen_msg(const std::string &d, const std::string &alpha) {
    std::string m = gen_raw(d, alpha, chance(1, 30) ? draw(3000) : draw(chance(1, 4) ? 4 : 50));
    size_t p = (m + d).find(d); m.resize(p); return m;
}
}
PROP_CASE(M02, roundtrip, "at least 3 messages received, one of them containing a part of the delimiter") {
    Wire *a, *b; sim_pair(a, b); std::string alpha, dl = gen_delim(alpha);
    note("delimiter %s", hex(dl.data(), dl.size()).c_str());
    std::string pre = gen_bytes(draw(5)); if(!pre.empty()) { CHECK(bsend(a->h, pre.data(), pre.size(), -1) == 0, "bsend"); std::string g; CHECK(brecv_any(b->h, pre.size(), &g, -1) == 0 && g == pre, "brecv"); }
    int h[2] = {attach(a->h, dl), attach(b->h, dl)}; Wire *w[2] = {a, b}; size_t base[2] = {a->out.size(), b->out.size()};
    std::deque<std::string> q[2]; std::string wire[2]; bool rdead[2] = {false, false}; int got = 0, dropped = 0, over = 0, part = 0;
    int n = 4 + draw(30);
    for(int i = 0; i < n; ++i) {
        int d = draw(2);
        if(chance(1, 2)) {
            if(q[d].size() > 8) continue;
            std::string m = gen_msg(dl, alpha); note("%d sends %s", d, hex(m.data(), m.size()).c_str());
            int rc = msend_any(h[d], m, -1); CHECK(rc == 0, "msend: %s", errname(errno)); q[d].push_back(m); wire[d] += m + dl;
            if(w[d]->out.substr(base[d]) != wire[d]) fail("wrong bytes on the wire: %s expected %s", hex(w[d]->out.data() + base[d], w[d]->out.size() - base[d]).c_str(), hex(wire[d].data(), wire[d].size()).c_str());
        } else {
            if(rdead[d] || q[d].empty()) continue;
            std::string m = q[d].front();
            if(m.find(dl[0]) != std::string::npos && dl.size() > 1) part++;
            switch(weighted({8, 2, 1})) {
            case 0: { size_t cap = m.size() + (chance(1, 2) ? 0 : draw(20)); note("%d receives into %zu", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, &m, -1); CHECK(rc >= 0, "mrecv of %zu bytes into %zu: %s", m.size(), cap, errname(errno)); got++; break; }
            case 1: { note("%d drops", 1 - d); ssize_t rc = mrecvl(h[1 - d], NULL, NULL, -1); CHECK(rc == (ssize_t)m.size(), "mrecvl(NULL, NULL) returned %zd %s for a message of %zu bytes", rc, errname(errno), m.size()); dropped++; break; }
            case 2: if(m.empty()) continue; { size_t cap = chance(1, 2) ? m.size() - 1 : draw(m.size()); note("%d receives into %zu, too small", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, nullptr, -1); CHECK(rc == -1 && errno == EMSGSIZE, "mrecv of %zu bytes into %zu: %zd %s", m.size(), cap, rc, errname(errno)); rdead[d] = true; over++;
                rc = mrecv_any(h[1 - d], 100000, nullptr, -1); CHECK(rc == -1, "mrecv succeeds after EMSGSIZE"); break; }
            }
            q[d].pop_front();
        }
    }
    if(!rdead[0] && !rdead[1]) {
        for(int d = 0; d < 2; ++d) while(!q[d].empty()) { ssize_t rc = mrecv_any(h[1 - d], q[d].front().size(), &q[d].front(), -1); CHECK(rc >= 0, "mrecv: %s", errname(errno)); got++; q[d].pop_front(); }
        std::string post = gen_raw(dl, alpha, 1 + draw(40));
        int u0 = suffix_detach(h[0], -1); CHECK(u0 >= 0 && sim_is(u0, a), "suffix_detach: %d", u0);
        CHECK(bsend_any(u0, post, -1) == 0, "bsend after detach: %s", errname(errno));
        int u1 = suffix_detach(h[1], -1); CHECK(u1 >= 0 && sim_is(u1, b), "suffix_detach: %d", u1);
        std::string g; CHECK(brecv_any(u1, post.size(), &g, -1) == 0, "brecv after detach: %s", errname(errno));
        if(g != post) fail("after detach received %s instead of %s", hex(g.data(), g.size()).c_str(), hex(post.data(), post.size()).c_str());
        for(int i = 0; i < 2; ++i) if(h[i] != u0 && h[i] != u1) { int rc = hclose(h[i]), e = errno; CHECK(rc == -1 && e == EBADF, "the handle is still open after detach: hclose gives %d %s", rc, errname(e)); }
        CHECK(hclose(u0) == 0 && hclose(u1) == 0, "hclose");
    } else for(int i = 0; i < 2; ++i) CHECK(hclose(h[i]) == 0, "hclose");
    CHECK(a->closes == 1 && b->closes == 1, "underlying sockets closed %d and %d times", a->closes, b->closes);
    if(dropped) label("dropped"); if(over) label("oversized");
    nontrivial(got >= 3 && part);
}
PROP_CASE(M02, split, "arbitrary inbound bytes with at least two delimiters, or an early end of the stream") {
    Wire *w = sim_new(); std::string alpha, dl = gen_delim(alpha);
    std::string in = gen_raw(dl, alpha, draw(60)); int n = draw(5); while(n--) in += dl + gen_raw(dl, alpha, draw(40));
    note("delimiter %s, inbound %s", hex(dl.data(), dl.size()).c_str(), hex(in.data(), in.size()).c_str());
    size_t seg = 1 + draw(20); int64_t at = 0; bool timed = chance(1, 2); for(size_t i = 0; i < in.size(); i += seg) { if(timed && chance(1, 4)) at += draw(5); w->put(in.substr(i, seg), at); }
    w->eof = true; int h = attach(w->h, dl); size_t pos = 0; bool dead = false, ended = false; int got = 0;
    for(int i = 0; i < 10; ++i) {
        bool nul = chance(1, 4); size_t cap = draw(chance(1, 2) ? 20 : 150);
        ssize_t exp = -1; int ee = 0; std::string m; size_t p;
        if(dead) ee = -1;
        else if((p = in.find(dl, pos)) == std::string::npos) {
            /* whether the list or the stream ends first */
            ee = !nul && in.size() - pos > cap ? -2 : EPIPE; dead = true; ended = true; }
        else if(!nul && p - pos > cap) { ee = EMSGSIZE; dead = true; }
        else { m = in.substr(pos, p - pos); exp = m.size(); pos = p + dl.size(); got++; }
        note("%s %zu", nul ? "drop" : "receive", cap);
        ssize_t rc = nul ? mrecvl(h, NULL, NULL, -1) : mrecv_any(h, cap, exp >= 0 ? &m : nullptr, -1); int e = errno;
        CHECK(rc == exp, "message %d: received %zd (%s), expected %zd (%s)", i, rc, rc < 0 ? errname(e) : "", exp, errname(ee));
        if(rc < 0 && ee > 0) CHECK(e == ee, "message %d: error %s, expected %s", i, errname(e), errname(ee));
        if(rc < 0 && ee == -2) CHECK(e == EPIPE || e == EMSGSIZE, "message %d: error %s", i, errname(e));
    }
    if(!dead) { int u = suffix_detach(h, -1); CHECK(u >= 0 && sim_is(u, w), "suffix_detach: %d", u); 
        if(in.size() > pos) { std::string g; CHECK(brecv_any(u, in.size() - pos, &g, -1) == 0 && g == in.substr(pos), "the bytes behind the last delimiter are lost after detach"); }
        h = u; }
    CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "underlying socket closed %d times", w->closes);
    nontrivial(got >= 2 || ended);
}
PROP_CASE(M02, badargs, "") {
    Wire *w = sim_new(); size_t n = chance(1, 2) ? 33 + draw(100) : 0; std::unique_ptr<char[]> c(new char[n]); memset(c.get(), 'x', n);
    bool nul = chance(1, 3); if(nul) n = 1 + draw(32); bool nomem = chance(1, 3); if(nomem && !nul) n = 1;
    int h = nomem ? suffix_attach_mem(w->h, nul ? NULL : c.get(), n, NULL) : suffix_attach(w->h, nul ? NULL : c.get(), n);
    CHECK(h == -1 && errno == EINVAL, "suffix_attach with length %zu%s: %d %s", n, nul ? " and no delimiter" : "", h, errname(errno));
    CHECK(w->closes == 1, "the underlying socket is left open after a failed attach"); nontrivial(true);
}
PROP_CASE(M02, many, "every case: two to four connections in use at the same time") { stk_many(L_SUFFIX); nontrivial(true); }

PROP_CASE(M02, huge, "every case") {
    Wire *w = sim_new(); w->sink = true; char *z = huge_region(); std::string al, d = gen_delim(al); int h = attach(w->h, d); uint64_t n = huge_size(), a = chance(1, 2) ? 0 : 2000000 + draw(1000); note("%llu bytes", (unsigned long long)n); struct iolist y = {z + a, n - a, NULL, 0}, x = {z, a, &y, 0};
    int rc = a ? msendl(h, &x, &y, -1) : msend(h, z, n, -1); CHECK(rc == 0, "msend: %s", errname(errno)); std::string exp = (a ? "<" + std::to_string(a) + "><" + std::to_string(n - a) + ">" : "<" + std::to_string(n) + ">") + d; CHECK(w->out == exp, "sent %s", hex(w->out.data(), w->out.size()).c_str());
    /* a receive into a huge buffer ends at the delimiter */
    std::string m = gen_msg(d, al); w->put(m + d); ssize_t sz = mrecv(h, z, n, -1); CHECK(sz == (ssize_t)m.size(), "mrecv: %zd %s instead of %zu", sz, sz < 0 ? errname(errno) : "", m.size()); CHECK(!memcmp(z, m.data(), m.size()), "wrong data"); CHECK(hclose(h) == 0, "hclose"); nontrivial(); }
