#include "sim.h"
#include "stk.h"
#include <algorithm>
namespace {
std::string header(uint64_t n, size_t len, bool big) { std::string s(len, 0); for(size_t i = 0; i < len; ++i) { s[big ? len - 1 - i : i] = (char)(n & 0xff); n >>= 8; } return s; }
prefix_storage mem[4]; int nmem = 0;
int attach(int s, size_t hl, int fl) { int h = chance(1, 2) && nmem < 4 ? prefix_attach_mem(s, hl, fl, &mem[nmem++]) : prefix_attach(s, hl, fl); CHECK(h >= 0, "prefix_attach: %s", errname(errno)); return h; }
size_t gen_size(size_t hl) {
    if(hl == 1 && chance(1, 3)) return 250 + draw(10);
    if(chance(1, 20)) return 65530 + draw(10);
    return size_upto(chance(1, 6) ? 3000 : 40);
}
}
/* Lengths of the header, those beyond the 8 bytes that any length needs included. */
static size_t gen_hl() { return chance(1, 8) ? 9 + draw(chance(1, 4) ? 300 : 9) : 1 + draw(8); }
PROP_CASE(M01, roundtrip, "at least 3 messages received, and a list, a dropped, an oversized message or both directions") {
    Wire *a, *b; sim_pair(a, b); size_t hl = gen_hl(); int fl = chance(1, 2) ? PREFIX_LITTLE_ENDIAN : 0; bool big = !fl;
    /* bytes in front of and behind the messages */
    std::string pre = gen_bytes(draw(5)); if(!pre.empty()) { CHECK(bsend(a->h, pre.data(), pre.size(), -1) == 0, "bsend"); }
    if(!pre.empty()) { std::string g; CHECK(brecv_any(b->h, pre.size(), &g, -1) == 0 && g == pre, "brecv"); }
    int h[2] = {attach(a->h, hl, fl), attach(b->h, hl, fl)}; Wire *w[2] = {a, b}; size_t base[2] = {a->out.size(), b->out.size()};
    std::deque<std::string> q[2]; std::string wire[2]; bool dead[2] = {false, false}, rdead[2] = {false, false}; int got = 0, dropped = 0, over = 0, dirs[2] = {0, 0};
    int n = 4 + draw(30);
    for(int i = 0; i < n; ++i) {
        int d = draw(2); /* direction: d -> 1-d */
        if(chance(1, 2)) {
            if(dead[d] || q[d].size() > 8) continue;
            std::string m = gen_bytes(gen_size(hl)); bool fits = hl >= 8 || m.size() < (1ull << (8 * hl));
            note("%d sends %zu bytes", d, m.size());
            int rc = msend_any(h[d], m, -1), e = errno;
            if(!fits) { over++; CHECK(rc == -1 && e == EMSGSIZE, "sending %zu bytes with a %zu-byte header: %d %s", m.size(), hl, rc, errname(e)); 
                std::string sent = w[d]->out.substr(base[d]); if(sent != wire[d]) fail("a refused message was sent in part");
                /* the direction may be unusable now, or not */
                if(msend_any(h[d], "", -1) < 0) dead[d] = true; else { q[d].push_back(""); wire[d] += header(0, hl, big); }
                continue; }
            CHECK(rc == 0, "msend: %s", errname(e)); q[d].push_back(m); wire[d] += header(m.size(), hl, big) + m;
            if(w[d]->out.substr(base[d]) != wire[d]) fail("wrong bytes on the wire: %s expected %s", hex(w[d]->out.data() + base[d], w[d]->out.size() - base[d]).c_str(), hex(wire[d].data(), wire[d].size()).c_str());
        } else {
            if(rdead[d] || q[d].empty()) continue;
            std::string m = q[d].front();
            switch(weighted({8, 2, 1})) {
            case 0: { size_t cap = m.size() + (chance(1, 2) ? 0 : draw(20)); note("%d receives into %zu", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, &m, -1); CHECK(rc >= 0, "mrecv of %zu bytes into %zu: %s", m.size(), cap, errname(errno)); got++; dirs[d] = 1; break; }
            case 1: { note("%d drops", 1 - d); ssize_t rc = mrecvl(h[1 - d], NULL, NULL, -1); CHECK(rc == (ssize_t)m.size(), "mrecvl(NULL, NULL) returned %zd %s for a message of %zu bytes", rc, errname(errno), m.size()); dropped++; break; }
            case 2: if(m.empty()) continue; { size_t cap = chance(1, 2) ? m.size() - 1 : draw(m.size()); note("%d receives into %zu, too small", 1 - d, cap); ssize_t rc = mrecv_any(h[1 - d], cap, nullptr, -1); CHECK(rc == -1 && errno == EMSGSIZE, "mrecv of %zu bytes into %zu: %zd %s", m.size(), cap, rc, errname(errno)); rdead[d] = true; over++;
                rc = mrecv_any(h[1 - d], 100000, nullptr, -1); CHECK(rc == -1, "mrecv succeeds after EMSGSIZE"); break; }
            }
            q[d].pop_front();
        }
    }
    /* the remaining messages, then plain bytes behind them */
    bool det = !dead[0] && !dead[1] && !rdead[0] && !rdead[1] && !over;
    if(det) {
        for(int d = 0; d < 2; ++d) while(!q[d].empty()) { ssize_t rc = mrecv_any(h[1 - d], q[d].front().size(), &q[d].front(), -1); CHECK(rc >= 0, "mrecv: %s", errname(errno)); got++; q[d].pop_front(); }
        std::string post = gen_bytes(1 + draw(10));
        int u0 = prefix_detach(h[0]); CHECK(u0 >= 0 && sim_is(u0, a), "prefix_detach: %d", u0);
        CHECK(bsend_any(u0, post, -1) == 0, "bsend after detach: %s", errname(errno));
        int u1 = prefix_detach(h[1]); CHECK(u1 >= 0 && sim_is(u1, b), "prefix_detach: %d", u1);
        std::string g; CHECK(brecv_any(u1, post.size(), &g, -1) == 0, "brecv after detach: %s", errname(errno));
        if(g != post) fail("after detach received %s instead of %s", hex(g.data(), g.size()).c_str(), hex(post.data(), post.size()).c_str());
        for(int i = 0; i < 2; ++i) if(h[i] != u0 && h[i] != u1) { int rc = hclose(h[i]), e = errno; CHECK(rc == -1 && e == EBADF, "the handle is still open after detach: hclose gives %d %s", rc, errname(e)); }
        CHECK(hclose(u0) == 0 && hclose(u1) == 0, "hclose");
    } else for(int i = 0; i < 2; ++i) CHECK(hclose(h[i]) == 0, "hclose");
    CHECK(a->closes == 1 && b->closes == 1, "underlying sockets closed %d and %d times", a->closes, b->closes);
    if(dropped) label("dropped"); if(over) label("oversized"); if(dirs[0] && dirs[1]) label("both directions");
    nontrivial(got >= 3);
}
PROP_CASE(M01, garbage, "the receiver meets a huge, truncated or oversized length") {
    Wire *w = sim_new(); size_t hl = gen_hl(); int fl = chance(1, 2) ? PREFIX_LITTLE_ENDIAN : 0; bool big = !fl;
    std::string in; int n = draw(5); bool odd = false;
    for(int i = 0; i < n; ++i) { size_t k = draw(30); in += header(k, hl, big) + gen_bytes(k); }
    switch(draw(5)) {
    case 0: in += header(((uint64_t)draw(1u << 31) << draw(34)) | draw(1 << 16), hl, big) + gen_bytes(draw(50)); odd = true; break;
    case 1: in += gen_bytes(draw(60)); odd = true; break;
    case 4: { std::string x = header(draw(50), hl, big); x[big ? draw(hl) : hl - 1 - draw(hl)] = (char)(1 << draw(8)); in += x + gen_bytes(draw(50)); odd = true; break; }
    case 2: if(!in.empty()) in.resize(draw(in.size())); odd = true; break;
    case 3: in += header(~0ull >> draw(64), hl, big) + gen_bytes(draw(50)); odd = true; break;
    }
    note("header %zu %s, inbound %s", hl, big ? "big" : "little", hex(in.data(), in.size()).c_str());
    size_t seg = 1 + draw(20); for(size_t i = 0; i < in.size(); i += seg) w->put(in.substr(i, seg));
    w->eof = true; int h = attach(w->h, hl, fl); size_t pos = 0; bool dead = false;
    for(int i = 0; i < 8; ++i) {
        bool nul = chance(1, 4); size_t cap = draw(60);
        ssize_t exp; int ee = 0; std::string m;
        if(dead) { exp = -1; ee = -1; }
        else if(in.size() - pos < hl) { exp = -1; ee = EPIPE; dead = true; }
        else {
            uint64_t sz = 0; bool big64 = false; for(size_t k = 0; k < hl; ++k) { if(sz >> 56) big64 = true; sz = sz << 8 | (uint8_t)in[pos + (big ? k : hl - 1 - k)]; }
            pos += hl;
            if(big64) { exp = -1; ee = nul ? 0 : EMSGSIZE; dead = true; label("2^64 and more"); }
            else if(!nul && sz > cap) { exp = -1; ee = EMSGSIZE; dead = true; }
            else if(sz > in.size() - pos) { exp = -1; ee = EPIPE; dead = true; }
            else { exp = (ssize_t)sz; m = in.substr(pos, sz); pos += sz; }
        }
        ssize_t rc = nul ? mrecvl(h, NULL, NULL, -1) : mrecv_any(h, cap, exp >= 0 ? &m : nullptr, -1); int e = errno;
        CHECK(rc == exp, "message %d: received %zd (%s), expected %zd (%s)", i, rc, rc < 0 ? errname(e) : "", exp, errname(ee));
        if(rc < 0 && ee > 0) CHECK(e == ee, "message %d: error %s, expected %s", i, errname(e), errname(ee));
    }
    CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "underlying socket closed %d times", w->closes);
    nontrivial(odd);
}
PROP_CASE(M01, many, "every case: two to four connections in use at the same time") { stk_many(L_PREFIX); nontrivial(true); }

/* Lengths beyond 2 and 4 GB: the contents are zeros that exist nowhere. */
PROP_CASE(M01, huge, "every case") {
    Wire *w = sim_new(); char *z = huge_region(); size_t hl = chance(1, 2) ? 5 + draw(4) : 1 + draw(8); int fl = chance(1, 2) ? PREFIX_LITTLE_ENDIAN : 0; int h = attach(w->h, hl, fl); uint64_t n = huge_size(); note("%llu bytes, header of %zu", (unsigned long long)n, hl); std::string small = gen_bytes(draw(20));
    if(chance(1, 2)) { w->sink = true; bool fits = hl >= 8 || !(n >> (8 * hl)); int rc; if(chance(1, 2)) rc = msend(h, z, n, -1); else { size_t a = 1000001 + draw(1000); struct iolist y = {z + a, n - a, NULL, 0}, x = {z, a, &y, 0}; rc = msendl(h, &x, &y, -1); if(fits) CHECK(w->out == header(n, hl, !fl) + "<" + std::to_string(a) + "><" + std::to_string(n - a) + ">", "sent %s", hex(w->out.data(), w->out.size()).c_str()); label("list"); }
        int e = errno; if(!fits) { CHECK(rc == -1 && e == EMSGSIZE, "msend: %d %s", rc, errname(e)); CHECK(w->out.empty(), "a refused message was sent in part"); label("refused"); } else { CHECK(rc == 0, "msend: %s", errname(e)); std::string hd = header(n, hl, !fl); CHECK(w->out.size() > hl && w->out.substr(0, hl) == hd, "length sent: %s instead of %s", hex(w->out.data(), hl).c_str(), hex(hd.data(), hl).c_str()); if(w->out[hl + 1] != '1') CHECK(w->out.substr(hl) == "<" + std::to_string(n) + ">", "sent %s", hex(w->out.data(), w->out.size()).c_str());
            size_t k = w->out.size(); CHECK(msend_any(h, small, -1) == 0, "msend: %s", errname(errno)); CHECK(w->out.substr(k) == header(small.size(), hl, !fl) + small, "next message sent: %s", hex(w->out.data() + k, w->out.size() - k).c_str()); }
    } else { if(hl < 8) n &= (1ull << (8 * hl)) - 1; w->put(header(n, hl, !fl)); w->zeros = n; w->after = header(small.size(), hl, !fl) + small; if(!n) w->put(w->after); ssize_t rc; int k = draw(4); uint64_t cap = n + (chance(1, 2) ? 0 : draw(100000)); 
        if(k == 0) rc = mrecvl(h, NULL, NULL, -1); else if(k == 1) rc = mrecv(h, z, cap, -1); else if(k == 2) { uint64_t a = draw(2) ? cap / 2 : 0; struct iolist y = {z + a, cap - a, NULL, 0}, x = {chance(1, 2) ? z : NULL, a, &y, 0}; rc = mrecvl(h, &x, &y, -1); } else { if(!n) n = cap = 1; rc = mrecv(h, z, cap = n - 1, -1); }
        int e = errno; if(k == 3 && w->zeros == 0) return; if(k == 3) { CHECK(rc == -1 && e == EMSGSIZE, "mrecv of %llu bytes into %llu: %zd %s", (unsigned long long)n, (unsigned long long)cap, rc, errname(e)); label("too long"); }
        else { CHECK((uint64_t)rc == n, "mrecv of %llu bytes: %zd %s", (unsigned long long)n, rc, rc < 0 ? errname(e) : ""); CHECK(mrecv_any(h, 30, &small, -1) >= 0, "the next message: %s", errname(errno)); } }
    CHECK(hclose(h) == 0 && w->closes == 1, "hclose"); nontrivial(); }
