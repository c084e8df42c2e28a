#include <sys/resource.h>
#include "sim.h"
#include <algorithm>
#include <sys/mman.h>
static const int sim_type_ = 0;
const void *sim_type = &sim_type_;
static void *sim_query(struct hvfs *v, const void *type) {
    Wire *w = (Wire*)((char*)v - offsetof(Wire, hv));
    CHECK(!w->closes, "query on a closed underlying socket");
    if(type == bsock_type) return &w->bv;
    if(type == sim_type) return w;
    errno = ENOTSUP; return NULL;
}
static void sim_close(struct hvfs *v) {
    Wire *w = (Wire*)((char*)v - offsetof(Wire, hv));
    CHECK(++w->closes == 1, "the underlying socket was closed %d times", w->closes);
    if(w->peer) { w->peer->eof = true; }
}
static void check_list(struct iolist *first, struct iolist *last, bool sending, const char *what) {
    CHECK(first && last, "%s on the underlying socket without a list", what);
    int n = 0; struct iolist *it = first;
    for(;; it = it->iol_next) {
        CHECK(++n < 100000, "%s on the underlying socket with a cyclic list", what);
        CHECK(it->iol_rsvd == 0, "%s on the underlying socket: reserved field set", what);
        if(sending) CHECK(it->iol_base || !it->iol_len, "%s on the underlying socket: NULL buffer of length %zu", what, it->iol_len);
        if(!it->iol_next) break;
    }
    CHECK(it == last, "%s on the underlying socket: list does not end with the element passed as last", what);
}
static int pause_until(int64_t deadline, const char *what) {
    int64_t t = now();
    if(deadline >= 0 && t >= deadline) {
        /* let others run, then give up */
        int rc = yield(); if(rc < 0) return -1;
        errno = ETIMEDOUT; return -1; }
    int64_t until = t + 1; if(deadline >= 0 && deadline < until) until = deadline;
    return msleep(until);
}
static int sim_bsendl_(struct bsock_vfs *bv, struct iolist *first, struct iolist *last, int64_t deadline) {
    Wire *w = (Wire*)((char*)bv - offsetof(Wire, bv)); w->scalls++;
    CHECK(!w->closes, "send on a closed underlying socket");
    check_list(first, last, true, "bsendl");
    int64_t t0 = now();
    if(w->sfail) { errno = ECONNRESET; return -1; }
    for(struct iolist *it = first; it; it = it->iol_next) {
        size_t done = 0;
        if(w->sink && it->iol_len > 1000000) { w->out += "<" + std::to_string(it->iol_len) + ">"; continue; }
        while(done < it->iol_len) {
            if(w->out_err_at >= 0 && (long)w->out.size() >= w->out_err_at) { w->sfail = true; errno = w->out_errno; return -1; }
            if(w->peer && w->peer->closes) { w->sfail = true; errno = ECONNRESET; return -1; }
            size_t k = it->iol_len - done;
            if(w->out_err_at >= 0) k = std::min<size_t>(k, w->out_err_at - w->out.size());
            if(w->peer && w->cap) {
                size_t u = w->peer->unread(); 
                if(u >= w->cap) { if(pause_until(deadline, "bsend") < 0) { w->sfail = true; return -1; } 
                    if(deadline < 0 && now() - t0 > 100000) fail("deadlock: blocked for ever in a send");
                    continue; }
                k = std::min(k, w->cap - u);
            }
            std::string s((char*)it->iol_base + done, k);
            w->out += s; if(w->peer && w->peer->jitter) w->peer->put_late(s); else if(w->peer) w->peer->put(w->filter ? w->filter((long)w->out.size() - (long)s.size(), s) : s);
            done += k;
        }
    }
    return 0;
}
static int sim_brecvl_(struct bsock_vfs *bv, struct iolist *first, struct iolist *last, int64_t deadline) {
    Wire *w = (Wire*)((char*)bv - offsetof(Wire, bv)); w->rcalls++;
    CHECK(!w->closes, "receive on a closed underlying socket");
    check_list(first, last, false, "brecvl");
    int64_t t0 = now();
    if(w->rfail) { errno = w->eof && w->in.empty() && !w->in_err ? EPIPE : ECONNRESET; return -1; }
    for(struct iolist *it = first; it; it = it->iol_next) {
        size_t done = 0;
        while(done < it->iol_len) {
            if(w->in.empty() && w->zeros) { size_t k = std::min<uint64_t>(w->zeros, it->iol_len - done); w->zeros -= k; done += k; if(!w->zeros) w->put(w->after); continue; }
            if(w->in.empty() || w->in.front().at > now()) {
                if(w->in.empty() && w->in_err) { w->rfail = true; errno = w->in_err; return -1; }
                if(w->in.empty() && w->eof) { w->rfail = true; errno = EPIPE; return -1; }
                if(pause_until(deadline, "brecv") < 0) { w->rfail = true; return -1; }
                CHECK(!w->closes, "the underlying socket was closed during a receive");
                if(deadline < 0 && now() - t0 > 100000) fail("deadlock: blocked for ever in a receive");
                continue;
            }
            Wire::Chunk &c = w->in.front();
            size_t k = std::min(c.d.size(), it->iol_len - done);
            if(it->iol_base) memcpy((char*)it->iol_base + done, c.d.data(), k);
            w->consumed += k; done += k;
            if(k == c.d.size()) w->in.pop_front(); else c.d.erase(0, k);
        }
    }
    return 0;
}
void Wire::put_late(const std::string &s) {
    int64_t at = now(); size_t off = 0; if(!in.empty()) at = std::max(at, in.back().at);
    while(off < s.size()) { size_t k = chance(1, 4) ? s.size() - off : 1 + draw(std::min<size_t>(s.size() - off, 12)); if(chance(1, 2)) at += draw(jitter + 1); put(s.substr(off, k), at); off += k; } }
static int sim_bsendl(struct bsock_vfs *bv, struct iolist *first, struct iolist *last, int64_t deadline) {
    int rc = sim_bsendl_(bv, first, last, deadline), e = errno; if(rc < 0) ((Wire*)((char*)bv - offsetof(Wire, bv)))->last_err = e; errno = e; return rc; }
static int sim_brecvl(struct bsock_vfs *bv, struct iolist *first, struct iolist *last, int64_t deadline) {
    int rc = sim_brecvl_(bv, first, last, deadline), e = errno; if(rc < 0) ((Wire*)((char*)bv - offsetof(Wire, bv)))->last_err = e; errno = e; return rc; }
Wire *sim_new(void) {
    Wire *w = new Wire; memset(&w->hv, 0, sizeof w->hv); w->hv.query = sim_query; w->hv.close = sim_close; w->bv.bsendl = sim_bsendl; w->bv.brecvl = sim_brecvl;
    w->h = hmake(&w->hv); CHECK(w->h >= 0, "hmake: %s", errname(errno));
    return w;
}
void sim_pair(Wire *&a, Wire *&b) { a = sim_new(); b = sim_new(); a->peer = b; b->peer = a; b->id = 1; a->merge = b->merge = true; }
char *huge_region(void) { struct rlimit l; getrlimit(RLIMIT_DATA, &l); if(l.rlim_cur != RLIM_INFINITY) { l.rlim_cur += 9ull << 30; setrlimit(RLIMIT_DATA, &l); } /* address space only */
    void *p = mmap(NULL, (9ull << 30), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) fail("harness: mmap: %s", errname(errno)); return (char*)p; }
uint64_t huge_size(void) { static const uint64_t b[] = {1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33}; uint64_t n = b[draw(4)]; switch(draw(3)) { case 0: return n; case 1: return n + 1 + draw(300000); default: return n - 1; } }
bool sim_is(int h, Wire *w) { return hquery(h, sim_type) == w; }

std::string gen_bytes(size_t n) {
    std::string s(n, 0); uint32_t k = draw(4), x = draw(1 << 16);
    for(size_t i = 0; i < n; ++i) {
        switch(k) { case 0: s[i] = (char)('a' + (x + i) % 26); break; case 1: x = x * 1103515245 + 12345; s[i] = (char)(x >> 16); break;
        case 2: s[i] = 0; break; case 3: s[i] = (char)0xff; break; } }
    if(n && k >= 2) { s[draw(n)] = (char)draw(256); }
    return s;
}
std::string gen_from(const std::string &al, size_t n) { std::string s; for(size_t i = 0; i < n; ++i) s += al[draw(al.size())]; return s; }

void List::link() { for(size_t i = 0; i < v.size(); ++i) v[i].iol_next = i + 1 < v.size() ? &v[i + 1] : nullptr; copy = v; }
static std::vector<size_t> splits(size_t n) {
    std::vector<size_t> r; size_t k = chance(1, 3) ? 0 : draw(6);
    while(k-- && r.size() < 8) { size_t x; switch(draw(3)) { case 0: x = 0; break; case 1: x = std::min<size_t>(n, 1 + draw(4)); break; default: x = n ? draw(n + 1) : 0; } r.push_back(x); n -= x; }
    r.push_back(n);
    if(chance(1, 5)) r.push_back(0);
    if(chance(1, 3)) { /* any order */ for(size_t i = r.size(); i-- > 1;) std::swap(r[i], r[draw(i + 1)]); }
    return r;
}
void List::send(const std::string &d, bool nulls) {
    auto s = splits(d.size()); size_t off = 0; 
    for(size_t n : s) { struct iolist e; memset(&e, 0, sizeof e); bool nl = n == 0 && nulls && chance(1, 2);
        bufs.emplace_back(nl ? nullptr : new char[n]); if(n) memcpy(bufs.back().get(), d.data() + off, n); off += n;
        e.iol_base = bufs.back().get(); e.iol_len = n; v.push_back(e); cap.push_back(n); null.push_back(nl); }
    link();
}
void List::recv(size_t total, bool skip) {
    auto s = splits(total);
    for(size_t n : s) { struct iolist e; memset(&e, 0, sizeof e); bool nl = skip && chance(1, 8);
        bufs.emplace_back(nl ? nullptr : new char[n]); if(!nl && n) memset(bufs.back().get(), 0xEE, n);
        e.iol_base = bufs.back().get(); e.iol_len = n; v.push_back(e); cap.push_back(n); null.push_back(nl); }
    link();
}
void List::recv_many(size_t total, size_t k) {
    for(size_t i = 0, left = total; i < k; ++i) { size_t n = i + 1 == k ? left : left > 0 ? 1 : 0; left -= n; struct iolist e; memset(&e, 0, sizeof e); bufs.emplace_back(new char[n]); e.iol_base = bufs.back().get(); e.iol_len = n; v.push_back(e); cap.push_back(n); null.push_back(false); }
    link();
}
void List::check(const char *what) {
    for(size_t i = 0; i < v.size(); ++i)
        if(v[i].iol_base != copy[i].iol_base || v[i].iol_len != copy[i].iol_len || v[i].iol_next != copy[i].iol_next || v[i].iol_rsvd != copy[i].iol_rsvd)
            fail("%s has changed element %zu of the list %s", what, i, shape().c_str());
}
std::string List::got(size_t n) const {
    std::string r;
    for(size_t i = 0; i < v.size() && r.size() < n; ++i) { size_t k = std::min(cap[i], n - r.size()); if(null[i]) r.append(k, '?'); else r.append(bufs[i].get(), k); }
    return r;
}
bool List::matches(const std::string &d) const {
    size_t off = 0;
    for(size_t i = 0; i < v.size() && off < d.size(); ++i) { size_t k = std::min(cap[i], d.size() - off);
        if(!null[i] && memcmp(bufs[i].get(), d.data() + off, k)) return false; off += k; }
    return off == d.size();
}
std::string List::shape() const { std::string r = "["; for(size_t i = 0; i < cap.size(); ++i) { if(i) r += ","; r += std::to_string(cap[i]); if(null[i]) r += "N"; } return r + "]"; }

int msend_any(int h, const std::string &d, int64_t dl) {
    if(chance(1, 2)) { std::unique_ptr<char[]> b(new char[d.size()]); memcpy(b.get(), d.data(), d.size()); return msend(h, b.get(), d.size(), dl); }
    List l; l.send(d); int rc = msendl(h, l.first(), l.last(), dl), e = errno; l.check("msendl");
    if(l.v.size() > 1) label("list"); errno = e; return rc;
}
int bsend_any(int h, const std::string &d, int64_t dl) {
    if(chance(1, 2)) { std::unique_ptr<char[]> b(new char[d.size()]); memcpy(b.get(), d.data(), d.size()); return bsend(h, b.get(), d.size(), dl); }
    List l; l.send(d); int rc = bsendl(h, l.first(), l.last(), dl), e = errno; l.check("bsendl");
    if(l.v.size() > 1) label("list"); errno = e; return rc;
}
ssize_t mrecv_any(int h, size_t cap, const std::string *exp, int64_t dl, bool skip) {
    List l; ssize_t rc; int e;
    if(chance(1, 2)) { l.recv(0, false); std::unique_ptr<char[]> b(new char[cap]); memset(b.get(), 0xEE, cap);
        rc = mrecv(h, b.get(), cap, dl); e = errno;
        if(rc >= 0 && exp) { CHECK((size_t)rc == exp->size(), "received a message of %zd bytes instead of %zu", rc, exp->size());
            CHECK((size_t)rc <= cap, "received %zd bytes into %zu", rc, cap);
            if(memcmp(b.get(), exp->data(), rc)) fail("received %s instead of %s", hex(b.get(), rc).c_str(), hex(exp->data(), rc).c_str()); } }
    else { l.recv(cap, skip); rc = mrecvl(h, l.first(), l.last(), dl); e = errno; l.check("mrecvl"); if(l.v.size() > 1) label("list");
        if(rc >= 0 && exp) { CHECK((size_t)rc == exp->size(), "received a message of %zd bytes instead of %zu into list %s", rc, exp->size(), l.shape().c_str());
            CHECK((size_t)rc <= cap, "received %zd bytes into %zu", rc, cap);
            if(!l.matches(*exp)) fail("received %s instead of %s into list %s", hex(l.got(rc).data(), rc).c_str(), hex(exp->data(), rc).c_str(), l.shape().c_str()); } }
    errno = e; return rc;
}
int brecv_any(int h, size_t n, std::string *out, int64_t dl) {
    int rc, e;
    if(chance(1, 2)) { std::unique_ptr<char[]> b(new char[n]); rc = brecv(h, b.get(), n, dl); e = errno; if(out && rc == 0) out->assign(b.get(), n); }
    else { List l; l.recv(n, false); rc = brecvl(h, l.first(), l.last(), dl); e = errno; l.check("brecvl"); if(out && rc == 0) *out = l.got(n); }
    errno = e; return rc;
}
void run_all(std::vector<std::function<void()>> fs) {
    int b = bundle(); CHECK(b >= 0, "bundle");
    for(auto &f : fs) CHECK(bundle_go_fn(b, f) == 0, "bundle_go: %s", errname(errno));
    int rc = bundle_wait(b, vt.grace_inf ? -1 : now() + 10000000); CHECK(rc == 0, "deadlock: the exchange does not come to an end");
    CHECK(hclose(b) == 0, "hclose");
}
