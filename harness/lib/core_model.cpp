#include "core_model.h"
#include <libdill.h>
#include <unistd.h>
#include <fcntl.h>
#include <deque>
#include <list>
#include <memory>
#include <algorithm>
namespace {
typedef int64_t i64;
enum St { RUN, READY, BLOCKED, CLOSING, FIN };
struct Chan; struct Bun;
struct Clause { int dir; /* 0 send 1 recv */ struct Dir *d; size_t len; uint8_t *buf; };
struct Co {
    int id; St st = RUN; bool nb = false; Co *closer = nullptr; Bun *bun = nullptr;
    std::vector<std::pair<struct Dir*, int>> queued;   /* directions it waits on */
    std::vector<Clause> cl;
    i64 deadline = -1; bool timed = false; int pipe = -1; Bun *waits = nullptr; int op = 0;
    int rc = 0, err = 0; int ops = 0;
    int timeout_rc = -1, timeout_err = ETIMEDOUT; std::vector<int> anyof;
    /* close in progress */
    Bun *closing = nullptr; size_t cidx = 0;
    std::vector<Bun*> owned;
};
struct Q { Co *c; int clause; };
struct Dir { std::deque<Q> in, out; bool done = false; int ch, no; };  /* one direction of a channel */
struct Chan { Dir d[2]; int h[2]; size_t usual; bool closed[2] = {false, false}; };   /* d[i]: towards half i */
struct Bun { int h; int id; bool open = true; std::vector<Co*> all; size_t live = 0; Co *owner; };
struct Entry { Co *c; long group; i64 order; bool internal; };
const i64 NOORD = INT64_MIN;
struct M {
    Profile p; Stats s;
    std::vector<std::unique_ptr<Co>> cos; std::vector<std::unique_ptr<Chan>> ch; std::vector<std::unique_ptr<Bun>> buns;
    struct Pipe { int fd[2]; int n = 0; Co *w = nullptr; };
    std::vector<Pipe> pipes;
    std::deque<Entry> rq; long grp = 0;
    Co *cur = nullptr, *main = nullptr; bool pending = false; i64 tnow = 0; int jit = 0; uint8_t msgno = 0;
    std::vector<i64> seen_deadlines; int deadh = -1;

    void ready(Co *c, int rc, int err, long g, i64 ord = NOORD, bool internal = false) {
        c->st = READY; c->rc = rc; c->err = err; rq.push_back({c, g, ord, internal});
        s.maxready = std::max<long>(s.maxready, rq.size());
    }
    void unwait(Co *c) {   /* leave everything it waits on */
        for(auto &q : c->queued) {
            auto rm = [&](std::deque<Q> &l) { for(auto it = l.begin(); it != l.end(); ) if(it->c == c) it = l.erase(it); else ++it; };
            rm(q.first->in); rm(q.first->out);
        }
        c->queued.clear(); c->timed = false;
        if(c->pipe >= 0) { pipes[c->pipe].w = nullptr; c->pipe = -1; }
        c->waits = nullptr;
    }
    void wake(Co *c, int rc, int err, long g, i64 ord = NOORD) { unwait(c); ready(c, rc, err, g, ord); }
    /* nothing is ready: what the event loop will find */
    void poll() {
        i64 now = vt_now();
        bool fdready = false;
        for(auto &pp : pipes) if(pp.w && pp.n > 0) fdready = true;
        i64 first = INT64_MAX; bool any = false;
        for(auto &c : cos) if(c->st == BLOCKED && c->timed) { first = std::min(first, c->deadline); any = true; }
        i64 base = fdready || !any ? tnow : std::max(tnow, first);
        CHECK(now >= base, "the event loop returned at %lld, before %lld which is the earliest reason to", (long long)now, (long long)base);
        CHECK(now <= base + jit, "the event loop slept until %lld although %lld was due", (long long)now, (long long)base);
        tnow = now;
        long g = ++grp;
        if(fdready) for(auto &pp : pipes) if(pp.w && pp.n > 0) { Co *c = pp.w; wake(c, 0, 0, g); }
        std::vector<Co*> exp;
        for(auto &c : cos) if(c->st == BLOCKED && c->timed && c->deadline <= now) exp.push_back(c.get());
        std::sort(exp.begin(), exp.end(), [](Co *a, Co *b) { return a->deadline < b->deadline; });
        for(size_t i = 0; i + 1 < exp.size(); ++i) if(exp[i]->deadline == exp[i+1]->deadline) s.ties++;
        for(auto c : exp) { s.timeouts++; wake(c, c->timeout_rc, c->timeout_err, g, c->deadline); }
        if(rq.empty()) fail("co%d is running although no coroutine can be ready", cur ? cur->id : -1);
    }
    void advance_close(Co *x) {  /* returns with x CLOSING, or running again */
        Bun *b = x->closing;
        for(; x->cidx < b->all.size(); ++x->cidx) {
            Co *m = b->all[x->cidx];
            if(m->st == FIN) continue;
            m->nb = true; m->closer = x;
            if(m->st == BLOCKED) { s.cancels++; wake(m, -1, ECANCELED, ++grp); }
            else if(m->st == CLOSING) s.nested_close++;
            else s.close_ready++;
            x->st = CLOSING; cur = nullptr;
            return;
        }
        b->open = false; x->closing = nullptr; x->st = RUN; cur = x; x->rc = 0; x->err = 0; pending = true;
    }
    /* coroutine y shows a sign of life */
    void arrive(Co *y) {
        while(!cur) {
            if(rq.empty()) poll();
            if(rq.front().internal) {
                Co *x = rq.front().c; rq.pop_front(); advance_close(x);
                continue;
            }
            long g = rq.front().group; size_t k = rq.size();
            for(size_t i = 0; i < rq.size() && rq[i].group == g; ++i) if(rq[i].c == y) k = i;
            if(k == rq.size()) fail("co%d runs, but co%d became ready earlier%s", y->id, rq.front().c->id,
                y->st == BLOCKED ? " and co should still be blocked" : y->st == FIN ? " (and the former has finished)" : "");
            if(rq[k].order != NOORD) for(size_t i = 0; i < rq.size() && rq[i].group == g; ++i)
                if(rq[i].order != NOORD && rq[i].order < rq[k].order)
                    fail("co%d (deadline %lld) wakes before co%d (deadline %lld)", y->id, (long long)rq[k].order, rq[i].c->id, (long long)rq[i].order);
            rq.erase(rq.begin() + k);
            cur = y; y->st = RUN; pending = true;
        }
        if(cur != y) fail("co%d runs while co%d should be running", y->id, cur->id);
    }
    void block(Co *c, i64 dl) {
        c->st = BLOCKED; c->timed = dl >= 0; c->deadline = dl; cur = nullptr; pending = false;
        CHECK(vt_now() >= tnow, "time went backwards");
    }
    void imm(Co *c, int rc, int err) { c->rc = rc; c->err = err; pending = true; }
    bool begin(Co *c) {   /* true: cancelled, expected result set */
        CHECK(cur == c, "internal: co%d acts but is not current", c->id);
        pending = false; c->timeout_rc = -1; c->timeout_err = ETIMEDOUT; c->anyof.clear(); s.ops++;
        if(c->nb) { imm(c, -1, ECANCELED); return true; }
        return false;
    }
    void end(Co *c, const char *what, int rc, int err) {
        arrive(c);
        CHECK(pending, "co%d: %s returned but should still be in progress", c->id, what);
        pending = false;
        note("  co%d %s -> %d %s @%lld", c->id, what, rc, rc < 0 || err ? errname(err) : "", (long long)vt_now());
        if(std::find(c->anyof.begin(), c->anyof.end(), rc) != c->anyof.end()) c->rc = rc;
        CHECK(rc == c->rc, "co%d: %s returned %d (%s), expected %d (%s)", c->id, what, rc, errname(err), c->rc, errname(c->err));
        if(rc < 0 || c->op == 3) CHECK(err == c->err, "co%d: %s returned %d with %s, expected %s", c->id, what, rc, errname(err), errname(c->err));
        if(rc < 0 && err == EPIPE) s.epipes++;
    }
    i64 deadline(bool finite) {
        i64 n = vt_now(); uint32_t r = draw(100);
        /* simplest first: short finite deadlines */
        int z = 100 - p.zero_pct, q = z - p.past_pct, f = q - p.far_pct, inf = f - p.inf_pct;
        i64 d;
        if((int)r >= z) return 0;
        if((int)r >= q) return std::max<i64>(1, n - (i64)draw(2000));
        if((int)r >= f && !finite) { s.far++;
            static const i64 far[] = {2000000000LL, 2147483000LL, 2147483647LL, 2147483648LL, 4294967296LL, 4300000000LL, 100000000000LL, INT64_MAX};
            i64 x = far[draw(8)]; return x == INT64_MAX ? x - (i64)draw(2) : n + x + (i64)draw(100) - 50; }
        if((int)r >= inf && !finite) return -1;
        if(!seen_deadlines.empty() && chance(p.tie_pct, 100)) { d = pick(seen_deadlines); if(d >= n) return d; }
        d = n + 1 + draw(60);
        seen_deadlines.push_back(d);
        return d;
    }
};
thread_local M *m;
/* Is the number of a closed half in use again? */
bool reused(int h) { for(auto &b : m->buns) if(b->open && b->h == h) return true; for(auto &c : m->ch) for(int k = 0; k < 2; ++k) if(!c->closed[k] && c->h[k] == h) return true; return false; }
void fill(uint8_t *b, size_t n, uint32_t v) { for(size_t i = 0; i < n; ++i) b[i] = (uint8_t)(v * 37 + i * 11 + (v >> 8)); }

/* A peer in the queue of the direction takes part in a rendezvous. Returns the result for the active side. */
int meet(Dir *d, int dir, size_t len, uint8_t *buf, int *err) {
    auto &l = dir == 0 ? d->in : d->out;
    if(l.size() > 1) m->s.queued2++;
    Q q = l.front(); Clause &c = q.c->cl[q.clause];
    int rc = q.c->op == 3 ? q.clause : 0;
    if(c.len != len) {
        m->s.mismatch++; *err = EMSGSIZE;
        m->wake(q.c, q.c->op == 3 ? rc : -1, EMSGSIZE, ++m->grp);
        return -1;
    }
    *err = 0; m->s.blocked_msgs++;
    m->wake(q.c, rc, 0, ++m->grp);
    return 0;
}
struct Buf {   /* message buffer with guards */
    std::vector<uint8_t> v; size_t n;
    Buf(size_t n_, uint8_t g) : v(n_ + 16, g), n(n_) {}
    uint8_t *p() { return v.data() + 8; }
    void guards(uint8_t g) { for(int i = 0; i < 8; ++i) if(v[i] != g || v[8 + n + i] != g) fail("bytes around the message buffer were overwritten"); }
};
size_t msgsize(Chan *c) {
    if(draw(100) < (uint32_t)m->p.same_size_pct) return c->usual;
    static const size_t sz[] = {0, 1, 2, 4, 7, 8, 16, 33, 200};
    return sz[draw(9)];
}
/* The data part of a rendezvous is checked through message numbers: every sender writes its number
   (pattern) and the model remembers, per receiver, which pattern it is due. */
thread_local std::vector<std::pair<int, std::vector<uint8_t>>> due;   /* co id -> bytes */
void due_set(int id, const uint8_t *p, size_t n) {
    for(auto &x : due) if(x.first == id) { x.second.assign(p, p + n); return; }
    due.push_back({id, std::vector<uint8_t>(p, p + n)});
}
std::vector<uint8_t> *due_get(int id) { for(auto &x : due) if(x.first == id) return &x.second; return nullptr; }

/* One clause at work for chsend, chrecv and choose. Sets *err; returns 0, -1, or 1 (would block). */
int attempt(Co *c, int dir, Dir *d, size_t len, uint8_t *buf, int *err) {
    if(d->done) { *err = EPIPE; return -1; }
    auto &l = dir == 0 ? d->in : d->out;
    if(l.empty()) return 1;
    Q q = l.front(); Clause pc = q.c->cl[q.clause]; int pid = q.c->id;
    int rc = meet(d, dir, len, buf, err);
    if(rc == 0) {
        if(dir == 0) due_set(pid, buf, len); else due_set(c->id, pc.buf, len);
    }
    return rc;
}
void check_recv(Co *c, Buf &b, size_t len) {
    auto *v = due_get(c->id);
    if(!v || v->size() != len) fail("internal: no message due for co%d", c->id);
    if(len && memcmp(v->data(), b.p(), len)) fail("co%d received %s, expected %s", c->id, hex(b.p(), len).c_str(), hex(v->data(), len).c_str());
}
void op_msg(Co *c, int dir) {
    Chan *ch = m->ch[draw(m->ch.size())].get(); int half = draw(2); size_t len = msgsize(ch); if(ch->closed[half] && reused(ch->h[half])) return;
    i64 dl = m->deadline(c == m->main);
    Dir *d = &ch->d[dir == 0 ? 1 - half : half];
    c->op = 1 + dir;
    Buf b(len, 0xA5); uint32_t no = ++m->msgno;
    if(dir == 0) fill(b.p(), len, no + 1000 * c->id); else memset(b.p(), 0xEE, len);
    std::vector<uint8_t> before(b.p(), b.p() + len);
    note("co%d %s ch%d.%d len=%zu dl=%lld (now %lld)", c->id, dir ? "chrecv" : "chsend", d->ch, half, len, (long long)dl, (long long)vt_now());
    c->cl.clear(); c->cl.push_back({dir, d, len, b.p()});
    if(!m->begin(c)) {
        int err = 0, r = ch->closed[half] ? (m->s.ebadf++, err = EBADF, -1) : attempt(c, dir, d, len, b.p(), &err);
        if(r != 1) m->imm(c, r, err);
        else if(dl == 0) m->imm(c, -1, ETIMEDOUT);
        else { (dir == 0 ? d->out : d->in).push_back({c, 0}); c->queued.push_back({d, 0}); m->block(c, dl); }
    }
    int h = ch->h[half];
    int rc = dir == 0 ? chsend(h, b.p(), len, dl) : chrecv(h, b.p(), len, dl);
    int err = errno;
    m->end(c, dir ? "chrecv" : "chsend", rc, err);
    b.guards(0xA5);
    if(dir == 0 || rc < 0) { if(len && memcmp(b.p(), before.data(), len)) fail("co%d: %s changed its buffer", c->id, dir ? "failed chrecv" : "chsend"); }
    else check_recv(c, b, len);
}
void op_choose(Co *c) {
    int n = draw(6);
    i64 dl = m->deadline(c == m->main);
    c->op = 3;
    std::vector<Buf> bufs; bufs.reserve(n);
    std::vector<struct chclause> cls(n + 1);
    c->cl.clear();
    std::vector<int> bad(n, 0); std::vector<std::vector<uint8_t>> before(n);
    std::string desc;
    for(int i = 0; i < n; ++i) {
        Chan *ch = m->ch[draw(m->ch.size())].get(); int half = draw(2), dir = draw(2); size_t len = msgsize(ch);
        Dir *d = &ch->d[dir == 0 ? 1 - half : half];
        bufs.emplace_back(len, (uint8_t)0x5A);
        Buf &b = bufs.back();
        if(dir == 0) fill(b.p(), len, ++m->msgno + 1000 * c->id + 77 * i); else memset(b.p(), 0xEE, len);
        before[i].assign(b.p(), b.p() + len);
        cls[i].op = dir == 0 ? CHSEND : CHRECV; cls[i].ch = ch->h[half]; cls[i].val = b.p(); cls[i].len = len;
        if(m->p.bad_choose && chance(1, 12)) {
            switch(draw(4)) {
            case 0: bad[i] = EBADF; cls[i].ch = draw(2) ? -1 - (int)draw(5) : 100000; break;
            case 1: bad[i] = EINVAL; cls[i].op = 3 + draw(5); if(draw(2)) cls[i].op = -1; break;
            case 2: bad[i] = EINVAL; if(cls[i].len == 0) cls[i].len = 4; cls[i].val = NULL; break;
            case 3: { bad[i] = EBADF; cls[i].ch = m->deadh;
                    for(auto &x : m->buns) if(x->open) { bad[i] = ENOTSUP; cls[i].ch = x->h; } break; }
            }
        }
        if(ch->closed[half] && (!bad[i] || bad[i] == EINVAL)) { bad[i] = EBADF; if(reused(ch->h[half])) cls[i].ch = -1; }
        char t[100]; snprintf(t, sizeof t, " %s%d.%d/%zu%s", dir ? "R" : "S", d->ch, half, len, bad[i] ? "!" : ""); desc += t;
        c->cl.push_back({dir, d, len, b.p()});
    }
    note("co%d choose [%s ] dl=%lld (now %lld)", c->id, desc.c_str(), (long long)dl, (long long)vt_now());
    if(!m->begin(c)) {
        bool dn = false;
        for(int i = 0; i < n && !dn; ++i) {
            if(bad[i]) { m->imm(c, i, bad[i]); dn = true; m->s.choose_err++; break; }
            int err = 0, r = attempt(c, c->cl[i].dir, c->cl[i].d, c->cl[i].len, c->cl[i].buf, &err);
            if(r != 1) { m->imm(c, i, err); dn = true; if(err) m->s.choose_err++; else m->s.choose_imm++; }
        }
        if(!dn && dl == 0) { m->imm(c, -1, ETIMEDOUT); dn = true; }
        if(!dn) {
            for(int i = 0; i < n; ++i) { Dir *d = c->cl[i].d; (c->cl[i].dir == 0 ? d->out : d->in).push_back({c, i}); c->queued.push_back({d, i}); }
            m->block(c, dl); m->s.choose_block++;
        }
    }
    int rc = choose(cls.data(), n, dl);
    int err = errno;
    m->end(c, "choose", rc, err);
    for(int i = 0; i < n; ++i) {
        bufs[i].guards(0x5A);
        if(i == rc && err == 0 && c->cl[i].dir == 1) check_recv(c, bufs[i], c->cl[i].len);
        else if(before[i].size() && memcmp(before[i].data(), bufs[i].p(), before[i].size()))
            fail("co%d: choose changed the buffer of clause %d, which was not performed", c->id, i);
    }
}
void op_done(Co *c) {
    Chan *ch = m->ch[draw(m->ch.size())].get(); int half = draw(2); Dir *d = &ch->d[1 - half];
    c->op = 4;
    note("co%d chdone ch%d.%d", c->id, d->ch, half);
    m->pending = false; m->s.ops++; c->anyof.clear();
    if(ch->closed[half]) { if(reused(ch->h[half])) { m->pending = false; return; } m->imm(c, -1, EBADF); m->s.ebadf++; }
    else if(d->done) m->imm(c, -1, EPIPE);
    else {
        d->done = true; long g = ++m->grp;
        if(d->in.size() + d->out.size() > 1) m->s.queued2++;
        while(!d->in.empty() || !d->out.empty()) {
            Q q = !d->in.empty() ? d->in.front() : d->out.front();
            m->s.epipes++;
            m->wake(q.c, q.c->op == 3 ? q.clause : -1, EPIPE, g);
        }
        m->imm(c, 0, 0);
    }
    int rc = chdone(ch->h[half]); int err = errno;
    m->end(c, "chdone", rc, err);
}
void op_chclose(Co *c) {
    Chan *ch = m->ch[draw(m->ch.size())].get(); int half = draw(2); c->op = 12;
    if(ch->closed[half]) half = 1 - half; if(ch->closed[half]) return;
    note("co%d hclose ch%d.%d", c->id, ch->d[0].ch, half); m->pending = false; m->s.ops++; m->s.chcloses++; c->anyof.clear();
    ch->closed[half] = true;
    if(ch->closed[1 - half]) { long g = ++m->grp;
        for(int k = 0; k < 2; ++k) while(!ch->d[k].in.empty() || !ch->d[k].out.empty()) {
            Q q = !ch->d[k].in.empty() ? ch->d[k].in.front() : ch->d[k].out.front(); Co *x = q.c; m->s.epipes++; m->s.chclose_woken++;
            if(x->op == 3) { x->anyof.clear(); for(auto &qq : x->queued) if(qq.first == &ch->d[0] || qq.first == &ch->d[1]) x->anyof.push_back(qq.second); }
            m->wake(x, x->op == 3 ? q.clause : -1, EPIPE, g); } }
    m->imm(c, 0, 0);
    int rc = hclose(ch->h[half]); int err = errno;
    m->end(c, "hclose", rc, err);
}
void new_chan(void) {
    m->ch.emplace_back(new Chan); Chan *c = m->ch.back().get(); int i = m->ch.size() - 1;
    if(chmake(c->h) != 0) fail("chmake failed: %s", errname(errno));
    static const size_t us[] = {4, 0, 1, 8, 64, 300};
    c->usual = us[draw(6)];
    for(int k = 0; k < 2; ++k) { c->d[k].ch = i; c->d[k].no = k; }
}
void op_chnew(Co *c) { if(m->ch.size() >= 5) return; note("co%d chmake ch%zu", c->id, m->ch.size()); if(c->nb) { int t[2]; CHECK(chmake(t) == -1 && errno == ECANCELED, "chmake in a cancelled coroutine"); return; } new_chan(); }
void op_yield(Co *c) {
    c->op = 5; note("co%d yield", c->id);
    if(!m->begin(c)) { m->ready(c, 0, 0, ++m->grp); m->cur = nullptr; m->s.yields++; }
    int rc = yield(); int err = errno;
    m->end(c, "yield", rc, err);
}
void op_sleep(Co *c) {
    c->op = 6; i64 dl = m->deadline(c == m->main);
    note("co%d msleep dl=%lld (now %lld)", c->id, (long long)dl, (long long)vt_now());
    if(!m->begin(c)) { c->timeout_rc = 0; c->timeout_err = 0; m->block(c, dl); m->s.sleeps++; }
    int rc = msleep(dl); int err = errno;
    m->end(c, "msleep", rc, err);
}
void body(Co *c);
void op_launch(Co *c, Bun *b /* NULL: go */) {
    c->op = 7;
    if((int)m->cos.size() >= m->p.max_co) return;
    Bun *nb = b;
    m->cos.emplace_back(new Co); Co *k = m->cos.back().get(); k->id = (int)m->cos.size() - 1;
    k->st = READY;
    if(!b) { m->buns.emplace_back(new Bun); nb = m->buns.back().get(); nb->id = (int)m->buns.size() - 1; nb->open = false; nb->owner = c; }
    note("co%d %s co%d%s", c->id, b ? "bundle_go" : "go", k->id, b ? "" : "");
    if(m->begin(c)) k->st = FIN;
    else {
        m->s.gos++;
        m->ready(c, 0, 0, ++m->grp);
        nb->all.push_back(k); nb->live++; k->bun = nb;
        k->st = RUN; m->cur = k;
    }
    bool started = false;
    auto f = [k]() { body(k); };
    int rc = b ? bundle_go_fn(b->h, f) : go_fn(f);
    int err = errno;
    if(!b && rc >= 0) {
        for(auto &x : m->buns) if(x.get() != nb && x->open && x->h == rc) fail("go returned the handle %d, which is in use", rc);
        for(auto &x : m->ch) if(rc == x->h[0] || rc == x->h[1]) fail("go returned the handle %d, which is in use", rc);
        nb->h = rc; rc = 0;
        nb->open = true; c->owned.push_back(nb);
    }
    m->end(c, b ? "bundle_go" : "go", rc, err);
}
void op_bnew(Co *c) {
    c->op = 8; if(m->buns.size() >= 8) return;
    note("co%d bundle", c->id);
    if(!m->begin(c)) m->imm(c, 0, 0);
    int h = bundle(); int err = errno;
    if(h >= 0) { m->buns.emplace_back(new Bun); Bun *b = m->buns.back().get(); b->id = (int)m->buns.size() - 1; b->h = h; b->owner = c; c->owned.push_back(b); }
    m->end(c, "bundle", h < 0 ? -1 : 0, err);
}
void op_bwait(Co *c) {
    std::vector<Bun*> o; for(auto b : c->owned) if(b->open) o.push_back(b);
    if(o.empty()) return;
    Bun *b = pick(o); c->op = 9;
    i64 dl = m->deadline(c == m->main);
    note("co%d bundle_wait b%d dl=%lld (now %lld)", c->id, b->id, (long long)dl, (long long)vt_now());
    if(!m->begin(c)) {
        if(!b->live) m->imm(c, 0, 0);
        else { c->waits = b; m->block(c, dl); m->s.bwait_block++; }
    }
    int rc = bundle_wait(b->h, dl); int err = errno;
    if(rc < 0 && err == ETIMEDOUT) m->s.bwait_timeout++;
    m->end(c, "bundle_wait", rc, err);
}
void close_bundle(Co *c, Bun *b) {
    c->op = 10; note("co%d hclose b%d", c->id, b->id);
    m->pending = false; m->s.closes++;
    c->closing = b; c->cidx = 0;
    m->cur = c;
    m->advance_close(c);
    int rc = hclose(b->h); int err = errno;
    b->open = false;
    m->end(c, "hclose", rc, err);
    for(auto x : b->all) if(x->st != FIN) fail("hclose returned although co%d has not finished", x->id);
}
void op_close(Co *c) {
    std::vector<Bun*> o; for(auto b : c->owned) if(b->open) o.push_back(b);
    if(o.empty()) return;
    close_bundle(c, pick(o));
}
void op_pwrite(Co *c) {
    if(m->pipes.empty()) return;
    int i = draw(m->pipes.size()); int n = 1 + draw(2);
    note("co%d write pipe%d %d", c->id, i, n);
    char z[4] = {0}; if(write(m->pipes[i].fd[1], z, n) != n) inconclusive("pipe write");
    m->pipes[i].n += n;
}
void op_pread(Co *c) {
    if(m->pipes.empty()) return;
    int i = draw(m->pipes.size()); c->op = 11; auto &pp = m->pipes[i]; int k = 1 + draw(3);
    i64 dl = m->deadline(c == m->main);
    note("co%d fdin pipe%d dl=%lld (now %lld)", c->id, i, (long long)dl, (long long)vt_now());
    if(!m->begin(c)) {
        if(pp.w) m->imm(c, -1, EBUSY);
        else { pp.w = c; c->pipe = i; m->block(c, dl); m->s.fdwaits++; }
    }
    int rc = fdin(pp.fd[0], dl); int err = errno;
    m->end(c, "fdin", rc, err);
    if(rc == 0) {
        char b[4]; ssize_t r = read(pp.fd[0], b, k);
        int want = std::min(k, m->pipes[i].n);
        CHECK(r == want, "fdin reported the pipe readable but read returned %zd instead of %d", r, want);
        m->pipes[i].n -= (int)r;
    }
}
bool step(Co *c) {
    const Profile &p = m->p;
    size_t k = weighted({(uint32_t)(c == m->main ? 0 : p.w_finish), (uint32_t)p.w_yield, (uint32_t)p.w_sleep, (uint32_t)p.w_send, (uint32_t)p.w_recv, (uint32_t)p.w_choose,
        (uint32_t)p.w_done, (uint32_t)p.w_go, (uint32_t)p.w_bgo, (uint32_t)p.w_bnew, (uint32_t)p.w_bwait, (uint32_t)p.w_hclose, (uint32_t)p.w_pread, (uint32_t)p.w_pwrite, (uint32_t)p.w_chclose, (uint32_t)p.w_chnew});
    switch(k) {
    case 0: return false;
    case 1: op_yield(c); break;
    case 2: op_sleep(c); break;
    case 3: op_msg(c, 0); break;
    case 4: op_msg(c, 1); break;
    case 5: op_choose(c); break;
    case 6: op_done(c); break;
    case 7: op_launch(c, nullptr); break;
    case 8: { std::vector<Bun*> o; for(auto &b : m->buns) if(b->open) o.push_back(b.get());
            if(o.empty()) { op_launch(c, nullptr); break; }
            op_launch(c, pick(o)); break; }
    case 9: op_bnew(c); break;
    case 10: op_bwait(c); break;
    case 11: op_close(c); break;
    case 12: op_pread(c); break;
    case 13: op_pwrite(c); break;
    case 14: op_chclose(c); break;
    case 15: op_chnew(c); break;
    }
    return true;
}
void finished(Co *c) {
    note("co%d finishes", c->id);
    m->arrive(c);
    CHECK(!m->pending, "internal: pending at finish");
    c->st = FIN;
    for(auto b : c->owned) if(b->open) { b->owner = m->main; m->main->owned.push_back(b); }
    c->owned.clear();
    Bun *b = c->bun;
    b->live--;
    if(c->closer) m->ready(c->closer, 0, 0, ++m->grp, NOORD, true);
    else if(!b->live) for(auto &x : m->cos) if(x->st == BLOCKED && x->waits == b) m->wake(x.get(), 0, 0, ++m->grp);
    m->cur = nullptr;
}
void body(Co *c) {
    /* launched: runs at once */
    m->pending = false;
    m->arrive(c);
    if(c->ops++) fail("the body of co%d runs twice", c->id);
    int n = draw(m->p.max_ops + 1), cancelled = 0;
    /* own stack contents must survive */
    for(int i = 0; i < n; ++i) {
        if(c->nb && ++cancelled > 3) break;
        if(!step(c)) break;
    }
    finished(c);
}
}
Stats run_program(const Profile &p) {
    M &mm = *new M; m = &mm; due.clear(); mm.p = p;
    if(p.jitter && chance(1, 3)) { vt.jitter_late = 20; mm.jit = 20; }
    if(p.jitter && chance(1, 4)) vt.jitter_early = true;
    if(p.eintr && chance(1, 3)) vt.eintr_pct = 25;
    mm.tnow = vt_now();
    mm.cos.emplace_back(new Co); mm.main = mm.cur = mm.cos[0].get(); mm.main->id = 0;
    int nch = 1 + draw(p.channels);
    for(int i = 0; i < nch; ++i) new_chan();
    { int t[2]; if(chmake(t) == 0) { hclose(t[0]); hclose(t[1]); mm.deadh = t[0]; } }
    int np = p.w_pread || p.w_pwrite ? draw(3) : 0;
    for(int i = 0; i < np; ++i) {
        M::Pipe q; if(pipe2(q.fd, O_NONBLOCK) < 0) inconclusive("pipe");
        mm.pipes.push_back(q);
    }
    int n = 2 + draw(p.main_ops);
    /* a few coroutines to begin with */
    for(int i = 0, k = 1 + draw(4); i < k; ++i) op_launch(mm.main, nullptr);
    for(int i = 0; i < n; ++i) step(mm.main);
    /* let it play out for a while */
    for(int i = 0, k = draw(4); i < k; ++i) { 
        Co *c = mm.main; c->op = 6; i64 dl = vt_now() + 10 + draw(40); m->begin(c); c->timeout_rc = 0; c->timeout_err = 0; m->block(c, dl); m->end(c, "msleep", msleep(dl), errno); }
    /* close everything */
    while(true) {
        std::vector<Bun*> o; for(auto b : mm.main->owned) if(b->open) o.push_back(b);
        if(o.empty()) break;
        close_bundle(mm.main, pick(o));
    }
    for(auto &c : mm.cos) if(c.get() != mm.main && c->st != FIN) fail("co%d has not finished after everything was closed", c->id);
    for(auto &c : mm.ch) for(int k = 0; k < 2; ++k) if(!c->closed[k] && hclose(c->h[k]) != 0) fail("hclose(channel) failed: %s", errname(errno));
    note("end @%lld", (long long)vt_now());
    return mm.s;
}
