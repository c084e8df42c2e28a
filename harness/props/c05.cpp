#include "core_model.h"
#include "crowd.h"
#include "zoo.h"
#include "store.h"
#include "tls_keys.h"
#include <libdill.h>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#define W(f, v) p.w_##f = v
static TlsEnv tls_env;
PROP_CASE(C05, prog, "at least two blocked calls cancelled, or a coroutine closed while it was ready or itself inside hclose") {
    Profile p; W(send, 3); W(recv, 3); W(choose, 2); W(done, 0); W(yield, 4); W(sleep, 3); W(go, 5); W(bgo, 5); W(bwait, 2); W(hclose, 5); W(pread, 1); W(pwrite, 1); W(bnew, 2);
    p.max_co = 14; p.max_ops = 10; p.main_ops = 14; p.inf_pct = 50;
    Stats s = run_program(p);
    if(s.nested_close) label("closed while in hclose"); if(s.close_ready) label("closed while ready"); if(s.cancels > 3) label("4+ cancelled");
    nontrivial(s.cancels >= 2 || s.close_ready || s.nested_close);
}
namespace {
typedef std::string S;
bool with_tls;
const Call &some_call(int kind) { auto &calls = zoo_calls(); std::vector<const Call*> cs; for(auto &c : calls) if(c.ok & 1u << kind && (with_tls || !strstr(c.name, "tls")) && strncmp(c.name, "hclose", 6) && strcmp(c.name, "hown") && strcmp(c.name, "ws_status") && !(kind == Z_WIRE && strstr(c.name, "NULL"))) cs.push_back(&c); return *cs[draw(cs.size())]; }
int some_kind() { int k; do k = draw(Z_KINDS); while(k == Z_USER || (k == Z_TLS && !with_tls)); return k; }
/* The handle after the call; what is left is for the end of the case. */
void settle(Animal *a, int i, const Call &c, long rc) { if(c.cls != C_PLAIN) a->h[i] = rc < 0 || strstr(c.name, "close") ? -1 : (int)rc; }
struct Probe { AnimalP a; const Call *c; int i; bool blocks; };
/* What must not happen in a cancelled coroutine or a close callback: waiting, any other error, or doing what would need waiting. */
void refused_call(Probe &p, const char *where) {
    int64_t t0 = now(); za.reset(); za.dl = chance(1, 3) ? t0 + 10 + draw(1000) : chance(1, 6) ? 0 : -1; errno = 0; note("%s: %s on a %s ...", where, p.c->name, p.a->name.c_str()); long rc = p.c->f(p.a->h[p.i]); int e = errno; note("... %ld %s", rc, errname(e));
    CHECK(now() == t0, "%s: %s on a %s waited", where, p.c->name, p.a->name.c_str()); bool dgram = p.a->kind == Z_UDP && !p.i && e == EINVAL && strstr(p.c->name, "msend");
    if(rc < 0 && !dgram) CHECK(e == ECANCELED || (za.dl == 0 && e == ETIMEDOUT), "%s: %s on a %s: %s", where, p.c->name, p.a->name.c_str(), errname(e));
    if(strstr(p.c->name, "recv") || strstr(p.c->name, "accept") || !strcmp(p.c->name, "bundle_wait") || !strncmp(p.c->name, "ch", 2)) if(strcmp(p.c->name, "chdone")) CHECK(rc < 0, "%s: %s on a %s: %ld", where, p.c->name, p.a->name.c_str(), rc);
    if(!strncmp(p.c->name, "bundle_go", 9)) CHECK(rc < 0 && !za.ran, "%s: %s: %ld", where, p.c->name, rc);
    settle(p.a.get(), p.i, *p.c, rc); }
void basic_calls(const char *where, int *p, int ch) {
    for(int k = draw(4); k--;) { int64_t t0 = now(), dl = chance(1, 2) ? -1 : t0 + draw(50); int rc; const char *n; bool ran = false; static char mem[65536]; errno = 0; char x; switch(draw(12)) {
        case 0: rc = msleep(dl); n = "msleep"; break; case 1: rc = yield(); n = "yield"; break; case 2: rc = fdin(p[0], dl); n = "fdin"; break; case 3: rc = fdout(p[1], dl); n = "fdout"; break; case 4: rc = go_fn([&] { ran = true; }); n = "go"; break; case 5: rc = go_mem_fn([&] { ran = true; }, mem, sizeof mem); n = "go_mem"; break;
        case 6: { static struct hvfs v; v.query = [](struct hvfs *, const void *) -> void* { errno = ENOTSUP; return NULL; }; v.close = [](struct hvfs *) {}; bool closing = !strcmp(where, "in a close callback"); if(!closing) continue; rc = hmake(&v); n = "hmake"; break; }
        case 7: { int q[2]; bool closing = !strcmp(where, "in a close callback"); rc = chmake(q); n = "chmake"; (void)closing; break; } case 8: rc = chrecv(ch, &x, 1, dl); n = "chrecv"; break; case 9: { struct chclause c = {CHRECV, ch, &x, 1}; rc = choose(&c, 1, dl); n = "choose"; break; } case 10: { struct ipaddr a; CHECK(ipaddr_remote(&a, "127.0.0.1", 9, 0, -1) == 0, "ipaddr"); ev.connect = [](int, const struct sockaddr *, unsigned, int &e) { e = EINPROGRESS; return true; }; rc = tcp_connect(&a, dl); ev.connect = nullptr; n = "tcp_connect"; break; } default: rc = choose(NULL, 0, dl); n = "choose of nothing"; }
        CHECK(rc == -1 && errno == ECANCELED, "%s: %s: %d %s", where, n, rc, errname(errno)); CHECK(now() == t0 && !ran, "%s: %s has done something", where, n); } }
}
/* Coroutines are closed while they are in any of the calls that can wait; they go on calling. */
PROP_CASE(C05, calls, "a blocked call of a library object was cancelled") {
    with_tls = chance(1, 6); if(with_tls) stk_files(); vt.grace_inf = 3000; vt.grace_timed = 3; int n = 1 + draw(4), fin = 0, blocked = 0, p[2], ch[2]; CHECK(pipe2(p, O_NONBLOCK) == 0 && chmake(ch) == 0, "pipe"); char fill[4096] = ""; while(write(p[1], fill, sizeof fill) > 0); while(write(p[1], fill, 1) > 0);
    struct Co { Probe p; std::vector<Probe> later; bool in = false, done = false; long rc = 0; int e = 0; int h; bool cl = false; }; std::vector<std::unique_ptr<Co>> v; bool bun = chance(1, 3); int b = bun ? bundle() : -1;
    auto probe = [&] { Probe q; int k = some_kind(); q.a = zoo_make(k); if(chance(1, 4)) q.a->use(); q.i = draw(q.a->n); q.c = &some_call(k); return q; };
    for(int k = 0; k < n; ++k) { v.emplace_back(new Co); Co *c = v.back().get(); c->p = probe(); for(int l = draw(3); l--;) c->later.push_back(probe()); note("%s on a %s, %zu calls later", c->p.c->name, c->p.a->name.c_str(), c->later.size()); }
    for(auto &u : v) { Co *c = u.get(); auto body = [&, c] { if(chance(1, 5)) yield(); za.reset(); za.dl = chance(1, 2) ? -1 : now() + 100000; errno = 0; c->in = true; c->rc = c->p.c->f(c->p.a->h[c->p.i]); c->e = errno; c->in = false; settle(c->p.a.get(), c->p.i, *c->p.c, c->rc); note("%s on a %s: %ld %s", c->p.c->name, c->p.a->name.c_str(), c->rc, errname(c->e));
            if(!(c->rc < 0 && c->e == ECANCELED)) { int rc = msleep(-1); CHECK(rc == -1 && errno == ECANCELED, "endless sleep: %d %s", rc, errname(errno)); }
            CHECK(c->cl, "the coroutine goes on without a reason"); for(auto &q : c->later) { basic_calls("in a cancelled coroutine", p, ch[0]); refused_call(q, "in a cancelled coroutine"); } basic_calls("in a cancelled coroutine", p, ch[0]); c->done = true; fin++; };
        if(bun) CHECK(bundle_go_fn(b, body) == 0, "bundle_go"); else { c->h = go_fn(body); CHECK(c->h >= 0, "go"); } }
    for(int k = draw(4); k--;) yield(); if(chance(1, 3)) msleep(now() + draw(50));
    int64_t t0 = now(); std::vector<Co*> was; for(auto &u : v) if(u->in && strncmp(u->p.c->name, "bundle_go", 9)) was.push_back(u.get()); note("closing, %zu of %d are waiting", was.size(), n); blocked = was.size(); for(auto c : was) label(c->p.a->name.c_str());
    if(bun) { for(auto &u : v) u->cl = true; CHECK(hclose(b) == 0, "hclose(bundle)"); } else for(auto &u : v) { u->cl = true; CHECK(!u->done, "ended before it was closed"); CHECK(hclose(u->h) == 0, "hclose"); CHECK(u->done, "hclose returns before the coroutine has ended"); }
    CHECK(fin == n, "%d of %d coroutines have ended", fin, n); CHECK(now() == t0, "closing took %lld ms", (long long)(now() - t0)); for(auto c : was) CHECK(c->rc < 0 && c->e == ECANCELED, "%s on a %s, cancelled: %ld %s", c->p.c->name, c->p.a->name.c_str(), c->rc, errname(c->e));
    CHECK(msleep(now() + 3) == 0 && yield() == 0, "the closing coroutine cannot block any more: %s", errname(errno)); CHECK(now() == t0 + 3, "time");
    for(auto &u : v) { u->p.a->end(); for(auto &q : u->later) q.a->end(); } fdclean(p[0]); fdclean(p[1]); close(p[0]); close(p[1]); hclose(ch[0]); hclose(ch[1]); nontrivial(blocked > 0);
}
/* The same inside of the close callback of an object. */
PROP_CASE(C05, callback, "at least two calls were made in a close callback") {
    with_tls = chance(1, 8); if(with_tls) stk_files(); int p[2], ch[2]; CHECK(pipe2(p, O_NONBLOCK) == 0 && chmake(ch) == 0, "pipe"); char fill[4096] = ""; while(write(p[1], fill, sizeof fill) > 0); while(write(p[1], fill, 1) > 0);
    struct Obj { struct hvfs v; int closes = 0; std::function<void()> f; }; std::vector<std::unique_ptr<Obj>> o; std::vector<int> hs; int n = 1 + draw(3), made = 0; std::vector<std::unique_ptr<Probe>> ps;
    for(int k = 0; k < n; ++k) { o.emplace_back(new Obj); Obj *x = o.back().get(); x->v.query = [](struct hvfs *, const void *) -> void* { errno = ENOTSUP; return NULL; }; x->v.close = [](struct hvfs *v) { Obj *x = (Obj*)v; x->closes++; x->f(); }; int h = hmake(&x->v); CHECK(h >= 0, "hmake: %s", errname(errno)); hs.push_back(h);
        std::vector<Probe*> mine; for(int l = draw(4); l--;) { ps.emplace_back(new Probe); Probe *q = ps.back().get(); int kd = some_kind(); q->a = zoo_make(kd); q->i = draw(q->a->n); q->c = &some_call(kd); mine.push_back(q); }
        int inner = k && chance(1, 2) ? hs[k - 1] : -1; if(inner >= 0) { hs[k - 1] = -1; label("closes another object"); }
        x->f = [&, mine, inner] { int at = draw(mine.size() + 1), j = 0; for(auto q : mine) { if(j++ == at && inner >= 0) CHECK(hclose(inner) == 0, "hclose in a close callback: %s", errname(errno)); refused_call(*q, "in a close callback"); made++; basic_calls("in a close callback", p, ch[0]); } if(at >= j && inner >= 0) CHECK(hclose(inner) == 0, "hclose in a close callback: %s", errname(errno)); basic_calls("in a close callback", p, ch[0]); }; }
    for(int h : hs) if(h >= 0) { int64_t t0 = now(); bool co = chance(1, 3); if(co) { int c = go_fn([&] { if(chance(1, 2)) yield(); CHECK(hclose(h) == 0, "hclose"); int rc = yield(); CHECK(rc == 0, "yield after hclose: %s", errname(errno)); }); CHECK(c >= 0, "go"); for(int k = 0; k < 4; ++k) yield(); CHECK(hclose(c) == 0, "hclose"); label("in a coroutine"); } else CHECK(hclose(h) == 0, "hclose"); CHECK(now() == t0, "closing took time"); CHECK(msleep(t0 + 2) == 0, "msleep after hclose: %s", errname(errno)); }
    for(auto &x : o) CHECK(x->closes == 1, "closed %d times", x->closes); for(auto &q : ps) q->a->end(); fdclean(p[0]); fdclean(p[1]); close(p[0]); close(p[1]); hclose(ch[0]); hclose(ch[1]); nontrivial(made >= 2);
}
PROP_CASE(C05, crowd, "at least 50 coroutines waited at the same time, at least 10 were cancelled") { CrowdProfile p; p.cancel = 12; p.bundle_pct = 20; CrowdStats s = crowd(p); nontrivial(s.most_waiting >= 50 && s.cancels >= 10); }
