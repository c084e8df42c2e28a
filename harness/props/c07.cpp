#include "rt.h"
#include "dill.h"
#include <map>
#include <deque>
#include <memory>
#include <algorithm>
namespace {
const int tA = 0, tB = 0, tC = 0;     /* types (addresses matter) */
struct Obj { struct hvfs v; int id, closes = 0, expect = 0; int h = -1; int act = 0; int a, b; };
std::map<int, Obj*> open_h;           /* number -> object */
std::vector<std::unique_ptr<Obj>> objs;
std::deque<int> freed;                /* recently freed numbers, newest last */
std::vector<int> stale;               /* numbers freed at some time */
int closing_depth = 0;
void do_close(Obj *o);
void *oquery(struct hvfs *v, const void *type) {
    Obj *o = (Obj*)v;
    if(o->closes) fail("query on closed object %d", o->id);
    if(type == &tA) return &o->a;
    if(type == &tB) return &o->b;
    errno = ENOTSUP; return NULL;
}
void freed_num(int h) { freed.push_back(h); if(freed.size() > 6) freed.pop_front(); stale.push_back(h); }
void new_num(int h, const char *what) {
    CHECK(h >= 0, "%s failed: %s", what, errname(errno));
    if(open_h.count(h)) fail("%s returned %d, the number of open object %d", what, h, open_h[h]->id);
    if(std::find(freed.begin(), freed.end(), h) != freed.end()) fail("%s returned %d, which has only just been freed", what, h);
    freed.push_back(-1); if(freed.size() > 6) freed.pop_front();
}
Obj *pick_open(Obj *not_this) {
    std::vector<Obj*> v; for(auto &x : open_h) if(x.second != not_this && !x.second->expect) v.push_back(x.second);
    return v.empty() ? nullptr : pick(v);
}
void oclose(struct hvfs *v) {
    Obj *o = (Obj*)v;
    CHECK(o->expect, "object %d closed unexpectedly", o->id);
    CHECK(++o->closes == 1, "object %d closed %d times", o->id, o->closes);
    if(closing_depth >= 3) return;
    int act = o->act; Obj *p;
    closing_depth++;
    int rc, e;
    switch(act) {
    case 1: p = pick_open(o); if(p) { note(" in close: hclose %d", p->h); do_close(p); label("close in close"); } break;
    case 2: rc = msleep(now() + 10); e = errno; CHECK(rc == -1 && e == ECANCELED, "msleep in a close callback: %d %s", rc, errname(e)); break;
    case 3: { Obj t; memset(&t, 0, sizeof t); t.v.query = oquery; t.v.close = oclose; rc = hmake(&t.v); e = errno;
        CHECK(rc == -1 && e == ECANCELED, "hmake in a close callback: %d %s", rc, errname(e)); break; }
    case 4: rc = go_fn([] {}); e = errno; CHECK(rc == -1 && e == ECANCELED, "go in a close callback: %d %s", rc, errname(e)); break;
    case 5: p = pick_open(o); if(p) { void *q = hquery(p->h, &tA); CHECK(q == &p->a, "hquery in a close callback reached the wrong object"); } break;
    case 6: p = pick_open(o); if(p) { note(" in close: hown %d", p->h); p->expect = 1; int h = p->h; rc = hown(h); e = errno;
        /* no handle can be made here, so hown fails and closes */
        CHECK(rc == -1 && e == ECANCELED, "hown in a close callback: %d %s", rc, errname(e));
        CHECK(p->closes == 1, "failed hown has not closed the object"); open_h.erase(h); freed_num(h); label("failing hown"); } break;
    case 7: { int ch[2]; rc = chmake(ch); e = errno; CHECK(rc == -1 && e == ECANCELED, "chmake in a close callback: %d %s", rc, errname(e)); break; }
    }
    closing_depth--;
}
Obj *make() {
    objs.emplace_back(new Obj); Obj *o = objs.back().get();
    o->id = (int)objs.size() - 1; o->v.query = oquery; o->v.close = oclose;
    o->act = chance(1, 4) ? 1 + draw(7) : 0;
    int h = hmake(&o->v); new_num(h, "hmake"); o->h = h; open_h[h] = o;
    return o;
}
void do_close(Obj *o) {
    int h = o->h; o->expect = 1;
    int rc = hclose(h);
    CHECK(rc == 0, "hclose(%d) of object %d failed: %s", h, o->id, errname(errno));
    CHECK(o->closes == 1, "hclose(%d): object %d was closed %d times", h, o->id, o->closes);
    open_h.erase(h); freed_num(h);
}
void check_bad(int h) {
    if(h >= 0 && open_h.count(h)) return;
    int rc, e;
    switch(draw(5)) {
    case 0: rc = hclose(h); e = errno; CHECK(rc == -1 && e == EBADF, "hclose(%d), not open: %d %s", h, rc, errname(e)); break;
    case 1: rc = hown(h); e = errno; CHECK(rc == -1 && e == EBADF, "hown(%d), not open: %d %s", h, rc, errname(e)); break;
    case 2: { void *p = hquery(h, &tA); e = errno; CHECK(!p && e == EBADF, "hquery(%d), not open: %p %s", h, p, errname(e)); break; }
    case 3: rc = bundle_wait(h, 0); e = errno; CHECK(rc == -1 && e == EBADF, "bundle_wait(%d), not open: %d %s", h, rc, errname(e)); break;
    case 4: { char c; rc = chsend(h, &c, 1, 0); e = errno; CHECK(rc == -1 && e == EBADF, "chsend(%d), not open: %d %s", h, rc, errname(e)); break; }
    }
}
void check_obj(Obj *o) {
    for(int i = 0, n = 1 + draw(3); i < n; ++i) switch(draw(3)) {
    case 0: CHECK(hquery(o->h, &tA) == &o->a, "hquery(%d, A) reached the wrong object", o->h); break;
    case 1: CHECK(hquery(o->h, &tB) == &o->b, "hquery(%d, B) reached the wrong object", o->h); break;
    case 2: { errno = 0; void *p = hquery(o->h, &tC); CHECK(!p && errno == ENOTSUP, "hquery(%d, C): %p %s", o->h, p, errname(errno)); break; }
    }
}
}
PROP_CASE(C07, table, "a number freed and later issued again, or the table grown, or objects closed from close callbacks") {
    int nops = 5 + draw(60); size_t maxopen = 0; int reused = 0;
    for(int i = 0; i < nops; ++i) {
        switch(weighted({6, 6, 3, 4, 3, 1, 1, 1})) {
        case 0: { Obj *o = make(); note("hmake -> %d (object %d, on close %d)", o->h, o->id, o->act); if(std::count(stale.begin(), stale.end(), o->h)) reused++; break; }
        case 1: { Obj *o = pick_open(nullptr); if(o) { note("hclose %d", o->h); do_close(o); } break; }
        case 2: { Obj *o = pick_open(nullptr); if(!o) break;
            int h = o->h; note("hown %d", h);
            int n = hown(h); new_num(n, "hown"); CHECK(!o->closes, "hown closed the object");
            open_h.erase(h); freed_num(h); o->h = n; open_h[n] = o; check_obj(o); break; }
        case 3: { Obj *o = pick_open(nullptr); if(o) check_obj(o); break; }
        case 4: switch(draw(3)) { case 0: check_bad(-1 - (int)draw(3)); break; case 1: if(!stale.empty()) check_bad(pick(stale)); break;
            case 2: { static const int b[] = {1 << 20, INT32_MAX, 4096, INT32_MIN, 512, 255, 256}; int h = b[draw(7)]; if(!open_h.count(h)) check_bad(h); break; } } break;
        case 5: { int n = 1 + draw(chance(1, 2) ? 600 : 30); note("hmake x%d", n); for(int k = 0; k < n; ++k) make(); break; }
        case 6: { int n = 1 + draw(300); note("hclose x%d", n); while(n-- && !open_h.empty()) { Obj *o = pick_open(nullptr); if(!o) break; do_close(o); } break; }
        case 7: { /* an object of which creation fails */
            struct hvfs bad; memset(&bad, 0, sizeof bad); int k = draw(3); if(k == 1) bad.close = oclose; if(k == 2) bad.query = oquery;
            int rc = hmake(draw(4) ? &bad : NULL); int e = errno; CHECK(rc == -1 && e == EINVAL, "hmake of incomplete vfs: %d %s", rc, errname(e)); break; }
        }
        maxopen = std::max(maxopen, open_h.size());
    }
    if(maxopen > 248) label("table grown"); if(reused) label("number reused");
    for(auto &x : std::map<int, Obj*>(open_h)) { if(!open_h.count(x.first)) continue; check_obj(x.second); }
    while(!open_h.empty()) { Obj *o = pick_open(nullptr); if(!o) break; do_close(o); }
    for(auto &o : objs) CHECK(o->closes == 1, "object %d was closed %d times in the end", o->id, o->closes);
    for(int i = 0; i < 4 && !stale.empty(); ++i) check_bad(pick(stale));
    nontrivial(maxopen > 248 || reused || objs.size() >= 5);
}
/* Handles opened and closed by others while an hclose is in progress. */
PROP_CASE(C07, busy, "other coroutines open or close handles between the start and the end of an hclose") {
    int nc = 1 + draw(4); std::vector<int> hs(nc, -1); std::vector<int> state(nc, 0); bool go_on = false;
    int grow = chance(1, 2) ? 200 + draw(500) : draw(20);
    for(int i = 0; i < (int)draw(250); ++i) make();
    for(int i = 0; i < nc; ++i) {
        hs[i] = go_fn([&, i] { state[i] = 1; while(msleep(-1) == 0); state[i] = 2; });
        CHECK(hs[i] >= 0, "go"); if(open_h.count(hs[i])) fail("go returned a number in use");
    }
    /* helper: becomes ready before the closed coroutine */
    int opened = 0;
    int hh = go_fn([&] { while(yield() == 0) { if(!go_on) continue; go_on = false; note("others: open %d", grow); for(int k = 0; k < grow; ++k) { make(); opened++; } 
        for(int k = draw(20); k > 0; --k) { Obj *o = pick_open(nullptr); if(o) do_close(o); } } });
    CHECK(hh >= 0, "go");
    int mode = draw(2);
    for(int i = 0; i < nc; ++i) {
        go_on = true; if(chance(1, 2)) yield(), go_on = true;
        int h = hs[i];
        note("hclose %d", h);
        CHECK(hclose(h) == 0, "hclose failed: %s", errname(errno));
        CHECK(state[i] == 2, "hclose returned before the coroutine finished");
        freed_num(h);
        int rc = hclose(h), e = errno;
        CHECK(rc == -1 && e == EBADF, "second hclose(%d): %d %s", h, rc, errname(e));
        void *q = hquery(h, &tA); CHECK(!q && errno == EBADF, "hquery of a closed coroutine: %p %s", q, errname(errno));
        for(int k = 0; k < (int)draw(4); ++k) { Obj *o = make(); check_obj(o); }
        grow = chance(1, 3) ? 200 + draw(300) : draw(30);
    }
    for(auto &x : open_h) check_obj(x.second);
    CHECK(hclose(hh) == 0, "hclose(helper)");
    freed_num(hh);
    while(!open_h.empty()) { Obj *o = pick_open(nullptr); if(!o) break; do_close(o); }
    /* all numbers can be used again */
    nontrivial(opened > 0);
}
/* hown with no memory for a larger table. */
PROP_CASE(C07, hown_nomem, "the table is full and cannot grow when hown or hmake is called") {
    int n = 230 + draw(30);
    for(int i = 0; i < n; ++i) make();
    int fails = 0;
    for(int i = 0; i < 30; ++i) {
        fi.alloc_fail_at = 0; fi.alloc_fail_n = 1;
        long before = fi.alloc_failed;
        if(chance(1, 2)) {
            Obj *o = pick_open(nullptr); if(!o) break; int h = o->h; o->expect = 1; o->act = 0;
            int r = hown(h), e = errno; bool f = fi.alloc_failed != before; fi.alloc_fail_at = -1;
            if(f) { fails++; note("hown fails"); CHECK(r == -1 && e == ENOMEM, "hown without memory: %d %s", r, errname(e)); CHECK(o->closes == 1, "failed hown has not closed the object");
                open_h.erase(h); freed_num(h); errno = 0; void *q = hquery(h, &tA); CHECK(!q && errno == EBADF, "old handle still valid after failed hown"); }
            else { o->expect = 0; CHECK(!o->closes, "hown closed the object"); new_num(r, "hown"); open_h.erase(h); freed_num(h); o->h = r; open_h[r] = o; }
        } else {
            Obj t; memset(&t, 0, sizeof t); t.v.query = oquery; t.v.close = oclose;
            int r = hmake(&t.v), e = errno; bool f = fi.alloc_failed != before; fi.alloc_fail_at = -1;
            if(f) { fails++; note("hmake fails"); CHECK(r == -1 && e == ENOMEM, "hmake without memory: %d %s", r, errname(e)); Obj *o = pick_open(nullptr); if(o) do_close(o); }
            else { CHECK(r >= 0, "hmake: %s", errname(e)); t.expect = 1; t.act = 0; int rc = hclose(r); CHECK(rc == 0 && t.closes == 1, "hclose"); freed_num(r); make(); }
        }
    }
    for(auto &x : open_h) check_obj(x.second);
    while(!open_h.empty()) { Obj *o = pick_open(nullptr); if(!o) break; do_close(o); }
    nontrivial(fails > 0);
}
/* Tens of thousands of handles. */
namespace { struct Many { struct hvfs v; int h = -1, closes = 0; }; int many_type; void *many_q(struct hvfs *v, const void *t) { if(t == &many_type) return v; errno = ENOTSUP; return NULL; } void many_c(struct hvfs *v) { ((Many*)v)->closes++; } }
PROP_CASE(C07, huge, "more than 32768 handles at the same time") {
    static const int around[] = {127, 255, 256, 1000, 4096, 32767, 32768, 65536, 100000}; int n = around[draw(9)] + draw(300), rounds = 1 + draw(3); std::vector<Many> o(n); std::vector<char> in; size_t most = 0, open = 0;
    auto mark = [&](int h, bool on) { CHECK(h >= 0, "number %d", h); CHECK(h < 10000000, "number %d with %d handles", h, n); if((size_t)h >= in.size()) in.resize(h + 1); if(on) CHECK(!in[h], "number %d is given out although it is open", h); in[h] = on; };
    auto ask = [&](Many &m) { CHECK(hquery(m.h, &many_type) == &m.v, "handle %d (of %zu) leads to something else: %s", m.h, open, errname(errno)); };
    for(int r = 0; r < rounds; ++r) {
        for(auto &m : o) if(m.h < 0) { m.v.query = many_q; m.v.close = many_c; m.closes = 0; m.h = hmake(&m.v); CHECK(m.h >= 0, "hmake with %zu handles open: %s", open, errname(errno)); mark(m.h, true); open++; }
        most = std::max(most, open); for(int i = 0; i < 2000; ++i) ask(o[draw(2) ? draw(n) : n - 1 - draw(std::min(n, 50))]); for(auto &m : o) CHECK(!m.closes, "an object was closed by itself");
        int k = draw(300); while(k--) { Many &m = o[draw(n)]; int h = hown(m.h); CHECK(h >= 0, "hown"); mark(m.h, false); mark(h, true); int old = m.h; m.h = h; ask(m); errno = 0; CHECK(!hquery(old, &many_type) && errno == EBADF, "the number %d given up by hown: %s", old, errname(errno)); }
        int every = r == rounds - 1 ? 1 : 1 + draw(4), from = draw(every); note("%d handles, every %dth closed", n, every); bool rev = chance(1, 2);
        for(int j = 0; j < n; ++j) { int i = rev ? n - 1 - j : j; if(i % every != from) continue; Many &m = o[i]; CHECK(hclose(m.h) == 0, "hclose of %d: %s", m.h, errname(errno)); CHECK(m.closes == 1, "hclose of %d: the object was closed %d times", m.h, m.closes); mark(m.h, false); if(draw(64) == 0) { errno = 0; CHECK(hclose(m.h) == -1 && errno == EBADF, "second hclose: %s", errname(errno)); CHECK(m.closes == 1, "the object was closed again"); } m.h = -1; open--; }
    }
    nontrivial(most > 32768);
}
