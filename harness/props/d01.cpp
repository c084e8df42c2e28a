#include "dill.h"
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <signal.h>
#include <map>
#include <memory>
#include <algorithm>
namespace {
struct End { int fd, kind; /* 0 socket 1 pipe read 2 pipe write */ int peer; bool open = true; };
struct Wt { int e, dir, fd; int64_t dl, start; int h = -1; int rc = 0, err = 0; bool done = false, seen = false, cancel = false; int64_t at = 0; int id; };
std::vector<End> ends; std::vector<std::unique_ptr<Wt>> wts;
long waited = 0, busy = 0, reused = 0, timeouts = 0, both = 0;
std::vector<int> closed_nums;
bool ready(int fd, int dir) {
    struct pollfd p = {fd, (short)(dir ? POLLOUT : POLLIN), 0};
    int rc = __real_poll(&p, 1, 0);
    return rc > 0 && (p.revents & ((dir ? POLLOUT : POLLIN) | POLLERR | POLLHUP));
}
Wt *waiter(int e, int dir) { for(auto &w : wts) if(!w->done && w->e == e && w->dir == dir && !w->cancel) return w.get(); return nullptr; }
void addpair() {
    int s[2]; int k = draw(2);
    if(k == 0) { if(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s) < 0) inconclusive("socketpair"); int v = 4096; setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); setsockopt(s[1], SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
    else { if(pipe2(s, O_NONBLOCK) < 0) inconclusive("pipe"); fcntl(s[1], F_SETPIPE_SZ, 4096); }
    int n = (int)ends.size();
    for(int i = 0; i < 2; ++i) { End e; e.fd = s[i]; e.kind = k == 0 ? 0 : 1 + i; e.peer = n + 1 - i; ends.push_back(e);
        if(std::count(closed_nums.begin(), closed_nums.end(), s[i])) reused++; }
    note("new %s %d %d", k ? "pipe" : "socket pair", s[0], s[1]);
}
int pick_end() { std::vector<int> v; for(size_t i = 0; i < ends.size(); ++i) if(ends[i].open) v.push_back((int)i); return v.empty() ? -1 : pick(v); }
void start(int e, int dir, int64_t dl) {
    wts.emplace_back(new Wt); Wt *w = wts.back().get(); w->e = e; w->dir = dir; w->dl = dl; w->fd = ends[e].fd; w->start = now(); w->id = (int)wts.size() - 1;
    Wt *prev = nullptr; for(auto &x : wts) if(x.get() != w && !x->done && x->e == e && x->dir == dir) prev = x.get();
    if(waiter(e, !dir)) both++;
    note("w%d: %s(%d, %s%lld)%s", w->id, dir ? "fdout" : "fdin", w->fd, dl < 0 ? "" : "now+", (long long)(dl < 0 ? dl : dl - now()), prev ? " busy" : "");
    w->h = go_fn([w] { errno = 0; int rc = w->dir ? fdout(w->fd, w->dl) : fdin(w->fd, w->dl); w->err = errno; w->rc = rc; w->at = now(); w->done = true; });
    CHECK(w->h >= 0, "go");
    if(prev) {
        busy++;
        CHECK(w->done && w->rc == -1 && w->err == EBUSY, "w%d: second wait for the same direction of descriptor %d: %s %d %s", w->id, w->fd, w->done ? "returned" : "blocked", w->rc, errname(w->err));
        w->seen = true; CHECK(hclose(w->h) == 0, "hclose"); w->h = -1;
    } else if(w->done) fail("w%d: %s(%d) returned %d %s without waiting", w->id, dir ? "fdout" : "fdin", w->fd, w->rc, errname(w->err));
}
/* Lets time pass and compares every waiter's fate with the state of its descriptor. */
void pass(int64_t d) {
    int64_t t0 = now(), t1 = t0 + d;
    std::vector<std::pair<Wt*, bool>> exp;
    for(auto &w : wts) if(!w->done) exp.push_back({w.get(), ready(w->fd, w->dir)});
    note("sleep %lld", (long long)d);
    int rc = msleep(t1); CHECK(rc == 0, "msleep: %s", errname(errno));
    yield();
    for(auto &x : exp) {
        Wt *w = x.first; const char *nm = w->dir ? "fdout" : "fdin";
        if(x.second) {
            CHECK(w->done, "w%d: %s(%d): the descriptor is ready but the call is still blocked", w->id, nm, w->fd);
            CHECK(w->rc == 0, "w%d: %s(%d): the descriptor is ready but the call failed with %s", w->id, nm, w->fd, errname(w->err));
            CHECK(w->at == t0, "w%d: %s(%d) returned %lld ms late", w->id, nm, w->fd, (long long)(w->at - t0));
            waited++;
        } else if(w->dl >= 0 && w->dl <= t1) {
            CHECK(w->done, "w%d: %s(%d) is still blocked %lld ms after its deadline", w->id, nm, w->fd, (long long)(t1 - w->dl));
            CHECK(w->rc == -1 && w->err == ETIMEDOUT, "w%d: %s(%d) of an unready descriptor returned %d %s", w->id, nm, w->fd, w->rc, errname(w->err));
            CHECK(w->at == std::max(w->dl, t0), "w%d: %s(%d) with deadline %lld timed out at %lld", w->id, nm, w->fd, (long long)w->dl, (long long)w->at);
            timeouts++;
        } else if(w->done) fail("w%d: %s(%d) of an unready descriptor returned %d %s", w->id, nm, w->fd, w->rc, errname(w->err));
        if(w->done) { w->seen = true; CHECK(hclose(w->h) == 0, "hclose"); w->h = -1; }
    }
}
void cancel(Wt *w) {
    w->cancel = true; note("cancel w%d", w->id);
    CHECK(hclose(w->h) == 0, "hclose"); w->h = -1; CHECK(w->done, "not finished after hclose");
    CHECK(w->rc == -1 && w->err == ECANCELED, "w%d: cancelled wait returned %d %s", w->id, w->rc, errname(w->err));
}
void clean(int e) {
    bool wt = false; for(auto &w : wts) if(!w->done && w->e == e) wt = true;
    errno = 0; int rc = fdclean(ends[e].fd), er = errno;
    note("fdclean(%d) -> %d", ends[e].fd, rc);
    if(wt) CHECK(rc == -1 && er == EBUSY, "fdclean(%d) with a waiter: %d %s", ends[e].fd, rc, errname(er));
    else CHECK(rc == 0, "fdclean(%d) of an idle descriptor: %d %s", ends[e].fd, rc, errname(er));
}
void close_end(int e) {
    for(auto &w : wts) if(!w->done && w->e == e) cancel(w.get());
    clean(e);
    note("close %d", ends[e].fd);
    CHECK(close(ends[e].fd) == 0, "close"); ends[e].open = false; closed_nums.push_back(ends[e].fd);
}
}
PROP_CASE(D01, model, "at least three waits ended by readiness, and a timeout, busy wait, both directions or reused number") {
    signal(SIGPIPE, SIG_IGN); if(chance(1, 4)) vt.eintr_pct = 30;
    int np = 1 + draw(4); for(int i = 0; i < np; ++i) addpair();
    int n = 10 + draw(60); char buf[70000]; memset(buf, 'x', sizeof buf);
    for(int i = 0; i < n; ++i) {
        int e = pick_end(); if(e < 0) { addpair(); continue; }
        End &E = ends[e];
        switch(weighted({10, 5, 4, 5, 5, 3, 2, 2, 2, 1, 1})) {
        case 0: { int dir = E.kind == 0 ? draw(2) : E.kind == 1 ? 0 : 1; if(chance(1, 15)) dir = draw(2);
            int64_t t = now(), dl; switch(weighted({4, 4, 1})) { case 0: dl = -1; break; case 1: dl = t + draw(30); break; default: dl = chance(1, 2) ? 0 : t - draw(5); }
            start(e, dir, dl); break; }
        case 1: pass(draw(chance(1, 6) ? 2000 : 20)); break;
        case 2: if(E.kind != 1) { size_t k = 1 + draw(100); ssize_t r = send(E.fd, buf, 0, MSG_NOSIGNAL) < 0 && errno == ENOTSOCK ? (ends[E.peer].open ? write(E.fd, buf, k) : 0) : send(E.fd, buf, k, MSG_NOSIGNAL); note("write %d: %zd", E.fd, r); } break;
        case 3: if(E.kind != 2) { ssize_t r = read(E.fd, buf, 1 + draw(120)); note("read %d: %zd", E.fd, r); } break;
        case 4: if(E.kind != 1 && ends[E.peer].open) { long t = 0; ssize_t r; while((r = write(E.fd, buf, 4096)) > 0) t += r; while((r = write(E.fd, buf, 1)) > 0) t += r; note("fill %d: %ld", E.fd, t); } break;
        case 5: if(E.kind != 2) { long t = 0; ssize_t r; while((r = read(E.fd, buf, sizeof buf)) > 0) t += r; note("drain %d: %ld", E.fd, t); } break;
        case 6: { std::vector<Wt*> v; for(auto &w : wts) if(!w->done) v.push_back(w.get()); if(!v.empty()) cancel(pick(v)); break; }
        case 7: clean(e); break;
        case 8: close_end(e); if(chance(2, 3)) addpair(); break;
        case 9: if(E.kind == 0) { int how = draw(3); note("shutdown %d %d", E.fd, how); shutdown(E.fd, how == 0 ? SHUT_RD : how == 1 ? SHUT_WR : SHUT_RDWR); } break;
        case 10: { static const int bad[] = {-1, 1 << 20, INT32_MAX, INT32_MIN, 900, -2}; int fd = bad[draw(6)]; if(chance(1, 3) && !closed_nums.empty()) { int c = pick(closed_nums); bool op = false; for(auto &x : ends) if(x.open && x.fd == c) op = true; if(!op) fd = c; }
            errno = 0; int k = draw(3), rc = k == 0 ? fdin(fd, now() + 5) : k == 1 ? fdout(fd, -1) : 0, er = errno; note("bad descriptor %d (%d)", fd, k);
            if(k < 2) CHECK(rc == -1 && er == EBADF, "%s(%d), a bad descriptor: %d %s", k ? "fdout" : "fdin", fd, rc, errname(er)); else fdclean(fd);
            /* fdin of a bad descriptor lets nobody run, so no waiter may have changed */ break; }
        }
    }
    pass(draw(40));
    for(auto &w : wts) if(!w->done) cancel(w.get());
    for(size_t i = 0; i < ends.size(); ++i) if(ends[i].open) close_end((int)i);
    if(timeouts) label("timeouts"); if(busy) label("busy"); if(both) label("both directions"); if(reused) label("reused number");
    nontrivial(waited >= 3 && (timeouts || busy || both || reused));
}
PROP_CASE(D01, many, "more than 128 descriptors are ready at once") {
    int n = chance(2, 3) ? 129 + draw(270) : 1 + draw(128); int mode = draw(3);
    std::vector<int> a(n), b(n), cnt(n, 0), rcs(n, -2); int nready = 0;
    for(int i = 0; i < n; ++i) { int s[2]; if(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s) < 0) inconclusive("socketpair: %s", errname(errno)); a[i] = s[0]; b[i] = s[1]; }
    std::vector<int> hs; std::vector<char> isready(n, 0);
    for(int i = 0; i < n; ++i) { int h = go_fn([&, i] { rcs[i] = mode == 1 ? fdout(a[i], -1) : fdin(a[i], -1); cnt[i]++; }); CHECK(h >= 0, "go"); hs.push_back(h); }
    note("%d descriptors, mode %d", n, mode);
    for(int i = 0; i < n; ++i) if(mode == 1 || draw(8)) { isready[i] = 1; nready++; if(mode != 1) CHECK(write(b[i], "x", 1) == 1, "write"); }
    for(int i = 0; i < 4; ++i) msleep(now() + 1);
    for(int i = 0; i < n; ++i) {
        if(isready[i]) CHECK(cnt[i] == 1 && rcs[i] == 0, "waiter %d of %d: ready, but %s", i, n, cnt[i] ? "failed" : "still blocked");
        else CHECK(cnt[i] == 0, "waiter %d of %d has returned though its descriptor is not ready", i, n);
    }
    for(int i = 0; i < n; ++i) if(!isready[i] && mode == 2) CHECK(write(b[i], "x", 1) == 1, "write");
    msleep(now() + 1);
    for(int i = 0; i < n; ++i) if(!isready[i] && mode == 2) CHECK(cnt[i] == 1 && rcs[i] == 0, "waiter %d is still blocked", i);
    for(int h : hs) CHECK(hclose(h) == 0, "hclose");
    for(int i = 0; i < n; ++i) { CHECK(fdclean(a[i]) == 0, "fdclean"); CHECK(fdclean(b[i]) == 0, "fdclean"); close(a[i]); close(b[i]); }
    nontrivial(nready > 128);
}
