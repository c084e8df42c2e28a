#include "conn.h"
#include <algorithm>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
typedef std::string S;
namespace {
/* Something to be sent: which open file a descriptor refers to can be told by the shared file offset or by the pipe's contents. */
struct Item { int kind; int fd = -1, other = -1; S content; int id; };
struct Kept { dev_t d; ino_t i; };
Kept ident(int fd) { struct stat s; if(fstat(fd, &s)) return {0, 0}; return {s.st_dev, s.st_ino}; }
Item make(int id, const S &dir) { Item x; x.id = id; x.kind = draw(4); 
    if(x.kind == 0) { S p = dir + "/f" + std::to_string(id); x.fd = ::open(p.c_str(), O_RDWR | O_CREAT, 0600); x.content = gen_bytes(20 + draw(50)); if(x.fd < 0 || write(x.fd, x.content.data(), x.content.size()) < 0) inconclusive("file"); lseek(x.fd, draw(20), SEEK_SET); }
    else if(x.kind == 1) { int p[2]; if(pipe(p)) inconclusive("pipe"); x.fd = p[0]; x.other = p[1]; }
    else if(x.kind == 2) { int p[2]; if(pipe(p)) inconclusive("pipe"); x.fd = p[1]; x.other = p[0]; }
    else { int p[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) inconclusive("socketpair"); x.fd = p[0]; x.other = p[1]; }
    return x; }
/* got is a working duplicate of the item. */
void verify(Item &x, int got) {
    CHECK(got >= 0 && got != x.fd && got != x.other, "not a new descriptor: %d", got); CHECK(fcntl(got, F_GETFD) >= 0, "the received descriptor is not open"); 
    if(x.fd >= 0) { Kept a = ident(x.fd), b = ident(got); CHECK(a.d == b.d && a.i == b.i, "the received descriptor refers to something else"); }
    char buf[100]; S d = gen_bytes(1 + draw(20));
    if(x.kind == 0) { if(x.fd >= 0) { off_t o = lseek(got, 0, SEEK_CUR); CHECK(o == lseek(x.fd, 0, SEEK_CUR), "not the same open file: different offsets"); lseek(got, 3, SEEK_SET); CHECK(lseek(x.fd, 0, SEEK_CUR) == 3, "not the same open file"); } lseek(got, 0, SEEK_SET); ssize_t n = read(got, buf, 100); CHECK(n == (ssize_t)x.content.size() && !memcmp(buf, x.content.data(), n), "wrong contents"); }
    else if(x.kind == 1) { CHECK(write(x.other, d.data(), d.size()) == (ssize_t)d.size(), "write"); ssize_t n = read(got, buf, 100); CHECK(n == (ssize_t)d.size() && !memcmp(buf, d.data(), n), "the received end of the pipe does not work"); }
    else if(x.kind == 2) { CHECK(write(got, d.data(), d.size()) == (ssize_t)d.size(), "write: %s", errname(errno)); ssize_t n = read(x.other, buf, 100); CHECK(n == (ssize_t)d.size() && !memcmp(buf, d.data(), n), "the received end of the pipe does not work"); }
    else { CHECK(write(got, d.data(), d.size()) == (ssize_t)d.size(), "write"); ssize_t n = read(x.other, buf, 100); CHECK(n == (ssize_t)d.size() && !memcmp(buf, d.data(), n), "the received socket does not work"); CHECK(write(x.other, d.data(), d.size()) == (ssize_t)d.size(), "write"); n = read(got, buf, 100); CHECK(n == (ssize_t)d.size() && !memcmp(buf, d.data(), n), "the received socket does not work"); } }
}
/* Bytes and descriptors in both directions, in any order that the receiver follows. */
PROP_CASE(S05, mixed, "at least two descriptors and some bytes crossed") {
    S dir = scratch_dir(); int f00 = open_fds(); Conn c; c.open(draw(3)); int base = open_fds(); if(chance(1, 3)) c.small(2048 + draw(4000)); if(chance(1, 3)) { fi.eagain_pct = 5 + draw(40); label("spurious EAGAIN"); } if(chance(1, 3)) fi.short_io = 1 + draw(20);
    struct Op { bool fd; Item x; S d; }; std::vector<Op> ops[2]; int nfd = 0, nby = 0, id = 0; for(int i = 0; i < 2; ++i) { int n = draw(10); while(n--) { Op o; o.fd = chance(1, 2); if(o.fd) { o.x = make(id++, dir); nfd++; } else { o.d = gen_bytes(draw(chance(1, 6) ? 9000 : 60)); nby++; } ops[i].push_back(o); } }
    for(auto &v : ops) v.reserve(20);
    auto tx = [&](int i) { for(auto &o : ops[i]) { if(chance(1, 4)) msleep(now() + draw(5)); if(o.fd) { int64_t dl = chance(1, 2) ? -1 : now() + 10000; int rc = ipc_sendfd(c.h[i], o.x.fd, dl); CHECK(rc == 0, "ipc_sendfd: %d %s", rc, errname(errno)); CHECK(fcntl(o.x.fd, F_GETFD) >= 0, "the sender's descriptor was closed"); if(chance(1, 2)) { ::close(o.x.fd); o.x.fd = -1; label("closed by the sender"); } } else CHECK(bsend_any(c.h[i], o.d, -1) == 0, "bsend: %s", errname(errno)); } if(chance(1, 2)) { CHECK(c.done(i, -1) == 0, "done: %s", errname(errno)); ops[i].push_back({false, Item(), "end"}); } };
    auto rx = [&](int i) { size_t k = 0; for(; k < ops[!i].size(); ++k) { auto &o = ops[!i][k]; if(!o.fd && o.d == "end") break; if(chance(1, 4)) msleep(now() + draw(5)); if(o.fd) { int rc = ipc_recvfd(c.h[i], chance(1, 2) ? -1 : now() + 10000); CHECK(rc >= 0, "ipc_recvfd: %s", errname(errno)); verify(o.x, rc); ::close(rc); } else { S g; size_t half = chance(1, 2) ? o.d.size() : draw(o.d.size() + 1); CHECK(brecv_any(c.h[i], half, &g, -1) == 0 && g == o.d.substr(0, half), "bytes between descriptors"); CHECK(brecv_any(c.h[i], o.d.size() - half, &g, -1) == 0 && g == o.d.substr(half), "bytes between descriptors"); } } };
    run_all({[&] { tx(0); }, [&] { rx(1); }, [&] { tx(1); }, [&] { rx(0); }}); fi.eagain_pct = fi.short_io = 0;
    for(int i = 0; i < 2; ++i) if(!ops[!i].empty() && !ops[!i].back().fd && ops[!i].back().d == "end") for(int k = 0; k < 2; ++k) { char x; int rc = chance(1, 2) ? ipc_recvfd(c.h[i], -1) : brecv(c.h[i], &x, 1, -1); CHECK(rc == -1 && errno == EPIPE, "after the end: %d %s", rc, errname(errno)); }
    for(int i = 0; i < 2; ++i) for(auto &o : ops[i]) if(o.fd) { if(o.x.fd >= 0) ::close(o.x.fd); if(o.x.other >= 0) ::close(o.x.other); }
    CHECK(open_fds() == base, "%d descriptors too many", open_fds() - base); CHECK(hclose(c.h[0]) == 0 && hclose(c.h[1]) == 0, "hclose"); (void)f00; if(nfd >= 2 && nby) nontrivial();
}
/* Model of both ends with failures of every kind. */
PROP_CASE(S05, errors, "at least 6 operations of which 2 failed") {
    signal(SIGPIPE, SIG_DFL); S dir = scratch_dir(); Conn c; c.open(draw(3)); int base = open_fds(); struct E { bool outdone = false, outerr = false, indone = false, inerr = false, closed = false, abrupt = false; std::deque<int> q; } e[2]; /* q: 0 a byte, 1 a descriptor */ 
    int n = 4 + draw(25), fails = 0, ops = 0; Item it; it = make(0, dir); it.fd = it.fd; if(chance(1, 3)) { fi.eagain_pct = 5 + draw(40); }
    while(n--) { int i = draw(2); if(e[i].closed) i = !i; if(e[i].closed) break; E &a = e[i], &b = e[!i]; ops++; int64_t t0 = now(); int64_t dl = chance(1, 3) ? 0 : chance(1, 2) ? t0 + draw(10) : -1; errno = 0;
        switch(weighted({4, 5, 2, 2, 1, 1, 2})) {
        case 0: { if(b.q.size() + a.q.size() > 40) break; int bad = chance(1, 5) ? 1 + draw(2) : 0; int fd = bad == 1 ? -1 - (int)draw(3) : bad == 2 ? 900 : it.fd; int rc = ipc_sendfd(c.h[i], fd, dl), er = errno; note("%d: sendfd %d -> %d %s", i, fd, rc, rc < 0 ? errname(er) : ""); CHECK(now() == t0, "it waited"); 
            if(bad == 1) { CHECK(rc == -1 && er == EINVAL, "sending %d: %d %s", fd, rc, errname(er)); fails++; break; }
            if(a.outdone || a.outerr) { CHECK(rc == -1 && er == (a.outdone ? EPIPE : ECONNRESET), "sendfd on a finished direction: %d %s", rc, errname(er)); fails++; break; }
            if(bad == 2) { CHECK(rc == -1 && (er == EBADF || (b.closed && er == ECONNRESET)), "sending a descriptor which is not open: %d %s", rc, errname(er)); if(er == ECONNRESET) a.outerr = true; fails++; label("bad descriptor"); break; }
            if(b.closed) { CHECK(rc == -1 && (er == ECONNRESET || er == EPIPE), "sendfd to a closed peer: %d %s", rc, errname(er)); a.outerr = true; fails++; label("sendfd to closed"); break; }
            CHECK(rc == 0, "sendfd: %s", errname(er)); a.q.push_back(1); break; }
        case 1: { if(dl < 0 && b.q.empty() && !b.outdone && !b.closed && !a.indone && !a.inerr) dl = t0 + draw(10); int rc = ipc_recvfd(c.h[i], dl), er = errno; note("%d: recvfd of %zu -> %d %s after %d", i, b.q.size(), rc < 0 ? -1 : 0, rc < 0 ? errname(er) : "", (int)(now() - t0));
            if(a.indone || a.inerr) { CHECK(rc == -1 && er == (a.indone ? EPIPE : ECONNRESET), "recvfd on a finished direction: %d %s", rc, errname(er)); fails++; break; }
            if(b.q.empty()) { fails++; if(b.outdone || b.closed) { CHECK(rc == -1 && (er == EPIPE || (er == ECONNRESET && b.abrupt)), "recvfd at the end: %d %s", rc, errname(er)); (er == EPIPE ? a.indone : a.inerr) = true; label("recvfd at the end"); break; } CHECK(rc == -1 && er == ETIMEDOUT && now() == std::max(t0, dl), "recvfd of nothing: %d %s after %d", rc, errname(er), (int)(now() - t0)); label("recvfd timed out"); a.inerr = false; /* the later behaviour is left open */ n = std::min(n, 1 + (int)draw(3)); 
                /* either it still works or it fails for good */ if(!b.closed && !b.outdone && !b.outerr && chance(1, 2)) { int r = ipc_sendfd(c.h[!i], it.fd, -1); CHECK(r == 0, "ipc_sendfd: %s", errname(errno)); r = ipc_recvfd(c.h[i], -1); CHECK(r >= 0 || errno == ECONNRESET, "after a timeout: %s", errname(errno)); if(r >= 0) { CHECK(fcntl(r, F_GETFD) >= 0, "not open"); ::close(r); } else { a.inerr = true; b.q.push_back(1); } } break; }
            if(b.q.front() == 0) { CHECK(rc == -1, "a descriptor out of plain bytes"); CHECK(er == EPROTO, "recvfd of plain data: %s", errname(er)); a.inerr = true; fails++; label("bytes instead of a descriptor"); break; }
            if(b.abrupt && rc < 0 && er == ECONNRESET) { a.inerr = true; fails++; break; }
            CHECK(rc >= 0, "recvfd: %s", errname(er)); b.q.pop_front(); CHECK(rc != it.fd && ident(rc).i == ident(it.fd).i, "something else was received"); ::close(rc); break; }
        case 2: { if(a.q.size() > 40) break; int rc = bsend(c.h[i], "x", 1, dl), er = errno; note("%d: bsend -> %d %s", i, rc, rc < 0 ? errname(er) : ""); if(a.outdone || a.outerr) { CHECK(rc == -1 && er == (a.outdone ? EPIPE : ECONNRESET), "bsend: %d %s", rc, errname(er)); fails++; } else if(b.closed) { CHECK(rc == -1 && (er == ECONNRESET || er == EPIPE), "bsend to closed: %d %s", rc, errname(er)); a.outerr = true; fails++; } else { CHECK(rc == 0, "bsend: %s", errname(er)); a.q.push_back(0); } break; }
        case 3: { if(b.q.empty() || b.q.front() == 1) break; char x = 0; int rc = brecv(c.h[i], &x, 1, dl), er = errno; note("%d: brecv -> %d %s", i, rc, rc < 0 ? errname(er) : ""); if(a.indone || a.inerr) { CHECK(rc == -1 && er == (a.indone ? EPIPE : ECONNRESET), "brecv: %d %s", rc, errname(er)); fails++; } else if(b.abrupt && rc < 0) { CHECK(er == ECONNRESET, "%s", errname(er)); a.inerr = true; } else { CHECK(rc == 0 && x == 'x', "brecv: %s", errname(er)); b.q.pop_front(); } break; }
        case 4: { int rc = c.done(i, dl), er = errno; note("%d: done -> %d %s", i, rc, rc < 0 ? errname(er) : ""); if(a.outdone || a.outerr) { CHECK(rc == -1 && er == (a.outdone ? EPIPE : ECONNRESET), "done: %d %s", rc, errname(er)); fails++; } else if(rc < 0) { CHECK(b.closed, "done: %s", errname(er)); a.outerr = true; } else a.outdone = true; break; }
        case 5: { CHECK(hclose(c.h[i]) == 0, "hclose"); note("%d: hclose", i); a.closed = true; a.abrupt = !b.q.empty(); /* unread descriptors must not leak: checked at the end */ break; }
        case 6: { int h = chance(1, 2) ? 100000 : -1; int rc = chance(1, 2) ? ipc_sendfd(h, it.fd, dl) : ipc_recvfd(h, dl); CHECK(rc == -1 && errno == EBADF, "not a handle: %d %s", rc, errname(errno)); int ch[2]; CHECK(chmake(ch) == 0, "chmake"); rc = chance(1, 2) ? ipc_sendfd(ch[0], it.fd, dl) : ipc_recvfd(ch[0], dl); CHECK(rc == -1 && errno == ENOTSUP, "not a socket: %d %s", rc, errname(errno)); CHECK(hclose(ch[0]) == 0 && hclose(ch[1]) == 0, "hclose"); break; }
        } }
    fi.eagain_pct = 0; for(int i = 0; i < 2; ++i) if(!e[i].closed) CHECK(hclose(c.h[i]) == 0, "hclose"); CHECK(fcntl(it.fd, F_GETFD) >= 0, "our own descriptor was closed"); ::close(it.fd); if(it.other >= 0) ::close(it.other); CHECK(open_fds() == base - 2, "%d descriptors too many", open_fds() - base + 2); if(ops >= 6 && fails >= 2) nontrivial();
}
/* A call blocked on the way: exact times. */
PROP_CASE(S05, blocked, "the call really waited") {
    S dir = scratch_dir(); Conn c; c.open(draw(3)); c.small(2048); int base = open_fds(); Item it = make(0, dir); int i = draw(2); bool snd = chance(1, 2); int64_t t0 = now(), dl = chance(1, 2) ? -1 : 1 + 2 * (int)draw(20), can = chance(1, 3) ? 2 * (int)draw(20) + 2 : -1, ev = 4 * (1 + (int)draw(10)) - 1 + 1; int what = draw(3); /* 0: makes it possible, 1: done by the peer, 2: hclose by the peer */ if(snd && what == 1) what = 0; if(dl == ev) dl++; if(can == ev) can += 2; if(can == dl) can++; ev += 0; if(can == ev) can++;
    S fill; if(snd) { fill.assign(1000000, 'f'); }
    int fillrc = 0; size_t filled = 0; if(snd) { /* fill the way with small sends until nothing more fits */ int fl = fcntl(c.fd[i], F_GETFL); (void)fl; while(true) { ssize_t k = ::send(c.fd[i], "f", 1, MSG_DONTWAIT); if(k < 0) break; filled++; } } (void)fillrc;
    int rc = -2, er = 0; int64_t at = -1; int co = go_fn([&] { errno = 0; rc = snd ? ipc_sendfd(c.h[i], it.fd, dl < 0 ? -1 : t0 + dl) : ipc_recvfd(c.h[i], dl < 0 ? -1 : t0 + dl); er = errno; at = now() - t0; }); CHECK(co >= 0, "go");
    int64_t end = ev; int expect = what == 0 ? 0 : what == 1 ? EPIPE : snd ? ECONNRESET : EPIPE; if(dl >= 0 && dl < end) { end = dl; expect = ETIMEDOUT; } if(can >= 0 && can < end) { end = can; expect = ECANCELED; } note("%s: deadline %d, cancel %d, event %d at %d: %s at %d", snd ? "sendfd" : "recvfd", (int)dl, (int)can, what, (int)ev, expect ? errname(expect) : "success", (int)end);
    int ph = c.h[!i]; bool pclosed = false; std::vector<int> got; 
    auto peer = [&] { msleep(t0 + ev); if(at >= 0 && what == 0 && snd) return; if(what == 0) { if(snd) { S g; size_t half = filled; CHECK(brecv_any(ph, half, &g, -1) == 0, "brecv: %s", errname(errno)); } else if(at < 0) CHECK(ipc_sendfd(ph, it.fd, -1) == 0, "sendfd: %s", errname(errno)); } else if(what == 1) CHECK(c.done(!i, -1) == 0, "done"); else { CHECK(hclose(ph) == 0, "hclose"); pclosed = true; } };
    auto canc = [&] { if(can >= 0) { msleep(t0 + can); CHECK(hclose(co) == 0, "hclose"); co = -1; } else msleep(t0 + std::max(ev, dl) + 2); };
    run_all({peer, canc}); CHECK(at >= 0, "still blocked"); if(co >= 0) CHECK(hclose(co) == 0, "hclose"); if(expect == 0) CHECK(rc >= 0, "%s instead of success", errname(er)); else if(expect == ECONNRESET) CHECK(rc == -1 && (er == ECONNRESET || er == EPIPE), "%d %s", rc, errname(er)); else CHECK(rc == -1 && er == expect, "%d %s instead of %s", rc, errname(er), errname(expect)); CHECK(at == end, "ended at %d instead of %d", (int)at, (int)end);
    if(expect == 0) { int r = rc; if(snd) { r = ipc_recvfd(ph, -1); CHECK(r >= 0, "recvfd: %s", errname(errno)); } verify(it, r); ::close(r); }
    CHECK(hclose(c.h[i]) == 0, "hclose"); if(!pclosed) CHECK(hclose(ph) == 0, "hclose"); ::close(it.fd); if(it.other >= 0) ::close(it.other); CHECK(open_fds() == base - 2, "%d descriptors too many", open_fds() - base + 2); if(end > 0) nontrivial(); label(snd ? "sendfd" : "recvfd"); label(expect ? errname(expect) : "success");
}
/* The other end is not the library: several descriptors in a message, descriptors on ordinary bytes, credentials. */
PROP_CASE(S05, foreign, "at least 2 messages with several descriptors or with descriptors on ordinary bytes") {
    S dir = scratch_dir(); int sv[2]; if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) inconclusive("socketpair"); int raw = sv[1]; if(chance(1, 4)) { int on = 1; if(setsockopt(sv[0], SOL_SOCKET, SO_PASSCRED, &on, sizeof on)) inconclusive("SO_PASSCRED"); label("credentials"); } int h = ipc_fromfd(sv[0]); CHECK(h >= 0, "ipc_fromfd"); int base = open_fds(), odd = 0, id = 0; if(chance(1, 4)) fi.eagain_pct = 20; bool err = false;
    struct B { char c; std::vector<std::shared_ptr<Item>> v; }; std::deque<B> q; std::vector<std::shared_ptr<Item>> all; int n = 4 + draw(20);
    auto count = [&](const char *w) { int k = base; for(auto &i : all) { if(i->fd >= 0) k++; if(i->other >= 0) k++; } CHECK(open_fds() == k, "%s: %d descriptors open, not %d", w, open_fds(), k); };
    while(n--) switch(draw(4)) {
    case 0: { if(q.size() > 60) break; int k = chance(1, 3) ? 1 : draw(chance(1, 8) ? 200 : 7), len = 1 + draw(chance(1, 2) ? 1 : 6); S d = gen_bytes(len); std::vector<std::shared_ptr<Item>> v; if(k > 6) { auto x = std::make_shared<Item>(make(id++, dir)); all.push_back(x); v.assign(k, x); label("very many descriptors"); } else for(int i = 0; i < k; ++i) { v.push_back(std::make_shared<Item>(make(id++, dir))); all.push_back(v.back()); }
        static char cb[CMSG_SPACE(sizeof(int) * 256)]; memset(cb, 0, sizeof cb); struct iovec iov = {(void*)d.data(), d.size()}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &iov; m.msg_iovlen = 1; if(k) { m.msg_control = cb; m.msg_controllen = CMSG_SPACE(sizeof(int) * k); struct cmsghdr *c = CMSG_FIRSTHDR(&m); c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(sizeof(int) * k); for(int i = 0; i < k; ++i) memcpy(CMSG_DATA(c) + i * sizeof(int), &v[i]->fd, sizeof(int)); }
        int ea = fi.eagain_pct; fi.eagain_pct = 0; ssize_t rc = sendmsg(raw, &m, MSG_DONTWAIT); fi.eagain_pct = ea; if(rc != (ssize_t)d.size()) inconclusive("sendmsg"); note("%d bytes, %d descriptors", len, k); for(int i = 0; i < len; ++i) { q.push_back({d[i], {}}); if(!i) q.back().v = v; } if(k && (k > 1 || len > 1)) odd++; break; }
    case 1: { if(q.empty()) { int rc = ipc_recvfd(h, now() + draw(5)); CHECK(rc == -1 && errno == (err ? ECONNRESET : ETIMEDOUT), "ipc_recvfd: %d %s", rc, errname(errno)); n = 0; break; }
        bool has = !q.front().v.empty(); if(!has && !chance(1, 4)) break; errno = 0; int rc = ipc_recvfd(h, -1), e = errno; note("recvfd of %zu: %d %s", q.front().v.size(), rc < 0 ? -1 : 0, rc < 0 ? errname(e) : ""); if(err) { CHECK(rc == -1 && e == ECONNRESET, "%d %s", rc, errname(e)); break; }
        if(!has) { CHECK(rc == -1 && e == EPROTO, "recvfd of ordinary data: %d %s", rc, errname(e)); err = true; label("EPROTO"); count("after a failed ipc_recvfd"); break; }
        if(q.front().v.size() > 1 && rc < 0) { /* refusing is fine too */ CHECK(e == EPROTO, "several descriptors: %s", errname(e)); err = true; } else { CHECK(rc >= 0, "ipc_recvfd: %s", errname(e)); verify(*q.front().v[0], rc); ::close(rc); } q.pop_front(); count("after ipc_recvfd"); break; }
    case 2: { if(q.empty()) break; size_t l = 1 + draw(q.size()); static char b[200]; int rc = brecv(h, b, l, -1); note("brecv %zu", l); if(err) { CHECK(rc == -1 && errno == ECONNRESET, "brecv: %s", errname(errno)); break; } CHECK(rc == 0, "brecv: %s", errname(errno)); for(size_t i = 0; i < l; ++i) { CHECK(b[i] == q.front().c, "wrong byte"); q.pop_front(); } count("after brecv over descriptors"); break; }
    case 3: { auto x = std::make_shared<Item>(make(id++, dir)); all.push_back(x); CHECK(ipc_sendfd(h, x->fd, -1) == 0, "ipc_sendfd: %s", errname(errno)); static char cb[1024]; char b[10]; struct iovec iov = {b, 10}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &iov; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb; int ea = fi.eagain_pct; fi.eagain_pct = 0; ssize_t rc = recvmsg(raw, &m, MSG_DONTWAIT); fi.eagain_pct = ea; CHECK(rc == 1, "ipc_sendfd has sent %zd bytes", rc); struct cmsghdr *c = CMSG_FIRSTHDR(&m); CHECK(c && c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS && c->cmsg_len == CMSG_LEN(sizeof(int)) && !CMSG_NXTHDR(&m, c), "ipc_sendfd has not sent exactly one descriptor"); int fd; memcpy(&fd, CMSG_DATA(c), sizeof fd); verify(*x, fd); ::close(fd); break; } }
    fi.eagain_pct = 0; for(auto &i : all) { if(i->fd >= 0) ::close(i->fd); if(i->other >= 0) ::close(i->other); i->fd = i->other = -1; } CHECK(hclose(h) == 0, "hclose"); ::close(raw); base -= 2; count("at the end"); if(odd >= 2) nontrivial();
}
