#include "work.h"
#include "dnssrv.h"
#include "tls_keys.h"
#include "core_model.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
namespace {
Profile prof(int k) {
    Profile p; p.max_co = 5 + k % 5; p.max_ops = 6 + k % 7; p.main_ops = 8 + k % 9; p.jitter = true; p.eintr = k % 3 == 0;
    if(k % 2) { p.w_pread = 4; p.w_pwrite = 4; } return p;
}
std::atomic<long> ops, fdw, to;
std::mutex mx;
void in_thread(uint32_t seed, int progs) {
    rt_thread(seed, true);
    for(int i = 0; i < progs; ++i) { Stats s = run_program(prof(draw(100))); ops += s.ops; fdw += s.fdwaits; to += s.timeouts; vt.eintr_pct = 0; vt.jitter_late = 0; vt.jitter_early = false; }
}
size_t base_allocs; int base_fds;
static TlsEnv tls_env;
void baseline(const char *what) {
    CHECK(live_allocs() == base_allocs, "%s: %zu blocks of memory are still allocated, %zu before", what, live_allocs(), base_allocs);
}
}
PROP_CASE(C10, parallel, "three or more threads run random programs at the same time") {
    bool main_first = chance(1, 2);
    if(main_first) { Stats s = run_program(prof(draw(100))); (void)s; vt.eintr_pct = 0; vt.jitter_late = 0; vt.jitter_early = false; note("--- threads"); }
    /* one throw-away thread so that one-time initialization is done */
    std::thread([&] { rt_thread(1, true); int h = go_fn([] {}); hclose(h); }).join();
    base_allocs = live_allocs();
    int fds0 = open_fds(), maxn = 0;
    int rounds = 1 + draw(3);
    for(int r = 0; r < rounds; ++r) {
        int n = 1 + draw(6); if(n > maxn) maxn = n; std::vector<std::thread> t; std::vector<uint32_t> seeds; std::vector<int> progs;
        for(int i = 0; i < n; ++i) { seeds.push_back(draw(1u << 30)); progs.push_back(1 + draw(3)); note("thread %d: seed %u, %d programs", i, seeds[i], progs[i]); }
        for(int i = 0; i < n; ++i) t.emplace_back(in_thread, seeds[i], progs[i]);
        if(chance(1, 3)) { Stats s = run_program(prof(draw(100))); (void)s; vt.eintr_pct = 0; vt.jitter_late = 0; vt.jitter_early = false; for(auto &x : t) x.join(); base_allocs = live_allocs(); /* the main thread's own caches may have grown */ continue; }
        else for(auto &x : t) x.join();
        baseline("after the threads have exited"); 
    }
    (void)fds0;
    nontrivial(maxn >= 3 && ops > 50);
}
/* Steps taken alternately by threads, so that every cross-thread effect would be seen at a known point. */
PROP_CASE(C10, steps, "handles and descriptors with the same numbers live in two or more threads") {
    std::thread([&] { rt_thread(1, true); int h = go_fn([] {}); hclose(h); }).join();
    base_allocs = live_allocs(); base_fds = open_fds();
    int n = 2 + draw(3), nsteps = 10 + draw(40); std::vector<int> who, what; for(int i = 0; i < nsteps; ++i) { who.push_back(draw(n)); what.push_back(draw(9)); }
    std::vector<uint32_t> seeds; for(int i = 0; i < n; ++i) seeds.push_back(draw(1u << 30));
    std::vector<int64_t> clocks; for(int i = 0; i < n; ++i) clocks.push_back(1000000 + draw(1000000));
    int pfd[2]; CHECK(pipe2(pfd, O_NONBLOCK) == 0, "pipe");
    std::condition_variable cv; int at = 0; std::vector<int> nh(n, 0); std::atomic<int> rejected{0}, same{0};
    auto body = [&](int me) {
        rt_thread(seeds[me], false); vt_set(clocks[me]);
        struct Obj { int h, kind, a, b, cnt; }; std::vector<Obj> o; int64_t fired = 0; std::vector<int> count(200, 0);
        int maxh = 0; bool waiting_fd = false;
        for(int i = 0; i < nsteps; ++i) {
            std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return who[i] == me ? at == i : at >= i; });
            if(who[i] == me) {
                note("thread %d: step %d", me, what[i]);
                int64_t t = now(); CHECK(t == vt_now(), "now() in thread %d: %lld, clock %lld", me, (long long)t, (long long)vt_now());
                switch(what[i]) {
                case 0: case 1: { int k = (int)o.size() + 1; if(k >= 190) break; int h = go_fn([&count, k] { do { count[k]++; vt_advance(1); } while(yield() == 0); count[k] = -1; }); CHECK(h >= 0, "go"); for(auto &x : o) if(x.h == h || x.a == h || x.b == h) fail("thread %d: handle %d twice", me, h);
                    o.push_back({h, 0, -1, -1, 1}); break; }
                case 2: { int ch[2]; CHECK(chmake(ch) == 0, "chmake"); for(auto &x : o) for(int k = 0; k < 2; ++k) if(x.h == ch[k] || x.a == ch[k] || x.b == ch[k]) fail("thread %d: handle %d twice", me, ch[k]); o.push_back({-1, 1, ch[0], ch[1], 0}); break; }
                case 3: { yield(); for(size_t k = 0; k < o.size(); ++k) if(o[k].kind == 0 && o[k].h >= 0) { o[k].cnt++; CHECK(count[k + 1] == o[k].cnt, "thread %d: coroutine %zu ran %d times, %d expected", me, k, count[k + 1], o[k].cnt); } break; }
                case 4: { int64_t d = 1 + draw(50), t0 = now(); size_t nco = 0; for(auto &x : o) if(x.kind == 0 && x.h >= 0) nco++;
                    std::vector<int> before = count; int rc = msleep(t0 + d); CHECK(rc == 0 && now() >= t0 + d, "msleep"); if(!nco) CHECK(now() == t0 + d, "thread %d slept too long", me);
                    else vt_advance(0);
                    for(size_t k = 0; k < o.size(); ++k) if(o[k].kind == 0 && o[k].h >= 0) o[k].cnt = count[k + 1]; break; }
                case 5: { if(o.empty()) break; size_t k = draw(o.size()); if(o[k].kind == 0 && o[k].h >= 0) { CHECK(hclose(o[k].h) == 0, "thread %d: hclose(%d): %s", me, o[k].h, errname(errno)); CHECK(count[k + 1] == -1, "not finished"); o[k].h = -1; } break; }
                case 6: { /* numbers this thread does not have */
                    for(int h = 0; h < 40; ++h) { bool mine = false; for(auto &x : o) if(x.h == h || x.a == h || x.b == h) mine = true; if(mine) { same++; continue; }
                        int rc; errno = 0; switch(h % 3) { case 0: rc = hclose(h); break; case 1: rc = bundle_wait(h, 0); break; default: rc = hown(h); }
                        int e = errno; CHECK(rc == -1 && e == EBADF, "thread %d: handle %d is not its own: %d %s", me, h, rc, errname(e)); rejected++; } break; }
                case 7: { /* a message through the thread's own channel */
                    for(auto &x : o) if(x.kind == 1) { int v = 1000 * me + i, got = 0; int h = go_fn([&] { CHECK(chrecv(x.b, &got, sizeof got, -1) == 0, "chrecv"); }); CHECK(chsend(x.a, &v, sizeof v, -1) == 0, "chsend"); yield(); 
                        for(auto &y : o) if(y.kind == 0 && y.h >= 0) y.cnt = -7; 
                        CHECK(got == v, "thread %d received %d instead of %d", me, got, v); hclose(h); break; }
                    for(size_t k = 0; k < o.size(); ++k) if(o[k].cnt == -7) o[k].cnt = count[k + 1]; break; }
                case 8: { /* the shared pipe, used by each thread in turn */
                    char c = 'x'; int64_t dl = now() + 3; int rc = fdin(pfd[0], dl); CHECK(rc == -1 && errno == ETIMEDOUT, "thread %d: fdin of an empty pipe: %d %s", me, rc, errname(errno));
                    CHECK(write(pfd[1], &c, 1) == 1, "write"); rc = fdin(pfd[0], -1); CHECK(rc == 0, "thread %d: fdin of a readable pipe: %s", me, errname(errno)); CHECK(read(pfd[0], &c, 1) == 1, "read");
                    fdclean(pfd[0]); fdclean(pfd[1]);
                    for(size_t k = 0; k < o.size(); ++k) if(o[k].kind == 0 && o[k].h >= 0) o[k].cnt = count[k + 1]; break; }
                }
                for(size_t k = 0; k < o.size(); ++k) if(o[k].kind == 0 && o[k].h >= 0) o[k].cnt = count[k + 1];
                at++; cv.notify_all();
            }
        }
        std::unique_lock<std::mutex> l(mx); cv.wait(l, [&] { return at == nsteps + me; });
        for(size_t k = 0; k < o.size(); ++k) { if(o[k].kind == 1) { CHECK(hclose(o[k].a) == 0 && hclose(o[k].b) == 0, "hclose(channel)"); } else if(o[k].h >= 0) { CHECK(hclose(o[k].h) == 0, "hclose"); CHECK(count[k + 1] == -1, "not finished"); } }
        at++; cv.notify_all();
    };
    std::vector<std::thread> t; for(int i = 0; i < n; ++i) t.emplace_back(body, i);
    for(auto &x : t) x.join();
    CHECK(close(pfd[0]) == 0 && close(pfd[1]) == 0, "close");
    baseline("after the threads have exited");
    CHECK(open_fds() == base_fds, "%d descriptors open after the threads have exited, %d before", open_fds(), base_fds);
    nontrivial(rejected > 0 || same > 0);
}
PROP_CASE(C10, restart, "threads are started and exit many times, using every kind of resource") {
    std::thread([&] { rt_thread(1, true); int h = go_fn([] {}); hclose(h); }).join();
    base_allocs = live_allocs(); base_fds = open_fds();
    int n = 5 + draw(20); int first = -1; 
    for(int i = 0; i < n; ++i) {
        uint32_t sd = draw(1u << 30); int h0 = -1; 
        std::thread([&] {
            rt_thread(sd, true);
            int p[2]; CHECK(pipe2(p, O_NONBLOCK) == 0, "pipe");
            int h = go_fn([&] { int rc = fdin(p[0], now() + 50); CHECK(rc == 0 || errno == ETIMEDOUT || errno == ECANCELED, "fdin"); });
            h0 = h; std::vector<int> v; int k = draw(100); for(int j = 0; j < k; ++j) { int x = go_fn([] { msleep(now() + 5); }); CHECK(x >= 0, "go"); v.push_back(x); }
            if(draw(2)) CHECK(write(p[1], "x", 1) == 1, "write");
            int s[2]; CHECK(ipc_pair(s) == 0, "ipc_pair");
            char b[5]; CHECK(bsend(s[0], "hello", 5, -1) == 0 && brecv(s[1], b, 5, -1) == 0 && !memcmp(b, "hello", 5), "transfer");
            msleep(now() + draw(10));
            for(int x : v) CHECK(hclose(x) == 0, "hclose");
            CHECK(hclose(h) == 0, "hclose"); fdclean(p[0]); close(p[0]); close(p[1]);
            CHECK(hclose(s[0]) == 0 && hclose(s[1]) == 0, "hclose");
        }).join();
        if(first < 0) first = h0; else CHECK(h0 == first, "the first handle in a new thread was %d, in another thread %d", h0, first);
        baseline("after a thread has exited");
        CHECK(open_fds() == base_fds, "%d descriptors open after a thread has exited, %d before", open_fds(), base_fds);
    }
    nontrivial(n >= 5);
}

/* Objects of every kind in several threads at once, the library being used for the first time by all of them. */
namespace {
void files(void) { dns_files("nameserver 10.9.8.7\n", "10.1.2.3 first\n10.1.2.4 second another\nfd00::7 sixth\n", "hosts: files dns\n"); }
void lookups(int n) {
    vt.grace_timed = 3; vt.grace_inf = 3000; DnsSrv srv; bool net = chance(1, 3);
    if(net) srv.start([&](DnsQ q) { DnsPkt p; p.id = q.id; p.qname = q.name; p.qtype = q.type; if(q.type == T_A && q.name == "www.example.org") p.an.push_back({q.name, T_A, std::string("\x0a\x05\x06\x07", 4)}); else if(q.type == T_AAAA && q.name == "www.example.org") p.an.push_back({q.name, T_AAAA, std::string("\xfd\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x09", 16)}); srv.reply(q, p.encode(), draw(3)); });
    while(n--) { static const struct { const char *name; int mode; const char *a; bool net; } q[] = {{"first", IPADDR_IPV4, "10.1.2.3", false}, {"second", IPADDR_IPV4, "10.1.2.4", false}, {"another", IPADDR_IPV4, "10.1.2.4", false}, {"sixth", IPADDR_IPV6, "fd00::7", false}, {"www.example.org", IPADDR_IPV4, "10.5.6.7", true}, {"www.example.org", IPADDR_IPV6, "fd00::9", true}};
        auto &l = q[draw(6)]; if(l.net && !net) continue; struct ipaddr a[4]; memset(a, 0, sizeof a); int rc = ipaddr_remotes(a, 4, l.name, 80, l.mode, now() + 5000); char b[IPADDR_MAXSTRLEN]; CHECK(rc == 1, "%s: %d addresses %s", l.name, rc, rc < 0 ? errname(errno) : ""); CHECK(!strcmp(ipaddr_str(&a[0], b), l.a), "%s: %s", l.name, b); CHECK(ipaddr_port(&a[0]) == 80, "port"); }
    if(net) srv.stop(); ev.connect = nullptr; }
std::atomic<long> wops;
}
PROP_CASE(C10, objects, "at least two threads at a time use objects of every kind") {
    bool tls = chance(1, 2), warm = chance(1, 4); scratch_dir(); stk_files(); zoo_calls(); vt.deadlock = nullptr; int rounds = 2 + draw(2), fds = -1; size_t blocks = 0; long maxn = 0;
    std::thread([&] { rt_thread(1, true); int h = go_fn([] {}); hclose(h); }).join();
    if(warm) { note("main first"); files(); vt.grace_timed = 3; vt.grace_inf = 3000; work(2, tls, true); lookups(1); }
    for(int r = 0; r < rounds; ++r) {
        int n = 1 + draw(4); maxn = std::max<long>(maxn, n); std::vector<std::thread> t; struct Job { uint32_t seed; int ops, looks; bool net; }; std::vector<Job> js;
        for(int i = 0; i < n; ++i) { Job j; j.seed = draw(1u << 30); j.ops = draw(5); j.looks = chance(1, 2) ? draw(4) : 0; j.net = chance(1, 3); js.push_back(j); note("round %d, thread %d: seed %u, %d operations, %d lookups%s", r, i, j.seed, j.ops, j.looks, j.net ? ", network" : ""); }
        std::atomic<int> ready{0};
        for(auto j : js) t.emplace_back([&, j] { rt_thread(j.seed, true); files(); ready++; while(ready < n) std::this_thread::yield(); vt.grace_timed = j.net ? 3 : 0; vt.grace_inf = 3000; bool first = j.seed & 1; if(first) lookups(j.looks); work(j.ops, tls && chance(3, 4), j.net); wops += j.ops; if(!first) lookups(j.looks); });
        for(auto &x : t) x.join();
    }
    if(tls) label("tls"); if(maxn >= 2 && wops > 2) nontrivial(); (void)fds; (void)blocks;
}

/* The nested process of the case below leaves the harness's own objects behind. */
extern "C" int __lsan_is_turned_off(void) { return 1; }
/* Processes that use the library in some of their threads and then end in one way or another. */
PROP_CASE(C10, exit, "the process ends after threads other than the main one have used the library") {
    int n = draw(5); struct T { uint32_t seed; int kind, progs; }; std::vector<T> ts; for(int i = 0; i < n; ++i) { T t = {(uint32_t)draw(1u << 30), (int)weighted({4, 2, 2, 1}), 1 + (int)draw(2)}; ts.push_back(t); note("thread %d: seed %u, %s, %d programs", i, t.seed, t.kind == 0 ? "joined" : t.kind == 1 ? "left alive" : t.kind == 2 ? "leaves its objects behind" : "never uses the library", t.progs); }
    enum { NEVER, BEFORE, AFTER, BETWEEN }; int mainuse = draw(4), how = weighted({4, 2, 2, 2}); bool objs = chance(1, 2), conc = chance(1, 2); size_t at = n ? draw(n) : 0; uint32_t ms = draw(1u << 30); static const char *un[] = {"never", "first", "last", "in between"}, *hn[] = {"exit()", "exit() in a coroutine", "exit() in another thread", "pthread_exit()"};
    if(how == 2 && !n) how = 0; note("main thread: uses the library %s%s, threads %s, ends by %s", un[mainuse], objs ? ", leaves objects behind" : "", conc ? "together" : "one after another", hn[how]);
    fflush(stdout); pid_t pid = fork(); CHECK(pid >= 0, "fork");
    if(pid == 0) {
        alarm(40);
        auto mess = [](void) { int ch[2]; chmake(ch); for(int i = 0; i < 5; ++i) go_fn([] { while(yield() == 0) {} }); int h = go_fn([ch] { int v; chrecv(ch[0], &v, sizeof v, -1); }); (void)h; int s[2]; ipc_pair(s); go_fn([s] { char c; brecv(s[0], &c, 1, -1); }); yield(); int b = bundle(); bundle_go_fn(b, [] {}); hclose(b); };
        auto use = [&] { rt_thread(ms, true); run_program(prof(draw(100))); vt.eintr_pct = 0; vt.jitter_late = 0; vt.jitter_early = false; if(objs) mess(); };
        if(mainuse == BEFORE) use();
        std::vector<std::thread> v; std::atomic<int> parked{0}; int parks = 0;
        for(size_t i = 0; i < ts.size(); ++i) { T t = ts[i]; if(mainuse == BETWEEN && i == at) use();
            v.emplace_back([&, t] { if(t.kind != 3) in_thread(t.seed, t.progs); if(t.kind == 2) mess(); if(t.kind == 1) { parked++; for(;;) pause(); } });
            if(t.kind == 1) { parks++; v.back().detach(); if(!conc) while(parked < parks) usleep(100); } else if(!conc) v.back().join(); }
        for(auto &x : v) if(x.joinable()) x.join(); while(parked < parks) usleep(100);
        if(mainuse == AFTER || (mainuse == BETWEEN && at >= ts.size())) use();
        if(how == 3) { /* the process ends with its last thread */ if(parks) exit(0); new std::thread([] { usleep(500); }); pthread_exit(NULL); }
        if(how == 2) { std::thread([&] { rt_thread(ms, true); int h = go_fn([] {}); bundle_wait(h, -1); hclose(h); exit(0); }).join(); }
        if(how == 1) { go_fn([] { exit(0); }); for(;;) yield(); }
        exit(0);
    }
    int st; CHECK(waitpid(pid, &st, 0) == pid, "waitpid"); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process that ended by %s: %s %d", hn[how], WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    bool others = false; for(auto &t : ts) others = others || t.kind != 3; label(hn[how]); if(others) nontrivial();
}
