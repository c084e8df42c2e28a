/* Replacements for what the library calls: time, polling, allocation, I/O. */
#include "rt.h"
#include <ifaddrs.h>
#include <stdio.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
#include <sys/time.h>
#include <poll.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <mutex>
#include <unordered_map>
#ifdef VERIF_ASAN
#include <sanitizer/asan_interface.h>
#endif

thread_local VtConf vt;
thread_local Fault fi;
thread_local Env ev;
static thread_local int64_t vt_ms = 5000000;

int64_t vt_now(void) { return vt_ms; }
void vt_advance(int64_t ms) { vt_ms += ms; }
void vt_set(int64_t ms) { vt_ms = ms; }

extern "C" {
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
time_t __real_time(time_t*);
int __real_epoll_wait(int, struct epoll_event*, int, int);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void*, size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t); int __real_mprotect(void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_recvmsg(int, struct msghdr*, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __real_send(int, const void*, size_t, int);
int __real_accept(int, struct sockaddr*, socklen_t*);
int __real_socket(int, int, int);
int __real_socketpair(int, int, int, int[2]);
int __real_dup(int);
int __real_dill_prologue(void **, void **, size_t, int, const char*, int);

/* ------------------------------------------------------------- time ---- */
unsigned long long verif_rdtsc(void) {
    if(!vt.on) return __builtin_ia32_rdtsc();
    return (unsigned long long)vt_ms * 2500000ULL;
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    if(!vt.on) return __real_clock_gettime(id, ts);
    ts->tv_sec = vt_ms / 1000; ts->tv_nsec = (vt_ms % 1000) * 1000000; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
    if(!vt.on) return __real_gettimeofday(tv, tz);
    tv->tv_sec = vt_ms / 1000; tv->tv_usec = (vt_ms % 1000) * 1000; return 0;
}
time_t __wrap_time(time_t *t) {
    if(!vt.on) return __real_time(t);
    time_t r = vt_ms / 1000; if(t) *t = r; return r;
}

/* Common part of epoll_wait/poll: `real` performs the poll with a real timeout. */
extern "C++" { template<class F> static int vpoll(int timeout, F real) {
    vt.polls++;
    if(vt.polls > 3000000) fail("livelock: more than 3000000 polls in one case");
    if(vt.eintr_pct && chance(vt.eintr_pct, 100)) {
        /* A signal arrives, possibly after a part of the waiting time. */
        if(timeout > 1 && draw(2) && real(0) == 0) vt_ms += draw(timeout < 5000 ? timeout : 5000);
        errno = EINTR; return -1;
    }
    int rc = real(0);
    if(rc != 0 || timeout == 0) return rc;
    int grace = timeout < 0 ? vt.grace_inf : vt.grace_timed;
    if(grace) { rc = real(grace); if(rc != 0) return rc; }
    if(timeout < 0) {
        if(vt.deadlock) { vt.deadlock(); return real(0); }
        fail("deadlock: nothing is ready, no timer is pending, waiting for ever");
    }
    vt.jumps++;
    int64_t t = timeout;
    if(vt.jitter_late && chance(1, 3)) t += draw(vt.jitter_late + 1);
    else if(vt.jitter_early && chance(1, 4)) t -= 1;
    vt_ms += t;
    return 0;
}}
#ifdef VERIF_TSAN
void __tsan_write_range(void *, unsigned long);
#endif
int __wrap_epoll_wait(int efd, struct epoll_event *evs, int n, int timeout) {
    if(!vt.on) return __real_epoll_wait(efd, evs, n, timeout);
    int rc = vpoll(timeout, [&](int t) { return __real_epoll_wait(efd, evs, n, t); });
#ifdef VERIF_TSAN
    { int e = errno; __tsan_write_range(evs, n * sizeof evs[0]); errno = e; }
#endif
    return rc;
}
int __wrap_poll(struct pollfd *fds, unsigned long n, int timeout) {
    if(!vt.on) return __real_poll(fds, n, timeout);
    return vpoll(timeout, [&](int t) { return __real_poll(fds, n, t); });
}

/* ------------------------------------------------------- allocation ---- */
}
static std::mutex &amx() { static std::mutex *m = new std::mutex; return *m; }
static std::unordered_map<void*, size_t> &amap() {
    static auto *m = new std::unordered_map<void*, size_t>; return *m; }
static size_t abytes = 0;
static void aput(void *p, size_t n) { if(!p) return; std::lock_guard<std::mutex> g(amx()); amap()[p] = n; abytes += n; }
static void adel(void *p) { if(!p) return; std::lock_guard<std::mutex> g(amx());
    auto it = amap().find(p); if(it != amap().end()) { abytes -= it->second; amap().erase(it); } }
size_t live_allocs(void) { std::lock_guard<std::mutex> g(amx()); return amap().size(); }
size_t live_bytes(void) { std::lock_guard<std::mutex> g(amx()); return abytes; }
static bool elsewhere() { char *p = (char*)__builtin_frame_address(0); return fi.off || (fi.hi && (p < fi.lo || p > fi.hi)); }
static bool alloc_fails() {
    if(elsewhere()) return false;
    fi.allocs++;
    if(fi.alloc_fail_at < 0) return false;
    if(fi.alloc_fail_at > 0) { fi.alloc_fail_at--; return false; }
    if(--fi.alloc_fail_n <= 0) { fi.alloc_fail_at = -1; fi.alloc_fail_n = 1; }
    fi.alloc_failed++;
    return true;
}
extern "C" {
void *__wrap_malloc(size_t n) {
    if(alloc_fails()) { errno = ENOMEM; return NULL; }
    void *p = __real_malloc(n); aput(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) {
    if(alloc_fails()) { errno = ENOMEM; return NULL; }
    void *p = __real_calloc(a, b); aput(p, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) {
    if(alloc_fails()) { errno = ENOMEM; return NULL; }
    void *p = __real_realloc(o, n); if(p || !n) { adel(o); aput(p, n); } return p; }
void __wrap_free(void *p) { adel(p); __real_free(p); }
int __wrap_mprotect(void *p, size_t n, int prot) {
    if(prot == 0 && alloc_fails()) { errno = ENOMEM; return -1; }
    return __real_mprotect(p, n, prot); }
int __wrap_posix_memalign(void **pp, size_t al, size_t n) {
    if(alloc_fails()) return ENOMEM;
    int rc = __real_posix_memalign(pp, al, n); if(!rc) aput(*pp, n); return rc; }

/* --------------------------------------------------------------- I/O --- */
static size_t shorten(size_t n) {
    if(!fi.short_io || n <= 1 || !chance(fi.short_pct, 100)) return n;
    size_t m = 1 + draw(fi.short_io);
    return m < n ? m : n;
}
static bool eagain() {
    if(fi.eagain_pct && chance(fi.eagain_pct, 100)) { errno = EAGAIN; return true; }
    return false;
}
static void flooded() { vt_ms += fi.flood_ms; if(++fi.floods > 100000) fail("the call goes on for ever as long as there are more data (%ld reads)", fi.floods); }
ssize_t __wrap_recv(int s, void *buf, size_t n, int fl) {
    if(fi.flood_fd == s) { flooded(); memset(buf, 'f', n); return n; }
    if(eagain()) return -1;
    return __real_recv(s, buf, shorten(n), fl); }
ssize_t __wrap_send(int s, const void *buf, size_t n, int fl) {
    if(eagain()) return -1;
    return __real_send(s, buf, shorten(n), fl); }
static int is_stream(int s) {
    int t = 0; socklen_t l = sizeof t;
    return getsockopt(s, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_STREAM; }
/* Runs f on a copy of the message header cut to at most k bytes. */
extern "C++" { template<class F> static ssize_t cutmsg(const struct msghdr *h, size_t k, F f) {
    struct msghdr c = *h;
    std::vector<struct iovec> v;
    for(size_t i = 0; i < h->msg_iovlen && k; ++i) {
        struct iovec e = h->msg_iov[i];
        if(e.iov_len > k) e.iov_len = k;
        k -= e.iov_len; v.push_back(e);
    }
    c.msg_iov = v.data(); c.msg_iovlen = v.size();
    return f(&c);
}}
static size_t msgtotal(const struct msghdr *h) {
    size_t n = 0; for(size_t i = 0; i < h->msg_iovlen; ++i) n += h->msg_iov[i].iov_len; return n; }
ssize_t __wrap_recvmsg(int s, struct msghdr *h, int fl) {
    if(fi.flood_fd == s) { flooded(); if(h->msg_name && !fi.flood_name.empty()) { memcpy(h->msg_name, fi.flood_name.data(), fi.flood_name.size()); h->msg_namelen = fi.flood_name.size(); } for(size_t i = 0; i < h->msg_iovlen; ++i) memset(h->msg_iov[i].iov_base, 'f', h->msg_iov[i].iov_len); return msgtotal(h); }
    if((fi.short_io || fi.eagain_pct) && is_stream(s)) {
        if(eagain()) return -1;
        size_t t = msgtotal(h), k = shorten(t);
        if(k < t) return cutmsg(h, k, [&](struct msghdr *c) {
            ssize_t r = __real_recvmsg(s, c, fl);
            h->msg_flags = c->msg_flags; h->msg_controllen = c->msg_controllen; h->msg_namelen = c->msg_namelen;
            return r; });
    }
    return __real_recvmsg(s, h, fl); }
ssize_t __wrap_sendmsg(int s, const struct msghdr *h, int fl) {
    if((fi.short_io || fi.eagain_pct) && is_stream(s)) {
        if(eagain()) return -1;
        size_t t = msgtotal(h), k = shorten(t);
        if(k < t) return cutmsg(h, k, [&](struct msghdr *c) { return __real_sendmsg(s, c, fl); });
    }
    return __real_sendmsg(s, h, fl); }
static bool fdmake_fails() {
    if(elsewhere()) return false;
    fi.fdmakes++;
    if(fi.fdmake_fail_at < 0) return false;
    if(fi.fdmake_fail_at > 0) { fi.fdmake_fail_at--; return false; }
    fi.fdmake_fail_at = -1; fi.fdmake_failed++;
    errno = fi.fdmake_errno; return true;
}
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) { return fdmake_fails() ? -1 : __real_accept(s, a, l); }
int __wrap_socket(int d, int t, int p) { return fdmake_fails() ? -1 : __real_socket(d, t, p); }
int __wrap_socketpair(int d, int t, int p, int sv[2]) { return fdmake_fails() ? -1 : __real_socketpair(d, t, p, sv); }
/* ------------------------------------------------ the environment ------ */
int __real_getifaddrs(struct ifaddrs **); void __real_freeifaddrs(struct ifaddrs *); FILE *__real_fopen(const char *, const char *); int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_getifaddrs(struct ifaddrs **i) {
    if(fdmake_fails()) return -1;
    if(!ev.getifaddrs) return __real_getifaddrs(i);
    int e = ev.getifaddrs(i); if(e) { errno = e; return -1; } if(*i) ev.ifaddrs_live++; return 0; }
void __wrap_freeifaddrs(struct ifaddrs *i) { if(!ev.getifaddrs) { __real_freeifaddrs(i); return; } if(i) ev.ifaddrs_live--; }
FILE *__wrap_fopen(const char *path, const char *mode) {
    if(!strncmp(path, "/etc/", 5) && ev.fopen) { if(fdmake_fails()) return NULL; std::string p = ev.fopen(path); if(p.empty()) { errno = ENOENT; return NULL; } return __real_fopen(p.c_str(), mode); }
    return __real_fopen(path, mode); }
int __wrap_connect(int s, const struct sockaddr *a, socklen_t l) { if(ev.connect) { int e = 0; if(ev.connect(s, a, l, e)) { if(!e) return 0; errno = e; return -1; } } return __real_connect(s, a, l); }
int __real_gethostname(char *b, size_t n);
int __wrap_gethostname(char *b, size_t n) { if(!ev.fopen) return __real_gethostname(b, n); snprintf(b, n, "%s", ev.hostname.c_str()); return 0; }
int __wrap_dup(int f) { return fdmake_fails() ? -1 : __real_dup(f); }

/* --------------------------------------------- stacks and sanitizer ---- */
void clean_stack(void);
int __wrap_dill_prologue(void **jb, void **ptr, size_t len, int bndl, const char *file, int line) {
#ifdef VERIF_ASAN
    void *mem = *ptr; clean_stack();
#endif
    int rc = __real_dill_prologue(jb, ptr, len, bndl, file, line);
#ifdef VERIF_ASAN
    /* Frames abandoned by the coroutine that used this stack before may have left poison. */
    if(rc >= 0 && *ptr) {
        char *top = (char*)*ptr;
        char *bot = mem ? (char*)mem + 64 : top - 250 * 1024;
        if(bot < top) __asan_unpoison_memory_region(bot, top - bot);
    }
#endif
    return rc;
}
}

/* go() in a function of the library leaves the sanitizer's marks around its alloca on the stack of the caller. */
extern "C" __attribute__((noinline)) void clean_stack(void) {
#ifdef VERIF_ASAN
    char *p = (char*)__builtin_frame_address(0); __asan_unpoison_memory_region(p - 40000, 40000 - 32);
#endif
}
int open_fds(void) { return (int)fd_list().size(); }
std::vector<int> fd_list(void) {
    std::vector<int> v;
    DIR *d = opendir("/proc/self/fd");
    if(!d) return v;
    int self = dirfd(d);
    while(struct dirent *e = readdir(d)) {
        if(e->d_name[0] == '.') continue;
        int fd = atoi(e->d_name);
        if(fd != self) v.push_back(fd);
    }
    closedir(d);
    return v;
}

/* --------------------------------------------------------- closures ---- */
static void tramp(void *p) {
    auto *f = (std::function<void()>*)p;
    (*f)();
    delete f;
}
template<class G> static int launch(std::function<void()> &&f, G g) {
    auto *p = new std::function<void()>(std::move(f));
    /* If the launch fails the body has not run. */
    int rc = g(p);
    if(rc < 0) { int e = errno; delete p; errno = e; }
    return rc;
}
int go_fn(std::function<void()> f) { return launch(std::move(f), [](void *p) { return co_go(tramp, p); }); }
int bundle_go_fn(int b, std::function<void()> f) {
    return launch(std::move(f), [&](void *p) { return co_bundle_go(b, tramp, p); }); }
int go_mem_fn(std::function<void()> f, void *mem, size_t len) {
    return launch(std::move(f), [&](void *p) { return co_go_mem(tramp, p, mem, len); }); }
int bundle_go_mem_fn(int b, std::function<void()> f, void *mem, size_t len) {
    return launch(std::move(f), [&](void *p) { return co_bundle_go_mem(b, tramp, p, mem, len); }); }
#ifdef VERIF_TSAN
extern "C" const char *__tsan_default_options(void) { return "halt_on_error=1:exitcode=66:history_size=4:report_thread_leaks=0:report_signal_unsafe=0:second_deadlock_stack=0"; }
#endif
