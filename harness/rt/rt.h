/* Runtime for property cases. See DESIGN.md. */
#ifndef VERIF_RT_H
#define VERIF_RT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <initializer_list>
#include <errno.h>
#include <string.h>
#include "co.h"

/* ---- choices ---------------------------------------------------------- */
uint32_t draw(uint32_t n);                     /* uniform in [0,n), n>=1    */
int64_t  range(int64_t lo, int64_t hi);        /* uniform in [lo,hi]        */
bool     chance(uint32_t num, uint32_t den);   /* true with prob num/den; shrinks to false */
size_t   weighted(std::initializer_list<uint32_t> w);
size_t   size_upto(size_t max);                /* biased to small and to limits */
size_t   near_size(std::initializer_list<size_t> edges, size_t max); /* around edges or random */
std::string rand_bytes(size_t n);              /* cheap: two draws          */
template<class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }

void rep_start(void), rep_again(void), rep_stop(void);  /* the choices made since rep_start are made again, the same */

/* ---- reporting -------------------------------------------------------- */
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if(!(c)) { int e_ = errno; (void)e_; fail(__VA_ARGS__); } } while(0)
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* case trace */
void label(const char *name);          /* counts the case under a class (once per case) */
void nontrivial(bool yes = true);      /* the case counts as non-trivial    */
void done_ok(void);                    /* end the case successfully now (exits the process) */
bool verbose(void);
void rt_thread(uint64_t seed, bool quiet);  /* own random choices for this thread, not recorded */
bool rt_in_thread(void);
[[noreturn]] void inconclusive(const char *fmt, ...);

const char *errname(int e);

/* ---- virtual time ----------------------------------------------------- */
int64_t vt_now(void);                  /* virtual milliseconds               */
void vt_advance(int64_t ms);           /* CPU-bound work took that long      */
struct VtConf {
    bool on = true;
    int grace_inf = 0;      /* real ms to wait before calling an infinite wait a deadlock */
    int grace_timed = 0;    /* real ms to wait before jumping to a deadline */
    int jitter_late = 0;    /* wake up to that much later than asked        */
    bool jitter_early = false; /* wake 1 ms early now and then (coarse clocks) */
    int eintr_pct = 0;      /* percentage of polls interrupted by a signal  */
    std::function<void()> deadlock;  /* default: fail */
    long polls = 0, jumps = 0;
};
extern thread_local VtConf vt;
void vt_set(int64_t ms);
/* true while the only runnable thing is the polling loop */

/* ---- faults and accounting ------------------------------------------- */
struct Fault {
    long alloc_fail_at = -1;   /* fail the n-th next allocation (0 = next)  */
    long alloc_fail_n = 1;     /* how many in a row                         */
    long fdmake_fail_at = -1;  /* fail the n-th next descriptor creation    */
    int  fdmake_errno = 24;
    long allocs = 0, fdmakes = 0;   /* counters                             */
    long alloc_failed = 0, fdmake_failed = 0;
    int  short_io = 0;         /* 0: off, else: max bytes of a transfer is drawn */
    int  short_pct = 50;
    int  eagain_pct = 0;
    bool off = false;
    char *lo = nullptr, *hi = nullptr; /* allocations and descriptors: only calls made on this part of a stack fail or count */
    int flood_fd = -1;       /* on this socket more data are always there...*/
    int flood_ms = 1;        /* ...and getting them takes that long         */
    long floods = 0; std::string flood_name; /* sender of the flood (datagrams) */
};
extern thread_local Fault fi;
/* The environment as the library sees it. */
struct ifaddrs; struct sockaddr;
struct Env {
    std::function<int(struct ifaddrs **)> getifaddrs; int ifaddrs_live = 0;   /* returns errno */
    std::string hostname = "host";
    std::function<std::string(const std::string &)> fopen;                    /* path of a replacement for /etc/..., empty: no such file */
    std::function<bool(int, const struct sockaddr *, unsigned, int &)> connect;/* true: handled, with that errno */
};
extern thread_local Env ev;
size_t live_allocs(void);      /* blocks the library currently holds         */
size_t live_bytes(void);
int open_fds(void);            /* descriptors open in this process           */
std::vector<int> fd_list(void);

/* ---- real functions --------------------------------------------------- */
extern "C" {
struct pollfd;
int __real_poll(struct pollfd *, unsigned long, int);
}

/* ---- coroutines as closures ------------------------------------------ */
extern "C" void clean_stack(void);
int go_fn(std::function<void()> f);                 /* go()                 */
int bundle_go_fn(int b, std::function<void()> f);
int go_mem_fn(std::function<void()> f, void *mem, size_t len);
int bundle_go_mem_fn(int b, std::function<void()> f, void *mem, size_t len);

/* ---- registration ----------------------------------------------------- */
struct PropReg {
    PropReg(const char *id, const char *sub, void (*fn)(void), const char *rule, int cpu_s = 10);
};
#define PROP_CASE(id, sub, rule) \
    static void case_##id##_##sub(void); \
    static PropReg reg_##id##_##sub(#id, #sub, case_##id##_##sub, rule); \
    static void case_##id##_##sub(void)

std::string scratch_dir(void);   /* created on demand, removed with the case */
std::string hex(const void *p, size_t n, size_t max = 48);
#endif
