/* Case runner: generation, isolation, shrinking, replay, evidence. */
#include "rt.h"
#include <mutex>
#include <atomic>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_set>

/* ---------------------------------------------------------------- tape -- */
#define TAPE_MAX 60000
#define NOTE_MAX 24000
#define NLABELS 48
struct Slot {               /* shared between a worker and its case process */
    uint32_t ntape;
    uint32_t tape[TAPE_MAX];
    volatile int status;    /* 0 running, 1 ok, 2 failed, 3 inconclusive    */
    int nontrivial;
    char msg[1500];
    uint32_t nnote;
    char notes[NOTE_MAX];
    int nlabels;
    char labels[NLABELS][40];
};
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static Slot *slot;
static thread_local struct {
    bool replaying = false, record = true;
    const uint32_t *in = nullptr; size_t nin = 0, pos = 0;
    uint64_t s = 1;
    int rep = 0; size_t rpos = 0; std::vector<uint32_t> rv;  /* a stretch of choices made again and again */
} tp;
static bool g_verbose = false;
bool verbose(void) { return g_verbose; }

uint32_t draw(uint32_t n) {
    uint32_t raw;
    if(n < 1) n = 1;
    if(tp.rep == 2) { raw = tp.rpos < tp.rv.size() ? tp.rv[tp.rpos] : 0; tp.rpos++; return raw >= n ? raw % n : raw; }
    if(tp.replaying) raw = tp.pos < tp.nin ? tp.in[tp.pos] : 0;
    else raw = (uint32_t)((splitmix(tp.s) >> 32) * (uint64_t)n >> 32);
    if(raw >= n) raw %= n;
    tp.pos++; if(tp.rep == 1) tp.rv.push_back(raw);
    if(tp.record && slot && slot->ntape < TAPE_MAX) slot->tape[slot->ntape++] = raw;
    return raw;
}
void rep_start(void) { tp.rep = 1; tp.rv.clear(); }
void rep_again(void) { tp.rep = 2; tp.rpos = 0; }
void rep_stop(void) { tp.rep = 0; }
void tape_thread_seed(uint64_t seed) { tp.replaying = false; tp.record = false; tp.s = seed; }
int64_t range(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    if(span < 0xffffffffULL) return lo + draw((uint32_t)span + 1);
    uint64_t v = ((uint64_t)draw(0xffffffff) << 32) | draw(0xffffffff);
    return lo + (int64_t)(v % (span + 1));
}
bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num && num; }
size_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t t = 0; for(auto x : w) t += x;
    uint32_t r = draw(t); size_t i = 0;
    for(auto x : w) { if(r < x) return i; r -= x; ++i; }
    return 0;
}
size_t size_upto(size_t max) {
    if(!max) return 0;
    switch(weighted({4, 3, 2, 1})) {
    case 0: return draw((uint32_t)std::min<size_t>(max, 8) + 1);
    case 1: return draw((uint32_t)std::min<size_t>(max, 300) + 1);
    case 2: return draw((uint32_t)max + 1);
    default: return max - draw((uint32_t)std::min<size_t>(max, 3) + 1);
    }
}
size_t near_size(std::initializer_list<size_t> edges, size_t max) {
    if(chance(1, 2)) {
        std::vector<size_t> e(edges);
        size_t b = e[draw((uint32_t)e.size())];
        int64_t v = (int64_t)b + range(-3, 3);
        if(v < 0) v = 0;
        return std::min((size_t)v, max);
    }
    return size_upto(max);
}
std::string rand_bytes(size_t n) {
    uint64_t s = ((uint64_t)draw(1u << 30) << 8) ^ n;
    uint32_t mode = draw(8);
    std::string r(n, 0);
    for(size_t i = 0; i < n; ++i) {
        uint64_t z = splitmix(s);
        r[i] = mode == 0 ? 0 : mode == 1 ? (char)0xff : mode == 2 ? (char)('a' + z % 3) : (char)z;
    }
    return r;
}

/* ----------------------------------------------------------- reporting -- */
static std::string g_scratch;
static int g_scratch_pid = 0;
static void rmtree(const std::string &d) {
    /* Only ever called for directories made by scratch_dir(). */
    if(d.compare(0, 11, "/tmp/vdill.") != 0) return;
    std::string c = "/bin/rm -rf -- '" + d + "'";
    if(system(c.c_str())) {}
}
static thread_local std::string t_scratch; static thread_local bool t_thread;
std::string scratch_dir(void) {
    if(!t_scratch.empty()) return t_scratch;
    if(g_scratch.empty()) {
        char t[] = "/tmp/vdill.XXXXXX";
        if(!mkdtemp(t)) fail("mkdtemp failed");
        g_scratch = t; g_scratch_pid = getpid();
    }
    return g_scratch;
}
static void finish(int st) {
    slot->status = st;
    if(!g_scratch.empty() && getpid() == g_scratch_pid) rmtree(g_scratch);
    _exit(st == 1 ? 0 : 77);
}
void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    if(g_verbose) { fprintf(stderr, "FAIL: %s\n", slot->msg); }
    finish(2);
    abort();
}
void inconclusive(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    if(g_verbose) { fprintf(stderr, "INCONCLUSIVE: %s\n", slot->msg); }
    finish(3);
    abort();
}
void done_ok(void) { finish(1); }
static thread_local bool g_quiet = false;
static std::mutex g_notemx;
void rt_thread(uint64_t seed, bool quiet) { tape_thread_seed(seed); g_quiet = quiet; if(!g_scratch.empty()) { static std::atomic<int> n; t_scratch = g_scratch + "/t" + std::to_string(n++); mkdir(t_scratch.c_str(), 0700); } t_thread = true; }
bool rt_in_thread(void) { return t_thread; }
void note(const char *fmt, ...) {
    char b[2000];
    if(g_quiet && !g_verbose) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if(n < 0) return;
    if(n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n'; b[n] = 0;
    std::lock_guard<std::mutex> g(g_notemx);
    if(g_verbose) fputs(b, stderr);
    if(slot->nnote + n < NOTE_MAX) { memcpy(slot->notes + slot->nnote, b, n); slot->nnote += n; slot->notes[slot->nnote] = 0; }
}
void label(const char *name) {
    std::lock_guard<std::mutex> g(g_notemx);
    for(int i = 0; i < slot->nlabels; ++i) if(!strncmp(slot->labels[i], name, 39)) return;
    if(slot->nlabels < NLABELS) { strncpy(slot->labels[slot->nlabels], name, 39); slot->nlabels++; }
}
void nontrivial(bool y) { if(y) slot->nontrivial = 1; }
std::string hex(const void *p, size_t n, size_t max) {
    static const char d[] = "0123456789abcdef";
    std::string r; const uint8_t *b = (const uint8_t*)p;
    for(size_t i = 0; i < n && i < max; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
    if(n > max) r += "..";
    return r;
}
const char *errname(int e) {
    static const struct { int e; const char *n; } t[] = {{0, "0"},
    #define E(x) {x, #x},
    E(EBADF)E(EBUSY)E(ETIMEDOUT)E(ENOMEM)E(EMFILE)E(ENFILE)E(EINVAL)E(EMSGSIZE)E(ECONNRESET)E(ECANCELED)
    E(ENOTSUP)E(EPIPE)E(EPROTO)E(EAGAIN)E(EADDRINUSE)E(EADDRNOTAVAIL)E(ENODEV)E(ECONNREFUSED)E(EINTR)E(ENOENT)E(EEXIST)
    E(EACCES)E(ENAMETOOLONG)E(ENOTCONN)E(EHOSTUNREACH)E(ENETUNREACH)E(EAFNOSUPPORT)E(ENOTSOCK)E(EDESTADDRREQ)E(ENOTDIR)
    };
    for(auto &x : t) if(x.e == e) return x.n;
    static char b[20]; snprintf(b, sizeof b, "errno%d", e); return b;
}

/* -------------------------------------------------------- registration -- */
struct Prop { std::string id, sub, rule; void (*fn)(void); int cpu_s; };
static std::vector<Prop> &props() { static auto *v = new std::vector<Prop>; return *v; }
PropReg::PropReg(const char *id, const char *sub, void (*fn)(void), const char *rule, int cpu_s) {
    props().push_back({id, sub, rule, fn, cpu_s}); }

/* --------------------------------------------------------------- running */
struct Outcome { int st = 0; /* 1 ok 2 fail 3 inconclusive 4 crash 5 hang */ std::string msg; };
static const char *g_errdir = nullptr;
static std::string g_logfile;

/* What a case may allocate in addition to what is mapped at its start (the shadow memory of sanitizers included). */
static rlim_t data_limit() {
    static rlim_t lim = 0; if(lim) return lim; lim = RLIM_INFINITY; FILE *f = fopen("/proc/self/statm", "r"); if(!f) return lim;
    unsigned long long v[6]; int n = 0; while(n < 6 && fscanf(f, "%llu", &v[n]) == 1) ++n; fclose(f);
    if(n == 6) lim = (rlim_t)v[5] * sysconf(_SC_PAGESIZE) + ((rlim_t)3 << 30); return lim; }
static Outcome run_one(const Prop &p, uint64_t seed, const std::vector<uint32_t> *replay) {
    slot->ntape = 0; slot->status = 0; slot->nontrivial = 0; slot->msg[0] = 0; slot->nnote = 0; slot->notes[0] = 0; slot->nlabels = 0;
    memset(slot->labels, 0, sizeof slot->labels);
    fflush(NULL); rlim_t lim = data_limit();
    pid_t pid = fork();
    if(pid < 0) { Outcome o; o.st = 3; o.msg = "fork failed"; return o; }
    if(pid == 0) {
        setpgid(0, 0);
        tp.pos = 0; tp.s = seed; tp.record = true;
        if(replay) { tp.replaying = true; tp.in = replay->data(); tp.nin = replay->size(); }
        else tp.replaying = false;
        struct rlimit rl = {1024, 1024}; setrlimit(RLIMIT_NOFILE, &rl);
        struct rlimit dl = {lim, RLIM_INFINITY}; setrlimit(RLIMIT_DATA, &dl);
        struct rlimit cl = {0, 0}; setrlimit(RLIMIT_CORE, &cl);
        struct rlimit cpu = {(rlim_t)p.cpu_s, (rlim_t)p.cpu_s + 2}; setrlimit(RLIMIT_CPU, &cpu);
        signal(SIGPIPE, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGXCPU, SIG_DFL);
        alarm(p.cpu_s * 3);
        if(!g_verbose) {
            int fd = open(g_logfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); if(fd > 2) close(fd); }
        }
        if(draw(4) == 3) close(0); /* Descriptor 0 is as good as any other. */
        p.fn();
        done_ok();
    }
    int ws = 0;
    while(waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
    kill(-pid, SIGKILL);
    Outcome o;
    if(slot->status == 1 && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { o.st = 1; return o; }
    if(slot->status == 2) { o.st = 2; o.msg = slot->msg; return o; }
    if(slot->status == 3) { o.st = 3; o.msg = slot->msg; return o; }
    char b[200];
    if(WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGALRM)) {
        o.st = 5; snprintf(b, sizeof b, "no progress: the case used up its %s budget",
            WTERMSIG(ws) == SIGXCPU ? "CPU" : "time"); o.msg = b; return o; }
    if(WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) { o.st = 3; o.msg = "killed"; return o; }
    o.st = 4;
    if(WIFSIGNALED(ws)) snprintf(b, sizeof b, "crash: signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
    else snprintf(b, sizeof b, "crash: exit status %d", WEXITSTATUS(ws));
    o.msg = b;
    if(!g_verbose) {
        /* First informative lines of what the process printed (assertion, sanitizer). */
        FILE *f = fopen(g_logfile.c_str(), "r");
        if(f) {
            char l[400]; int n = 0;
            while(n < 6 && fgets(l, sizeof l, f)) {
                if(strstr(l, "ERROR:") || strstr(l, "WARNING: Thr") || strstr(l, "Assert") || strstr(l, "assert") || strstr(l, "    #") || strstr(l, "runtime error")) {
                    l[strcspn(l, "\n")] = 0; o.msg += " | "; o.msg += l; ++n; }
            }
            fclose(f);
        }
    }
    return o;
}
static bool bad(const Outcome &o) { return o.st == 2 || o.st == 4 || o.st == 5; }
static uint64_t hash_tape() {
    uint64_t h = 1469598103934665603ULL;
    for(uint32_t i = 0; i < slot->ntape; ++i) { h ^= slot->tape[i]; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}
static double nowsec() { struct timespec t; 
    extern int real_cgt(struct timespec*); real_cgt(&t); return t.tv_sec + t.tv_nsec * 1e-9; }
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
int real_cgt(struct timespec *t) { return __real_clock_gettime(CLOCK_MONOTONIC, t); }

static std::vector<uint32_t> shrink(const Prop &p, std::vector<uint32_t> t, Outcome &best, double maxsec) {
    double end = nowsec() + maxsec;
    long runs = 0;
    auto test = [&](const std::vector<uint32_t> &c) {
        if(nowsec() > end || runs > 1500) return false;
        ++runs;
        Outcome o = run_one(p, 0, &c);
        if(!bad(o) || (o.st == 5 && best.st != 5)) return false;
        best = o;
        return true;
    };
    bool again = true;
    while(again && nowsec() < end && runs < 1500) {
        again = false;
        for(size_t k = std::max<size_t>(t.size() / 2, 1); k >= 1; k /= 2) {
            for(size_t i = t.size(); i > 0 && nowsec() < end; ) {
                size_t b = i > k ? i - k : 0;
                std::vector<uint32_t> c(t.begin(), t.begin() + b);
                c.insert(c.end(), t.begin() + std::min(b + k, t.size()), t.end());
                if(c.size() < t.size() && test(c)) { t = c; again = true; i = std::min(b, t.size()); }
                else i = b;
            }
            if(k == 1) break;
        }
        for(size_t i = 0; i < t.size() && nowsec() < end; ++i) {
            if(!t[i]) continue;
            uint32_t orig = t[i];
            for(uint32_t v : {(uint32_t)0, orig / 2, orig - 1}) {
                if(v >= t[i]) continue;
                std::vector<uint32_t> c = t; c[i] = v;
                if(test(c)) { t = c; again = true; break; }
            }
        }
        while(!t.empty() && t.back() == 0) t.pop_back();
    }
    return t;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        char b[8];
        if(c == '"' || c == '\\') { r += '\\'; r += c; }
        else if(c == '\n') r += "\\n";
        else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ULL; for(unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

struct Result { /* per worker, written to a pipe file as text */
    long evals = 0, inconcl = 0;
    std::unordered_set<uint64_t> distinct, all;
    std::map<std::string, long> labels, incmsg;
    std::vector<std::string> samples;
    bool failed = false; long failcase = 0; std::vector<uint32_t> tape; Outcome out;
};

static const char *arg(int argc, char **argv, const char *k, const char *def) {
    for(int i = 1; i + 1 < argc; ++i) if(!strcmp(argv[i], k)) return argv[i + 1];
    return def;
}
static bool has(int argc, char **argv, const char *k) {
    for(int i = 1; i < argc; ++i) if(!strcmp(argv[i], k)) return true;
    return false;
}

static int do_replay(const char *file) {
    FILE *f = fopen(file, "r");
    if(!f) { fprintf(stderr, "cannot open %s\n", file); return 2; }
    char line[4096]; std::string id, sub; std::vector<uint32_t> t;
    while(fgets(line, sizeof line, f)) {
        char a[200];
        if(sscanf(line, "property %199s", a) == 1) id = a;
        else if(sscanf(line, "sub %199s", a) == 1) sub = a;
        else if(!strncmp(line, "tape", 4)) {
            unsigned v; while(fscanf(f, "%u", &v) == 1) t.push_back(v); break; }
    }
    fclose(f);
    for(auto &p : props()) if(p.id == id && p.sub == sub) {
        Outcome o = run_one(p, 0, &t);
        printf("outcome %d %s\n", o.st, o.msg.c_str());
        return bad(o) ? 1 : o.st == 1 ? 0 : 3;
    }
    fprintf(stderr, "no such property case: %s/%s\n", id.c_str(), sub.c_str());
    return 2;
}

int main(int argc, char **argv) {
    setvbuf(stdout, NULL, _IOLBF, 0);
    slot = (Slot*)mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_verbose = has(argc, argv, "-v");
    char lf[64]; snprintf(lf, sizeof lf, "/tmp/vdill-log.%d", (int)getpid()); g_logfile = lf;
    if(has(argc, argv, "--list")) { for(auto &p : props()) printf("%s %s\n", p.id.c_str(), p.sub.c_str()); return 0; }
    const char *rep = arg(argc, argv, "--replay", NULL);
    if(rep) { int rc = do_replay(rep); unlink(lf); return rc; }
    std::string id = arg(argc, argv, "--prop", ""), sub = arg(argc, argv, "--sub", "");
    uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), NULL, 10);
    long cases = atol(arg(argc, argv, "--cases", "1000"));
    double maxsec = atof(arg(argc, argv, "--maxsec", "120"));
    int jobs = atoi(arg(argc, argv, "--jobs", "8"));
    std::string out = arg(argc, argv, "--out", "-");
    std::string repdir = arg(argc, argv, "--replaydir", "/tmp");
    std::string variant = arg(argc, argv, "--variant", "asan");
    const char *one = arg(argc, argv, "--case", NULL);
    const Prop *P = nullptr;
    for(auto &p : props()) if(p.id == id && (sub.empty() || p.sub == sub)) { P = &p; break; }
    if(!P) { fprintf(stderr, "no such property: %s %s\n", id.c_str(), sub.c_str()); return 2; }
    uint64_t base = fnv(P->id + "/" + P->sub) ^ (seed * 0x9E3779B97F4A7C15ULL);
    auto caseseed = [&](long i) { uint64_t x = base + (uint64_t)i * 0xD1B54A32D192ED03ULL; return splitmix(x); };
    if(one) {
        Outcome o = run_one(*P, caseseed(atol(one)), NULL);
        printf("outcome %d %s\n%s", o.st, o.msg.c_str(), g_verbose ? "" : slot->notes);
        unlink(lf); return bad(o);
    }
    double start = nowsec(), end = start + maxsec;
    /* Shared progress: stop flag set by the first failing worker. */
    volatile int *stop = (volatile int*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[] = "/tmp/vdill.XXXXXX";
    if(!mkdtemp(tmpl)) return 2;
    std::string td = tmpl;
    std::vector<pid_t> kids;
    for(int w = 0; w < jobs; ++w) {
        pid_t k = fork();
        if(k == 0) {
            slot = (Slot*)mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            g_logfile = td + "/log" + std::to_string(w);
            Result r;
            for(long i = w; i < cases; i += jobs) {
                if(*stop || nowsec() > end) break;
                Outcome o = run_one(*P, caseseed(i), NULL);
                r.evals++;
                if(o.st == 3) { r.inconcl++; r.incmsg[o.msg]++; continue; }
                if(o.st == 5) { /* a loaded machine? once more before believing it */
                    Outcome o2 = run_one(*P, caseseed(i), NULL);
                    if(!bad(o2)) { r.inconcl++; r.incmsg[o.msg]++; continue; }
                    o = o2;
                }
                uint64_t h = hash_tape();
                r.all.insert(h);
                if(slot->nontrivial) r.distinct.insert(h);
                for(int l = 0; l < slot->nlabels; ++l) r.labels[slot->labels[l]]++;
                if(slot->nontrivial && r.samples.size() < 2 && slot->nnote < 3000) r.samples.push_back(slot->notes);
                if(bad(o)) {
                    r.failed = true; r.failcase = i; r.out = o;
                    r.tape.assign(slot->tape, slot->tape + slot->ntape);
                    *stop = 1;
                    break;
                }
            }
            FILE *f = fopen((td + "/r" + std::to_string(w)).c_str(), "w");
            if(!f) _exit(2);
            fprintf(f, "E %ld %ld\n", r.evals, r.inconcl);
            for(auto h : r.distinct) fprintf(f, "D %llx\n", (unsigned long long)h);
            for(auto h : r.all) fprintf(f, "A %llx\n", (unsigned long long)h);
            for(auto &l : r.labels) fprintf(f, "L %ld %s\n", l.second, l.first.c_str());
            for(auto &l : r.incmsg) fprintf(f, "I %ld %s\n", l.second, l.first.c_str());
            for(auto &s : r.samples) { std::string o2; for(char c : s) { if(c == '\n') o2 += "; "; else o2 += c; } fprintf(f, "S %s\n", o2.c_str()); }
            if(r.failed) { fprintf(f, "F %ld %d %zu", r.failcase, r.out.st, r.tape.size()); for(auto v : r.tape) fprintf(f, " %u", v); fprintf(f, "\n"); }
            fclose(f);
            _exit(0);
        }
        kids.push_back(k);
    }
    for(auto k : kids) { int ws; while(waitpid(k, &ws, 0) < 0 && errno == EINTR) {} }
    long evals = 0, inconcl = 0; std::unordered_set<uint64_t> distinct, all;
    std::map<std::string, long> labels, inc; std::vector<std::string> samples;
    struct F { long c; int st; std::vector<uint32_t> t; }; std::vector<F> fails;
    int missing = 0;
    for(int w = 0; w < jobs; ++w) {
        FILE *f = fopen((td + "/r" + std::to_string(w)).c_str(), "r");
        if(!f) { ++missing; continue; }
        char *line = NULL; size_t cap = 0;
        while(getline(&line, &cap, f) > 0) {
            line[strcspn(line, "\n")] = 0;
            long a, b; unsigned long long h; int off;
            if(line[0] == 'E' && sscanf(line, "E %ld %ld", &a, &b) == 2) { evals += a; inconcl += b; }
            else if(line[0] == 'D') { sscanf(line, "D %llx", &h); distinct.insert(h); }
            else if(line[0] == 'A') { sscanf(line, "A %llx", &h); all.insert(h); }
            else if(line[0] == 'L' && sscanf(line, "L %ld %n", &a, &off) >= 1) labels[line + off] += a;
            else if(line[0] == 'I' && sscanf(line, "I %ld %n", &a, &off) >= 1) inc[line + off] += a;
            else if(line[0] == 'S' && samples.size() < 6) samples.push_back(line + 2);
            else if(line[0] == 'F') {
                F x; char *q = line + 1; x.c = strtol(q, &q, 10); x.st = strtol(q, &q, 10); size_t n = strtoul(q, &q, 10);
                while(n--) x.t.push_back(strtoul(q, &q, 10));
                fails.push_back(x);
            }
        }
        free(line); fclose(f);
    }
    rmtree(td);
    bool violated = false; std::string replay, vmsg; int flaky = 0;
    std::sort(fails.begin(), fails.end(), [](const F &a, const F &b) { return a.t.size() < b.t.size(); });
    for(auto &x : fails) {
        Outcome o; o.st = x.st;
        auto confirm = [&](const std::vector<uint32_t> &t, Outcome &o) {
            int good = 0;
            for(int i = 0; i < 8 && good < 3 && good + (8 - i) >= 3; ++i) {
                Outcome q = run_one(*P, 0, &t);
                if(bad(q)) { ++good; o = q; }
            }
            return good >= 3;
        };
        if(!confirm(x.t, o)) { ++flaky; continue; }
        std::vector<uint32_t> t = shrink(*P, x.t, o, o.st == 5 ? 60 : 45);
        if(!confirm(t, o)) t = x.t;
        run_one(*P, 0, &t);
        std::string notes = slot->notes;
        replay = repdir + "/" + P->id + "-" + P->sub + "-" + variant + ".replay";
        FILE *f = fopen(replay.c_str(), "w");
        if(f) {
            fprintf(f, "property %s\nsub %s\nvariant %s\nseed %llu\ncase %ld\nmessage %s\n", P->id.c_str(), P->sub.c_str(), variant.c_str(),
                (unsigned long long)seed, x.c, o.msg.c_str());
            std::string o2; for(char c : notes) { o2 += c; if(c == '\n') o2 += "# "; }
            fprintf(f, "# %s\ntape %zu\n", o2.c_str(), t.size());
            for(auto v : t) fprintf(f, "%u ", v);
            fprintf(f, "\n"); fclose(f);
        }
        violated = true; vmsg = o.msg;
        break;
    }
    FILE *f = out == "-" ? stdout : fopen(out.c_str(), "w");
    if(!f) return 2;
    fprintf(f, "{\"property\":%s,\"sub\":%s,\"variant\":%s,\"evaluations\":%ld,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"inconclusive\":%ld,\"flaky\":%d,\"missing_workers\":%d,\"rule\":%s,\"wall_s\":%.2f,\n",
        jstr(P->id).c_str(), jstr(P->sub).c_str(), jstr(variant).c_str(), evals, all.size(), distinct.size(), inconcl, flaky, missing, jstr(P->rule).c_str(), nowsec() - start);
    fprintf(f, "\"labels\":{"); bool first = true;
    for(auto &l : labels) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(l.first).c_str(), l.second); first = false; }
    fprintf(f, "},\"inconclusive_reasons\":{"); first = true;
    for(auto &l : inc) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(l.first).c_str(), l.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for(auto &s : samples) { fprintf(f, "%s%s", first ? "" : ",\n", jstr(s.substr(0, 1500)).c_str()); first = false; }
    fprintf(f, "],\"violated\":%s,\"message\":%s,\"replay\":%s}\n", violated ? "true" : "false", jstr(vmsg).c_str(), jstr(replay).c_str());
    fclose(f);
    unlink(lf);
    return violated ? 1 : 0;
}
