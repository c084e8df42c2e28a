#include "work.h"
#include "conn.h"
#include "store.h"
#include "tls_keys.h"
#include <algorithm>
#include <thread>
static TlsEnv tls_env;
namespace {
struct Use { size_t allocs, bytes; int fds; long tls; std::vector<int> nums; };
Use measure(void) { Use u; u.nums = free_numbers(); u.allocs = live_allocs(); u.bytes = live_bytes(); u.fds = open_fds(); u.tls = TlsEnv::live(); return u; }
}
PROP_CASE(C09, repeat, "the workload has at least 4 operations, one of which fails") {
    bool tls = chance(1, 6), net = chance(1, 4); if(tls) stk_files(); vt.grace_timed = net ? 3 : 0; vt.grace_inf = net ? 3000 : 0; int ops = 1 + draw(net ? 8 : 14); vt.deadlock = nullptr; scratch_dir(); wst = WorkStats();
    std::vector<Use> u; rep_start(); work(ops, tls, net); rep_stop(); long o = wst.ops, f = wst.failed; u.push_back(measure());
    for(int i = 0; i < 5; ++i) { note("--- again"); rep_again(); work(ops, tls, net); rep_stop(); u.push_back(measure()); }
    auto grows = [&](auto get) { for(size_t i = 1; i < u.size(); ++i) if(get(u[i]) <= get(u[i - 1])) return false; return true; };
    auto list = [&](auto get) { std::string s; for(auto &x : u) s += " " + std::to_string(get(x)); return s; };
    note("blocks%s, bytes%s, descriptors%s", list([](const Use &x) { return x.allocs; }).c_str(), list([](const Use &x) { return x.bytes; }).c_str(), list([](const Use &x) { return x.fds; }).c_str());
    CHECK(!grows([](const Use &x) { return x.allocs; }), "blocks of memory in use after every repetition of the same workload:%s", list([](const Use &x) { return x.allocs; }).c_str());
    CHECK(!grows([](const Use &x) { return x.bytes; }), "bytes of memory in use after every repetition of the same workload:%s", list([](const Use &x) { return x.bytes; }).c_str());
    CHECK(!grows([](const Use &x) { return x.tls; }), "blocks of memory used by OpenSSL after every repetition of the same workload:%s", list([](const Use &x) { return x.tls; }).c_str());
    for(size_t i = 1; i < u.size(); ++i) { CHECK(u[i].fds == u[0].fds, "descriptors open after every repetition of the same workload:%s", list([](const Use &x) { return x.fds; }).c_str());
        for(int n : u[i - 1].nums) if(!u[i].nums.empty() && !std::binary_search(u[i].nums.begin(), u[i].nums.end(), n)) fail("handle number %d has not been given back by repetition %zu", n, i); }
    if(tls) label("tls"); if(net) label("network"); if(o >= 4 && f) nontrivial();
}

/* More objects at once than any cache of the library holds. */
PROP_CASE(C09, many, "more than 70 coroutines or 35 connections with received data at once") {
    vt.grace_timed = 3; vt.grace_inf = 3000; vt.deadlock = nullptr; scratch_dir(); int nco = chance(2, 3) ? 1 + draw(200) : 0, nch = chance(1, 2) ? 1 + draw(100) : 0, nb = chance(1, 3) ? 1 + draw(60) : 0, nipc = chance(1, 3) ? 1 + draw(60) : 0, ntcp = chance(2, 3) ? 1 + draw(90) : 0, order = draw(3); bool blocked = chance(1, 2), partial = chance(1, 2), pre = chance(1, 4); if(nco > 70 || ntcp > 17) nontrivial();
    note("%d coroutines, %d channels, %d bundles, %d IPC pairs, %d TCP pairs", nco, nch, nb, nipc, ntcp); std::vector<Use> u; struct ipaddr a; int l = -1; if(ntcp) { CHECK(ipaddr_local(&a, "127.0.0.1", 0, IPADDR_IPV4) == 0, "ipaddr_local"); l = tcp_listen(&a, 200); if(l < 0) inconclusive("listen"); } std::vector<int> hs; hs.reserve(2000);
    auto round = [&] { hs.clear(); int ran = 0; for(int i = 0; i < nco; ++i) { int h = go_fn([&, i] { ran++; if(blocked || i % 3) msleep(-1); }); CHECK(h >= 0, "go: %s", errname(errno)); hs.push_back(h); }
        for(int i = 0; i < nch; ++i) { int c[2]; CHECK(chmake(c) == 0, "chmake"); hs.push_back(c[0]); hs.push_back(c[1]); } for(int i = 0; i < nb; ++i) { int b = bundle(); CHECK(b >= 0, "bundle"); for(int k = 0; k < i % 4; ++k) CHECK(bundle_go_fn(b, [] { msleep(-1); }) == 0, "bundle_go"); hs.push_back(b); }
        for(int i = 0; i < nipc + ntcp; ++i) { int p[2]; if(i < nipc) CHECK(ipc_pair(p) == 0, "ipc_pair: %s", errname(errno)); else { p[0] = tcp_connect(&a, -1); p[1] = p[0] < 0 ? -1 : tcp_accept(l, NULL, -1); if(p[1] < 0) inconclusive("connection"); }
            if(pre) for(int &h : p) { h = prefix_attach(h, 2, 0); CHECK(h >= 0, "prefix_attach"); } char b[100]; for(int d = 0; d < 2; ++d) { int n = 1 + i % 90; if(pre) CHECK(msend(p[d], b, n, -1) == 0 && mrecv(p[!d], b, sizeof b, -1) == n, "message"); else { CHECK(bsend(p[d], b, n, -1) == 0, "bsend"); int m = partial ? (n + 1) / 2 : n; CHECK(brecv(p[!d], b, m, -1) == 0, "brecv"); } } hs.push_back(p[0]); hs.push_back(p[1]); }
        if(order == 1) std::reverse(hs.begin(), hs.end()); if(order == 2) for(size_t i = 1; i < hs.size(); ++i) std::swap(hs[i], hs[(i * 7919) % (i + 1)]); for(int h : hs) CHECK(hclose(h) == 0, "hclose: %s", errname(errno)); };
    for(int i = 0; i < 5; ++i) { round(); u.push_back(measure()); }
    auto list = [&](auto get) { std::string s; for(auto &x : u) s += " " + std::to_string(get(x)); return s; };
    auto grows = [&](auto get) { for(size_t i = 1; i < u.size(); ++i) if(get(u[i]) <= get(u[i - 1])) return false; return true; };
    note("blocks%s, bytes%s", list([](const Use &x) { return x.allocs; }).c_str(), list([](const Use &x) { return x.bytes; }).c_str());
    CHECK(!grows([](const Use &x) { return x.allocs; }), "blocks of memory in use after every round with the same objects:%s", list([](const Use &x) { return x.allocs; }).c_str());
    CHECK(!grows([](const Use &x) { return x.bytes; }), "bytes of memory in use after every round with the same objects:%s", list([](const Use &x) { return x.bytes; }).c_str());
    for(size_t i = 1; i < u.size(); ++i) CHECK(u[i].fds == u[0].fds, "descriptors open after every round:%s", list([](const Use &x) { return x.fds; }).c_str()); if(l >= 0) hclose(l);
}
