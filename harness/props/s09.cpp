#include "dnssrv.h"
#include "conn.h"
#include <arpa/inet.h>
#include <algorithm>
#include <netdb.h>
typedef std::string S;
namespace {
int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
S raw_of(const struct ipaddr &a) { return ipaddr_family(&a) == AF_INET ? S((char*)&((sockaddr_in*)&a)->sin_addr, 4) : S((char*)&((sockaddr_in6*)&a)->sin6_addr, 16); }
S text(const S &r) { char b[64] = "?"; inet_ntop(r.size() == 4 ? AF_INET : AF_INET6, r.data(), b, sizeof b); return b; }
S texts(const std::vector<S> &v) { S s = "["; for(auto &x : v) s += (s.size() > 1 ? " " : "") + text(x); return s + "]"; }
S rnd_addr(int type) { S s(type == T_A ? 4 : 16, 0); for(auto &c : s) c = (char)draw(256); if(type == T_AAAA) { s[0] = 0x20; s[1] = 1; } else s[0] = 10; static int seq; seq++; s[s.size() - 2] = (char)(seq >> 8); s[s.size() - 1] = (char)seq; /* all different */ return s; }
S label_(void) { S s; int n = 1 + draw(chance(1, 10) ? 20 : 5); for(int i = 0; i < n; ++i) s += "abcxyz019-"[draw(i && i + 1 < n ? 10 : 9)]; return s; }
/* What the name server knows. */
struct Db { std::map<S, std::vector<S>> rec[2]; std::map<S, S> alias; bool chase = false; int junk = 0; };
int ti(int type) { return type == T_A ? 0 : 1; }
bool known(const Db &d, const S &n, int type) { auto a = d.alias.find(n); if(a != d.alias.end()) return true; auto i = d.rec[ti(type)].find(n); return i != d.rec[ti(type)].end() && !i->second.empty(); }
/* The answer to a question. */
DnsPkt answer(const Db &d, const DnsQ &q) { DnsPkt p; p.id = q.id; p.qname = q.name; p.qtype = q.type; p.compress = chance(3, 4); p.upper = chance(1, 5); S n = q.name; std::vector<Rec> junk; 
    if(d.junk) for(int k = draw(d.junk); k--;) { int t = chance(1, 2) ? q.type : (int[]){T_A, T_AAAA, T_TXT, T_MX}[draw(4)]; S o = t != q.type && chance(1, 2) ? n : "junk" + std::to_string(k) + ".example.org"; junk.push_back({o, t, t == T_A || t == T_AAAA ? rnd_addr(t) : t == T_TXT ? S("text") : S("mx.example.org")}); }
    if(q.type == T_A || q.type == T_AAAA) { for(int hop = 0; hop < 8; ++hop) { auto a = d.alias.find(n); if(a == d.alias.end()) break; p.an.push_back({n, T_CNAME, a->second}); n = a->second; if(d.chase) break; } if(!(d.chase && !p.an.empty())) { auto i = d.rec[ti(q.type)].find(n); if(i != d.rec[ti(q.type)].end()) for(auto &x : i->second) p.an.push_back({n, q.type, x}); } }
    for(auto &j : junk) { switch(draw(3)) { case 0: p.an.insert(p.an.begin() + draw(p.an.size() + 1), j); break; case 1: p.ns.push_back(j); break; default: p.ar.push_back(j); } }
    if(p.an.empty() && !d.rec[0].count(q.name) && !d.rec[1].count(q.name)) p.rcode = 3; return p; }
/* The first n of the addresses, the families in the order of the mode; the order within a family carries no meaning. */
bool same(const std::vector<S> &got, const std::vector<S> &all, size_t n) { if(got.size() != std::min(n, all.size())) return false; std::set<S> seen; for(size_t i = 0; i < got.size(); ++i) { if(got[i].size() != all[i].size() || !seen.insert(got[i]).second || std::find(all.begin(), all.end(), got[i]) == all.end()) return false; } return true; }
/* Makes one call and compares with the expectation. */
struct Call { S name; int mode, port; size_t n; int64_t dl; };
int resolve(const Call &c, std::vector<S> &got, int &er, int64_t &took) { std::vector<struct ipaddr> v(c.n + 2); for(auto &x : v) memset(&x, 0x5a, sizeof x); auto v0 = v; int64_t t = now(); errno = 0; std::unique_ptr<char[]> nm(new char[c.name.size() + 1]); memcpy(nm.get(), c.name.c_str(), c.name.size() + 1); bool one = c.n == 1 && chance(1, 2); int rc = one ? ipaddr_remote(&v[1], nm.get(), c.port, c.mode, c.dl) : ipaddr_remotes(&v[1], c.n, nm.get(), c.port, c.mode, c.dl); er = errno; took = now() - t;
    if(one) { if(rc == 0) rc = 1; else if(er == EADDRNOTAVAIL) rc = 0; } CHECK(rc <= (int)c.n, "%d addresses in an array of %zu", rc, c.n); CHECK(!memcmp(&v[0], &v0[0], sizeof v[0]) && !memcmp(&v[c.n + 1], &v0[0], sizeof v[0]), "written outside of the array"); got.clear();
    for(int i = 0; i < rc; ++i) { int f = ipaddr_family(&v[1 + i]); CHECK(f == AF_INET || f == AF_INET6, "element %d of %d has family %d", i, rc, f); CHECK(ipaddr_port(&v[1 + i]) == c.port, "port %d instead of %d", ipaddr_port(&v[1 + i]), c.port); CHECK(c.mode != IPADDR_IPV4 || f == AF_INET, "an IPv6 address in IPV4 mode"); CHECK(c.mode != IPADDR_IPV6 || f == AF_INET6, "an IPv4 address in IPV6 mode"); got.push_back(raw_of(v[1 + i])); } return rc; }
std::vector<int> order(int mode) { switch(mode) { case IPADDR_IPV4: return {T_A}; case IPADDR_IPV6: return {T_AAAA}; case IPADDR_PREF_IPV6: return {T_AAAA, T_A}; default: return {T_A, T_AAAA}; } }
int rnd_port() { return chance(1, 3) ? (int[]){1, 80, 65535}[draw(3)] : 1 + draw(65535); }
}
/* Records, aliases, search lists, hosts file: the result is known exactly. */
PROP_CASE(S09, records, "at least two addresses were resolved") {
    Db d; d.chase = chance(1, 4); d.junk = chance(1, 3) ? 5 : 0; vt.grace_inf = 3000; vt.grace_timed = 4; std::vector<S> search; S conf = chance(1, 6) ? "nameserver fd00::7\n" : "nameserver 10.9.8.7\n"; if(chance(1, 3)) conf = "# comment\n" + conf; int ns = chance(1, 3) ? draw(3) : 0; for(int i = 0; i < ns; ++i) search.push_back(label_() + "." + label_()); if(ns) { conf += "search"; for(auto &s : search) conf += " " + s; conf += "\n"; } int ndots = 1; if(chance(1, 5)) { ndots = 1 + draw(3); conf += "options ndots:" + std::to_string(ndots) + "\n"; }
    std::vector<S> names; int nn = 1 + draw(4); bool big = false; for(int i = 0; i < nn; ++i) { S n = label_(); if(chance(3, 4)) n += "." + label_(); if(chance(1, 3)) n += ".org"; if(isdigit(n[0])) n = "n" + n; S full = n; if(ns && chance(1, 3)) { full += "." + search[draw(ns)]; } names.push_back(n); S owner = lower(full); if(d.alias.count(owner) || d.rec[0].count(owner) || d.rec[1].count(owner)) continue; int hops = chance(1, 3) ? 1 + draw(2) : 0; while(hops--) { S t = label_() + ".alias" + std::to_string(d.alias.size()) + ".net"; d.alias[owner] = t; owner = t; } for(int t = 0; t < 2; ++t) { int k = draw(4); if(chance(1, 10)) { k = 20 + draw(60); big = true; } std::vector<S> v; while(k--) v.push_back(rnd_addr(t ? T_AAAA : T_A)); if(!v.empty() || chance(1, 2)) d.rec[t][owner] = v; } }
    /* the hosts file */ S hosts = chance(1, 2) ? "127.0.0.1 localhost\n::1 localhost ip6-localhost\n" : ""; std::map<S, std::vector<S>> hf[2]; int nh = chance(1, 3) ? draw(6) : 0; for(int i = 0; i < nh; ++i) { int t = draw(2); S a = rnd_addr(t ? T_AAAA : T_A); S n = chance(2, 3) ? pick(names) : label_() + ".lan"; hosts += text(a) + (chance(1, 2) ? "\t" : "  ") + n; hf[t][lower(n)].push_back(a); if(chance(1, 4)) { S al = label_() + "-alias"; hosts += " " + al; hf[t][lower(al)].push_back(a); names.push_back(al); } if(chance(1, 6)) hosts += " # comment"; hosts += "\n"; names.push_back(n); }
    bool filefirst = true; const char *nss = NULL; switch(draw(3)) { case 0: nss = "passwd: files\nhosts: files dns\n"; break; case 1: nss = "hosts: dns files\n"; filefirst = false; break; default: conf += chance(1, 2) ? "lookup file bind\n" : (filefirst = false, "lookup bind file\n"); } if(!nh) hf[0].clear(); note("%s", conf.c_str()); if(!hosts.empty()) note("hosts:\n%s", hosts.c_str()); dns_files(conf.c_str(), hosts.c_str(), nss); if(big) tcp_time();
    DnsSrv s; int64_t delay = chance(1, 2) ? 0 : draw(900); s.start([&](DnsQ q) { DnsPkt p = answer(d, q); S b = p.encode(); if(!q.tcp && b.size() > 512) { p.tc = true; if(chance(1, 2)) { p.an.clear(); p.ns.clear(); p.ar.clear(); } else while((b = p.encode()).size() > 512) { if(!p.ar.empty()) p.ar.pop_back(); else if(!p.ns.empty()) p.ns.pop_back(); else p.an.pop_back(); } b = p.encode(); label("tcp"); } s.reply(q, b, delay); });
    /* the model */ bool alias = false; auto dns = [&](const S &n, int type) { std::vector<S> c; S l = lower(n); int dots = std::count(l.begin(), l.end(), '.'); if(!l.empty() && l.back() == '.') l.pop_back(); if(dots >= ndots) c.push_back(l); for(auto &x : search) c.push_back(l + "." + lower(x)); if(dots < ndots) c.push_back(l); for(auto &x : c) if(known(d, x, type)) { S o = x; alias = d.alias.count(o); for(int h = 0; h < 10; ++h) { auto a = d.alias.find(o); if(a == d.alias.end()) break; o = a->second; } auto i = d.rec[ti(type)].find(o); return i == d.rec[ti(type)].end() ? std::vector<S>() : i->second; } return std::vector<S>(); };
    auto file = [&](const S &n, int type) { S l = lower(n); if(!l.empty() && l.back() == '.') l.pop_back(); auto i = hf[ti(type)].find(l); return i == hf[ti(type)].end() ? std::vector<S>() : i->second; };
    int calls = 1 + draw(4), fds = -1; size_t al = 0; for(int k = 0; k < calls; ++k) { Call c; c.name = chance(9, 10) ? pick(names) : label_() + ".nowhere"; if(chance(1, 12) && !nh) c.name += "."; if(chance(1, 12)) for(auto &x : c.name) if(chance(1, 2)) x = toupper(x); c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = chance(1, 4) ? 1 : 1 + draw(chance(1, 5) ? 200 : 8); c.dl = chance(1, 2) ? -1 : now() + 100000; std::vector<S> exp; for(int t : order(c.mode)) { alias = false; auto f = file(c.name, t), n = dns(c.name, t); auto &w = filefirst ? (f.empty() ? n : f) : (n.empty() && !alias /* an alias of nothing: the file doesn't matter any more */ ? f : n); for(auto &x : w) exp.push_back(x); } if(exp.size() > c.n) label("more than asked for");
        std::vector<S> got; int er; int64_t took; note("resolve %s mode %d, up to %zu", c.name.c_str(), c.mode, c.n); int rc = resolve(c, got, er, took); CHECK(rc >= 0, "resolving %s failed: %s", c.name.c_str(), errname(er)); if(!same(got, exp, c.n)) fail("%s in mode %d gives %s instead of %s", c.name.c_str(), c.mode, texts(got).c_str(), texts(exp).c_str()); if(exp.size() >= 2) nontrivial(); if(exp.empty()) label("no address");
        int f = open_fds(); (void)al; if(fds < 0 || big) fds = f; else CHECK(f <= fds, "descriptors leak: %d, %d", fds, f); if(f < fds) fds = f; }
    s.stop();
}
/* Answers that are late, wrong or missing. */
PROP_CASE(S09, trouble, "always") {
    Db d; vt.grace_inf = 3000; vt.grace_timed = 4; dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", chance(1, 2) ? "hosts: files dns\n" : NULL); S name = "www.example.org"; std::set<S> genuine; for(int t = 0; t < 2; ++t) { std::vector<S> v; int k = draw(4); while(k--) { v.push_back(rnd_addr(t ? T_AAAA : T_A)); genuine.insert(v.back()); } d.rec[t][name] = v; } enum { LATE, SILENT, RCODE, GARBAGE, MUTATED, SPOOF, CUT, CLOSED, TCPBAD, LOOP, ECHO, NKIND }; int kind = draw(NKIND); static const char *nm[] = {"late", "silent", "rcode", "garbage", "mutated", "spoofed", "cut", "closed port", "bad tcp", "loop", "query returned"}; label(nm[kind]); note("%s", nm[kind]); DnsSrv s; int64_t delay = 0; int sub = draw(6), rcode = 1 + draw(15); bool good = chance(1, 2), first = chance(1, 2); if(kind == TCPBAD) tcp_time(); S bad = "6666"; bool any = false; int64_t gd = draw(30);
    if(kind == LATE) delay = 1 + draw(chance(1, 3) ? 30000 : 4000);
    s.start([&](DnsQ q) { DnsPkt p = answer(d, q); p.upper = false; S b = p.encode(); switch(kind) {
        case LATE: s.reply(q, b, delay); break; case SILENT: break; case RCODE: if(chance(1, 2)) { p.an.clear(); p.rcode = rcode; } else p.rcode = rcode; s.reply(q, p.encode(), gd); break;
        case GARBAGE: { int k = 1 + draw(3); while(k--) s.reply(q, gen_bytes(chance(1, 2) ? draw(12) : draw(600)), draw(20)); if(good) s.reply(q, b, 20 + gd); break; }
        case MUTATED: { int k = 1 + draw(4); while(k-- && !b.empty()) switch(draw(4)) { case 0: b[draw(b.size())] = (char)draw(256); break; case 1: b[draw(b.size())] ^= 1 << draw(8); break; case 2: if(b.size() > 14) { size_t o = 12 + draw(b.size() - 13); b[o] = (char)0xC0; b[o + 1] = (char)draw(256); } break; default: b[4 + draw(8)] = (char)draw(chance(1, 2) ? 4 : 256); } any = true; s.reply(q, b, gd); break; }
        case SPOOF: { DnsPkt x = p; x.an.clear(); x.an.push_back({q.name, q.type, q.type == T_A ? bad : bad + bad + bad + bad}); switch(draw(3)) { case 0: x.id ^= 1 + draw(65535); break; case 1: x.qname = "www.example.com"; x.an[0].name = x.qname; break; default: x.qtype = q.type == T_A ? T_AAAA : T_A; x.an[0].type = x.qtype; x.an[0].data = x.qtype == T_A ? bad : bad + bad + bad + bad; } s.reply(q, x.encode(), 0); if(good) s.reply(q, b, gd); break; }
        case CUT: s.reply(q, b.substr(0, draw(b.size())), gd); if(good) s.reply(q, b, gd + 1); break;
        case LOOP: { DnsPkt x = p; x.compress = false; S e = x.encode(); /* the owner of a record points at itself */ size_t o = 12 + name.size() + 2 + 4; if(o + 2 < e.size()) { e.replace(o, name.size() + 2, S("\xC0") + (char)(o & 0xff)); e[o] = (char)(0xC0 | o >> 8); } any = true; s.reply(q, e, gd); break; }
        case ECHO: s.reply(q, q.raw, gd); break;
        case TCPBAD: if(!q.tcp) { p.tc = true; p.an.clear(); s.reply(q, p.encode(), 0); } else switch(sub) { case 0: ::shutdown(q.conn, SHUT_RDWR); break; case 1: ::send(q.conn, "\0\5abc", 5, MSG_NOSIGNAL); ::shutdown(q.conn, SHUT_WR); break; case 2: ::send(q.conn, "\0\3abc", 5, MSG_NOSIGNAL); break; case 3: { p.id ^= 1; s.reply(q, p.encode(), 0); break; } case 4: break; default: { S m = answer(d, q).encode(); m = S(1, (char)(m.size() >> 8)) + (char)m.size() + m; for(size_t i = 0; i < m.size(); i += 40) { S x = m.substr(i, 40); int c = q.conn; s.cos.push_back(go_fn([c, x, i] { if(msleep(now() + 1 + i) == 0) ::send(c, x.data(), x.size(), MSG_NOSIGNAL); })); } } } break; } });
    if(kind == CLOSED) s.close_udp(); 
    Call c; c.name = name; c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = 1 + draw(8); int64_t t = now(); bool cancel = chance(1, 5); int64_t limit = chance(1, 8) ? 0 : 1 + draw(chance(1, 3) ? 20000 : 200); c.dl = cancel ? -1 : limit ? t + limit : 0; std::vector<S> got; int er = 0, rc = -2; int64_t took = -1; int f0 = open_fds();
    if(cancel) { int h = go_fn([&] { rc = resolve(c, got, er, took); }); CHECK(h >= 0, "go"); msleep(t + limit); bool fin = rc != -2; CHECK(hclose(h) == 0, "hclose"); CHECK(rc != -2, "not finished"); if(!fin) { CHECK(rc == -1 && er == ECANCELED, "cancelled: %d %s", rc, rc < 0 ? errname(er) : ""); label("cancelled"); } } else { rc = resolve(c, got, er, took); CHECK(took <= limit, "deadline %d, took %d", (int)limit, (int)took); }
    note("deadline %d%s -> %d %s after %d", (int)limit, cancel ? " (cancel)" : "", rc, rc < 0 ? errname(er) : "", (int)took); if(rc < 0) { CHECK(er != 0, "no errno"); if(er == ETIMEDOUT) CHECK(took == limit, "timed out at %d instead of %d", (int)took, (int)limit); } if(!any) for(auto &g : got) CHECK(genuine.count(g), "%s is not an address of the host", text(g).c_str());
    std::vector<S> exp; for(int ty : order(c.mode)) for(auto &x : d.rec[ti(ty)][name]) exp.push_back(x); int queries = s.log.size(); 
    if(kind == LATE && !cancel && delay <= 1900) { int need = 0; size_t have = 0; for(int ty : order(c.mode)) { if(have >= c.n && need) break; need++; have += d.rec[ti(ty)][name].size(); } /* names without records are asked once only: no search list */ int64_t total = need * delay; if(total < limit) { if(rc < 0 || !same(got, exp, c.n)) fail("answers after %d ms give %d %s %s instead of %s", (int)delay, rc, rc < 0 ? errname(er) : "", texts(got).c_str(), texts(exp).c_str()); CHECK(took == total, "%d answers after %d ms took %d", need, (int)delay, (int)took); } else CHECK((rc == -1 && er == ETIMEDOUT), "answers too late: %d %s", rc, rc < 0 ? errname(er) : ""); }
    if(kind == SILENT && !cancel) CHECK((rc == -1 && er == ETIMEDOUT) || (rc == 0 && took >= 5000 /* all attempts made */), "no answer: %d %s", rc, rc < 0 ? errname(er) : ""); if((kind == SPOOF || kind == GARBAGE) && !cancel && good && limit > 200) { if(rc >= 0 && !same(got, exp, c.n) && kind == SPOOF) fail("with a spoofed answer before: %s instead of %s", texts(got).c_str(), texts(exp).c_str()); }
    int f1 = open_fds(); for(int k = 0; k < 3; ++k) { } CHECK(kind == TCPBAD || f1 <= f0 + 1, "descriptors leak: %d, then %d", f0, f1);
    /* the next call is not affected */ kind = LATE; delay = 0; if(s.udp >= 0) { c.dl = now() + 100000; c.n = 50; exp.clear(); for(int ty : order(c.mode)) for(auto &x : d.rec[ti(ty)][name]) exp.push_back(x); rc = resolve(c, got, er, took); if(rc < 0 || !same(got, exp, c.n)) fail("the next call: %d %s, %s instead of %s", rc, rc < 0 ? errname(er) : "", texts(got).c_str(), texts(exp).c_str()); } (void)queries; (void)first;
    s.stop(); nontrivial();
}
/* Several coroutines resolve at the same time; answers come in any order. */
PROP_CASE(S09, parallel, "always") {
    Db d; vt.grace_inf = 3000; vt.grace_timed = 4; dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", NULL); int n = 2 + draw(5); std::vector<S> names; for(int i = 0; i < n; ++i) { S x = "h" + std::to_string(i) + ".example.org"; names.push_back(x); for(int t = 0; t < 2; ++t) { std::vector<S> v; int k = draw(4); while(k--) v.push_back(rnd_addr(t ? T_AAAA : T_A)); d.rec[t][x] = v; } } DnsSrv s; s.start([&](DnsQ q) { DnsPkt p = answer(d, q); s.reply(q, p.encode(), draw(50)); }); std::vector<std::function<void()>> fs; int fin = 0;
    for(int i = 0; i < n; ++i) { Call c; c.name = names[draw(n)]; c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = 1 + draw(8); c.dl = chance(1, 4) ? now() + 5 + draw(60) : -1; bool dl = c.dl >= 0; fs.push_back([&, c, dl] { std::vector<S> got, exp; int er; int64_t took; int rc = resolve(c, got, er, took); for(int ty : order(c.mode)) for(auto &x : d.rec[ti(ty)][c.name]) exp.push_back(x); if(rc < 0) CHECK(dl && er == ETIMEDOUT, "resolving failed: %s", errname(er)); else if(!same(got, exp, c.n)) fail("%s in mode %d gives %s instead of %s", c.name.c_str(), c.mode, texts(got).c_str(), texts(exp).c_str()); fin++; }); }
    run_all(fs); CHECK(fin == n, "not all finished"); s.stop(); nontrivial();
}
/* Files that are missing, and names of the wrong form. */
PROP_CASE(S09, setup, "always") {
    vt.grace_timed = 4; vt.grace_inf = 3000; int what = draw(5); const char *resolv = what == 0 ? NULL : what == 3 ? "" : "nameserver 10.9.8.7\n", *hosts = what == 1 ? NULL : what == 4 ? "garbage in the file\n\xff\xfe\n999.1.2.3 x\n::: y\n10.0.0.1\n" : "127.0.0.1 localhost\n", *nss = chance(1, 2) ? NULL : chance(1, 2) ? "" : "hosts: nonsense [!UNAVAIL=return] files dns\n"; dns_files(resolv, hosts, nss); DnsSrv s; Db d; d.rec[0]["www.example.org"] = {S("\1\2\3\4")}; s.start([&](DnsQ q) { s.reply(q, answer(d, q).encode(), 0); }); label((const char*[]){"no resolv.conf", "no hosts", "odd name", "empty resolv.conf", "odd hosts"}[what]); Call c; c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = 1 + draw(3); c.dl = now() + 1000; c.name = "www.example.org";
    if(what == 3) { auto old = ev.connect; ev.connect = [](int, const struct sockaddr *, unsigned, int &e) { e = ECONNREFUSED; return true; }; }
    if(what == 2) switch(draw(8)) { case 0: c.name = ""; break; case 1: c.name = "."; break; case 2: c.name = S(64, 'a') + ".org"; break; case 3: c.name = gen_from("a.", 260 + draw(800)); break; case 4: c.name = "a..b"; break; case 5: c.name = gen_bytes(1 + draw(20)); for(auto &x : c.name) if(!x) x = 'x'; break; case 6: c.name = S(3 + draw(300), 'b'); break; default: c.name = chance(1, 2) ? "::1" : "1.2.3.4"; c.mode = c.name == "::1" ? IPADDR_IPV4 : IPADDR_IPV6; }
    std::vector<S> got; int er; int64_t took; note("%s, mode %d", hex(c.name.data(), c.name.size()).c_str(), c.mode); int rc = resolve(c, got, er, took); note("-> %d %s", rc, rc < 0 ? errname(er) : ""); if(rc < 0) CHECK(er != 0, "no errno"); if(what == 0) CHECK(rc < 0, "success without resolv.conf: %d", rc); if(c.name == "::1" || c.name == "1.2.3.4") CHECK(rc == 0, "a literal of the other family: %d %s", rc, rc < 0 ? errname(er) : "");
    if(what == 4 && c.mode != IPADDR_IPV6) CHECK(rc == 1 && got[0] == S("\1\2\3\4"), "resolving with a strange hosts file: %d %s", rc, rc < 0 ? errname(er) : "");
    /* once the files are there everything works */ dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", NULL); if(what == 0 || what == 1) { c.mode = IPADDR_IPV4; c.name = "www.example.org"; c.dl = now() + 1000; rc = resolve(c, got, er, took); if(what == 0 || rc >= 0) CHECK(rc == 1 && got[0] == S("\1\2\3\4"), "afterwards: %d %s", rc, rc < 0 ? errname(er) : ""); } s.stop(); nontrivial();
}
/* The identifier and the source port of a question can't be foreseen by somebody who knows the state of random(). */
PROP_CASE(S09, secret, "always") {
    vt.grace_timed = 4; vt.grace_inf = 3000; dns_files("nameserver 10.9.8.7\n", "127.0.0.1 localhost\n", NULL); DnsSrv s; Db d; d.rec[0]["www.example.org"] = {S("\1\2\3\4")}; std::vector<std::pair<int, int>> sent; s.start([&](DnsQ q) { sent.push_back({q.id, ntohs(q.from.sin_port)}); s.reply(q, answer(d, q).encode(), 0); }); unsigned seed = draw(1000000); int warm = draw(3); Call c; c.mode = IPADDR_IPV4; c.port = 80; c.n = 1; c.dl = -1; c.name = "www.example.org"; std::set<std::pair<int, int>> seen; int rounds = 4;
    for(int r = 0; r < rounds; ++r) { srandom(seed); srand(seed); for(int i = 0; i < warm; ++i) random(); sent.clear(); std::vector<S> got; int er; int64_t took; int rc = resolve(c, got, er, took); CHECK(rc == 1, "resolve: %d", rc); CHECK(sent.size() == 1, "%zu questions", sent.size()); seen.insert(sent[0]); }
    CHECK(seen.size() > 1, "every one of %d questions has the identifier %d and comes from the port %d", rounds, sent[0].first, sent[0].second); s.stop(); nontrivial();
}
/* Name servers that don't answer and datagrams that are lost. */
PROP_CASE(S09, servers, "a server doesn't answer or a datagram is lost") {
    vt.grace_timed = 4; vt.grace_inf = 3000; Db d; S name = "www.example.org"; for(int t = 0; t < 2; ++t) { std::vector<S> v; int k = draw(4); while(k--) v.push_back(rnd_addr(t ? T_AAAA : T_A)); d.rec[t][name] = v; } int ns = 1 + draw(3); S conf; bool good = false, bad = false; int before = 0; for(int i = 0; i < ns; ++i) { int k = draw(4); S a = k == 0 ? "10.9.8.5" : k == 1 ? (chance(1, 3) ? "10.9.8.4" : "10.9.8.6") : chance(1, 4) ? (i & 1 ? "fd00::8" : "fd00::7") : i & 1 ? "10.9.8.8" : "10.9.8.7"; conf += "nameserver " + a + "\n"; if(k >= 2) good = true; else { bad = true; if(!good) before += k == 0; } } int tmo = 5, att = 2; if(chance(1, 3)) { tmo = 1 + draw(6); att = 1 + draw(3); conf += "options timeout:" + std::to_string(tmo) + " attempts:" + std::to_string(att) + "\n"; } int lose = chance(1, 2) ? draw(att) : 0 /* losses that the attempts make up for */; if(!good) lose = 0; std::map<std::pair<S, int>, int> lost; dns_files(conf.c_str(), "127.0.0.1 localhost\n", NULL); note("%slose %d", conf.c_str(), lose); int late = 0, nlost = 0; bool resp = chance(1, 2);
    DnsSrv s; s.start([&](DnsQ q) { auto &l = lost[{q.name, q.type}]; if(!q.tcp && l < lose) { l++; nlost++; return; } s.reply(q, answer(d, q).encode(), 0); }); (void)late; (void)resp;
    int calls = 1 + draw(2); while(calls--) { lost.clear(); nlost = 0; s.asked.clear(); Call c; c.name = name; c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = 1 + draw(8); int64_t t = now(), limit = chance(1, 4) ? 1 + draw(30000) : 1000000; c.dl = limit == 1000000 && chance(1, 2) ? -1 : t + limit; std::vector<S> got, exp; int er = 0; int64_t took; int rc = resolve(c, got, er, took); note("-> %d %s after %d, %zu questions", rc, rc < 0 ? errname(er) : "", (int)took, s.asked.size()); for(int ty : order(c.mode)) for(auto &x : d.rec[ti(ty)][name]) exp.push_back(x); int need = 0; size_t have = 0; for(int ty : order(c.mode)) { if(have >= c.n && need && good) break; need++; have += d.rec[ti(ty)][name].size(); }
        int64_t most = (int64_t)need * (ns * att * (tmo + 2) * 1000); CHECK(took <= limit, "deadline %d, took %d", (int)limit, (int)took); if(rc < 0 && er == ETIMEDOUT) CHECK(took == limit, "timed out at %d instead of %d", (int)took, (int)limit);
        if(limit > most) { CHECK(took <= most, "took %d ms with %d servers, %d attempts of %d s", (int)took, ns, att, tmo); if(good) { if(rc < 0 || !same(got, exp, c.n)) fail("with a working name server: %d %s %s instead of %s", rc, rc < 0 ? errname(er) : "", texts(got).c_str(), texts(exp).c_str()); } else CHECK(rc <= 0, "success without a name server"); }
        if(good && !before && !lose) CHECK(took == 0, "an immediate answer took %d", (int)took); if((bad && before) || nlost) nontrivial(); if(rc >= 0) CHECK(rc == 0 || same(got, exp, c.n), "wrong addresses %s", texts(got).c_str()); }
    s.stop();
}

/* Everything a configuration file may say that has no influence on what the name is resolved to, and what has. */
PROP_CASE(S09, config, "an address was resolved") {
    vt.grace_inf = 3000; vt.grace_timed = 4; std::vector<S> lines, search; int ndots = 1; bool tcponly = false, notcp = false, rot = false; auto sp = [&] { return S(chance(1, 4) ? "\t" : chance(1, 6) ? "   " : " "); };
    int nns = 1 + draw(5); for(int i = 0; i < nns; ++i) { S l = "nameserver" + sp() + (const char*[]){"10.9.8.7", "10.9.8.8", "fd00::7", "fd00::8"}[draw(4)]; if(chance(1, 10)) l += sp(); if(chance(1, 8)) l += " # the best"; lines.push_back(l); }
    int nse = draw(3); for(int i = 0; i < nse; ++i) { std::vector<S> v; S l; if(chance(1, 3)) { v.push_back(label_() + "." + label_()); l = "domain" + sp() + v[0]; } else { l = "search"; for(int k = 1 + draw(4); k--;) { v.push_back(label_() + "." + label_()); l += sp() + v.back(); } } lines.push_back(l); search = v; /* the last one counts */ }
    int nop = draw(4); for(int i = 0; i < nop; ++i) { S l = "options"; for(int k = 1 + draw(3); k--;) { l += sp(); switch(draw(9)) { case 0: ndots = draw(4); l += "ndots:" + std::to_string(ndots); break; case 1: l += "rotate"; rot = true; break; case 2: l += "edns0"; label("edns0"); break; case 3: l += "timeout:" + std::to_string(1 + draw(30)); break; case 4: l += "attempts:" + std::to_string(1 + draw(5)); break; case 5: l += "tcp"; tcponly = true; notcp = false; break; case 6: if(chance(1, 2)) { l += "tcp:disable"; notcp = true; tcponly = false; } else { l += "tcp:enable"; notcp = tcponly = false; } break; case 7: l += "trust-ad"; break; default: l += chance(1, 2) ? "no-check-names" : "inet6"; } } lines.push_back(l); }
    /* name servers keep their order among themselves, and so do the others: only comments, blank and unknown lines in between */ S conf; for(auto &l : lines) { if(chance(1, 8)) conf += chance(1, 2) ? "# comment nameserver 1.2.3.4\n" : ";nameserver 1.2.3.4\n"; if(chance(1, 10)) conf += "\n"; if(chance(1, 12)) conf += "sortlist 10.0.0.0/255.0.0.0\n"; if(chance(1, 12)) conf += "whatever this is\n"; if(chance(1, 20)) conf += "nameserver\n"; if(chance(1, 20)) conf += "nameserver nonsense\n"; conf += l + "\n"; } if(chance(1, 5)) conf.pop_back();
    static const char *src[] = {"files dns", "dns files", "files", "dns", "files mdns4_minimal [NOTFOUND=return] dns", "files myhostname resolve [!UNAVAIL=return] dns", "files [UNAVAIL=continue] dns [TRYAGAIN=continue NOTFOUND=continue]", "dns [ NOTFOUND = continue ] files", "files [success=return notfound=continue] dns # hosts: nothing", "mymachines dns [!SUCCESS=continue] files myhostname"}; int which = draw(11); S nss; if(chance(1, 3)) nss += "passwd: files systemd\nnetworks: files\n"; if(which < 10) nss += "hosts:" + sp() + src[which] + "\n"; if(chance(1, 3)) nss += "group: files [SUCCESS=merge] systemd\nservices: db files\n"; if(chance(1, 8) && !nss.empty()) nss.pop_back(); S w = which < 10 ? src[which] : "files dns"; bool usef = w.find("files") != S::npos, used = w.find("dns") != S::npos && w != "files", filefirst = !used || (usef && w.find("files") < w.find("dns")); if(w.find("mdns4") != S::npos) filefirst = true;
    Db d; std::vector<S> names; std::map<S, std::vector<S>> hf[2]; S hosts = "127.0.0.1 localhost\n"; for(int i = 1 + draw(3); i--;) { S n = label_(); if(isdigit(n[0])) n = "n" + n; for(int k = draw(4); k--;) n += "." + label_(); names.push_back(n); S full = n; if(!search.empty() && chance(1, 2)) full += "." + pick(search); full = lower(full); for(int t = 0; t < 2; ++t) { std::vector<S> v; for(int k = draw(4); k--;) v.push_back(rnd_addr(t ? T_AAAA : T_A)); d.rec[t][full] = v; } if(which < 10 && chance(1, 3)) { S a = rnd_addr(T_A); hosts += text(a) + "\t" + n + "\n"; hf[0][lower(n)].push_back(a); } }
    note("%s", conf.c_str()); note("nsswitch: %s", nss.c_str()); note("hosts: %s", hosts.c_str()); dns_files(conf.c_str(), hosts.c_str(), which == 10 && nss.empty() ? NULL : nss.c_str()); tcp_time(); DnsSrv s; s.start([&](DnsQ q) { if(tcponly) CHECK(q.tcp, "a question over UDP in spite of options tcp"); if(notcp) CHECK(!q.tcp, "a question over TCP in spite of options tcp:disable"); s.reply(q, answer(d, q).encode(), 0); });
    auto dns = [&](const S &n, int type) { if(!used) return std::vector<S>(); std::vector<S> c; S l = lower(n); int dots = std::count(l.begin(), l.end(), '.'); if(dots >= ndots) c.push_back(l); for(auto &x : search) c.push_back(l + "." + lower(x)); if(dots < ndots) c.push_back(l); for(auto &x : c) if(known(d, x, type)) return d.rec[ti(type)][x]; return std::vector<S>(); };
    for(int k = 1 + draw(3); k--;) { Call c; c.name = pick(names); c.mode = modes[draw(5)]; c.port = rnd_port(); c.n = 20; c.dl = chance(1, 2) ? -1 : now() + 1000000; std::vector<S> exp; for(int t : order(c.mode)) { std::vector<S> f; if(usef) { auto i = hf[ti(t)].find(lower(c.name)); if(i != hf[ti(t)].end()) f = i->second; } auto n = dns(c.name, t); for(auto &x : filefirst ? (f.empty() ? n : f) : (n.empty() ? f : n)) exp.push_back(x); }
        std::vector<S> got; int er; int64_t took; note("resolve %s mode %d", c.name.c_str(), c.mode); s.asked.clear(); int rc = resolve(c, got, er, took); CHECK(rc >= 0, "resolving %s failed: %s", c.name.c_str(), errname(er)); if(!same(got, exp, c.n)) fail("%s in mode %d gives %s instead of %s", c.name.c_str(), c.mode, texts(got).c_str(), texts(exp).c_str()); CHECK(took <= 10, "took %d", (int)took); if(!used) CHECK(s.asked.empty(), "the name server is asked although it isn't a source"); if(!rot && nns >= 1 && !s.asked.empty()) { S first = lines[0].substr(10); first = first.substr(first.find_first_not_of(" \t")); first = first.substr(0, first.find_first_of(" \t#")); CHECK(s.asked[0] == first, "the first one asked is %s instead of %s", s.asked[0].c_str(), first.c_str()); } if(!exp.empty()) nontrivial(); }
    s.stop();
}
