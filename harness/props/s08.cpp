#include "dill.h"
#include "sim.h"
#include "stk.h"
#include <arpa/inet.h>
#include <netdb.h>
#include <net/if.h>
#include <ifaddrs.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <netpacket/packet.h>
#include <algorithm>
typedef std::string S;
namespace {
struct A { int fam; unsigned char b[16]; };
int len(int fam) { return fam == AF_INET ? 4 : 16; }
A addr(int fam = 0) { A a; memset(&a, 0, sizeof a); a.fam = fam ? fam : chance(1, 2) ? AF_INET : AF_INET6; int n = len(a.fam);
    switch(draw(5)) { case 0: break; case 1: memset(a.b, 0xff, n); break; default: for(int i = 0; i < n; ++i) a.b[i] = chance(1, 2) ? 0 : draw(256); break; }
    if(a.fam == AF_INET6) switch(draw(6)) { case 0: memset(a.b, 0, 10); a.b[10] = a.b[11] = 0xff; break; case 1: memset(a.b, 0, 12); break; case 2: a.b[0] = 0xfe; a.b[1] = 0x80; memset(a.b + 2, 0, 6); break; default: break; }
    if(chance(1, 6)) a.b[n - 1]++; return a; }
/* Some spelling of the address. */
S spell(const A &a) { char t[64]; if(a.fam == AF_INET) { snprintf(t, sizeof t, "%d.%d.%d.%d", a.b[0], a.b[1], a.b[2], a.b[3]); return t; }
    if(chance(1, 3)) return inet_ntop(AF_INET6, a.b, t, sizeof t); 
    int groups = chance(1, 4) ? 6 : 8; std::vector<S> g; for(int i = 0; i < groups; ++i) { snprintf(t, sizeof t, chance(1, 3) ? "%04x" : chance(1, 2) ? "%X" : "%x", a.b[2 * i] << 8 | a.b[2 * i + 1]); g.push_back(t); } if(groups == 6) { snprintf(t, sizeof t, "%d.%d.%d.%d", a.b[12], a.b[13], a.b[14], a.b[15]); g.push_back(t); }
    int z0 = -1, z1 = -1; if(chance(2, 3)) { std::vector<int> zs; for(int i = 0; i < groups; ++i) if(!a.b[2 * i] && !a.b[2 * i + 1]) zs.push_back(i); if(!zs.empty()) { z0 = zs[draw(zs.size())]; z1 = z0 + 1; while(z1 < groups && !a.b[2 * z1] && !a.b[2 * z1 + 1] && !chance(1, 4)) z1++; } }
    S r; for(int i = 0; i < (int)g.size(); ++i) { if(i == z0) { r += "::"; i = z1 - 1; continue; } if(!r.empty() && r.back() != ':') r += ":"; r += g[i]; } return r; }
S mutate(S s) { int n = 1 + draw(2); const S al = "0123456789abcdefABCDEFgx.:% /-[]\t"; while(n--) switch(draw(7)) { case 0: s.insert(draw(s.size() + 1), 1, al[draw(al.size())]); break; case 1: if(!s.empty()) s.erase(draw(s.size()), 1); break; case 2: if(!s.empty()) s[draw(s.size())] = al[draw(al.size())]; break; case 3: s += s; break; case 4: s = s.substr(0, draw(s.size() + 1)); break; case 5: s += (const char*[]){".1", ":1", "::", "/8", " ", ":", "."}[draw(7)]; break; default: s = S(draw(3), '0') + s; } return s; }
int modes[] = {0, IPADDR_IPV4, IPADDR_IPV6, IPADDR_PREF_IPV4, IPADDR_PREF_IPV6};
bool allows(int mode, int fam) { return mode == IPADDR_IPV4 ? fam == AF_INET : mode == IPADDR_IPV6 ? fam == AF_INET6 : true; }
/* What the operating system makes of a literal. */
bool literal(const S &s, int mode, A &a) { memset(&a, 0, sizeof a); for(int fam : {AF_INET, AF_INET6}) if(allows(mode, fam) && inet_pton(fam, s.c_str(), a.b) == 1) { a.fam = fam; return true; } return false; }
int port(bool &bad) { if(chance(1, 12)) { bad = true; return (int[]){-1, 65536, INT_MIN, INT_MAX, 70000, -65535, 65536 + 80}[draw(7)]; } bad = false; return chance(1, 4) ? (int[]){1, 65535, 255, 256, 80}[draw(5)] : 1 + draw(65535); }
/* All about one address. */
void verify(const struct ipaddr &x, const A &a, int p, const char *what, bool pristine) {
    CHECK(ipaddr_family(&x) == a.fam, "%s: family %d instead of %d", what, ipaddr_family(&x), a.fam); int l = a.fam == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); CHECK(ipaddr_len(&x) == l, "%s: length %d", what, ipaddr_len(&x)); CHECK(ipaddr_port(&x) == p, "%s: port %d instead of %d", what, ipaddr_port(&x), p);
    const struct sockaddr *sa = ipaddr_sockaddr(&x); char host[NI_MAXHOST], serv[NI_MAXSERV], pt[16]; snprintf(pt, sizeof pt, "%d", p); char txt[64]; inet_ntop(a.fam, a.b, txt, sizeof txt); std::unique_ptr<char[]> b(new char[IPADDR_MAXSTRLEN]); memset(b.get(), 0x7f, IPADDR_MAXSTRLEN); const char *r = ipaddr_str(&x, b.get()); CHECK(r == b.get(), "%s: ipaddr_str returned %p", what, r); CHECK(!strcmp(r, txt), "%s: ipaddr_str gives %s instead of %s", what, r, txt);
    if(a.fam == AF_INET) { auto s = (const sockaddr_in*)sa; CHECK(s->sin_family == AF_INET && !memcmp(&s->sin_addr, a.b, 4) && s->sin_port == htons(p), "%s: wrong socket address", what); } else { auto s = (const sockaddr_in6*)sa; CHECK(s->sin6_family == AF_INET6 && !memcmp(&s->sin6_addr, a.b, 16) && s->sin6_port == htons(p), "%s: wrong socket address", what); }
    if(pristine) { addrinfo h, *res; memset(&h, 0, sizeof h); h.ai_flags = AI_NUMERICHOST | AI_NUMERICSERV; h.ai_family = a.fam; h.ai_socktype = SOCK_STREAM; CHECK(getaddrinfo(txt, pt, &h, &res) == 0, "getaddrinfo %s", txt); CHECK((int)res->ai_addrlen == l && !memcmp(res->ai_addr, sa, l), "%s: the socket address of %s differs from that of the OS: %s / %s", what, txt, hex(sa, l).c_str(), hex(res->ai_addr, l).c_str()); freeaddrinfo(res); } }
}
PROP_CASE(S08, literal, "a literal was accepted or something close to one was refused") {
    A a = addr(); S s = spell(a); bool mut = chance(1, 3); if(mut) s = mutate(s); int mode = modes[draw(5)]; bool badp; int p = port(badp); A e; bool lit = literal(s, mode, e); if(!mut) { unsigned char t[16]; CHECK(inet_pton(a.fam, s.c_str(), t) == 1 && !memcmp(t, a.b, len(a.fam)), "harness: spelling %s", s.c_str()); }
    bool badm = chance(1, 20); if(badm) mode = (int[]){5, -1, 7, 8, 100, INT_MAX, INT_MIN}[draw(7)]; note("'%s' mode %d port %d: %s", s.c_str(), mode, p, badm || badp ? "bad" : lit ? "literal" : "no literal"); bool null = chance(1, 15);
    ev.fopen = [&](const S &) { return S(); }; if(chance(1, 2)) ev.getifaddrs = [&](struct ifaddrs **i) { *i = NULL; return 0; };
    struct ipaddr x; memset(&x, 0x5a, sizeof x); errno = 0; Exact *pn = nullptr; std::unique_ptr<char[]> nm(new char[s.size() + 1]); memcpy(nm.get(), s.c_str(), s.size() + 1); (void)pn;
    if(null) { int rc = ipaddr_local(&x, NULL, p, mode), er = errno; if(badp || badm) CHECK(rc == -1 && (er == EINVAL || er == ENODEV), "ipaddr_local(NULL), port %d, mode %d: %d %s", p, mode, rc, errname(er)); else { CHECK(rc == 0, "ipaddr_local(NULL): %s", errname(er)); memset(&e, 0, sizeof e); e.fam = mode == IPADDR_IPV6 || mode == IPADDR_PREF_IPV6 ? AF_INET6 : AF_INET; verify(x, e, p, "ipaddr_local(NULL)", true); } label("wildcard"); nontrivial(); return; }
    int rc = ipaddr_local(&x, nm.get(), p, mode), er = errno;
    if(badp || badm) { CHECK(rc == -1 && (er == EINVAL || er == ENODEV), "ipaddr_local('%s'), port %d, mode %d: %d %s", s.c_str(), p, mode, rc, rc < 0 ? errname(er) : ""); label("bad arguments"); } else if(lit) { CHECK(rc == 0, "ipaddr_local('%s'): %s", s.c_str(), errname(er)); verify(x, e, p, "ipaddr_local", true); label("accepted"); nontrivial(); } else { CHECK(rc == -1 && er == ENODEV, "ipaddr_local('%s'), mode %d: %d %s", s.c_str(), mode, rc, rc < 0 ? errname(er) : ""); label("refused"); nontrivial(); }
    if(lit || badm || badp) { std::vector<struct ipaddr> v(1 + draw(3)); for(auto &y : v) memset(&y, 0x5a, sizeof y); std::vector<struct ipaddr> v0 = v; bool one = chance(1, 2); errno = 0; rc = one ? ipaddr_remote(&v[0], nm.get(), p, mode, chance(1, 2) ? 0 : -1) : ipaddr_remotes(v.data(), v.size(), nm.get(), p, mode, chance(1, 2) ? 0 : -1); er = errno;
        if(badp || badm) CHECK(rc == -1 && er == EINVAL, "ipaddr_remote%s('%s'), port %d, mode %d: %d %s", one ? "" : "s", s.c_str(), p, mode, rc, rc < 0 ? errname(er) : ""); else { CHECK(rc == (one ? 0 : 1), "ipaddr_remote%s('%s'): %d %s", one ? "" : "s", s.c_str(), rc, errname(er)); verify(v[0], e, p, "ipaddr_remote", true); } for(size_t i = 1; i < v.size(); ++i) CHECK(!memcmp(&v[i], &v0[i], sizeof v[i]), "element %zu was written", i); }
    struct ipaddr y = x; int r = draw(4); errno = 0; rc = r == 0 ? ipaddr_remotes(NULL, 1, "1.2.3.4", 80, 0, -1) : r == 1 ? ipaddr_remotes(&y, (int[]){0, -1, INT_MIN}[draw(3)], "1.2.3.4", 80, 0, -1) : r == 2 ? ipaddr_remotes(&y, 1, NULL, 80, 0, -1) : ipaddr_remote(&y, NULL, 80, 0, -1); CHECK(rc == -1 && errno == EINVAL, "ipaddr_remotes with invalid arguments (%d): %d %s", r, rc, errname(errno)); CHECK(!memcmp(&x, &y, sizeof x), "an address was written");
}
/* A set of addresses is changed and compared. */
PROP_CASE(S08, ops, "always") {
    int n = 2 + draw(4); std::vector<struct ipaddr> x(n); std::vector<A> a(n); std::vector<int> p(n); struct { char c[32]; } *g = nullptr; (void)g;
    for(int i = 0; i < n; ++i) { if(i && chance(2, 3)) { a[i] = a[draw(i)]; p[i] = chance(1, 2) ? p[draw(i)] : 1 + draw(65535); if(chance(1, 2)) a[i].b[draw(len(a[i].fam))] ^= 1 << draw(8); if(chance(1, 8)) { a[i].fam = a[i].fam == AF_INET ? AF_INET6 : AF_INET; if(a[i].fam == AF_INET) memset(a[i].b + 4, 0, 12); } } else { a[i] = addr(); p[i] = 1 + draw(65535); }
        char t[64]; inet_ntop(a[i].fam, a[i].b, t, sizeof t); CHECK(ipaddr_local(&x[i], t, p[i], chance(1, 2) ? 0 : a[i].fam == AF_INET ? IPADDR_IPV4 : IPADDR_IPV6) == 0, "ipaddr_local %s: %s", t, errname(errno)); note("%d: %s %d", i, t, p[i]); }
    int ops = draw(12); while(ops--) { int i = draw(n), j = draw(n); switch(draw(3)) {
        case 0: { int np = chance(1, 3) ? p[j] : draw(65536); std::vector<struct ipaddr> v(3); for(auto &y : v) memset(&y, 0x5a, sizeof y); std::vector<struct ipaddr> v0 = v; v[1] = x[i]; ipaddr_setport(&v[1], np); CHECK(!memcmp(&v[0], &v0[0], sizeof v[0]) && !memcmp(&v[2], &v0[2], sizeof v[0]), "ipaddr_setport wrote somewhere else"); x[i] = v[1]; p[i] = np; note("%d: port %d", i, np); break; }
        case 1: verify(x[i], a[i], p[i], "address", true); break;
        default: { struct ipaddr k = x[i], k2 = x[j]; for(int ign = 0; ign < 2; ++ign) { bool e = a[i].fam == a[j].fam && !memcmp(a[i].b, a[j].b, len(a[i].fam)) && (ign || p[i] == p[j]); int iv = ign ? (int[]){1, 2, -1}[draw(3)] : 0; int r = ipaddr_equal(&x[i], &x[j], iv); CHECK(!r == !e, "ipaddr_equal(%d, %d, %d) gives %d", i, j, iv, r); if(e && i != j) label("equal"); CHECK(!memcmp(&k, &x[i], sizeof k) && !memcmp(&k2, &x[j], sizeof k2), "ipaddr_equal has changed an address"); } } } }
    for(int i = 0; i < n; ++i) verify(x[i], a[i], p[i], "address", true); nontrivial();
}
/* Interfaces with any addresses. */
PROP_CASE(S08, ifaces, "an interface has several addresses or none of the kind asked for") {
    struct If { S name; A a; int kind; int scope; }; std::vector<If> f; std::vector<S> names; const char *pool[] = {"lo", "eth0", "eth", "eth00", "wlan0", "tun-x", "br0:1"}; int ni = draw(5); for(int i = 0; i < ni; ++i) names.push_back(pool[draw(7)]);
    for(auto &nm : names) { int k = draw(4); f.push_back({nm, addr(), 1 + (int)draw(3), 0}); while(k--) { If x = {nm, addr(), 0, 0}; if(x.a.fam == AF_INET6 && x.a.b[0] == 0xfe) x.scope = 1 + draw(5); f.push_back(x); } } if(chance(1, 3)) for(size_t i = f.size(); i-- > 1;) std::swap(f[i], f[draw(i + 1)]);
    std::vector<struct ifaddrs> l(f.size()); std::vector<sockaddr_storage> st(f.size()); std::vector<sockaddr_storage> keep; for(size_t i = 0; i < f.size(); ++i) { memset(&l[i], 0, sizeof l[i]); memset(&st[i], 0, sizeof st[i]); l[i].ifa_next = i + 1 < f.size() ? &l[i + 1] : NULL; l[i].ifa_name = (char*)f[i].name.c_str(); l[i].ifa_addr = (sockaddr*)&st[i]; 
        if(f[i].kind == 1) l[i].ifa_addr = NULL; else if(f[i].kind) { st[i].ss_family = AF_PACKET; memset((char*)&st[i] + 2, 0x99, 18); } else if(f[i].a.fam == AF_INET) { auto s = (sockaddr_in*)&st[i]; s->sin_family = AF_INET; memcpy(&s->sin_addr, f[i].a.b, 4); } else { auto s = (sockaddr_in6*)&st[i]; s->sin6_family = AF_INET6; memcpy(&s->sin6_addr, f[i].a.b, 16); s->sin6_scope_id = f[i].scope; } char t[64]; inet_ntop(f[i].a.fam, f[i].a.b, t, 64); note("interface %s: %s", f[i].name.c_str(), f[i].kind ? "no address" : t); } keep = st;
    int err = chance(1, 12) ? (int[]){EMFILE, ENFILE, ENOMEM}[draw(3)] : 0; ev.getifaddrs = [&](struct ifaddrs **o) { if(err) return err; *o = l.empty() ? NULL : &l[0]; return 0; };
    for(int k = 0; k < 4; ++k) { S nm = !names.empty() && chance(4, 5) ? names[draw(names.size())] : pool[draw(7)]; if(chance(1, 8)) nm += "x"; int mode = modes[draw(5)]; bool badp; int p = port(badp); struct ipaddr x; memset(&x, 0x5a, sizeof x); errno = 0; int rc = ipaddr_local(&x, nm.c_str(), p, mode), er = errno; CHECK(ev.ifaddrs_live == 0, "the list of interfaces was not freed"); note("'%s' mode %d port %d -> %d %s", nm.c_str(), mode, p, rc, rc < 0 ? errname(er) : "");
        if(badp) { CHECK(rc == -1 && (er == EINVAL || er == ENODEV), "port %d: %d %s", p, rc, rc < 0 ? errname(er) : ""); continue; } if(err) { CHECK(rc == -1 && er == err, "getifaddrs fails with %s: %d %s", errname(err), rc, rc < 0 ? errname(er) : ""); label("getifaddrs fails"); continue; }
        int n4 = 0, n6 = 0; for(auto &i : f) if(i.name == nm && !i.kind) (i.a.fam == AF_INET ? n4 : n6)++; if(!allows(mode, AF_INET)) n4 = 0; if(!allows(mode, AF_INET6)) n6 = 0; if(n4 > 1 || n6 > 1) { nontrivial(); label("several addresses"); }
        if(!n4 && !n6) { CHECK(rc == -1 && er == ENODEV, "no address of '%s' in mode %d: %d %s", nm.c_str(), mode, rc, rc < 0 ? errname(er) : ""); nontrivial(); continue; }
        CHECK(rc == 0, "ipaddr_local('%s'): %s", nm.c_str(), errname(er)); int fam = mode == IPADDR_PREF_IPV6 || mode == IPADDR_IPV6 ? n6 ? AF_INET6 : AF_INET : n4 ? AF_INET : AF_INET6; bool found = false; CHECK(ipaddr_family(&x) == fam, "family %d instead of %d", ipaddr_family(&x), fam); 
        for(auto &i : f) { if(i.name != nm || i.kind || i.a.fam != fam) continue; const void *b = fam == AF_INET ? (void*)&((sockaddr_in*)&x)->sin_addr : (void*)&((sockaddr_in6*)&x)->sin6_addr; if(memcmp(b, i.a.b, len(fam))) continue; if(fam == AF_INET6 && (int)((sockaddr_in6*)&x)->sin6_scope_id != i.scope) continue; found = true; verify(x, i.a, p, "ipaddr_local", false); break; } CHECK(found, "the address does not belong to '%s'", nm.c_str()); }
    CHECK(!memcmp(keep.data(), st.data(), st.size() * sizeof st[0]), "the list of interfaces was changed");
}
