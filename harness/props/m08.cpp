#include "dnssrv.h"
#include <arpa/inet.h>
#include "sim.h"
#include "stk.h"
#include <algorithm>
#include <arpa/inet.h>
#include <netinet/in.h>
namespace {
typedef std::string S;
S be16(int n) { S s; s += (char)(n >> 8); s += (char)n; return s; }
S by(int n) { return S(1, (char)n); }
S cstr(size_t n) { S s = gen_bytes(n); for(auto &c : s) if(!c) c = 'z'; return s; }
S cred() { return cstr(chance(1, 6) ? 250 + draw(6) : 1 + draw(12)); }
S name() { S s = chance(1, 4) ? cstr(250 + draw(6)) : gen_from("abcz.-09", 1 + draw(20)); in_addr a; in6_addr b; if(inet_pton(AF_INET, s.c_str(), &a) == 1 || inet_pton(AF_INET6, s.c_str(), &b) == 1) return "host"; return s; }
struct Addr { int v; S raw, text; };
Addr gen_addr() { Addr a; a.v = chance(1, 2) ? 4 : 6; a.raw = gen_bytes(a.v == 4 ? 4 : 16); char b[64]; CHECK(inet_ntop(a.v == 4 ? AF_INET : AF_INET6, a.raw.data(), b, sizeof b), "ntop"); a.text = b; return a; }
S enc(const Addr &a, int port) { return by(a.v == 4 ? 1 : 4) + a.raw + be16(port); }
S enc(const S &name, int port) { return by(3) + by(name.size()) + name + be16(port); }
struct ipaddr mk(const Addr &a, int port) { struct ipaddr i; int rc = ipaddr_remote(&i, a.text.c_str(), port, 0, -1); CHECK(rc == 0, "ipaddr_remote(%s, %d): %s", a.text.c_str(), port, errname(errno)); return i; }
void same(const struct ipaddr *i, const Addr &a, int port) {
    CHECK(ipaddr_family(i) == (a.v == 4 ? AF_INET : AF_INET6), "family %d", ipaddr_family(i)); CHECK(ipaddr_port(i) == port, "port %d instead of %d", ipaddr_port(i), port);
    const void *p = a.v == 4 ? (const void*)&((const sockaddr_in*)i)->sin_addr : (const void*)&((const sockaddr_in6*)i)->sin6_addr; if(memcmp(p, a.raw.data(), a.raw.size())) fail("address %s instead of %s", hex(p, a.raw.size()).c_str(), a.text.c_str()); }
S g_user, g_pass; int g_calls; bool g_verdict;
int auth_fn(const char *u, const char *p) { g_calls++; g_user = u; g_pass = p; return g_verdict ? 1 + draw(2) * 41 : 0; }
const int ERR[] = {0, EIO, EACCES, ENETUNREACH, EHOSTUNREACH, ECONNREFUSED, ETIMEDOUT, EOPNOTSUPP, EAFNOSUPPORT};
struct Mem { std::unique_ptr<char[]> p; Mem(const S &s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); } };
int gen_port() { return chance(1, 4) ? (chance(1, 2) ? 65535 : 1) : 1 + draw(65535); }
}
PROP_CASE(M08, pair, "the command reached the proxy, or authentication was refused") {
    Wire *w[2]; sim_pair(w[0], w[1]); if(chance(1, 2)) w[0]->cap = w[1]->cap = 1 + draw(100);
    S user = cred(), pass = cred(); if(chance(1, 10)) user = ""; if(chance(1, 10)) pass = ""; bool hu = chance(3, 4), hp = chance(7, 8), creds = hu && hp, fn = chance(1, 2); g_verdict = chance(3, 4); g_calls = 0; g_user = g_pass = "?";
    bool byname = chance(1, 2), literal = byname && chance(1, 2); Addr a = gen_addr(); S nm = literal ? a.text : name(); int port = gen_port(), reply = chance(1, 2) ? 0 : draw(9); Addr ra = gen_addr(); int rport = chance(1, 4) ? 0 : gen_port();
    bool auth_ok = !fn || (creds && g_verdict), cmdname = chance(1, 2) || (byname && !literal); struct ipaddr ip = mk(a, port), rip; if(rport) rip = mk(ra, rport); else { rip = mk(ra, 1); if(ra.v == 4) ((sockaddr_in*)&rip)->sin_port = 0; else ((sockaddr_in6*)&rip)->sin6_port = 0; }
    int64_t dl = chance(1, 2) ? -1 : now() + 100000; int rc[2] = {-5, -5}, er[2]; S early[2] = {gen_bytes(1 + draw(10)), gen_bytes(1 + draw(10))};
    auto cl = [&] { Mem u(user), p(pass), n(nm); rc[0] = byname ? socks5_client_connectbyname(w[0]->h, hu ? u.p.get() : NULL, hp ? p.p.get() : NULL, n.p.get(), port, dl) : socks5_client_connect(w[0]->h, hu ? u.p.get() : NULL, hp ? p.p.get() : NULL, &ip, dl); er[0] = errno; 
        if(rc[0] == 0) { S g; CHECK(brecv_any(w[0]->h, early[1].size(), &g, -1) == 0 && g == early[1], "data behind the reply: %s", hex(g.data(), g.size()).c_str()); CHECK(bsend_any(w[0]->h, early[0], -1) == 0, "bsend"); } };
    auto px = [&] { rc[1] = socks5_proxy_auth(w[1]->h, fn ? auth_fn : NULL, dl); er[1] = errno; if(rc[1] != 0) return;
        CHECK(auth_ok, "authentication succeeds although it should not");
        if(cmdname) { std::unique_ptr<char[]> h(new char[256]); int po = -1; int c = socks5_proxy_recvcommandbyname(w[1]->h, h.get(), &po, dl); CHECK(c == SOCKS5_CONNECT, "recvcommandbyname: %d %s", c, errname(errno)); S exp = byname && !literal ? nm : a.text; CHECK(memchr(h.get(), 0, 256), "host is not zero-terminated"); if(exp != h.get()) fail("host '%s' instead of '%s'", h.get(), exp.c_str()); CHECK(po == port, "port %d instead of %d", po, port); }
        else { struct ipaddr got; int c = socks5_proxy_recvcommand(w[1]->h, &got, dl); CHECK(c == SOCKS5_CONNECT, "recvcommand: %d %s", c, errname(errno)); same(&got, a, port); }
        if(chance(1, 8)) { size_t o = w[1]->out.size(); CHECK(socks5_proxy_sendreply(w[1]->h, chance(1, 2) ? 9 + draw(300) : -1 - (int)draw(300), &rip, dl) == -1 && errno == EINVAL && w[1]->out.size() == o, "invalid reply code is not refused"); }
        CHECK(socks5_proxy_sendreply(w[1]->h, reply, &rip, dl) == 0, "sendreply: %s", errname(errno));
        if(reply == 0) { CHECK(bsend_any(w[1]->h, early[1], -1) == 0, "bsend"); S g; CHECK(brecv_any(w[1]->h, early[0].size(), &g, -1) == 0 && g == early[0], "data behind the request: %s", hex(g.data(), g.size()).c_str()); } };
    run_all({cl, px});
    S c, p; c = creds ? S("\5\2\0\2", 4) : S("\5\1\0", 3); bool up = creds && fn; 
    if(up) { p = "\5\2"; c += by(1) + by(user.size()) + user + by(pass.size()) + pass; CHECK(g_calls == 1, "the verdict was asked for %d times", g_calls); if(g_user != user || g_pass != pass) fail("credentials '%s' '%s' instead of '%s' '%s'", g_user.c_str(), g_pass.c_str(), user.c_str(), pass.c_str()); if(g_verdict) p += S("\1\0", 2); }
    else p = fn ? S("\5\xff", 2) : S("\5\0", 2);
    if(!auth_ok) { CHECK(rc[1] == -1 && er[1] == EACCES, "proxy_auth refused: %d %s", rc[1], errname(er[1])); CHECK(rc[0] == -1 && er[0] == EACCES, "client refused by the proxy: %d %s", rc[0], errname(er[0])); CHECK(w[0]->out == c, "wrong bytes sent by the client: %s", hex(w[0]->out.data(), w[0]->out.size()).c_str()); if(up) CHECK(w[1]->out.size() == 4 && w[1]->out[2] == 1 && w[1]->out[3] != 0, "wrong bytes sent by the proxy"); else CHECK(w[1]->out == p, "wrong bytes sent by the proxy"); label("refused"); }
    else {
        CHECK(rc[1] == 0, "proxy_auth: %s", errname(er[1])); if(reply) CHECK(rc[0] == -1 && er[0] == ERR[reply], "client gets %d %s for reply %d", rc[0], errname(er[0]), reply); else CHECK(rc[0] == 0, "client: %s", errname(er[0]));
        c += S("\5\1\0", 3) + (byname && !literal ? enc(nm, port) : enc(a, port)); p += S("\5") + by(reply) + by(0) + enc(ra, rport); if(!reply) { c += early[0]; p += early[1]; }
        if(w[0]->out != c) fail("wrong bytes sent by the client: %s instead of %s", hex(w[0]->out.data(), w[0]->out.size(), 600).c_str(), hex(c.data(), c.size(), 600).c_str()); if(w[1]->out != p) fail("wrong bytes sent by the proxy: %s instead of %s", hex(w[1]->out.data(), w[1]->out.size()).c_str(), hex(p.data(), p.size()).c_str()); if(byname && !literal) label("name"); if(up) label("credentials"); }
    for(int i = 0; i < 2; ++i) { CHECK(w[i]->pending().empty(), "bytes left behind"); CHECK(hclose(w[i]->h) == 0, "hclose"); }
    nontrivial();
}
namespace {
struct Script { S in; int err = 0; bool eof = false; int64_t dl = -1; };
/* Cuts the script short now and then: end, error or silence. Returns the expected error or 0. */
int cut(Wire *w, S &in, int64_t &dl) {
    if(!chance(1, 4)) return 0; size_t k = draw(in.size()); in.resize(k);
    switch(draw(3)) { case 0: w->eof = true; label("end"); return EPIPE; case 1: { w->in_err = chance(1, 2) ? ECONNRESET : ECONNABORTED; label("error below"); return w->in_err; } default: dl = now() + draw(50); label("silence"); return ETIMEDOUT; } }
void feed(Wire *w, const S &s, int64_t step) { size_t seg = chance(1, 3) ? s.size() + 1 : 1 + draw(20); int64_t t = now(); for(size_t i = 0; i < s.size(); i += seg) { w->put(s.substr(i, seg), t); t += step; } }
S any_addr(S &) { switch(draw(3)) { case 0: return enc(gen_addr(), draw(65536)); case 1: return enc(gen_bytes(chance(1, 3) ? 250 + draw(6) : draw(30)), draw(65536)); default: return enc(name(), draw(65536)); } }
}
PROP_CASE(M08, client, "every reply: accepted, refused or cut short") {
    Wire *w = sim_new(); S user = cred(), pass = cred(), dummy; bool creds = chance(1, 2); int64_t dl = chance(1, 4) ? now() + 100000 : -1; S in, exp; int err = 0; S tail = gen_bytes(draw(20)); Addr a = gen_addr(); int port = gen_port();
    int flaw = weighted({6, 1, 2, 1, 1, 1, 1, 1, 1, 3}); int method = creds && chance(2, 3) ? 2 : 0, ver = 5, av = 1, as = 0, rv = 5, rsv = 0, rep = 0; S ad = any_addr(dummy);
    switch(flaw) { case 1: ver = draw(256); if(ver == 5) ver = 4; err = EPROTO; label("version"); break;
    case 2: method = 1 + draw(255); if(method == 2 && creds) method = 3; err = method == 255 ? EACCES : EPROTO; label("method not offered"); break;
    case 3: av = draw(256); if(av == 1) av = 5; err = EPROTO; label("auth version"); if(!creds) err = 0; else method = 2; break;
    case 4: as = 1 + draw(255); err = creds ? EACCES : 0; if(creds) method = 2; label("credentials refused"); break;
    case 5: rv = draw(256); if(rv == 5) rv = 1; err = EPROTO; label("reply version"); break; case 6: rsv = 1 + draw(255); err = EPROTO; break; case 7: ad[0] = "\0\2\5\6\7\xff"[draw(6)]; err = EPROTO; label("address type"); break;
    case 8: rep = 9 + draw(247); err = EPROTO; label("unknown reply"); break; case 9: rep = 1 + draw(8); err = ERR[rep]; label("refused"); break; }
    in = by(ver) + by(method); if(method == 2 && creds) in += by(av) + by(as); size_t need = in.size(); bool early = flaw >= 1 && flaw <= 4 && err; if(!early) { in += by(rv) + by(rep) + by(rsv) + ad; } S full = in; (void)need;
    int c = 0; bool whole = flaw == 0 || flaw >= 8; if(!err || whole) c = cut(w, in, dl); if(c) err = c; else if(whole) in += tail; feed(w, in, dl < 0 ? draw(2) : 0);
    note("flaw %d, cut %d, creds %d, %s", flaw, c, creds, hex(in.data(), in.size(), 300).c_str());
    Mem u(user), p(pass); struct ipaddr ip = mk(a, port); int64_t t0 = now(); int rc = chance(1, 2) ? socks5_client_connect(w->h, creds ? u.p.get() : NULL, creds ? p.p.get() : NULL, &ip, dl) : socks5_client_connectbyname(w->h, creds ? u.p.get() : NULL, creds ? p.p.get() : NULL, a.text.c_str(), port, dl), e = errno;
    if(err) { CHECK(rc == -1 && e == err, "client: %d %s instead of %s", rc, rc ? errname(e) : "", errname(err)); if(err == ETIMEDOUT && c) CHECK(now() == std::max(t0, dl), "timed out at +%lld instead of +%lld", (long long)(now() - t0), (long long)(dl - t0)); }
    else { CHECK(rc == 0, "client: %s", errname(e)); label("connected"); }
    if(!c && whole) CHECK(w->pending() == tail, "the client consumed %zd bytes behind the reply", (ssize_t)tail.size() - (ssize_t)w->pending().size());
    CHECK(w->closes == 0, "closed"); CHECK(hclose(w->h) == 0, "hclose"); nontrivial();
}
PROP_CASE(M08, proxy, "every request: accepted, refused or cut short") {
    Wire *w = sim_new(); S in; int err = 0; int64_t dl = chance(1, 4) ? now() + 100000 : -1; bool fn = chance(1, 2); g_verdict = chance(3, 4); g_calls = 0; S user = cred(), pass = cred(), tail = gen_bytes(draw(20));
    int flaw = chance(1, 2) ? 0 : 1 + draw(8); int ver = 5, av = 1, cv = 5, rsv = 0, cmd = 1 + draw(3); S methods; size_t nm = chance(1, 6) ? 255 : chance(1, 10) ? 0 : 1 + draw(5); methods = gen_bytes(nm); bool na = methods.find((char)0) != S::npos, up = methods.find((char)2) != S::npos;
    if(nm && chance(3, 4)) { methods[draw(nm)] = fn ? 2 : 0; na = methods.find((char)0) != S::npos; up = methods.find((char)2) != S::npos; }
    bool auth = fn ? up : na; S out; int where = 0; /* 1: fails during authentication; 2: during the command */
    if(flaw == 1) { ver = draw(256); if(ver == 5) ver = 4; err = EPROTO; where = 1; label("version"); }
    else if(!auth) { err = EACCES; where = 1; label("no method"); out = S("\5\xff", 2); }
    else if(fn) { out = S("\5\2", 2); if(flaw == 2) { av = draw(256); if(av == 1) av = 5; err = EPROTO; where = 1; label("auth version"); } else if(flaw == 3) { S &x = chance(1, 2) ? user : pass; x[draw(x.size())] = 0; err = EPROTO; where = 1; label("NUL"); } else if(!g_verdict) { err = EACCES; where = 1; label("credentials refused"); } else out += S("\1\0", 2); }
    else out = S("\5\0", 2);
    Addr a = gen_addr(); S nam; int form = draw(3), port = draw(65536); bool byname = form == 2 || chance(1, 2); S ad = form == 2 ? (nam = name(), enc(nam, port)) : enc(a, port); 
    if(!where) { switch(flaw) { case 4: cv = draw(256); if(cv == 5) cv = 4; err = EPROTO; where = 2; break; case 5: rsv = 1 + draw(255); err = EPROTO; where = 2; break; case 6: ad[0] = "\0\2\5\6\7\xff"[draw(6)]; err = EPROTO; where = 2; break; case 7: cmd = chance(1, 3) ? 0 : 4 + draw(252); err = EPROTO; where = 2; label("unknown command"); break; case 8: if(form == 2) { nam[draw(nam.size())] = 0; ad = enc(nam, port); err = EPROTO; where = 2; label("NUL"); } break; } }
    S au = by(ver) + by(nm) + methods; if(fn && auth && flaw != 1) au += by(av) + by(user.size()) + user + by(pass.size()) + pass; S co = by(cv) + by(cmd) + by(rsv) + ad; in = au; if(where != 1) in += co;
    int c = 0; size_t full = in.size(); if(!where) { c = cut(w, in, dl); if(c) { err = c; where = in.size() < au.size() ? 1 : 2; } else in += tail; } (void)full;
    note("flaw %d, cut %d, fn %d: %s", flaw, c, fn, hex(in.data(), in.size(), 600).c_str()); feed(w, in, dl < 0 ? draw(2) : 0); int64_t t0 = now();
    auto timeout = [&] { if(err == ETIMEDOUT) CHECK(now() == std::max(t0, dl), "timed out at +%lld instead of +%lld", (long long)(now() - t0), (long long)(dl - t0)); };
    int rc = socks5_proxy_auth(w->h, fn ? auth_fn : NULL, dl), e = errno;
    if(where == 1) { CHECK(rc == -1 && e == err, "proxy_auth: %d %s instead of %s", rc, rc ? errname(e) : "", errname(err)); timeout(); if(err == EACCES && !fn) CHECK(w->out == out, "wrong bytes sent"); if(err == EPROTO) CHECK(!g_calls, "malformed credentials were presented to the authentication function"); }
    else { CHECK(rc == 0, "proxy_auth: %s", errname(e)); CHECK(w->out == out, "wrong bytes sent: %s instead of %s", hex(w->out.data(), w->out.size()).c_str(), hex(out.data(), out.size()).c_str());
        if(fn) { CHECK(g_calls == 1, "asked %d times", g_calls); if(g_user != user || g_pass != pass) fail("credentials '%s' '%s' instead of '%s' '%s'", g_user.c_str(), g_pass.c_str(), user.c_str(), pass.c_str()); }
        std::unique_ptr<char[]> h(new char[256]); int po = -1; struct ipaddr ip;
        if(!where && form != 2 && !byname) { rc = socks5_proxy_recvcommand(w->h, &ip, dl); e = errno; CHECK(rc == cmd, "recvcommand: %d %s", rc, errname(e)); same(&ip, a, port); }
        else { rc = socks5_proxy_recvcommandbyname(w->h, h.get(), &po, dl); e = errno; if(where == 2) { CHECK(rc == -1 && e == err, "recvcommandbyname: %d %s instead of %s", rc, errname(e), errname(err)); timeout(); } else { CHECK(rc == cmd, "recvcommandbyname: %d %s instead of %d", rc, errname(e), cmd); S exp = form == 2 ? nam : a.text; if(exp != h.get()) fail("host '%s' instead of '%s'", h.get(), exp.c_str()); CHECK(po == port, "port %d instead of %d", po, port); } }
        if(!where) { CHECK(w->pending() == tail, "the proxy consumed %zd bytes behind the command", (ssize_t)tail.size() - (ssize_t)w->pending().size()); label("command"); } }
    CHECK(w->closes == 0, "closed"); CHECK(hclose(w->h) == 0, "hclose"); nontrivial();
}
PROP_CASE(M08, args, "every call: refused without sending anything more") {
    Wire *w = sim_new(); S big = cstr(256 + draw(400)), ok = cred(); Mem m(big), o(ok); int rc, e, exp = EINVAL; struct ipaddr ip; ipaddr_remote(&ip, "10.0.0.1", 80, 0, -1);
    w->put(S("\5\0", 2)); size_t lim = 4; bool noh = false;
    switch(draw(7)) {
    case 0: rc = socks5_client_connect(w->h, m.p.get(), o.p.get(), &ip, -1); lim = 0; break; case 1: rc = socks5_client_connect(w->h, o.p.get(), m.p.get(), &ip, -1); lim = 0; break;
    case 2: rc = socks5_client_connectbyname(w->h, NULL, NULL, m.p.get(), 80, -1); break; case 3: rc = socks5_client_connectbyname(w->h, NULL, NULL, "a", chance(1, 2) ? -(int)draw(70000) : 65536 + draw(70000), -1); break;
    case 4: rc = socks5_client_connectbyname(w->h, NULL, NULL, NULL, 80, -1); break; case 5: rc = socks5_client_connect(w->h, NULL, NULL, NULL, -1); break;
    default: { noh = true; int ch[2]; CHECK(chmake(ch) == 0, "chmake"); char h[256]; int p; int x = chance(1, 2) ? ch[0] : (hclose(ch[0]), ch[0]); exp = hquery(x, bsock_type) ? 0 : errno; switch(draw(5)) { case 0: rc = socks5_client_connect(x, NULL, NULL, &ip, -1); break; case 1: rc = socks5_proxy_auth(x, NULL, -1); break; case 2: rc = socks5_proxy_recvcommand(x, &ip, -1); break; case 3: rc = socks5_proxy_recvcommandbyname(x, h, &p, -1); break; default: rc = socks5_proxy_sendreply(x, 0, &ip, -1); } } }
    e = errno; CHECK(rc == -1 && e == exp, "%d %s instead of %s", rc, errname(e), errname(exp)); if(!noh) CHECK(w->out.size() <= lim, "%zu bytes sent", w->out.size()); CHECK(hclose(w->h) == 0, "hclose"); nontrivial();
}
PROP_CASE(M08, many, "every case: two to four connections in use at the same time") { stk_many(L_SOCKS); nontrivial(true); }
/* The proxy asks for an address where the client has given a name. */
PROP_CASE(M08, names, "the name has an address") {
    vt.grace_inf = 3000; vt.grace_timed = 4; S nm; do nm = lower(name()); while(nm.size() > 200 || nm.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789-.") != S::npos || nm.front() == '.' || nm.back() == '.' || nm.find("..") != S::npos || isdigit((unsigned char)nm.front()) || nm.size() > 60);
    int n4 = draw(3), n6 = draw(3), port = 1 + draw(65535); bool file = chance(1, 3), silent = !file && chance(1, 4); std::set<S> a4, a6; S hosts = "127.0.0.1 localhost\n"; auto tx = [](const S &r) { char b[64]; inet_ntop(r.size() == 4 ? AF_INET : AF_INET6, r.data(), b, sizeof b); return S(b); };
    for(int i = 0; i < n4; ++i) { S r = S("\x0a\1\1", 3) + (char)(1 + i); a4.insert(r); hosts += file ? tx(r) + " " + nm + "\n" : ""; } for(int i = 0; i < n6; ++i) { S r = S("\x20\1", 2) + S(13, 0) + (char)(1 + i); a6.insert(r); hosts += file ? tx(r) + "\t" + nm + "\n" : ""; }
    dns_files("nameserver 10.9.8.7\n", hosts.c_str(), "hosts: files dns\n"); int64_t delay = chance(1, 2) ? 0 : draw(400); DnsSrv s; s.start([&](DnsQ q) { if(silent) return; DnsPkt p; p.id = q.id; p.qname = q.name; p.qtype = q.type; if(!file && lower(q.name) == nm) for(auto &r : q.type == T_A ? a4 : a6) p.an.push_back({q.name, q.type, r}); s.reply(q, p.encode(), delay); });
    Wire *w = sim_new(); S tail = gen_bytes(draw(20)), in = S("\5\1\0", 3) + S("\5\1\0\3", 4) + by(nm.size()) + nm + by(port >> 8) + by(port & 255); feed(w, in + tail, draw(2)); CHECK(socks5_proxy_auth(w->h, NULL, -1) == 0, "proxy_auth: %s", errname(errno)); int64_t t = now(), dl = silent ? t + draw(20000) : chance(1, 2) ? -1 : t + 50000; struct ipaddr a; memset(&a, 0x5a, sizeof a); int rc = socks5_proxy_recvcommand(w->h, &a, dl), e = errno; note("%s: %d + %d addresses: %d %s", nm.c_str(), n4, n6, rc, rc < 0 ? errname(e) : "");
    if(silent) { CHECK(rc == -1 && (e == ETIMEDOUT || (e == EADDRNOTAVAIL && now() - t >= 5000)), "the name server is silent: %d %s", rc, rc < 0 ? errname(e) : ""); CHECK(now() <= dl && (e != ETIMEDOUT || now() == dl), "deadline %d, took %d", (int)(dl - t), (int)(now() - t)); label("silent"); }
    else if(a4.empty() && a6.empty()) CHECK(rc == -1 && e == EADDRNOTAVAIL, "a name without addresses: %d %s", rc, rc < 0 ? errname(e) : "");
    else { CHECK(rc == SOCKS5_CONNECT, "recvcommand: %d %s", rc, errname(e)); auto &exp = a4.empty() ? a6 : a4; int f = ipaddr_family(&a); CHECK(f == (a4.empty() ? AF_INET6 : AF_INET), "an address of the family %d", f); S r = f == AF_INET ? S((char*)&((sockaddr_in*)&a)->sin_addr, 4) : S((char*)&((sockaddr_in6*)&a)->sin6_addr, 16); CHECK(exp.count(r), "%s is not an address of %s", tx(r).c_str(), nm.c_str()); CHECK(ipaddr_port(&a) == port, "port %d instead of %d", ipaddr_port(&a), port); nontrivial(); }
    CHECK(w->pending() == tail, "consumed too much or too little"); CHECK(w->closes == 0, "closed"); CHECK(hclose(w->h) == 0, "hclose"); s.stop();
}
