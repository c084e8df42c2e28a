#include "sim.h"
#include "stk.h"
#include "ws_ref.h"
#include <algorithm>
using namespace wsref;
namespace {
ws_storage mem[4]; int nmem = 0;
const char RCHAR[] = "abcXYZ019!#$%&'*+-.^_`|~()/:;<=>?@[]{}\"\\,";
struct Buf { std::unique_ptr<char[]> p; size_t n; Buf(size_t k) : p(new char[k]), n(k) { memset(p.get(), 0xEE, k); }
    std::string str() { CHECK(memchr(p.get(), 0, n), "result is not zero-terminated"); return p.get(); } };
int client(int s, int fl, const char *r, const char *ho, int64_t dl) { return chance(1, 2) && nmem < 4 ? ws_attach_client_mem(s, fl, r, ho, &mem[nmem++], dl) : ws_attach_client(s, fl, r, ho, dl); }
int server(int s, int fl, Buf &r, Buf &ho, int64_t dl) { return chance(1, 2) && nmem < 4 ? ws_attach_server_mem(s, fl, r.p.get(), r.n, ho.p.get(), ho.n, &mem[nmem++], dl) : ws_attach_server(s, fl, r.p.get(), r.n, ho.p.get(), ho.n, dl); }
std::string lower(std::string s) { for(auto &c : s) c = tolower(c); return s; }
/* Splits a header block; returns false if it is not exactly one well-formed block. */
bool parse(const std::string &t, std::string &first, std::vector<std::pair<std::string, std::string>> &f) {
    size_t end = t.find("\r\n\r\n"); if(end == std::string::npos || end + 4 != t.size()) return false; size_t p = 0; bool head = true;
    while(p <= end) { size_t q = t.find("\r\n", p); std::string l = t.substr(p, q - p); p = q + 2; if(head) { first = l; head = false; continue; }
        size_t c = l.find(':'); if(c == std::string::npos) return false; std::string v = l.substr(c + 1); while(!v.empty() && v[0] == ' ') v.erase(0, 1); f.push_back({lower(l.substr(0, c)), v}); }
    return !head;
}
std::string field(const std::vector<std::pair<std::string, std::string>> &f, const char *n) { std::string r; int k = 0; for(auto &x : f) if(x.first == n) { r = x.second; k++; } CHECK(k == 1, "header field %s sent %d times", n, k); return r; }
std::string gen_key() { return base64(gen_bytes(16)); }
std::string randcase(std::string s) { int k = draw(3); for(auto &c : s) c = k == 0 ? c : k == 1 ? tolower(c) : chance(1, 2) ? toupper(c) : tolower(c); return s; }
}
PROP_CASE(M07, pair, "a completed handshake with messages exchanged, or one refused for a too small buffer") {
    run_all({[] { yield(); }, [] { yield(); }}); Wire *w[2]; sim_pair(w[0], w[1]); if(chance(1, 2)) w[0]->cap = w[1]->cap = 1 + draw(200);
    std::string res = chance(1, 2) ? "/" + gen_from(RCHAR, draw(20)) : gen_from(RCHAR, 1 + draw(chance(1, 6) ? 250 : 20)), host = gen_from("abc.019:-[]", 1 + draw(chance(1, 6) ? 250 : 20));
    int small = weighted({8, 1, 1}); Buf r(small == 1 ? draw(res.size() + 1) : res.size() + 1 + (chance(1, 2) ? 0 : draw(50))), ho(small == 2 ? draw(host.size() + 1) : host.size() + 1 + (chance(1, 2) ? 0 : draw(50)));
    int h[2], e[2], k = chance(1, 2) ? WS_TEXT : WS_BINARY, fl[2] = {k, k}; int64_t dl = chance(1, 2) ? -1 : now() + 1000000; size_t live0 = live_allocs(); int64_t p[2] = {(int64_t)draw(3), (int64_t)draw(3)};
    bool extra = !small && chance(1, 3); if(extra && w[0]->cap) w[0]->cap = w[1]->cap = 100;
    run_all({[&] { if(p[0]) msleep(now() + p[0]); h[0] = client(w[0]->h, fl[0], res.c_str(), host.c_str(), dl); e[0] = errno; if(h[0] < 0) CHECK(w[0]->closes == 1, "the socket is left open after a failed handshake");
                     else if(extra) CHECK(msend(h[0], "early", 5, -1) == 0, "msend right after the handshake: %s", errname(errno)); },
             [&] { if(p[1]) msleep(now() + p[1]); h[1] = server(w[1]->h, fl[1], r, ho, dl); e[1] = errno; if(h[1] < 0) CHECK(w[1]->closes == 1, "the socket is left open after a failed handshake"); }});
    if(small) { CHECK(h[1] == -1 && e[1] == EMSGSIZE, "server with a buffer of %zu for a resource of %zu, %zu for a host of %zu: %d %s", r.n, res.size(), ho.n, host.size(), h[1], errname(e[1])); CHECK(h[0] == -1, "the client succeeds although the server refused"); CHECK(w[0]->closes == 1 && w[1]->closes == 1, "closed"); CHECK(live_allocs() == live0, "memory leaked by a failed handshake: %zu blocks", live_allocs() - live0); label("buffer too small"); nontrivial(); return; }
    CHECK(h[0] >= 0, "client: %s", errname(e[0])); CHECK(h[1] >= 0, "server: %s", errname(e[1]));
    if(r.str() != res) fail("resource '%s' instead of '%s'", r.p.get(), res.c_str()); if(ho.str() != host) fail("host '%s' instead of '%s'", ho.p.get(), host.c_str());
    std::string first, key; std::vector<std::pair<std::string, std::string>> f; std::string req = w[0]->out; if(extra) { size_t x = req.find("\r\n\r\n"); CHECK(x != std::string::npos, "request"); req.resize(x + 4); }
    CHECK(parse(req, first, f), "malformed request: %s", hex(req.data(), req.size()).c_str()); if(first != "GET " + res + " HTTP/1.1") fail("request line '%s'", first.c_str());
    CHECK(field(f, "host") == host, "wrong Host"); CHECK(lower(field(f, "upgrade")) == "websocket", "wrong Upgrade"); CHECK(lower(field(f, "connection")) == "upgrade", "wrong Connection"); CHECK(field(f, "sec-websocket-version") == "13", "wrong version");
    key = field(f, "sec-websocket-key"); CHECK(valid_key(key) == 1, "invalid key '%s'", key.c_str());
    f.clear(); CHECK(parse(w[1]->out, first, f), "malformed reply: %s", hex(w[1]->out.data(), w[1]->out.size()).c_str()); CHECK(first.compare(0, 13, "HTTP/1.1 101 ") == 0, "status line '%s'", first.c_str());
    CHECK(lower(field(f, "upgrade")) == "websocket", "wrong Upgrade"); CHECK(lower(field(f, "connection")) == "upgrade", "wrong Connection"); CHECK(field(f, "sec-websocket-accept") == accept_key(key), "Sec-WebSocket-Accept is '%s' instead of '%s'", field(f, "sec-websocket-accept").c_str(), accept_key(key).c_str());
    w[0]->cap = w[1]->cap = 0; std::string early = "early"; if(extra) { CHECK(mrecv_any(h[1], 10, &early, -1) == 5, "a message sent right after the handshake: %s", errname(errno)); label("early message"); }
    for(int i = 0; i < 2; ++i) { size_t o = w[i]->out.size(); std::string m = gen_bytes(draw(100)); CHECK(msend_any(h[i], m, -1) == 0, "msend: %s", errname(errno)); Frame fr; CHECK(decode(w[i]->out, o, fr) && fr.op == (fl[i] == WS_TEXT ? 1 : 2) && fr.masked == (i == 0), "wrong frame after the handshake"); CHECK(mrecv_any(h[1 - i], 100, &m, -1) >= 0, "mrecv: %s", errname(errno)); }
    if(chance(1, 2)) { int u[2]; run_all({[&] { u[0] = ws_detach(h[0], 1000, NULL, 0, -1); CHECK(u[0] >= 0 && sim_is(u[0], w[0]), "ws_detach: %s", errname(errno)); }, [&] { u[1] = ws_detach(h[1], 1000, NULL, 0, -1); CHECK(u[1] >= 0 && sim_is(u[1], w[1]), "ws_detach: %s", errname(errno)); }}); for(int i = 0; i < 2; ++i) { CHECK(w[i]->pending().empty(), "bytes left behind"); CHECK(hclose(u[i]) == 0, "hclose"); } }
    else for(int i = 0; i < 2; ++i) CHECK(hclose(h[i]) == 0, "hclose");
    CHECK(w[0]->closes == 1 && w[1]->closes == 1, "closed"); CHECK(live_allocs() == live0, "memory leaked: %zu blocks", live_allocs() - live0);
    nontrivial();
}
namespace {
struct H { std::string n, v; };
std::string block(const std::string &first, const std::vector<H> &hs) {
    std::string s = first + "\r\n"; for(auto &h : hs) { int sp = draw(6); s += h.n + ":" + std::string(sp < 4 ? 1 : sp == 4 ? 0 : 2, ' ') + h.v + "\r\n"; } return s + "\r\n"; }
void shuffle(std::vector<H> &v) { if(chance(1, 2)) for(size_t i = v.size(); i-- > 1;) std::swap(v[i], v[draw(i + 1)]); }
void feed(Wire *w, const std::string &s, size_t at0, int64_t step) { size_t seg = chance(1, 3) ? s.size() + 1 : 1 + draw(60); int64_t t = at0; for(size_t i = 0; i < s.size(); i += seg) { w->put(s.substr(i, seg), t); t += step; } }
void add_noise(std::vector<H> &v) { static const char *N[] = {"Origin", "Cookie", "User-Agent", "X-a", "Accept", "Sec-WebSocket-Protocol", "Server", "Date", "Hosts", "Upgrade2", "Upgrade-Insecure-Requests", "Connection-X", "Sec-WebSocket-Key1", "Sec-WebSocket-Key2", "Sec-WebSocket-Versions", "Sec-WebSocket-Accept2", "Sec-WebSocket", "Sec-WebSocket-Extensions", "Up", "Ho", "Host-Name", "Proxy-Connection", "X-Upgrade"}; int k = draw(3); while(k--) v.insert(v.begin() + draw(v.size() + 1), H{chance(1, 10) ? "X-" + gen_from("abc-", 253 - draw(4)) : N[draw(23)], gen_from("abc =;,/\"upgradewebsocket13", chance(1, 6) ? 254 - draw(4) : 1 + draw(30)) + "z"}); }
std::string upg() { static const char *U[] = {"Upgrade", "upgrade", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,UPGRADE"}; if(!chance(1, 8)) return U[draw(5)];
    std::string o = gen_from("abc-", 244 - draw(4)); return chance(1, 2) ? o + ", Upgrade" : "Upgrade , " + o; }
std::string bad_key(const std::string &k) {
    switch(draw(8)) {
    case 0: return base64(gen_bytes(15)); case 1: return base64(gen_bytes(17)); case 2: return k.substr(0, 22); case 3: { std::string s = k; s[draw(22)] = "!-_.=*\x80\xff"[draw(8)]; return s; }
    case 4: return k + "="; case 5: return k + k; case 6: return gen_from("ab", 1 + draw(23)); default: return k.substr(0, 23) + "A"; } }
}
PROP_CASE(M07, server, "every request: it is answered according to RFC 6455 or refused") {
    Wire *w = sim_new(); size_t live0 = live_allocs(); std::string res = "/" + gen_from(RCHAR, draw(30)), host = gen_from("abc.019:-", 1 + draw(20)), key = gen_key();
    std::vector<H> hs = {{randcase("Host"), host}, {randcase("Upgrade"), randcase("websocket")}, {randcase("Connection"), upg()}, {randcase("Sec-WebSocket-Key"), key}, {randcase("Sec-WebSocket-Version"), "13"}};
    std::string first = "GET " + res + " HTTP/1.1"; int flaw = weighted({10, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 1}); int err = EPROTO; std::string tail; int64_t dl = chance(1, 3) ? now() + 1 + draw(100) : -1; bool eof = false, stall = false; const char *what = "none";
    add_noise(hs); shuffle(hs);
    auto find = [&](const char *n) { for(size_t i = 0; i < hs.size(); ++i) if(lower(hs[i].n) == n) return i; return (size_t)0; };
    static const char *NM[] = {"host", "upgrade", "connection", "sec-websocket-key", "sec-websocket-version"};
    switch(flaw) {
    case 1: { size_t i = find(NM[draw(5)]); what = "missing field"; note("without %s", hs[i].n.c_str()); hs.erase(hs.begin() + i); break; }
    case 2: { size_t i = find(NM[draw(5)]); what = "field sent twice"; H x = hs[i]; if(chance(1, 2)) x.n = randcase(x.n); hs.insert(hs.begin() + draw(hs.size() + 1), x); note("%s twice", x.n.c_str()); break; }
    case 3: what = "upgrade"; hs[find("upgrade")].v = chance(1, 2) ? "h2c" : chance(1, 2) ? "websocke" : "websockets"; break;
    case 4: what = "connection"; hs[find("connection")].v = chance(1, 2) ? "keep-alive" : chance(1, 2) ? "close" : chance(1, 2) ? "Upgraded" : "keep-alive, Upgrad"; break;
    case 5: what = "version"; { static const char *V[] = {"12", "8", "1", "130", "013", "13a", "-13", "0"}; hs[find("sec-websocket-version")].v = V[draw(8)]; } break;
    case 6: { what = "key"; std::string k; do k = bad_key(key); while(valid_key(k)); hs[find("sec-websocket-key")].v = k; note("key %s", hex(k.data(), k.size()).c_str()); break; }
    case 7: { what = "command"; static const char *C[] = {"POST", "get", "GETT", "GE", "HEAD", "CONNECT"}; first = std::string(C[draw(6)]) + " " + res + " HTTP/1.1"; break; }
    case 8: { what = "protocol"; static const char *P[] = {"HTTP/1.0", "HTTP/2.0", "HTTQ/1.1", "http/1.1", "HTTP/1.1x"}; first = "GET " + res + " " + P[draw(5)]; err = -1; break; }
    case 9: what = "end"; eof = true; err = -1; break;
    case 10: what = "silence"; stall = true; dl = now() + draw(100); err = ETIMEDOUT; break;
    case 11: what = "error below"; err = ECONNRESET; break;
    case 12: what = "broken line"; err = -1; break;
    }
    std::string t = block(first, hs); if(flaw == 12) { int k = 1 + draw(hs.size()); size_t p = 0; while(k--) p = t.find("\r\n", p) + 2; static const char *B[] = {"no colon at all\r\n", "x\r\n"}; t.insert(p, B[draw(2)]); }
    size_t cut = t.size(); if(eof || stall || flaw == 11) cut = draw(t.size()); if(eof) { size_t last = 0; for(auto &h : hs) for(auto *n : NM) if(lower(h.n) == n) last = std::max(last, t.find("\r\n" + h.n + ":") + 3 + h.n.size()); cut = draw(last); } t.resize(cut); if(eof) w->eof = true; if(flaw == 11) w->in_err = ECONNRESET;
    if(!flaw) { tail = gen_bytes(draw(40)); } int64_t step = dl < 0 && !stall ? draw(3) : 0; note("flaw %s; request %s", what, t.c_str()); feed(w, t + tail, now(), step);
    Buf r(res.size() + 1 + draw(20)), ho(host.size() + 1 + draw(20)); int64_t t0 = now(); int h = server(w->h, WS_BINARY, r, ho, dl), e = errno;
    if(flaw) {
        CHECK(h == -1, "a request with a flaw (%s) is accepted", what); if(err > 0) CHECK(e == err, "a request with a flaw (%s) is refused with %s instead of %s", what, errname(e), errname(err));
        CHECK(w->out.compare(0, 12, "HTTP/1.1 101") != 0, "a request with a flaw (%s) is answered with 101", what);
        if(stall) CHECK(now() == std::max(t0, dl), "timed out at +%lld instead of +%lld", (long long)(now() - t0), (long long)(dl - t0));
        CHECK(w->closes == 1, "the socket is left open after a refused handshake"); label(what); CHECK(live_allocs() == live0, "memory leaked by a refused handshake: %zu blocks", live_allocs() - live0); nontrivial(); return; }
    CHECK(h >= 0, "a valid request is refused: %s", errname(e)); if(r.str() != res || ho.str() != host) fail("resource '%s', host '%s'", r.p.get(), ho.p.get());
    std::vector<std::pair<std::string, std::string>> f; std::string line; CHECK(parse(w->out, line, f), "malformed reply %s", hex(w->out.data(), w->out.size()).c_str()); CHECK(line.compare(0, 13, "HTTP/1.1 101 ") == 0, "status line '%s'", line.c_str());
    CHECK(lower(field(f, "upgrade")) == "websocket" && lower(field(f, "connection")) == "upgrade", "wrong reply"); CHECK(field(f, "sec-websocket-accept") == accept_key(key), "Sec-WebSocket-Accept is '%s' instead of '%s'", field(f, "sec-websocket-accept").c_str(), accept_key(key).c_str());
    CHECK(w->pending() == tail, "the handshake consumed %zd bytes behind the request", (ssize_t)tail.size() - (ssize_t)w->pending().size());
    CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "closed"); CHECK(live_allocs() == live0, "memory leaked: %zu blocks", live_allocs() - live0); label("valid"); nontrivial();
}
PROP_CASE(M07, client, "every reply: it completes the handshake or is refused") {
    run_all({[] { yield(); }, [] { yield(); }}); Wire *w[2]; sim_pair(w[0], w[1]); size_t live0 = live_allocs(); std::string res = "/" + gen_from(RCHAR, draw(30)), host = gen_from("abc.019:-", 1 + draw(20));
    int flaw = weighted({10, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1}); int err = EPROTO; const char *what = "valid"; int64_t dl = chance(1, 3) || flaw == 8 ? now() + 20 + draw(100) : -1; int64_t t0 = now(); std::string tail; if(!flaw) tail = gen_bytes(draw(40)); int h, e; bool toend = false; int64_t tend = 0;
    auto peer = [&] {
        std::string req; while(req.size() < 4 || req.compare(req.size() - 4, 4, "\r\n\r\n")) { char c; CHECK(brecv(w[1]->h, &c, 1, -1) == 0, "the client's request is incomplete: %s", hex(req.data(), req.size()).c_str()); req += c; }
        std::string line; std::vector<std::pair<std::string, std::string>> f; CHECK(parse(req, line, f), "malformed request"); std::string key = field(f, "sec-websocket-key"); CHECK(valid_key(key) == 1, "invalid key '%s'", key.c_str());
        std::string first = chance(1, 2) ? "HTTP/1.1 101 Switching Protocols" : "HTTP/1.1 101 " + gen_from("abc", chance(1, 8) ? 255 - draw(3) : 1 + draw(9));
        std::vector<H> hs = {{randcase("Upgrade"), randcase("websocket")}, {randcase("Connection"), upg()}, {randcase("Sec-WebSocket-Accept"), accept_key(key)}}; add_noise(hs); shuffle(hs);
        auto find = [&](const char *n) { for(size_t i = 0; i < hs.size(); ++i) if(lower(hs[i].n) == n) return i; return (size_t)0; }; static const char *NM[] = {"upgrade", "connection", "sec-websocket-accept"};
        switch(flaw) {
        case 1: { what = "status"; static const int S[] = {200, 100, 102, 404, 503, 301, 110}; first = "HTTP/1.1 " + std::to_string(S[draw(7)]) + " OK"; break; }
        case 2: { what = "accept"; std::string &v = hs[find("sec-websocket-accept")].v; switch(draw(6)) { case 0: v = accept_key(gen_key()); break; case 1: v[draw(27)] ^= 1; break; case 2: v.resize(draw(27) + 1); break; case 3: v += "="; break; case 4: v = key; break; default: { std::string o = v; for(auto &c : v) c = islower(c) ? toupper(c) : tolower(c); if(o == v) v = "x"; break; } } break; }
        case 3: what = "upgrade"; hs[find("upgrade")].v = chance(1, 2) ? "h2c" : "websocketx"; break;
        case 4: what = "connection"; hs[find("connection")].v = chance(1, 2) ? "keep-alive" : chance(1, 2) ? "close" : "Upgradee"; break;
        case 5: { what = "missing field"; size_t i = find(NM[draw(3)]); hs.erase(hs.begin() + i); break; }
        case 6: { what = "field twice"; H x = hs[find(NM[draw(3)])]; hs.insert(hs.begin() + draw(hs.size() + 1), x); break; }
        case 7: what = "end"; err = -1; break;
        case 8: what = "silence"; err = ETIMEDOUT; break;
        case 9: what = "garbage"; err = -1; first = gen_from("abc /1.HTP0\x80", 1 + draw(30)) + "~"; break;
        case 10: { what = "protocol"; err = -1; static const char *P[] = {"HTTP/1.0", "HTTP/2", "HTTPS/1.1"}; first = std::string(P[draw(3)]) + " 101 Switching Protocols"; break; } }
        std::string t = block(first, hs) + tail; if(flaw == 8) t.resize(draw(t.size())); if(flaw == 7) { size_t last = 0; for(auto &h : hs) for(auto *n : NM) if(lower(h.n) == n) last = std::max(last, t.find("\r\n" + h.n + ":") + 3 + h.n.size()); t.resize(draw(last)); } note("flaw %s; reply %s", what, t.c_str()); size_t seg = chance(1, 2) ? t.size() + 1 : 1 + draw(50); int64_t step = dl < 0 ? draw(3) : 0;
        for(size_t i = 0; i < t.size() && !w[0]->closes; i += seg) { std::string x = t.substr(i, seg); if(bsend(w[1]->h, x.data(), x.size(), -1) != 0) break; if(step) msleep(now() + step); }
        if(flaw == 7) { CHECK(hclose(w[1]->h) == 0, "hclose"); } };
    run_all({[&] { h = client(w[0]->h, WS_BINARY, res.c_str(), host.c_str(), dl); e = errno; tend = now(); toend = true; }, peer});
    if(flaw) { CHECK(h == -1, "a reply with a flaw (%s) is accepted", what); if(err > 0) CHECK(e == err, "a reply with a flaw (%s) is refused with %s instead of %s", what, errname(e), errname(err)); if(flaw == 8) CHECK(tend == std::max(t0, dl), "timed out at +%lld instead of +%lld", (long long)(tend - t0), (long long)(dl - t0)); CHECK(w[0]->closes == 1, "the socket is left open after a failed handshake"); }
    else { CHECK(h >= 0, "a valid reply is refused: %s", errname(e)); CHECK(w[0]->pending() == tail, "the handshake consumed %zd bytes behind the reply", (ssize_t)tail.size() - (ssize_t)w[0]->pending().size()); CHECK(hclose(h) == 0, "hclose"); CHECK(w[0]->closes == 1, "closed"); }
    (void)toend; CHECK(live_allocs() == live0, "memory leaked by the handshake: %zu blocks", live_allocs() - live0); label(what); nontrivial();
}
PROP_CASE(M07, keys, "every case") {
    if(chance(1, 4)) { char k[2][WS_KEY_SIZE]; for(int i = 0; i < 2; ++i) { memset(k[i], 'x', sizeof k[i]); CHECK(ws_request_key(k[i]) == 0, "ws_request_key: %s", errname(errno)); CHECK(memchr(k[i], 0, WS_KEY_SIZE) && valid_key(k[i]) == 1, "invalid key generated"); } CHECK(strcmp(k[0], k[1]), "the same key '%s' is generated twice", k[0]); label("generated"); nontrivial(); return; }
    std::string k = gen_key(); bool ok = chance(1, 2); if(!ok) { k = chance(1, 2) ? bad_key(k) : gen_from("abcABC019+/=!\x80\xff \t", draw(60)); int v = valid_key(k); if(v == 1) ok = true; if(v == -1) return; }
    Buf in(k.size() + 1); memcpy(in.p.get(), k.c_str(), k.size() + 1); Buf out(WS_KEY_SIZE); int n = draw(12); int rc = ws_response_key(n == 0 ? NULL : in.p.get(), n == 1 ? NULL : out.p.get()), e = errno;
    if(n < 2) { CHECK(rc == -1 && e == EINVAL, "ws_response_key with NULL: %d %s", rc, errname(e)); CHECK(n || ws_request_key(NULL) == -1, "ws_request_key(NULL)"); nontrivial(); return; }
    if(ok) { CHECK(rc == 0, "ws_response_key: %s", errname(e)); if(out.str() != accept_key(k)) fail("response key '%s' instead of '%s'", out.p.get(), accept_key(k).c_str()); label("valid key"); }
    else { CHECK(rc == -1 && e == EPROTO, "malformed key %s: %d %s", hex(k.data(), k.size()).c_str(), rc, errname(e)); label("malformed key"); }
    nontrivial();
}
PROP_CASE(M07, many, "every case: two to four connections in use at the same time") { stk_many(L_WS); nontrivial(true); }
