#include "stk.h"
#include "tls_keys.h"
#include <algorithm>
static TlsEnv tls_env;
typedef std::string S;
namespace {
void build(Stack &s, bool http) {
    s.open(B_SIM); if(http) return; int n = 1 + (chance(1, 3) ? draw(3) : 0); while(n--) { Lay l = s.gen(false); if(l.kind == L_WS) l.http = false; s.push(l); } if(chance(1, 4)) s.exchange(draw(6)); for(auto &l : s.lays) label(lay_name(l.kind)); note("%s", s.text().c_str()); }
int feed(Wire *w, const S &d, std::vector<int64_t> &arr, int64_t &t) { int slow = chance(1, 4) ? 0 : 1 + draw(8); for(char c : d) { if(slow && chance(1, 3)) t += draw(slow + 1); w->in.push_back({t, S(1, c)}); arr.push_back(t); } return 0; }
}
PROP_CASE(M11, recv, "a fault or a deadline in the middle of the stream") {
    Stack s; bool http = chance(1, 6); build(s, http); Wire *tx = s.w[0], *rx = s.w[1]; std::vector<S> ms; std::vector<size_t> end; int n = 1 + draw(8); bool fin = false;
    if(!rx->in.empty()) fail("harness: data left"); size_t base = tx->out.size(); int hs = -1, hr = -1; if(http) { hs = http_attach(s.h[0]); hr = http_attach(s.h[1]); CHECK(hs >= 0 && hr >= 0, "http_attach"); label("http"); }
    for(int i = 0; i < n; ++i) { S m = http ? gen_from("abcdef", 1 + draw(20)) : s.msg(); if(http) CHECK(http_sendfield(hs, "Name", m.c_str(), -1) == 0, "http_sendfield"); else CHECK(msend_any(s.h[0], m, -1) == 0, "msend"); ms.push_back(m); end.push_back(tx->out.size() - base); }
    bool det = !http && s.has_done() && chance(1, 2); if(det) { CHECK(s.done(0, -1) == 0, "done"); end.push_back(tx->out.size() - base); }
    S data = rx->pending(); rx->in.clear(); if(data.size() != end.back()) fail("harness: %zu bytes instead of %zu", data.size(), end.back());
    int kind = draw(4); size_t cut = kind == 0 ? data.size() : draw(data.size() + 1); if(cut == data.size()) kind = 0; int err = chance(1, 2) ? ECONNRESET : chance(1, 2) ? ECONNABORTED : EIO; std::vector<int64_t> arr; int64_t t = now() + draw(3), f0 = now(); feed(rx, data.substr(0, cut), arr, t);
    if(kind == 1) rx->eof = true; if(kind == 2) rx->in_err = err; size_t from = det ? draw(ms.size() + 1) : 0; if(det && (s.lays.back().kind == L_TERM || s.lays.back().kind == L_WS)) {} 
    size_t stop = det ? from : ms.size() + (kind ? 1 : 0); bool dead = false; note("kind %d, cut %zu of %zu, %zu messages%s", kind, cut, data.size(), ms.size(), det ? ", detach" : "");
    auto expect = [&](size_t e, int64_t t0, int64_t dl, int rc, int er, const char *what) -> bool {
        int64_t last = cut ? arr[cut - 1] : f0; int64_t D = dl < 0 ? INT64_MAX : std::max(dl, t0);
        if(e <= cut) { int64_t T = std::max(t0, e ? arr[e - 1] : f0); if(T < D || (T == D && rc >= 0)) { CHECK(rc >= 0, "%s: %s although everything had arrived in time (+%lld, deadline +%lld)", what, errname(er), (long long)(T - t0), (long long)(D - t0)); CHECK(now() == T, "%s ended at +%lld instead of +%lld", what, (long long)(now() - t0), (long long)(T - t0)); return true; } }
        else if(kind == 1 || kind == 2) { int64_t T = std::max(t0, last); if(T < D || (T == D && er != ETIMEDOUT)) { CHECK(rc < 0, "%s succeeds although the message is incomplete", what); if(kind == 2) CHECK(er == err, "%s: %s instead of %s", what, errname(er), errname(err)); else CHECK(er == EPIPE || er == ECONNRESET, "%s at the end of the stream: %s", what, errname(er)); CHECK(now() == T, "%s failed at +%lld instead of +%lld", what, (long long)(now() - t0), (long long)(T - t0)); label(kind == 1 ? "end" : "error below"); nontrivial(); return false; } }
        CHECK(rc < 0 && er == ETIMEDOUT, "%s: %d %s instead of ETIMEDOUT", what, rc, rc < 0 ? errname(er) : ""); CHECK(now() == D, "%s timed out at +%lld instead of +%lld", what, (long long)(now() - t0), (long long)(D - t0)); label("timed out"); nontrivial(); return false; };
    size_t i = 0;
    for(; i < stop && !dead; ++i) { size_t e = i < end.size() ? end[i] : SIZE_MAX; int64_t t0 = now(), dl = (kind == 3 && e > cut) || chance(1, 2) ? dl0(t0 - 1 + draw(40)) : chance(1, 2) ? t0 + 1000000 : -1; int rc, er; if(dl < 0 && (kind == 3 && e > cut)) dl = 0;
        if(http) { char a[100], b[100]; rc = http_recvfield(hr, a, sizeof a, b, sizeof b, dl); er = errno; if(rc >= 0) CHECK(!strcmp(a, "Name") && i < ms.size() && ms[i] == b, "wrong field"); }
        else { rc = mrecv_any(s.h[1], i < ms.size() ? ms[i].size() : 10, i < ms.size() ? &ms[i] : nullptr, dl); er = errno; }
        if(!expect(e, t0, dl, rc, er, http ? "http_recvfield" : "mrecv")) dead = true; if(!dead && i >= ms.size()) fail("a message out of nothing"); }
    if(dead) { if(!rx->eof) { rx->in.clear(); rx->in_err = 0; rx->rfail = false; rx->put(data + data); } for(int k = 1 + draw(3); k--;) { int rc; if(http) { char a[100], b[100]; rc = http_recvfield(hr, a, sizeof a, b, sizeof b, now() + 5); } else rc = mrecv_any(s.h[1], 500, nullptr, now() + 5); CHECK(rc < 0, "a receive succeeds after a failed one"); } }
    else if(det) { Lay l = s.lays.back(); int64_t t0 = now(), dl = kind == 3 || chance(1, 2) ? dl0(t0 + draw(60)) : -1; int u = s.detach(1, l, s.h[1], dl), er = errno; if(kind != 1) expect(end.back(), t0, dl, u, er, "detach"); else CHECK(dl < 0 || now() <= std::max(t0, dl), "detach ended too late"); label("detach"); if(u >= 0) s.h[1] = u; else { CHECK(rx->closes == 1, "a failed detach left the socket open"); s.h[1] = -1; } }
    if(http) { CHECK(hclose(hs) == 0 && hclose(hr) == 0, "hclose"); } else { s.close(0); if(s.h[1] >= 0) s.close(1); }
}
PROP_CASE(M11, send, "a send failed") {
    Stack s; bool http = chance(1, 6); build(s, http); Wire *w = s.w[0]; int h = http ? http_attach(s.h[0]) : s.h[0]; CHECK(h >= 0, "http_attach"); long base = w->out.size(); int kind = draw(3), err = chance(1, 2) ? ECONNRESET : chance(1, 2) ? EIO : ECONNABORTED; long at = base + draw(chance(1, 3) ? 400 : 40); 
    if(kind == 0) { w->out_err_at = at; w->out_errno = err; } else { w->cap = 1 + draw(60); } bool over = false; long drained = 0; long limit = kind == 1 ? 0 : draw(300); note("kind %d at %ld", kind, at - base);
    auto drain = [&] { if(kind != 2) return; while(!over && drained < limit) { if(msleep(now() + draw(6)) < 0) return; if(over) return; auto &in = s.w[1]->in; if(in.empty()) { if(drained >= limit) return; continue; } size_t n = 1 + draw(3); auto &c = in.front(); n = std::min(n, c.d.size()); drained += n; if(n == c.d.size()) in.pop_front(); else c.d.erase(0, n); } };
    auto sender = [&] { for(int i = 0; i < 40; ++i) { S m = http ? gen_from("abcdef", 1 + draw(20)) : s.msg(); int64_t t0 = now(), dl = kind == 0 && chance(1, 2) ? -1 : dl0(t0 + draw(60)); w->last_err = 0; bool dn = !http && s.has_done() && chance(1, 10); int rc = http ? http_sendfield(h, "Name", m.c_str(), dl) : dn ? s.done(0, dl) : msend_any(h, m, dl), er = errno; const char *what = dn ? "done" : "send";
            CHECK(dl < 0 || now() <= std::max(dl, t0), "%s with the deadline at +%d ended at +%d", what, (int)(dl - t0), (int)(now() - t0));
            if(rc == 0) { CHECK(!w->last_err, "%s succeeds although the socket below failed with %s", what, errname(w->last_err)); if(dn) break; continue; }
            CHECK(w->last_err, "%s fails with %s although the socket below did not", what, errname(er)); CHECK(er == w->last_err, "%s: %s although the socket below failed with %s", what, errname(er), errname(w->last_err)); if(er == ETIMEDOUT) CHECK(now() == std::max(dl, t0), "%s timed out at +%d instead of +%d", what, (int)(now() - t0), (int)(dl - t0)); label(er == ETIMEDOUT ? "timed out" : "error below");
            w->out_err_at = -1; w->cap = 0; w->sfail = false; size_t o = w->out.size(); for(int k = 1 + draw(3); k--;) { rc = http ? http_sendfield(h, "Name", "v", -1) : msend_any(h, s.msg(), -1); CHECK(rc == -1, "a send succeeds after a failed one"); CHECK(w->out.size() == o, "%zu bytes sent after a failed send", w->out.size() - o); } nontrivial();
            if(!http) { /* the other direction is not concerned */ s.w[1]->cap = 0; S m2 = s.msg(); CHECK(msend_any(s.h[1], m2, -1) == 0, "msend the other way: %s", errname(errno)); CHECK(mrecv_any(s.h[0], m2.size(), &m2, -1) == (ssize_t)m2.size(), "mrecv after a failed send: %s", errname(errno)); }
            break; } over = true; };
    run_all({drain, sender}); if(http) { CHECK(hclose(h) == 0 && hclose(s.h[1]) == 0, "hclose"); } else { s.close(0); s.close(1); }
}
PROP_CASE(M11, attach, "one side gave up at its deadline, or both succeeded in spite of a slow stream") {
    Stack s; bool tls = chance(1, 4); if(tls) stk_files(); s.open(B_SIM); int64_t slow[2] = {(int64_t)draw(4), (int64_t)draw(4)}, last[2] = {now(), now()}; Lay l; do l = s.gen(tls); while(l.kind != L_WS && !(tls && l.kind == L_TLS)); if(l.kind == L_WS) l.http = true; label(lay_name(l.kind)); int socks = l.kind == L_WS && chance(1, 3); if(socks) label("socks5");
    for(int i = 0; i < 2; ++i) s.w[i]->filter = [&, i](long, S d) { last[i] = std::max(last[i], now()); for(char c : d) { if(slow[i] && chance(1, 2)) last[i] += draw(slow[i] + 1); s.w[!i]->in.push_back({last[i], S(1, c)}); } return S(); };
    int64_t D[2]; int rc[2] = {-5, -5}, er[2]; int64_t fin[2]; bool bound = chance(3, 4); for(int i = 0; i < 2; ++i) D[i] = bound ? now() + draw(socks ? 60 : 1500) : now() + 1000000; struct ipaddr ip; CHECK(ipaddr_remote(&ip, "10.1.2.3", 4567, IPADDR_IPV4, -1) == 0, "ipaddr");
    auto f = [&](int i) { int64_t t0 = now(); if(socks) { if(i == l.srv) { rc[i] = socks5_client_connect(s.h[i], "user", "password", &ip, D[i]); er[i] = errno; } else { rc[i] = socks5_proxy_auth(s.h[i], [](const char *, const char *) { return 1; }, D[i]); if(rc[i] == 0) { struct ipaddr a; rc[i] = socks5_proxy_recvcommand(s.h[i], &a, D[i]); } if(rc[i] >= 0) rc[i] = socks5_proxy_sendreply(s.h[i], 0, &ip, D[i]); er[i] = errno; } }
        else { rc[i] = s.attach(i, l, D[i]); er[i] = errno; }
        fin[i] = now(); CHECK(fin[i] <= std::max(t0, D[i]), "attach with the deadline at +%d ended at +%d", (int)(D[i] - t0), (int)(fin[i] - t0)); };
    run_all({[&] { f(0); }, [&] { f(1); }});
    for(int i = 0; i < 2; ++i) { if(rc[i] >= 0) { if(!socks) s.h[i] = rc[i]; CHECK(hclose(s.h[i]) == 0, "hclose"); } else { int64_t o = fin[!i]; if(er[i] == ETIMEDOUT) CHECK(fin[i] == D[i], "attach timed out at %+d", (int)(fin[i] - D[i])); else CHECK(rc[!i] < 0 && o <= fin[i], "attach fails with %s without reason", errname(er[i])); if(socks) CHECK(hclose(s.h[i]) == 0, "hclose"); } CHECK(s.w[i]->closes == 1, "the underlying socket was closed %d times", s.w[i]->closes); }
    if(rc[0] < 0 || rc[1] < 0) label("timed out"); nontrivial();
}
