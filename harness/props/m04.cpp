#include "sim.h"
#include "stk.h"
#include <algorithm>
#include <ctype.h>
namespace {
http_storage mem[4]; int nmem = 0;
int attach(int s) { int h = chance(1, 2) && nmem < 4 ? http_attach_mem(s, &mem[nmem++]) : http_attach(s); CHECK(h >= 0, "http_attach: %s", errname(errno)); return h; }
const char TCHAR[] = "abcXYZ019!#$%&'*+-.^_`|~";
const char VCHAR[] = "abcXYZ019!#$%&'*+-.^_`|~()/:;<=>?@[]{}\"\\,";
std::string token(size_t n) { return gen_from(TCHAR, n); }
size_t len1() { return 1 + draw(chance(1, 10) ? 200 : 10); }
std::string resource() { return chance(1, 2) ? "/" + gen_from(VCHAR, draw(20)) : gen_from(VCHAR, len1()); }
std::string text(size_t n) { std::string s = gen_from("abcz  :,HTTP/1.1\t\x80\xff", n); return s; }
std::string strip(const std::string &s) { size_t a = s.find_first_not_of(' '); if(a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(' ') - a + 1); }
/* A buffer of exactly n bytes, so that any overflow is seen. */
struct Buf { std::unique_ptr<char[]> p; size_t n; Buf(size_t k) : p(new char[k]), n(k) { memset(p.get(), 0xEE, k); } 
    std::string str() { CHECK(memchr(p.get(), 0, n), "result is not zero-terminated"); return p.get(); } };
size_t cap_for(const std::string &s, bool &fits) { if(fits && chance(1, 10)) { fits = false; return draw(s.size() + 1); } return s.size() + 1 + (chance(1, 2) ? 0 : draw(20)); }
struct Line { int kind; std::string a, b; int status; };
std::string bad(const std::string &alpha, bool lead) { std::string s = lead ? token(draw(5)) : ""; s += gen_from(alpha, 1 + draw(2)); s += token(draw(5)); return s; }
}
PROP_CASE(M04, dialogue, "at least 3 lines received, or a line refused") {
    Wire *w[2]; sim_pair(w[0], w[1]); int h[2] = {attach(w[0]->h), attach(w[1]->h)};
    std::deque<Line> q[2]; bool done[2] = {false, false}, ended[2] = {false, false}; std::string wire[2]; int got = 0, refused = 0;
    int n = 4 + draw(25);
    auto checkwire = [&](int d) { if(w[d]->out != wire[d]) fail("wrong text sent: %s instead of %s", hex(w[d]->out.data(), w[d]->out.size()).c_str(), hex(wire[d].data(), wire[d].size()).c_str()); };
    for(int i = 0; i < n; ++i) {
        int d = draw(2), rc, e;
        switch(weighted({8, 8, 1, 1})) {
        case 0: {
            Line l; l.kind = draw(3); std::string t;
            if(l.kind == 0) { l.a = token(len1()); l.b = resource(); t = l.a + " " + l.b + " HTTP/1.1\r\n"; rc = http_sendrequest(h[d], l.a.c_str(), l.b.c_str(), -1); }
            else if(l.kind == 1) { l.status = 100 + draw(500); l.a = strip(text(chance(1, 8) ? 0 : len1())); t = "HTTP/1.1 " + std::to_string(l.status) + " " + l.a + "\r\n"; rc = http_sendstatus(h[d], l.status, l.a.c_str(), -1); }
            else { l.a = token(len1()); std::string v = std::string(draw(3), ' ') + "v" + text(draw(chance(1, 10) ? 300 : 20)); l.b = strip(v); t = l.a + ": " + l.b + "\r\n"; rc = http_sendfield(h[d], l.a.c_str(), v.c_str(), -1); }
            e = errno; note("%d sends %s", d, t.c_str());
            if(done[d]) { CHECK(rc == -1 && e == EPIPE, "sending after http_done: %d %s", rc, errname(e)); }
            else { CHECK(rc == 0, "sending: %s", errname(e)); wire[d] += t; q[d].push_back(l); }
            checkwire(d); break; }
        case 1: {
            if(ended[d] ) { Buf a(10), b(10); rc = draw(2) ? http_recvfield(h[1 - d], a.p.get(), a.n, b.p.get(), b.n, -1) : http_recvrequest(h[1 - d], a.p.get(), a.n, b.p.get(), b.n, -1); e = errno; CHECK(rc == -1 && e == EPIPE, "receiving behind the end: %d %s", rc, errname(e)); break; }
            if(q[d].empty()) { if(!done[d]) break; Buf a(10), b(10); rc = http_recvfield(h[1 - d], a.p.get(), a.n, b.p.get(), b.n, -1); e = errno; CHECK(rc == -1 && e == EPIPE, "receiving the end: %d %s", rc, errname(e)); ended[d] = true; break; }
            Line l = q[d].front(); q[d].pop_front(); bool fits = true;
            if(l.kind == 1) { Buf a(cap_for(l.a, fits)); rc = http_recvstatus(h[1 - d], a.p.get(), a.n, -1); e = errno;
                if(fits) { CHECK(rc == l.status, "http_recvstatus: %d %s instead of %d", rc, rc < 0 ? errname(e) : "", l.status); if(a.str() != l.a) fail("reason '%s' instead of '%s'", a.p.get(), l.a.c_str()); } }
            else { Buf a(cap_for(l.a, fits)), b(cap_for(l.b, fits)); 
                rc = l.kind ? http_recvfield(h[1 - d], a.p.get(), a.n, b.p.get(), b.n, -1) : http_recvrequest(h[1 - d], a.p.get(), a.n, b.p.get(), b.n, -1); e = errno;
                if(fits) { CHECK(rc == 0, "receiving a %s: %s", l.kind ? "field" : "request", errname(e)); if(a.str() != l.a || b.str() != l.b) fail("received '%s' '%s' instead of '%s' '%s'", a.p.get(), b.p.get(), l.a.c_str(), l.b.c_str()); } }
            if(!fits) { CHECK(rc == -1 && e == EMSGSIZE, "receiving into a too small buffer: %d %s", rc, errname(e)); label("too small buffer"); }
            got++; break; }
        case 2: rc = http_done(h[d], -1); e = errno; if(done[d]) CHECK(rc == -1 && e == EPIPE, "second http_done: %d %s", rc, errname(e)); else { CHECK(rc == 0, "http_done: %s", errname(e)); done[d] = true; wire[d] += "\r\n"; } checkwire(d); break;
        case 3: {
            if(done[d]) break;
            refused++;
            switch(draw(9)) {
            case 0: rc = http_sendrequest(h[d], bad(" \t\n", true).c_str(), "/", -1); break;
            case 1: rc = http_sendrequest(h[d], "GET", bad(" \t\n", true).c_str(), -1); break;
            case 2: rc = http_sendfield(h[d], bad("(),/:;<=>?@[\\]{}\" \t\n", true).c_str(), "v", -1); break;
            case 3: rc = http_sendfield(h[d], "n", std::string(draw(4), ' ').c_str(), -1); break;
            case 4: rc = http_sendfield(h[d], "n", ("v" + bad("\r\n", true)).c_str(), -1); break;
            case 5: rc = http_sendstatus(h[d], chance(1, 2) ? 600 + draw(1000) : (int)draw(100) - (chance(1, 2) ? 200 : 0), "OK", -1); break;
            case 6: rc = http_sendstatus(h[d], 200, bad("\r\n", true).c_str(), -1); break;
            case 7: rc = draw(2) ? http_sendrequest(h[d], "", "/", -1) : http_sendrequest(h[d], "GET", "", -1); break;
            default: rc = draw(2) ? http_sendrequest(h[d], bad("\r", true).c_str(), "/", -1) : http_sendfield(h[d], bad("\r", true).c_str(), "v", -1); break;
            }
            e = errno; CHECK(rc == -1 && (e == EINVAL || e == EPROTO), "text that cannot be parsed back was not refused: %d %s", rc, rc < 0 ? errname(e) : ""); checkwire(d); break; }
        }
    }
    std::string post[2] = {gen_bytes(1 + draw(30)), gen_bytes(1 + draw(30))}; int u[2]; int64_t pause[2] = {(int64_t)draw(4), (int64_t)draw(4)};
    auto side = [&](int i) { return [&, i] {
        if(pause[i]) msleep(now() + pause[i]);
        u[i] = http_detach(h[i], -1); CHECK(u[i] >= 0 && sim_is(u[i], w[i]), "http_detach: %d %s", u[i], errname(errno));
        CHECK(bsend_any(u[i], post[i], -1) == 0, "bsend after detach: %s", errname(errno));
        std::string g; CHECK(brecv_any(u[i], post[1 - i].size(), &g, -1) == 0 && g == post[1 - i], "after http_detach the stream does not continue at the following byte: received %s instead of %s", hex(g.data(), g.size()).c_str(), hex(post[1 - i].data(), post[1 - i].size()).c_str()); }; };
    run_all({side(0), side(1)});
    for(int i = 0; i < 2; ++i) { if(h[i] != u[0] && h[i] != u[1]) CHECK(hclose(h[i]) == -1 && errno == EBADF, "the handle is still open after detach"); CHECK(w[i]->pending().empty(), "bytes left behind"); CHECK(hclose(u[i]) == 0, "hclose"); CHECK(w[i]->closes == 1, "underlying sockets closed"); }
    if(refused) label("refused");
    nontrivial(got >= 3 || refused);
}
namespace {
enum { MUST_FAIL, EITHER, MUST_OK };
std::vector<std::string> split(const std::string &l) { std::vector<std::string> r; size_t i = 0; while(i < l.size()) { while(i < l.size() && l[i] == ' ') i++; size_t j = i; while(j < l.size() && l[j] != ' ') j++; if(j > i) r.push_back(l.substr(i, j - i)); i = j; } return r; }
bool plain(const std::string &s) { for(unsigned char c : s) if(c <= 32 || c == 127) return false; return true; }
int parse_request(const std::string &l, std::string &a, std::string &b) {
    if(l.find('\0') != std::string::npos) return MUST_FAIL; auto t = split(l); if(t.size() != 3 || t[2] != "HTTP/1.1") return MUST_FAIL; a = t[0]; b = t[1];
    return l == a + " " + b + " HTTP/1.1" && plain(a) && plain(b) ? MUST_OK : EITHER; }
int parse_status(const std::string &l, int &st, std::string &r) {
    if(l.find('\0') != std::string::npos) return MUST_FAIL; size_t i = l.find_first_not_of(' '); if(i == std::string::npos || l.compare(i, 8, "HTTP/1.1")) return MUST_FAIL; i += 8;
    size_t j = l.find_first_not_of(' ', i); if(j == i || j == std::string::npos || j + 3 > l.size() || !isdigit((unsigned char)l[j]) || !isdigit((unsigned char)l[j + 1]) || !isdigit((unsigned char)l[j + 2])) return MUST_FAIL;
    st = atoi(l.substr(j, 3).c_str()); if(j + 3 < l.size() && l[j + 3] != ' ') return MUST_FAIL; size_t k = l.find_first_not_of(' ', j + 3); r = k == std::string::npos ? "" : l.substr(k);
    if(st < 100 || st > 599) return EITHER;
    for(unsigned char c : r) if(c < 32 && c != '\t') return EITHER;
    if(!r.empty() && r.back() == ' ') return EITHER;
    return l == "HTTP/1.1 " + l.substr(j, 3) + " " + r ? MUST_OK : EITHER; }
int parse_field(const std::string &l, std::string &a, std::string &b) {
    if(l.find('\0') != std::string::npos) return MUST_FAIL; size_t c = l.find(':'); if(c == std::string::npos) return MUST_FAIL;
    std::string n = l.substr(0, c); a = strip(n); if(a.find(' ') != std::string::npos) return MUST_FAIL; b = strip(l.substr(c + 1));
    if(a.empty() || a != n || a.find_first_not_of(TCHAR) != std::string::npos) return EITHER;
    for(unsigned char ch : b) if(ch < 32 && ch != '\t') return EITHER;
    if(!b.empty() && (b[0] == '\t' || b.back() == '\t')) return EITHER;
    return MUST_OK; }
std::string mutate(std::string l) {
    int n = 1 + draw(3);
    while(n--) switch(draw(8)) {
        case 0: if(!l.empty()) l.erase(draw(l.size()), 1 + draw(3)); break;
        case 1: l.insert(draw(l.size() + 1), std::string(1 + draw(2), ' ')); break;
        case 2: l.insert(draw(l.size() + 1), gen_from(std::string(":/1HT\t\n\r\0\x80", 10), 1)); break;
        case 3: if(!l.empty()) l[draw(l.size())] = (char)draw(256); break;
        case 4: { size_t p = l.find("HTTP/1.1"); if(p != std::string::npos) switch(draw(4)) { case 0: l[p + 7] = '0'; break; case 1: l.insert(p + 8, "1"); break; case 2: l[p] = 'h'; break; default: l.erase(p + 7, 1); } break; }
        case 5: l += " " + token(draw(3)); break;
        case 6: l.insert(draw(l.size() + 1), std::string(900 + draw(200), 'x')); break;
        case 7: l.insert(draw(l.size() + 1), 1, 0); break;
    }
    size_t p; while((p = l.find("\r\n")) != std::string::npos) l.erase(p, 1);
    if(!l.empty() && l.back() == '\r') l.pop_back();
    return l;
}
}
PROP_CASE(M04, malformed, "at least one line that has to be refused") {
    Wire *w = sim_new(); std::vector<std::string> lines; int n = 1 + draw(6); bool ends = false;
    for(int i = 0; i < n; ++i) {
        std::string l; switch(draw(3)) { case 0: l = token(len1()) + " " + resource() + " HTTP/1.1"; break; case 1: l = "HTTP/1.1 " + std::to_string(100 + draw(500)) + " " + strip(text(draw(15))); break; default: l = token(len1()) + ":" + std::string(draw(3), ' ') + strip(text(draw(20))) + std::string(draw(3), ' '); }
        if(chance(1, 2)) l = mutate(l);
        if(chance(1, 12)) { size_t k = 1019 + draw(8); l = "X: "; l += std::string(k - 3, 'y'); }
        if(chance(1, 12)) l = "";
        if(chance(1, 10)) { l = gen_bytes(draw(30)); size_t p; while((p = l.find('\r')) != std::string::npos) l.erase(p, 1); }
        if(l.empty()) ends = true;
        lines.push_back(l); if(ends) break;
    }
    std::string in; for(auto &l : lines) in += l + "\r\n"; bool cut = !ends && chance(1, 3); if(cut) in += token(draw(5));
    size_t seg = 1 + draw(60); for(size_t i = 0; i < in.size(); i += seg) w->put(in.substr(i, seg)); w->eof = true;
    int h = attach(w->h); bool dead = false, end = false; int must = 0;
    for(size_t i = 0; i < lines.size() + 2; ++i) {
        int kind = draw(3); std::string l = i < lines.size() ? lines[i] : ""; 
        if(i < lines.size()) { if(l.compare(0, 5, "HTTP/") == 0 && chance(5, 6)) kind = 1; else if(l.find(':') < l.find(' ') && chance(5, 6)) kind = 2; else if(chance(5, 6)) kind = 0; }
        std::string a, b; int st = 0, verdict; 
        verdict = kind == 0 ? parse_request(l, a, b) : kind == 1 ? parse_status(l, st, a) : parse_field(l, a, b);
        bool small = chance(1, 8); size_t ca = 1100, cb = 1100; if(small) { ca = chance(1, 2) ? draw(3) : a.size() + draw(3); cb = chance(1, 2) ? draw(3) : b.size() + draw(3); } 
        if(ca <= a.size() || (kind != 1 && cb <= b.size())) verdict = MUST_FAIL;
        if(l.size() > 1023 || dead || end || l.empty()) verdict = MUST_FAIL;
        note("line %s as %s", hex(l.data(), l.size()).c_str(), kind == 0 ? "request" : kind == 1 ? "status" : "field");
        Buf x(ca), y(cb); int rc = kind == 0 ? http_recvrequest(h, x.p.get(), ca, y.p.get(), cb, -1) : kind == 1 ? http_recvstatus(h, x.p.get(), ca, -1) : http_recvfield(h, x.p.get(), ca, y.p.get(), cb, -1); int e = errno;
        if(verdict == MUST_FAIL) { CHECK(rc == -1, "malformed line accepted: %s", hex(l.data(), l.size()).c_str()); must++; }
        if(verdict == MUST_OK) CHECK(rc >= 0, "well-formed line %s refused: %s", hex(l.data(), l.size()).c_str(), errname(e));
        if(rc >= 0) {
            if(x.str() != a || (kind != 1 && y.str() != b)) fail("received '%s' '%s' instead of '%s' '%s'", x.p.get(), kind != 1 ? y.p.get() : "", a.c_str(), b.c_str());
            if(kind == 1) CHECK(rc == st, "status %d instead of %d", rc, st); }
        if(!dead && !end && i < lines.size() && l.empty()) { CHECK(e == EPIPE, "the empty line gives %s", errname(e)); end = true; }
        if(l.size() > 1023) dead = true;
        if(i >= lines.size() && !end) dead = true;
    }
    CHECK(hclose(h) == 0, "hclose"); CHECK(w->closes == 1, "underlying socket closed %d times", w->closes);
    nontrivial(must);
}
PROP_CASE(M04, many, "every case: two to four connections in use at the same time") { stk_many(L_HTTP); nontrivial(true); }
