#include "dnssrv.h"
#include <unistd.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
typedef std::string S;
std::string lower(S s) { for(auto &c : s) c = tolower(c); return s; }
static S be16(int v) { S s; s += (char)(v >> 8); s += (char)v; return s; }
S DnsPkt::encode() const {
    S p; std::map<S, int> at; auto name = [&](S n) { while(!n.empty() && n.back() == '.') n.pop_back(); while(!n.empty()) { auto it = at.find(lower(n)); if(compress && it != at.end()) { p += be16(0xC000 | it->second); return; } if(p.size() < 0x3000) at.emplace(lower(n), (int)p.size()); size_t d = n.find('.'); S l = n.substr(0, d); if(upper) for(size_t i = 0; i < l.size(); i += 2) l[i] = toupper(l[i]); p += (char)l.size(); p += l; n = d == S::npos ? S() : n.substr(d + 1); } p += '\0'; };
    p += be16(id) + be16(flags | (tc ? 0x200 : 0) | rcode) + be16(1) + be16(an.size()) + be16(ns.size()) + be16(ar.size()); name(qname); p += be16(qtype) + be16(1);
    auto rr = [&](const Rec &r) { name(r.name); p += be16(r.type) + be16(1) + be16(0) + be16(300); size_t l = p.size(); p += be16(0); if(r.type == T_CNAME || r.type == T_NS) name(r.data); else if(r.type == T_MX) { p += be16(10); name(r.data); } else if(r.type == T_TXT) { p += (char)r.data.size(); p += r.data; } else p += r.data; int n = p.size() - l - 2; p[l] = n >> 8; p[l + 1] = n; };
    for(auto &r : an) rr(r); for(auto &r : ns) rr(r); for(auto &r : ar) rr(r); return p; }
static bool parse(const char *b, size_t n, DnsQ &q) { if(n < 12) return false; q.id = (unsigned char)b[0] << 8 | (unsigned char)b[1]; size_t o = 12; q.name.clear(); while(o < n && b[o]) { size_t l = (unsigned char)b[o]; if(l > 63 || o + 1 + l >= n) return false; if(!q.name.empty()) q.name += "."; q.name.append(b + o + 1, l); o += 1 + l; } if(o + 5 > n) return false; q.type = (unsigned char)b[o + 1] << 8 | (unsigned char)b[o + 2]; q.name = lower(q.name); q.raw.assign(b, n); return true; }
void DnsSrv::start(std::function<void(DnsQ)> f) {
    on = f; for(int k = 0;; ++k) { struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a; tcp = socket(AF_INET, SOCK_STREAM, 0); udp = socket(AF_INET, SOCK_DGRAM, 0); if(tcp < 0 || udp < 0 || bind(tcp, (struct sockaddr*)&a, l) || listen(tcp, 10) || getsockname(tcp, (struct sockaddr*)&a, &l)) inconclusive("no sockets"); port = ntohs(a.sin_port); if(bind(udp, (struct sockaddr*)&a, sizeof a) == 0) break; ::close(tcp); ::close(udp); if(k > 20) inconclusive("no port"); }
    fcntl(udp, F_SETFL, O_NONBLOCK); fcntl(tcp, F_SETFL, O_NONBLOCK); t0 = now();
    auto old = ev.connect; int pt = port; struct sockaddr_in ma; memset(&ma, 0, sizeof ma); ma.sin_family = AF_INET; ma.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t ml = sizeof ma; mute = socket(AF_INET, SOCK_DGRAM, 0); if(mute < 0 || bind(mute, (struct sockaddr*)&ma, ml) || getsockname(mute, (struct sockaddr*)&ma, &ml)) inconclusive("no sockets"); int mpt = ntohs(ma.sin_port); ev.connect = [pt, mpt, old, this](int s, const struct sockaddr *a, unsigned l, int &e) { auto i = (const struct sockaddr_in*)a; if(a->sa_family == AF_INET6 && ntohs(((const struct sockaddr_in6*)a)->sin6_port) == 53) { auto i6 = (const struct sockaddr_in6*)a; char who[64]; inet_ntop(AF_INET6, &i6->sin6_addr, who, sizeof who); if(strcmp(who, "fd00::7") && strcmp(who, "fd00::8")) fail("the resolver asks %s", who); asked.push_back(who); struct sockaddr_in6 to = *i6; to.sin6_port = htons(pt); inet_pton(AF_INET6, "::ffff:127.0.0.1", &to.sin6_addr); ev.connect = nullptr; int rc = connect(s, (struct sockaddr*)&to, sizeof to); e = rc < 0 ? errno : 0; return true; } if(a->sa_family == AF_INET && ntohs(i->sin_port) == 53) { std::string who = inet_ntoa(i->sin_addr); if(who == "10.9.8.4") { asked.push_back(who); e = chance(1, 2) ? ENETUNREACH : EHOSTUNREACH; return true; } bool deaf = who == "10.9.8.5", closed = who == "10.9.8.6"; if(!deaf && !closed && who != "10.9.8.7" && who != "10.9.8.8") fail("the resolver asks %s", who.c_str()); asked.push_back(who); struct sockaddr_in to = *i; to.sin_port = htons(closed ? 1 : deaf ? mpt : pt); to.sin_addr.s_addr = htonl(INADDR_LOOPBACK); ev.connect = nullptr; int rc = connect(s, (struct sockaddr*)&to, sizeof to); e = rc < 0 ? errno : 0; return true; } return old ? old(s, a, l, e) : false; };
    auto mine = ev.connect; ev.connect = [mine](int s, const struct sockaddr *a, unsigned l, int &e) { auto keep = ev.connect; bool r = mine(s, a, l, e); ev.connect = keep; return r; };
    cos.push_back(go_fn([this] { for(;;) { if(fdin(udp, -1) < 0) return; DnsQ q; char b[2000]; socklen_t l = sizeof q.from; ssize_t n = recvfrom(udp, b, sizeof b, MSG_DONTWAIT, (struct sockaddr*)&q.from, &l); if(n < 0) continue; q.tcp = false; q.conn = -1; if(!parse(b, n, q)) fail("the resolver sends %s", hex(b, n).c_str()); note("query %s type %d %s", q.name.c_str(), q.type, hex(b, n).c_str()); log.push_back(q); on(q); } }));
    cos.push_back(go_fn([this] { for(;;) { if(fdin(tcp, -1) < 0) return; int c = accept(tcp, NULL, NULL); if(c < 0) continue; note("connection to the name server"); cos.push_back(go_fn([this, c] { S buf; for(;;) { if(fdin(c, -1) < 0) break; char b[2000]; ssize_t n = ::read(c, b, sizeof b); if(n <= 0) break; buf.append(b, n); while(buf.size() >= 2) { size_t l = (unsigned char)buf[0] << 8 | (unsigned char)buf[1]; if(buf.size() < 2 + l) break; DnsQ q; q.tcp = true; q.conn = c; if(!parse(buf.data() + 2, l, q)) fail("the resolver sends %s", hex(buf.data(), buf.size()).c_str()); note("tcp query %s type %d", q.name.c_str(), q.type); buf.erase(0, 2 + l); log.push_back(q); on(q); } } fdclean(c); ::close(c); })); } }));
}
void DnsSrv::reply(const DnsQ &q, const S &bytes, int64_t delay) {
    auto f = [this, q, bytes] { if(udp < 0) return; if(q.tcp) { S m = be16(bytes.size()) + bytes; ::send(q.conn, m.data(), m.size(), MSG_NOSIGNAL); } else sendto(udp, bytes.data(), bytes.size(), 0, (struct sockaddr*)&q.from, sizeof q.from); };
    if(delay <= 0) { f(); return; } cos.push_back(go_fn([f, delay] { if(msleep(now() + delay) == 0) f(); })); }
void DnsSrv::close_udp(void) { hclose(cos[0]); fdclean(udp); cos.erase(cos.begin()); ::close(udp); udp = -1; }
void DnsSrv::stop(void) { for(size_t i = 0; i < cos.size(); ++i) hclose(cos[i]); cos.clear(); ::close(mute); for(int *f : {&udp, &tcp}) if(*f >= 0) { fdclean(*f); ::close(*f); *f = -1; } }
void dns_files(const char *resolv, const char *hosts, const char *nss) { S dir = scratch_dir(); int k = 0; std::map<S, S> m; for(auto p : {std::make_pair("/etc/resolv.conf", resolv), std::make_pair("/etc/hosts", hosts), std::make_pair("/etc/nsswitch.conf", nss)}) { if(!p.second) { m[p.first] = ""; continue; } S f = dir + "/f" + std::to_string(k++); FILE *o = ::fopen(f.c_str(), "w"); fputs(p.second, o); fclose(o); m[p.first] = f; } ev.fopen = [m](const S &p) { auto i = m.find(p); return i == m.end() ? S() : i->second; }; }
