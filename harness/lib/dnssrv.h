/* A scripted name server (UDP and TCP on a loopback port) and the files the resolver reads. */
#ifndef VERIF_DNSSRV_H
#define VERIF_DNSSRV_H
#include "sim.h"
#include <map>
#include <set>
#include <netinet/in.h>
enum { T_A = 1, T_NS = 2, T_CNAME = 5, T_MX = 15, T_TXT = 16, T_AAAA = 28 };
struct Rec { std::string name; int type; std::string data; /* A: 4 bytes, AAAA: 16 bytes, CNAME: name */ };
struct DnsPkt { uint16_t id = 0; int flags = 0x8180; int rcode = 0; bool tc = false; std::string qname; int qtype = T_A; std::vector<Rec> an, ns, ar; bool compress = true; bool upper = false; std::string encode() const; };
struct DnsQ { std::string name; int type; uint16_t id; bool tcp; int srv; std::string raw; int conn; struct sockaddr_in from; };
struct DnsSrv {
    int mute = -1, udp = -1, tcp = -1, port = 0, n = 0; std::function<void(DnsQ)> on; std::vector<int> cos; std::vector<DnsQ> log; std::vector<std::string> asked; std::string dir; int64_t t0 = 0;
    void start(std::function<void(DnsQ)> on);       /* name servers 10.9.8.7, 10.9.8.8, fd00::7 and fd00::8; 10.9.8.5 never answers, 10.9.8.6 is a closed port, there is no way to 10.9.8.4 */
    void close_udp(void);                           /* nobody listens                     */
    void reply(const DnsQ &q, const std::string &bytes, int64_t delay); /* over the same transport */
    void stop(void);
};
/* Replaces /etc/resolv.conf, /etc/hosts and /etc/nsswitch.conf (an empty name of a file: it does not exist). */
void dns_files(const char *resolv, const char *hosts, const char *nsswitch);
std::string lower(std::string s);
#endif
