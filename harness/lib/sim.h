/* A user-defined bytestream (two connected ends or one scripted end), buffer lists, random payloads. */
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include "dill.h"
#include <string>
#include <vector>
#include <deque>
#include <memory>
#include <limits.h>
struct Wire {
    struct hvfs hv; struct bsock_vfs bv;
    struct Chunk { int64_t at; std::string d; };
    std::deque<Chunk> in;            /* bytes to be received, with their time of arrival */
    std::string out;                 /* every byte ever sent                */
    Wire *peer = nullptr;
    bool eof = false; int in_err = 0;     /* what happens behind the inbound bytes */
    long out_err_at = -1; int out_errno = ECONNRESET;  /* sending fails behind that many bytes */
    size_t cap = 0;                  /* 0: unlimited; else bytes the peer may have unread */
    long consumed = 0; int closes = 0; int h = -1; int id = 0;
    bool rfail = false, sfail = false;
    long rcalls = 0, scalls = 0;
    std::function<std::string(long, std::string)> filter; /* changes what reaches the peer */
    int last_err = 0;                /* the error of the latest failed operation */
    size_t unread() const { size_t n = 0; for(auto &c : in) n += c.d.size(); return n; }
    std::string pending() const { std::string s; for(auto &c : in) s += c.d; return s; }
    void put(const std::string &s, int64_t at = 0) { if(s.empty()) return; if(!in.empty() && in.back().at == at && merge && in.back().d.size() < 4096) in.back().d += s; else in.push_back({at, s}); }
    bool merge = false;              /* adjacent pieces become one */
    bool sink = false;               /* large pieces sent leave only their length, as "<n>", in out */
    uint64_t zeros = 0; std::string after; /* behind `in` that many zero bytes, which are not stored anywhere, then `after` */
    int jitter = 0;                  /* what is sent to this end arrives in pieces, up to that many ms later */
    void put_late(const std::string &s);
};
extern const void *sim_type;
/* Both never fail. The Wire objects stay alive for ever. */
Wire *sim_new(void);                         /* scripted end; ->h is its handle        */
void sim_pair(Wire *&a, Wire *&b);           /* two connected ends                     */
bool sim_is(int h, Wire *w);                 /* handle h denotes this very object      */
/* A region of more than 8 GB of zeros that takes no memory as long as it is not written to. */
char *huge_region(void);
uint64_t huge_size(void);                    /* at least 2^31 - 1, mostly around powers of two */
/* ---- payloads and lists ----------------------------------------------------------- */
std::string gen_bytes(size_t n);             /* varied contents                        */
std::string gen_from(const std::string &alphabet, size_t n);
struct List {
    std::vector<struct iolist> v, copy; std::vector<std::unique_ptr<char[]>> bufs; std::vector<size_t> cap; std::vector<bool> null;
    void send(const std::string &data, bool nulls_ok = false);     /* random split into elements */
    void recv(size_t total, bool skip);                            /* random split; skip: some elements NULL */
    void recv_many(size_t total, size_t k);                        /* k elements, mostly of one byte */
    struct iolist *first() { return v.empty() ? nullptr : &v[0]; }
    struct iolist *last() { return v.empty() ? nullptr : &v.back(); }
    void check(const char *what);            /* the structure is as it was             */
    size_t total() const { size_t n = 0; for(auto c : cap) n += c; return n; }
    bool matches(const std::string &d) const;/* received bytes equal d (skipped ones are not compared) */
    std::string got(size_t n) const;
    std::string shape() const;
private: void link();
};
/* Send/receive through either the buffer or the list form, chosen at random. */
int msend_any(int h, const std::string &d, int64_t dl);
int bsend_any(int h, const std::string &d, int64_t dl);
/* Receives with capacity cap; on success compares with exp if given. Returns the call's result. */
ssize_t mrecv_any(int h, size_t cap, const std::string *exp, int64_t dl, bool skip = true);
int brecv_any(int h, size_t n, std::string *out, int64_t dl);
/* Run several functions as coroutines until all have finished. */
void run_all(std::vector<std::function<void()>> fs);
#endif
