/* Random protocol stacks with two ends. */
#ifndef VERIF_STK_H
#define VERIF_STK_H
#include "sim.h"
#include <functional>
enum { L_TLS, L_PREFIX, L_SUFFIX, L_WS, L_TERM, L_HTTP, L_SOCKS };
enum { B_SIM, B_IPC, B_TCP };
struct Lay { int kind = 0; std::string t; size_t n = 0; int flags = 0; bool mem[2] = {false, false}; int srv = 0; bool http = false; std::string res = "/chat", host = "www.example.org"; };
struct Stack {
    int base = B_SIM; Wire *w[2] = {nullptr, nullptr}; int h[2] = {-1, -1}; std::vector<Lay> lays; std::vector<int> under[2]; std::deque<std::vector<char>> store;
    std::vector<std::pair<int, const void*>> dummy;
    void open(int base);
    bool msgs() const { return !lays.empty() && lays.back().kind != L_TLS; }
    bool has_done() const { return !lays.empty() && (lays.back().kind == L_TLS || lays.back().kind == L_TERM || lays.back().kind == L_WS); }
    Lay gen(bool tls, int want = -1) const;                /* a layer that may be put on top            */
    void push(const Lay &l);                /* both ends                                 */
    int attach(int i, const Lay &l, int64_t dl); /* one end: result of the call, nothing is recorded */
    int detach(int i, const Lay &l, int s, int64_t dl);
    int done(int i, int64_t dl);
    void pop(void);                         /* both ends, checks identity and handles    */
    bool valid(const std::string &m) const; /* m may be sent at the top                  */
    std::string msg() const;                /* a message (or bytes) that may be sent     */
    void phase(int kind);                   /* an HTTP or SOCKS5 exchange on the bytestream */
    void exchange(int n);                   /* data in both directions                   */
    void flow(int n);                       /* data in both directions at the same time  */
    void goodbye(void);
    void close(int i);                      /* hclose on top: everything is closed       */
    std::string text() const;
};
const char *lay_name(int kind);
void huge_stream(int hs, int hr, std::function<void(int)> finish);
void stk_many(int kind);                    /* several unrelated connections in use at the same time */
void stk_files(void);                       /* certificate for TLS layers                */
extern std::string stk_cert, stk_key;
struct Exact { std::unique_ptr<char[]> p; size_t n; Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } };
#endif
