/* Real connections of every kind, both ends held by the case. */
#ifndef VERIF_CONN_H
#define VERIF_CONN_H
#include "sim.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
enum { K_PAIR, K_IPC, K_IPCFD, K_TCP4, K_TCP6, K_TCPFD };
bool have_ip6(void);
struct Conn {
    int kind = 0; bool tcp = false; int h[2] = {-1, -1}, fd[2] = {-1, -1}; bool mem[2] = {false, false}; bool lmem = false;
    union Mem { struct ipc_storage i; struct tcp_storage t; }; Mem *m[2] = {nullptr, nullptr}; void *raw[4] = {nullptr, nullptr, nullptr, nullptr};
    void open(int kind);                 /* checks that every constructor succeeds */
    void small(int bytes);               /* small kernel buffers                   */
    int done(int i, int64_t dl) { return tcp ? tcp_done(h[i], dl) : ipc_done(h[i], dl); }
    int close(int i, int64_t dl) { return tcp ? tcp_close(h[i], dl) : ipc_close(h[i], dl); }
    void released(int i, const char *what);   /* (descriptors are known in the main thread only) the handle and the descriptor are gone */
    void ready(int i, int ev);           /* really wait until something arrives (TCP) */
    void arrived(int i);                 /* really wait until all that i has sent is at the peer (TCP) */
    const char *name(void) const;
};
int conn_kind(bool tcp_ok = true, int tcp_pct = 30);     /* random kind */
inline void tcp_time(void) { vt.grace_inf = 3000; vt.grace_timed = 30; }
/* The byte at an offset of a stream. */
inline unsigned char pat(uint32_t seed, uint64_t off) { uint64_t x = (off + seed * 0x9E3779B97F4A7C15ull); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (unsigned char)x; }
inline std::string pats(uint32_t seed, uint64_t off, size_t n) { std::string s(n, 0); for(size_t i = 0; i < n; ++i) s[i] = (char)pat(seed, off + i); return s; }
#endif
