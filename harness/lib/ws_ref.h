/* Independent implementation of RFC 6455 framing and of the key functions. */
#ifndef VERIF_WS_REF_H
#define VERIF_WS_REF_H
#include <string>
#include <vector>
#include <stdint.h>
#include <string.h>
namespace wsref {
struct Frame { bool fin = true; int rsv = 0, op = 0; bool masked = false; std::string mask, payload; int form = -1; size_t end = 0; uint64_t claimed = 0; };
inline int minimal(uint64_t n) { return n <= 125 ? 0 : n <= 0xffff ? 1 : 2; }
inline std::string be(uint64_t n, int bytes) { std::string s; for(int i = bytes; i-- > 0;) s += (char)(n >> (8 * i)); return s; }
inline std::string encode(const Frame &f, bool lie = false) {
    uint64_t n = lie ? f.claimed : f.payload.size(); int form = f.form < 0 ? minimal(n) : f.form; std::string s;
    s += (char)((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.op); int m = f.masked ? 0x80 : 0;
    if(form == 0) s += (char)(m | (n & 0x7f)); else if(form == 1) s += (char)(m | 126) + be(n, 2); else s += (char)(m | 127) + be(n, 8);
    std::string p = f.payload; if(f.masked) { s += f.mask; for(size_t i = 0; i < p.size(); ++i) p[i] ^= f.mask[i % 4]; }
    return s + p;
}
/* Decodes one frame at pos. Returns false if it is incomplete. */
inline bool decode(const std::string &s, size_t pos, Frame &f) {
    if(s.size() - pos < 2) return false; uint8_t a = s[pos], b = s[pos + 1]; pos += 2; f = Frame(); f.fin = a & 0x80; f.rsv = (a >> 4) & 7; f.op = a & 15; f.masked = b & 0x80; uint64_t n = b & 0x7f; f.form = 0;
    if(n >= 126) { int k = n == 126 ? 2 : 8; f.form = n == 126 ? 1 : 2; if(s.size() - pos < (size_t)k) return false; n = 0; for(int i = 0; i < k; ++i) n = n << 8 | (uint8_t)s[pos++]; }
    f.claimed = n; if(f.masked) { if(s.size() - pos < 4) return false; f.mask = s.substr(pos, 4); pos += 4; }
    f.claimed = n; if(s.size() - pos < n) return false; f.payload = s.substr(pos, n); pos += n; if(f.masked) for(size_t i = 0; i < n; ++i) f.payload[i] ^= f.mask[i % 4]; f.end = pos; return true;
}
inline std::string sha1(const std::string &in) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; std::string m = in; m += (char)0x80; while(m.size() % 64 != 56) m += (char)0; m += be((uint64_t)in.size() * 8, 8);
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for(size_t o = 0; o < m.size(); o += 64) { uint32_t w[80]; for(int i = 0; i < 16; ++i) { w[i] = 0; for(int k = 0; k < 4; ++k) w[i] = w[i] << 8 | (uint8_t)m[o + i * 4 + k]; } for(int i = 16; i < 80; ++i) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for(int i = 0; i < 80; ++i) { uint32_t f, k; if(i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if(i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; } else if(i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; }
    std::string r; for(int i = 0; i < 5; ++i) r += be(h[i], 4); return r;
}
inline std::string base64(const std::string &s) {
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
    for(size_t i = 0; i < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16; if(i + 1 < s.size()) v |= (uint8_t)s[i + 1] << 8; if(i + 2 < s.size()) v |= (uint8_t)s[i + 2];
        r += T[v >> 18]; r += T[(v >> 12) & 63]; r += i + 1 < s.size() ? T[(v >> 6) & 63] : '='; r += i + 2 < s.size() ? T[v & 63] : '='; }
    return r;
}
/* Exactly the base64 form of 16 bytes? 1 yes, 0 no, -1 only with non-zero bits behind the end. */
inline int valid_key(const std::string &k) {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    if(k.size() != 24 || k.compare(22, 2, "==")) return 0; for(int i = 0; i < 22; ++i) if(T.find(k[i]) == std::string::npos) return 0;
    return T.find(k[21]) % 16 ? -1 : 1;
}
inline std::string accept_key(const std::string &k) { return base64(sha1(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
}
#endif
