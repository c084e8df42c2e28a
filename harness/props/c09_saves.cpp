/* Objects in caller-supplied storage: the constructor saves the allocation that the documentation says it saves. The constructors are those of C11. */
#include "c11.cpp"
PROP_CASE(C09, saves, "always") {
    vt.grace_inf = 3000; vt.grace_timed = 3; vt.deadlock = nullptr; scratch_dir(); bool net = chance(1, 3), tls = chance(1, 6); if(tls) stk_files(); int m = 1 + draw(4);
    while(m--) {
        int con; do con = draw(CONS); while((!net && con >= TCP_LISTEN && con <= UDP_OPEN) || con == HMAKE || con == HOWN || con == BUNDLE_GO || con == BUNDLE_GO_MEM || con == IPADDR_LOCAL);
        bg_n = 0; base_k = chance(1, 3) ? B_IPC : B_SIM; end_i = draw(2); lay = Lay(); if(con >= ATTACH) { int kinds[] = {L_PREFIX, L_SUFFIX, L_WS, L_TERM, L_TLS}; do lay.kind = kinds[draw(5)]; while(lay.kind == L_TLS && !tls); lay.n = 1 + draw(8); lay.flags = draw(2); lay.t = lay.kind == L_SUFFIX ? "\r\n" : "end"; lay.srv = draw(2); lay.http = chance(1, 2); lay.mem[!end_i] = chance(1, 2); }
        plan.fd = false; plan.at = 1000000; plan.all = false; plan.err = ENOMEM; tight = -1; long n[2] = {0, 0};
        bool pair = con == GO || con == GO_MEM || con == BUNDLE || con == BUNDLE_MEM || con == CHMAKE || con == CHMAKE_MEM; int base = con == GO_MEM ? GO : con == BUNDLE_MEM ? BUNDLE : con == CHMAKE_MEM ? CHMAKE : con, in = base == GO ? GO_MEM : base == BUNDLE ? BUNDLE_MEM : base == CHMAKE ? CHMAKE_MEM : base;
        for(int r = 0; r < 2; ++r) for(int k = 0; k < 2; ++k) { mem = !pair && k; step(k ? in : base); n[k] = made; }
        note("%s: %ld allocations, with memory supplied by the caller %ld", what.c_str(), n[0], n[1]); if(n[1] >= n[0] && n[0]) fail("%s: %ld allocations although the caller supplies the memory, %ld if it does not", what.c_str(), n[1], n[0]); }
    store_check(); nontrivial();
}
