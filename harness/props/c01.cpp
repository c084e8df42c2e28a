#include "core_model.h"
#include "crowd.h"
PROP_CASE(C01, prog, "at least one message handed over by a blocked peer, and at least one of: several peers queued, a timeout, a cancellation, an EPIPE, a size mismatch") {
    Profile p; p.w_send = 8; p.w_recv = 8; p.w_choose = 2; p.w_done = 1; p.w_yield = 2; p.w_sleep = 2; p.w_go = 4; p.w_bgo = 3; p.w_bwait = 0; p.w_hclose = 1; p.w_pread = 0; p.w_pwrite = 0; p.w_chclose = chance(1, 2); p.w_chnew = p.w_chclose;
    p.max_co = 10; p.jitter = true;
    Stats s = run_program(p);
    if(s.queued2) label("several queued"); if(s.mismatch) label("size mismatch"); if(s.epipes) label("EPIPE"); if(s.cancels) label("cancel"); if(s.chclose_woken) label("woken by close"); if(s.timeouts) label("timeout");
    if(s.blocked_msgs >= 3) label("3+ messages");
    nontrivial(s.blocked_msgs && (s.queued2 || s.timeouts || s.cancels || s.epipes || s.mismatch));
}
/* Hundreds of coroutines in the queues of the same channels. */
PROP_CASE(C01, crowd, "at least 50 coroutines waited at the same time, and at least 10 messages were handed over") { CrowdProfile p; p.choose = 1; p.sleep = 0; p.xfer = 14; CrowdStats s = crowd(p); nontrivial(s.most_waiting >= 50 && s.transfers >= 10); }
