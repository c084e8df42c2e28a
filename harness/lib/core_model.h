/* Random coroutine programs checked, event by event, against a model of the
   scheduler, channels, timers, bundles and cancellation. */
#ifndef CORE_MODEL_H
#define CORE_MODEL_H
#include "rt.h"
struct Profile {
    /* weights of operations */
    int w_send = 4, w_recv = 4, w_choose = 2, w_done = 1, w_yield = 2, w_sleep = 2, w_go = 3, w_bgo = 2, w_bnew = 1,
        w_bwait = 1, w_hclose = 1, w_pread = 1, w_pwrite = 1, w_finish = 1, w_chclose = 0, w_chnew = 0;
    int max_co = 9, max_ops = 14, main_ops = 10, channels = 2;
    int same_size_pct = 85;      /* messages that have the usual size     */
    int far_pct = 3;             /* deadlines in the far future           */
    int inf_pct = 35;            /* infinite deadlines                    */
    int zero_pct = 12;
    int past_pct = 4;
    int tie_pct = 30;            /* deadlines equal to one already chosen */
    bool jitter = false, eintr = false, bad_choose = false;
};
struct Stats { long blocked_msgs = 0, imm_msgs = 0, timeouts = 0, cancels = 0, epipes = 0, mismatch = 0, choose_block = 0,
    choose_imm = 0, choose_err = 0, gos = 0, yields = 0, maxready = 0, sleeps = 0, ties = 0, nested_close = 0, bwait_block = 0,
    bwait_timeout = 0, fdwaits = 0, closes = 0, far = 0, queued2 = 0, close_ready = 0, ops = 0, chcloses = 0, chclose_woken = 0, ebadf = 0; };
Stats run_program(const Profile &p);
#endif
