/* Hundreds of coroutines waiting at the same time, against an exact model of queues, timers and the order of execution. */
#pragma once
#include "dill.h"
#include "rt.h"
struct CrowdProfile {
    int send = 2, recv = 2, choose = 2, sleep = 2, yielder = 1;     /* what the members of the crowd do */
    int xfer = 8, cancel = 3, time = 3, yield = 3, done = 1, bwait = 1, launch = 2;   /* what main does */
    int deadline_pct = 40, bundle_pct = 30, chans = 3, clauses = 8, most = 500;
};
struct CrowdStats { size_t most_waiting = 0, chosen = 0, timeouts = 0, cancels = 0, transfers = 0, wide = 0, yields = 0, bwaits = 0, dones = 0; };
CrowdStats crowd(const CrowdProfile &p);
