#include "core_model.h"
#include "crowd.h"
#include <libdill.h>
#define W(f, v) p.w_##f = v
PROP_CASE(C02, prog, "a choose that blocked and one decided at once (or failed on a clause) in the same program") {
    Profile p; W(send, 4); W(recv, 4); W(choose, 14); W(done, 1); W(yield, 2); W(sleep, 2); W(go, 4); W(bgo, 3); W(bwait, 0); W(hclose, 1); W(pread, 0); W(pwrite, 0);
    p.max_co = 9; p.channels = 3; p.bad_choose = true; p.jitter = true; p.w_chclose = chance(1, 3); p.w_chnew = p.w_chclose;
    Stats s = run_program(p);
    if(s.choose_block) label("blocked"); if(s.choose_imm) label("immediate"); if(s.choose_err) label("clause error");
    if(s.mismatch) label("size mismatch"); if(s.cancels) label("cancel"); if(s.queued2) label("several queued");
    nontrivial(s.choose_block && (s.choose_imm || s.choose_err));
}
/* No clause at all, and invalid arguments. */
PROP_CASE(C02, empty, "an empty or invalid clause list with some deadline, other coroutines running meanwhile") {
    int64_t t0 = vt_now();
    int n = draw(4);
    std::vector<int> hs; std::vector<int64_t> woke;
    for(int i = 0; i < n; ++i) hs.push_back(go_fn([&woke]() { int64_t d = now() + draw(100); if(msleep(d) == 0) woke.push_back(vt_now()); }));
    int kind = draw(5);
    int64_t d = vt_now() + draw(120);
    struct chclause cl; memset(&cl, 0, sizeof cl);
    int rc, err;
    note("kind %d deadline +%lld", kind, (long long)(d - t0));
    switch(kind) {
    case 0: rc = choose(NULL, 0, d); err = errno; CHECK(rc == -1 && err == ETIMEDOUT, "choose(NULL,0) -> %d %s", rc, errname(err));
        CHECK(vt_now() == d, "empty choose returned at +%lld instead of +%lld", (long long)(vt_now() - t0), (long long)(d - t0)); nontrivial(); break;
    case 1: rc = choose(&cl, 0, d); err = errno; CHECK(rc == -1 && err == ETIMEDOUT, "choose(cl,0) -> %d %s", rc, errname(err));
        CHECK(vt_now() == d, "empty choose returned at +%lld instead of +%lld", (long long)(vt_now() - t0), (long long)(d - t0)); nontrivial(); break;
    case 2: rc = choose(NULL, 1 + draw(3), d); err = errno; CHECK(rc == -1 && err == EINVAL, "choose(NULL,n) -> %d %s", rc, errname(err)); nontrivial(); break;
    case 3: rc = choose(&cl, -1 - (int)draw(3), d); err = errno; CHECK(rc == -1 && err == EINVAL, "choose(cl,-n) -> %d %s", rc, errname(err)); nontrivial(); break;
    case 4: rc = choose(NULL, 0, 0); err = errno; CHECK(rc == -1 && err == ETIMEDOUT && vt_now() == t0, "choose(NULL,0,0) -> %d %s", rc, errname(err)); break;
    }
    for(int h : hs) CHECK(hclose(h) == 0, "hclose");
}
/* Many clauses, many channels, many waiting in the same queues. */
PROP_CASE(C02, crowd, "at least 5 blocked chooses were served by one of their clauses") { CrowdProfile p; p.choose = 12; p.send = p.recv = p.sleep = 1; p.xfer = 14; p.chans = chance(1, 2) ? 5 : 120; p.clauses = chance(1, 2) ? chance(1, 2) ? 8 : 20 : 400; p.most = p.clauses > 100 ? 150 : 400; CrowdStats s = crowd(p); nontrivial(s.chosen >= 5); }
