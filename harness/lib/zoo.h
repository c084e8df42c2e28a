/* One object of every kind, each able to show that it works, and a table of all calls that take a handle. */
#ifndef VERIF_ZOO_H
#define VERIF_ZOO_H
#include "stk.h"
#include "conn.h"
enum { Z_CO, Z_BUNDLE, Z_CHAN, Z_USER, Z_TCPL, Z_TCP, Z_IPCL, Z_IPC, Z_UDP, Z_WIRE, Z_PREFIX, Z_SUFFIX, Z_WS, Z_TERM, Z_TLS, Z_HTTP, Z_KINDS };
struct Animal {
    int kind; std::string name; int h[2] = {-1, -1}; int n = 1;
    std::function<void()> use;              /* fails the case if anything does not work as it should   */
    std::function<void()> end;              /* closes what is left and checks it                       */
    std::function<bool(int)> closed;        /* h[i] has been closed, and the object behind it with it  */
    bool msgs = false, bytes = false;
};
typedef std::shared_ptr<Animal> AnimalP;
AnimalP zoo_make(int kind);                 /* never fails */
const char *zoo_name(int kind);
enum { C_PLAIN, C_CONSUME, C_ATTACH };
struct Call { const char *name; unsigned ok; int cls; std::function<long(int)> f; };
/* The calls with valid arguments; output goes to buf and must stay away if the call is refused. */
struct Args { char buf[600]; struct ipaddr addr; int64_t dl; bool canary() const; void reset(); bool ran = false; };
extern thread_local Args za;
const std::vector<Call> &zoo_calls(void);
#endif
