/* A random workload over every type of object which closes all it has opened, in every way and after any outcome. */
#ifndef VERIF_WORK_H
#define VERIF_WORK_H
#include "zoo.h"
struct WorkStats { long ops = 0, failed = 0, made = 0; };
extern thread_local WorkStats wst;
void work(int ops, bool tls, bool net);
bool h_alive(int h);
std::vector<int> free_numbers(void);        /* handle numbers that can be handed out (empty: the library doesn't rotate them) */
#endif
