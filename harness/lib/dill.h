/* libdill.h and libdillimpl.h for C++ (the latter has no linkage block) */
#ifndef VERIF_DILL_H
#define VERIF_DILL_H
#include <libdill.h>
extern "C" {
#include <libdillimpl.h>
}
#include "rt.h"
/* A deadline that has been reached can be written as 0. */
inline int64_t dl0(int64_t d) { return d >= 0 && d <= now() && chance(1, 2) ? 0 : d; }
#endif
