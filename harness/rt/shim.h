/* Force-included into every source file of the library (and only those). */
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
#ifdef __rdtsc
#undef __rdtsc
#endif
#ifdef __cplusplus
extern "C"
#endif
unsigned long long verif_rdtsc(void);
#define __rdtsc() verif_rdtsc()
#endif
#endif
