/* Forced into every library source: routes the CPU's time stamp counter to
   the virtual clock. System calls are rerouted at the object-file level. */
#if defined(__x86_64__) || defined(__i386__)
#include <x86intrin.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C"
#endif
unsigned long long vk_rdtsc(void);
#undef __rdtsc
#define __rdtsc() vk_rdtsc()
#undef _rdtsc
#define _rdtsc() vk_rdtsc()
#define __builtin_ia32_rdtsc() vk_rdtsc()
#endif
