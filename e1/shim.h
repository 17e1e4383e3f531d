// Forced into every instrumented translation unit: persistence intrinsics report to the monitor.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#include <immintrin.h>
#include <xmmintrin.h>
#include <emmintrin.h>
#ifdef __cplusplus
extern "C" {
#endif
void verif_flush(const void *addr);
void verif_fence(void);
#ifdef __cplusplus
}
#endif
#define _mm_clflush(p) verif_flush((const void *)(p))
#define _mm_clflushopt(p) verif_flush((const void *)(p))
#define _mm_clwb(p) verif_flush((const void *)(p))
#define __builtin_ia32_clflush(p) verif_flush((const void *)(p))
#define _mm_sfence() verif_fence()
#define _mm_mfence() verif_fence()
#define __builtin_ia32_sfence() verif_fence()
#define __builtin_ia32_mfence() verif_fence()
#endif
