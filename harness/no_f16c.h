// Included ahead of the library's sources for the copy that is to run as on a processor without half-float
// instructions: every other feature is reported, so that asking for the wrong one shows.
#pragma once

#if defined(__i386__) || defined(__x86_64__)
#include <cpuid.h>

static inline int noF16cCpuid(unsigned int* eax, unsigned int* ebx, unsigned int* ecx, unsigned int* edx)
{
	*eax = *ebx = *edx = ~0U;
	*ecx = ~(1U << 29);
	return 1;
}

#define __get_cpuid(level, eax, ebx, ecx, edx) ((void)(level), noF16cCpuid(eax, ebx, ecx, edx))
#define __get_cpuid_count(level, count, eax, ebx, ecx, edx) ((void)(level), noF16cCpuid(eax, ebx, ecx, edx))
#undef __cpuid
#define __cpuid(level, eax, ebx, ecx, edx) ((void)(level), (void)noF16cCpuid(&(eax), &(ebx), &(ecx), &(edx)))
#define __builtin_cpu_supports(feature) 0
#endif
