/* Shared between the stepping driver (cs.c) and the wrappers compiled from the library's headers (csw.c). */
#ifndef CS_H
#define CS_H
#include <stdint.h>
#include <stddef.h>
#define NLIVE 12
#define NARG 6
struct csargs {
	intptr_t a[NARG];
	int cpu, mo, mode;
	uint64_t live[NLIVE];	/* in: values to keep alive; out: values seen after the helper */
	intptr_t out[NARG + 1];	/* operands as seen by the caller after the helper */
};
typedef int (*cswrap)(struct csargs *);
struct cswent { const char *name; cswrap fn; };
#ifdef __cplusplus
extern "C" {
#endif
extern struct cswent cs_wraps[];
extern int cs_step_on;
#ifdef __cplusplus
}
#endif
/* single-step everything between these two (skipping the red zone) */
#define STEP_ON() do { if (cs_step_on) __asm__ __volatile__ ("leaq -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tleaq 128(%%rsp), %%rsp" ::: "memory", "cc"); } while (0)
#define STEP_OFF() __asm__ __volatile__ ("leaq -128(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tleaq 128(%%rsp), %%rsp" ::: "memory", "cc")
#endif
