/* Shared between the recorder (mo.c) and the generated litmus threads. */
#ifndef MO_H
#define MO_H
#include <stdint.h>
#include <stddef.h>
#ifndef T
#define T long
#endif
#define PAGE __attribute__((aligned(4096)))
#define REP(k) ((uint64_t)(k) * 0x0101010101010101ULL)	/* the value k, visible in every byte */
#ifdef __cplusplus
extern "C" {
#endif
struct movar { const char *name; void *p; int size; };
typedef void (*moth)(uint64_t *r);
struct moent { moth fn; int helper; };
extern struct moent mo_threads[];
extern int mo_tsize;
extern struct movar mo_vars[];
typedef void (*moval)(const void *in, void *at, uint64_t *out);
struct movent { const char *op, *type; int size, sign; moval fn; };
extern struct movent mo_vals[];
#ifdef __cplusplus
}
#endif
#endif
