/* Per-CPU data structures built from the helpers (pcw.c), run by the scheduler of pc.c. */
#ifndef PC_H
#define PC_H
#include <stdint.h>
#define NCPU 3
#define BUFCAP 3
#define NITEM 16
struct pcres { long cpu, val; };
struct pcnode { intptr_t next[2]; long id; };	/* which link word is used depends on the encoding */
struct pcitem { unsigned char b[24]; };
struct __attribute__((aligned(128))) pccpu {
	intptr_t ctr, lock, dat, head, boff, moff, pp;
	intptr_t buf[BUFCAP];
	struct pcitem mbuf[BUFCAP];
};
#ifdef __cplusplus
extern "C" {
#endif
extern struct pccpu pcc[NCPU];
extern struct pcnode *pcn[NITEM];
/* How the small numbers of the specification are represented in memory: several representations, so that numbers differ in
   the low half only, in the high half only, or across the boundary between them. */
struct pcenc { intptr_t unit, base; intptr_t ctr0, free, held; int link, len; };
extern const struct pcenc pc_encs[4]; extern const struct pcenc *pe;
static inline intptr_t pc_enc(long x) { return (intptr_t)((uintptr_t)pe->base + (uintptr_t)pe->unit * (uintptr_t)x); }
static inline long pc_dec(intptr_t w) { long d = (long)((uintptr_t)w - (uintptr_t)pe->base) / pe->unit; return pc_enc(d) == w && d > -1000000 && d < 1000000 ? d : -3; }
static inline unsigned char pc_byte(long id, int i) { return (unsigned char)(id * 37 + i * 11 + 1); }
extern struct pccpu *pcpp[1];
typedef void (*pcop)(int mode, long arg, long cpu, struct pcres *r);
struct pcent { const char *name; pcop fn; };
extern struct pcent pc_ops[];
extern long pc_item_id(const struct pcitem *it);
#ifdef __cplusplus
}
#endif
#endif
