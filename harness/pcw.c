/* Counters, locks, lists, pointer buffers and copy buffers with the documented retry loops. */
#ifdef TWICE
#define RSEQ_COMPARE_TWICE
#endif
#include <rseq/rseq.h>
#include "pc.h"

struct pccpu pcc[NCPU];
struct pcnode *pcn[NITEM];
const struct pcenc pc_encs[4] = {
	{ 1, 0, 0, 0, 1, 0, 24 },
	{ 1L << 32, 0, 0, 0, 1L << 32, 1, 7 },
	{ 1L << 32, 0x80000005L, -2, 1L << 32, 1, 0, 1 },
	{ 1, 0xfffffffeL, 0xfffffffdL, -1, (long)0xffffffff00000000UL, 1, 16 },
};
const struct pcenc *pe = &pc_encs[0];
struct pccpu *pcpp[1];
#define MODE(...) if (mode == 0) { enum { M = RSEQ_PERCPU_CPU_ID }; __VA_ARGS__ } else { enum { M = RSEQ_PERCPU_MM_CID }; __VA_ARGS__ }
#define PM ((enum rseq_percpu_mode)M)
static inline __attribute__((always_inline)) int getcpu_(int mode) { return mode == 0 ? (int)rseq_cpu_start() : (int)rseq_current_mm_cid(); }
#define R(c, v) do { r->cpu = (c); r->val = (long)(v); } while (0)

static void f_inc(int mode, long n, long u, struct pcres *r)
{
	MODE( int cpu, ret; do { cpu = getcpu_(mode); ret = rseq_load_add_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].ctr, n * pe->unit, cpu); } while (ret); R(cpu, 0); )
}
static void f_cinc(int mode, long n, long u, struct pcres *r)
{
	MODE( int cpu, ret; do { cpu = getcpu_(mode); intptr_t e = RSEQ_READ_ONCE(pcc[cpu].ctr); ret = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].ctr, e, e + n * pe->unit, cpu); } while (ret); R(cpu, 0); )
}
static void f_pinc(int mode, long n, long u, struct pcres *r)
{
#ifdef rseq_arch_has_load_add_load_load_add_store
	/* the counter is reached through a pointer and an offset */
	MODE( int cpu, ret; do { cpu = getcpu_(mode); ret = rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].pp, (long)offsetof(struct pccpu, buf), n * pe->unit, cpu); } while (ret); R(cpu, 0); )
#else
	f_inc(mode, n, u, r);
#endif
}
static void f_lock(int mode, long a, long u, struct pcres *r)
{
	MODE( int cpu, ret; do { cpu = getcpu_(mode); ret = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].lock, pe->free, pe->held, cpu); } while (ret); rseq_smp_acquire__after_ctrl_dep(); R(cpu, 0); )
}
static void f_unlock(int mode, long a, long cpu, struct pcres *r) { rseq_smp_store_release(&pcc[cpu].lock, pe->free); R(cpu, 0); }
static void f_crit(int mode, long a, long cpu, struct pcres *r)
{
	intptr_t v = RSEQ_READ_ONCE(pcc[cpu].dat); RSEQ_WRITE_ONCE(pcc[cpu].dat, v + 1); R(cpu, v);
}
static void f_lpush(int mode, long id, long u, struct pcres *r)
{
	struct pcnode *n = pcn[id]; n->id = id;
	MODE( int cpu, ret; do { cpu = getcpu_(mode); intptr_t e = RSEQ_READ_ONCE(pcc[cpu].head); n->next[pe->link] = e;
		ret = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].head, e, (intptr_t)n, cpu); } while (ret); R(cpu, 0); )
}
static void f_lpop(int mode, long a, long u, struct pcres *r)
{
	MODE( for (;;) { int cpu = getcpu_(mode); intptr_t h = 0; int ret = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].head, 0, (long)(pe->link * sizeof(intptr_t)), &h, cpu);
		if (!ret) { R(cpu, ((struct pcnode *)h)->id); return; } if (ret > 0) { R(cpu, -1); return; } } )
}
static void bpush(int mode, long id, int rel, struct pcres *r)
{
	MODE( for (;;) { int cpu = getcpu_(mode); intptr_t w = RSEQ_READ_ONCE(pcc[cpu].boff); long o = pc_dec(w); if (o < 0 || o > BUFCAP) { R(cpu, -4); return; } if (o == BUFCAP) { R(cpu, 0); return; }
		int ret = rel ? rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, PM, &pcc[cpu].boff, w, &pcc[cpu].buf[o], pc_enc(id), pc_enc(o + 1), cpu)
			      : rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].boff, w, &pcc[cpu].buf[o], pc_enc(id), pc_enc(o + 1), cpu);
		if (!ret) { R(cpu, 1); return; } } )
}
static void f_bpush(int mode, long id, long u, struct pcres *r) { bpush(mode, id, 0, r); }
static void f_bpushr(int mode, long id, long u, struct pcres *r) { bpush(mode, id, 1, r); }
static void f_bpop(int mode, long a, long u, struct pcres *r)
{
	MODE( for (;;) { int cpu = getcpu_(mode); intptr_t w = RSEQ_READ_ONCE(pcc[cpu].boff); long o = pc_dec(w); if (o < 0 || o > BUFCAP) { R(cpu, -4); return; } if (o == 0) { R(cpu, -1); return; }
		intptr_t h = RSEQ_READ_ONCE(pcc[cpu].buf[o - 1]);
		int ret = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].boff, w, &pcc[cpu].buf[o - 1], h, pc_enc(o - 1), cpu);
		if (!ret) { R(cpu, pc_dec(h)); return; } } )
}
static long item_id(const struct pcitem *it)
{
	for (long id = 0; id < NITEM; id++) { int i; for (i = 0; i < pe->len && it->b[i] == pc_byte(id, i); i++) ; if (i == pe->len) return id; }
	return -2;
}
long pc_item_id(const struct pcitem *it) { return item_id(it); }
static void mpush(int mode, long id, int rel, struct pcres *r)
{
	struct pcitem it; for (int i = 0; i < (int)sizeof it; i++) it.b[i] = pc_byte(id, i);
	MODE( for (;;) { int cpu = getcpu_(mode); intptr_t w = RSEQ_READ_ONCE(pcc[cpu].moff); long o = pc_dec(w); if (o < 0 || o > BUFCAP) { R(cpu, -4); return; } if (o == BUFCAP) { R(cpu, 0); return; }
		int ret = rel ? rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, PM, &pcc[cpu].moff, w, &pcc[cpu].mbuf[o], &it, pe->len, pc_enc(o + 1), cpu)
			      : rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].moff, w, &pcc[cpu].mbuf[o], &it, pe->len, pc_enc(o + 1), cpu);
		if (!ret) { R(cpu, 1); return; } } )
}
static void f_mpush(int mode, long id, long u, struct pcres *r) { mpush(mode, id, 0, r); }
static void f_mpushr(int mode, long id, long u, struct pcres *r) { mpush(mode, id, 1, r); }
static void f_mpop(int mode, long a, long u, struct pcres *r)
{
	struct pcitem it;
	MODE( for (;;) { int cpu = getcpu_(mode); intptr_t w = RSEQ_READ_ONCE(pcc[cpu].moff); long o = pc_dec(w); if (o < 0 || o > BUFCAP) { R(cpu, -4); return; } if (o == 0) { R(cpu, -1); return; }
		int ret = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, PM, &pcc[cpu].moff, w, &it, &pcc[cpu].mbuf[o - 1], pe->len, pc_enc(o - 1), cpu);
		if (!ret) { R(cpu, item_id(&it)); return; } } )
}
#define E(n) { #n, f_##n }
struct pcent pc_ops[] = { E(inc), E(cinc), E(pinc), E(lock), E(unlock), E(crit), E(lpush), E(lpop), { "lback", f_lpush }, E(bpush), E(bpushr), E(bpop), E(mpush), E(mpushr), E(mpop), { 0, 0 } };
