/* Wrappers around the public per-CPU helpers, with live values around them. Compiled as C and as C++. */
#ifdef TWICE
#define RSEQ_COMPARE_TWICE
#endif
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include "cs.h"

#define KEEP(x) __asm__ __volatile__ ("" : "+r" (x))
#define LIVE_IN12 uint64_t l0=c->live[0],l1=c->live[1],l2=c->live[2],l3=c->live[3],l4=c->live[4],l5=c->live[5],l6=c->live[6],l7=c->live[7],l8=c->live[8],l9=c->live[9],l10=c->live[10],l11=c->live[11]; \
	KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4);KEEP(l5);KEEP(l6);KEEP(l7);KEEP(l8);KEEP(l9);KEEP(l10);KEEP(l11);
#define LIVE_OUT12 KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4);KEEP(l5);KEEP(l6);KEEP(l7);KEEP(l8);KEEP(l9);KEEP(l10);KEEP(l11); \
	c->live[0]=l0;c->live[1]=l1;c->live[2]=l2;c->live[3]=l3;c->live[4]=l4;c->live[5]=l5;c->live[6]=l6;c->live[7]=l7;c->live[8]=l8;c->live[9]=l9;c->live[10]=l10;c->live[11]=l11;
#define LIVE_IN5 uint64_t l0=c->live[0],l1=c->live[1],l2=c->live[2],l3=c->live[3],l4=c->live[4]; KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4);
#define LIVE_OUT5 KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4); c->live[0]=l0;c->live[1]=l1;c->live[2]=l2;c->live[3]=l3;c->live[4]=l4;
#define LIVE_IN0
#define LIVE_OUT0
#define ARGS_IN intptr_t a0=c->a[0],a1=c->a[1],a2=c->a[2],a3=c->a[3],a4=c->a[4],a5=c->a[5]; int cpu=c->cpu; KEEP(a0);KEEP(a1);KEEP(a2);KEEP(a3);KEEP(a4);KEEP(a5);KEEP(cpu);
#define ARGS_OUT c->out[0]=a0;c->out[1]=a1;c->out[2]=a2;c->out[3]=a3;c->out[4]=a4;c->out[5]=a5;c->out[6]=cpu;

#define H_cbne(mo,mode) rseq_load_cbne_store__ptr(mo, mode, (intptr_t *)a0, a1, a2, cpu)
#define H_cbeq(mo,mode) rseq_load_cbeq_store_add_load_store__ptr(mo, mode, (intptr_t *)a0, a1, (long)a2, (intptr_t *)a3, cpu)
#define H_add(mo,mode) rseq_load_add_store__ptr(mo, mode, (intptr_t *)a0, a1, cpu)
#ifdef rseq_arch_has_load_add_load_load_add_store
#define H_llla(mo,mode) rseq_load_add_load_load_add_store__ptr(mo, mode, (intptr_t *)a0, (long)a1, a2, cpu)
#endif
#define H_cbne2(mo,mode) rseq_load_cbne_load_cbne_store__ptr(mo, mode, (intptr_t *)a0, a1, (intptr_t *)a2, a3, a4, cpu)
#define H_ss(mo,mode) rseq_load_cbne_store_store__ptr(mo, mode, (intptr_t *)a0, a1, (intptr_t *)a2, a3, a4, cpu)
#define H_mcs(mo,mode) rseq_load_cbne_memcpy_store__ptr(mo, mode, (intptr_t *)a0, a1, (void *)a2, (void *)a3, (size_t)a4, a5, cpu)

#define W(op, tag, mo, mode, n) \
static __attribute__((noinline)) int w_##op##_##tag##_##n(struct csargs *c) \
{ int r; ARGS_IN LIVE_IN##n STEP_ON(); r = H_##op(mo, mode); STEP_OFF(); LIVE_OUT##n ARGS_OUT return r; }
#define WP(op) \
	W(op, r0, RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, 0) W(op, r0, RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, 5) W(op, r0, RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, 12) \
	W(op, r1, RSEQ_MO_RELAXED, RSEQ_PERCPU_MM_CID, 0) W(op, r1, RSEQ_MO_RELAXED, RSEQ_PERCPU_MM_CID, 12) \
	W(op, rt, (enum rseq_mo)c->mo, (enum rseq_percpu_mode)c->mode, 0)
#define WR(op) \
	W(op, l0, RSEQ_MO_RELEASE, RSEQ_PERCPU_CPU_ID, 0) W(op, l0, RSEQ_MO_RELEASE, RSEQ_PERCPU_CPU_ID, 12) \
	W(op, l1, RSEQ_MO_RELEASE, RSEQ_PERCPU_MM_CID, 0) W(op, l1, RSEQ_MO_RELEASE, RSEQ_PERCPU_MM_CID, 12)
WP(cbne) WP(cbeq) WP(add) WP(cbne2) WP(ss) WP(mcs) WR(ss) WR(mcs)
#ifdef H_llla
WP(llla)
#endif
/* compile-time constant operands take other encodings */
#define WK(op, k, arg, val) \
static __attribute__((noinline)) int w_##op##_##k(struct csargs *c) \
{ int r; ARGS_IN arg = (intptr_t)(val); STEP_ON(); r = H_##op(RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID); STEP_OFF(); ARGS_OUT return r; }
WK(add, k0, a1, 1) WK(add, k1, a1, -1) WK(add, k2, a1, 0x7fffffffLL) WK(add, k3, a1, 0x80000000LL) WK(add, k4, a1, 0x123456789abcdef0LL)
WK(cbeq, k0, a2, 8) WK(cbeq, k1, a2, -8) WK(cbeq, k2, a2, 0x80000000LL)
WK(cbne, k0, a1, 0) WK(cbne, k1, a2, 0x123456789abcdef0LL) WK(cbne, k2, a1, -1)
#ifdef H_llla
WK(llla, k0, a1, 8) WK(llla, k1, a1, -8) WK(llla, k2, a2, 0x123456789abcdef0LL) WK(llla, k3, a2, -1)
#endif
/* queries */
static int w_q(struct csargs *c)
{
	c->out[0] = rseq_current_cpu_raw(); c->out[1] = rseq_cpu_start(); c->out[2] = rseq_current_cpu();
	c->out[3] = rseq_node_id_available() ? 1 : 0; c->out[4] = rseq_mm_cid_available() ? 1 : 0;
	c->out[5] = rseq_current_mm_cid(); c->out[6] = rseq_node_id_available() ? (intptr_t) rseq_current_node_id() : -1;
	return 0;
}
static int w_clear(struct csargs *c)
{
	STEP_ON(); rseq_prepare_unload(); STEP_OFF(); return 0;
}
#define E(op, tag, n) { #op "_" #tag "_" #n, w_##op##_##tag##_##n },
#define EP(op) E(op, r0, 0) E(op, r0, 5) E(op, r0, 12) E(op, r1, 0) E(op, r1, 12) E(op, rt, 0)
#define ER(op) E(op, l0, 0) E(op, l0, 12) E(op, l1, 0) E(op, l1, 12)
#define EK(op, k) { #op "_" #k, w_##op##_##k },
struct cswent cs_wraps[] = {
	EP(cbne) EP(cbeq) EP(add) EP(cbne2) EP(ss) EP(mcs) ER(ss) ER(mcs)
#ifdef H_llla
	EP(llla) EK(llla, k0) EK(llla, k1) EK(llla, k2) EK(llla, k3)
#endif
	EK(add, k0) EK(add, k1) EK(add, k2) EK(add, k3) EK(add, k4) EK(cbeq, k0) EK(cbeq, k1) EK(cbeq, k2)
	EK(cbne, k0) EK(cbne, k1) EK(cbne, k2)
	{ "q", w_q }, { "clear", w_clear },
	{ 0, 0 }
};
