/* Wrappers around the per-CPU helpers, compiled for every architecture the library supports (see lib/xarch.py). */
#ifdef TWICE
#define RSEQ_COMPARE_TWICE
#endif
#include <rseq/rseq.h>
#define NLIVE 12
#define NARG 6
struct xargs {
	intptr_t a[NARG];
	intptr_t cpu, mo, mode;
	uintptr_t live[NLIVE];
	intptr_t out[NARG + 1];
};
ptrdiff_t rseq_offset;
unsigned int rseq_size, rseq_flags;
const uint32_t x_sig = RSEQ_SIG;
void abort(void) { for (;;) ; }
void *stderr;
int fprintf(void *f, const char *s, ...) { for (;;) ; }

#define KEEP(x) __asm__ __volatile__ ("" : "+r" (x))
#define LIVE_IN12 uintptr_t l0=c->live[0],l1=c->live[1],l2=c->live[2],l3=c->live[3],l4=c->live[4],l5=c->live[5],l6=c->live[6],l7=c->live[7],l8=c->live[8],l9=c->live[9],l10=c->live[10],l11=c->live[11]; \
	KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4);KEEP(l5);KEEP(l6);KEEP(l7);KEEP(l8);KEEP(l9);KEEP(l10);KEEP(l11);
#define LIVE_OUT12 KEEP(l0);KEEP(l1);KEEP(l2);KEEP(l3);KEEP(l4);KEEP(l5);KEEP(l6);KEEP(l7);KEEP(l8);KEEP(l9);KEEP(l10);KEEP(l11); \
	c->live[0]=l0;c->live[1]=l1;c->live[2]=l2;c->live[3]=l3;c->live[4]=l4;c->live[5]=l5;c->live[6]=l6;c->live[7]=l7;c->live[8]=l8;c->live[9]=l9;c->live[10]=l10;c->live[11]=l11;
#define LIVE_IN0
#define LIVE_OUT0
#ifdef XGLOBAL	/* few registers: the targets are objects at fixed places, offsets and lengths known where possible */
extern intptr_t x_v, x_v2, x_load;
#define PV (&x_v)
#define PV2 (&x_v2)
#define PLOAD (&x_load)
#else
#define PV ((intptr_t *)a0)
#define PV2 ((intptr_t *)a2)
#define PLOAD ((intptr_t *)a3)
#endif
#define ARGS_IN intptr_t a0=c->a[0],a1=c->a[1],a2=c->a[2],a3=c->a[3],a4=c->a[4],a5=c->a[5]; int cpu=c->cpu; KEEP(a0);KEEP(a1);KEEP(a2);KEEP(a3);KEEP(a4);KEEP(a5);KEEP(cpu);
#define ARGS_OUT c->out[0]=a0;c->out[1]=a1;c->out[2]=a2;c->out[3]=a3;c->out[4]=a4;c->out[5]=a5;c->out[6]=cpu;

#define H_cbne(mo,mode) rseq_load_cbne_store__ptr(mo, mode, PV, a1, a2, cpu)
#ifdef XGLOBAL
#define H_cbeq(mo,mode) rseq_load_cbeq_store_add_load_store__ptr(mo, mode, PV, a1, 8, PLOAD, cpu)
#else
#define H_cbeq(mo,mode) rseq_load_cbeq_store_add_load_store__ptr(mo, mode, PV, a1, (long)a2, PLOAD, cpu)
#endif
#define H_add(mo,mode) rseq_load_add_store__ptr(mo, mode, PV, a1, cpu)
#ifdef rseq_arch_has_load_add_load_load_add_store
#define H_llla(mo,mode) rseq_load_add_load_load_add_store__ptr(mo, mode, (intptr_t *)a0, (long)a1, a2, cpu)
#endif
#define H_cbne2(mo,mode) rseq_load_cbne_load_cbne_store__ptr(mo, mode, PV, a1, PV2, a3, a4, cpu)
#define H_ss(mo,mode) rseq_load_cbne_store_store__ptr(mo, mode, PV, a1, PV2, a3, a4, cpu)
#define H_mcs(mo,mode) rseq_load_cbne_memcpy_store__ptr(mo, mode, PV, a1, (void *)a2, (void *)a3, (size_t)a4, a5, cpu)

#define W(op, tag, mo, mode, n) \
int w_##op##_##tag##_##n(struct xargs *c) \
{ int r; ARGS_IN LIVE_IN##n r = H_##op(mo, mode); LIVE_OUT##n ARGS_OUT return r; }
#define WP(op) \
	W(op, r0, RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, 0) W(op, r0, RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID, 12) \
	W(op, r1, RSEQ_MO_RELAXED, RSEQ_PERCPU_MM_CID, 0) W(op, r1, RSEQ_MO_RELAXED, RSEQ_PERCPU_MM_CID, 12) \
	W(op, rt, (enum rseq_mo)c->mo, (enum rseq_percpu_mode)c->mode, 0)
#define WR(op) \
	W(op, l0, RSEQ_MO_RELEASE, RSEQ_PERCPU_CPU_ID, 0) W(op, l0, RSEQ_MO_RELEASE, RSEQ_PERCPU_CPU_ID, 12) \
	W(op, l1, RSEQ_MO_RELEASE, RSEQ_PERCPU_MM_CID, 0) W(op, l1, RSEQ_MO_RELEASE, RSEQ_PERCPU_MM_CID, 12)
WP(cbne) WP(cbeq) WP(add) WP(cbne2) WP(ss) WP(mcs) WR(ss) WR(mcs)
#ifdef H_llla
WP(llla)
#endif
#define WK(op, k, arg, val) \
int w_##op##_##k(struct xargs *c) \
{ int r; ARGS_IN arg = (intptr_t)(val); r = H_##op(RSEQ_MO_RELAXED, RSEQ_PERCPU_CPU_ID); ARGS_OUT return r; }
WK(add, k0, a1, 1) WK(add, k1, a1, -1) WK(add, k2, a1, 0x7fffffffLL) WK(add, k3, a1, 0x80000000LL) WK(add, k4, a1, 0x123456789abcdef0LL)
WK(add, k5, a1, 2047) WK(add, k6, a1, 32767) WK(add, k7, a1, -32768) WK(add, k8, a1, 4096)
#ifndef XGLOBAL
WK(cbeq, k0, a2, 8) WK(cbeq, k1, a2, -8) WK(cbeq, k2, a2, 0x80000000LL)
#endif
WK(cbne, k0, a1, 0) WK(cbne, k1, a2, 0x123456789abcdef0LL) WK(cbne, k2, a1, -1)
#ifdef H_llla
WK(llla, k0, a1, 8) WK(llla, k1, a1, -8) WK(llla, k2, a2, 0x123456789abcdef0LL) WK(llla, k3, a2, -1)
#endif
/* ordering primitives */
int x_mb(struct xargs *c) { int *p = (int *)c->a[0], *q = (int *)c->a[1]; *(volatile int *)p = 1; (void)*(volatile int *)p; rseq_smp_mb(); (void)*(volatile int *)q; *(volatile int *)q = 2; return 0; }
int x_rmb(struct xargs *c) { int *p = (int *)c->a[0], *q = (int *)c->a[1]; (void)*(volatile int *)p; rseq_smp_rmb(); (void)*(volatile int *)q; return 0; }
int x_wmb(struct xargs *c) { int *p = (int *)c->a[0], *q = (int *)c->a[1]; *(volatile int *)p = 1; rseq_smp_wmb(); *(volatile int *)q = 2; return 0; }
#define X_AR(tag, T) \
intptr_t x_acq_##tag(struct xargs *c) { T *p = (T *)c->a[0]; int *q = (int *)c->a[1]; T v = rseq_smp_load_acquire(p); (void)*(volatile int *)q; *(volatile int *)q = 2; c->out[0] = (intptr_t)v; return 0; } \
intptr_t x_rel_##tag(struct xargs *c) { T *p = (T *)c->a[0]; int *q = (int *)c->a[1]; (void)*(volatile int *)q; *(volatile int *)q = 2; rseq_smp_store_release(p, (T)c->a[2]); return 0; }
X_AR(s1, int8_t) X_AR(s2, int16_t) X_AR(s4, int32_t) X_AR(s8, intptr_t)
void __start(void) {}
void _start(void) {}
