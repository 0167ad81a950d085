/* Plug-in with critical sections, to be unloaded. */
#define _GNU_SOURCE
#include <rseq/rseq.h>
int p_run(int kind, int mode, intptr_t *v, int cpu)
{
	enum rseq_percpu_mode m = mode ? RSEQ_PERCPU_MM_CID : RSEQ_PERCPU_CPU_ID;
	intptr_t w = 0, src[4] = { 1, 2, 3, 4 }, dst[4]; static intptr_t node[2];
	switch (kind) {
	case 0: return rseq_load_add_store__ptr(RSEQ_MO_RELAXED, m, v, 1, cpu);
	case 1: return rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, m, v, 7, 8, cpu);	/* mismatch unless 7 */
	case 2: return rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, m, v, *v, &w, 1, 9, cpu);
	case 3: return rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, m, v, *v, dst, src, sizeof src, 9, cpu);
	case 4: *v = (intptr_t)node; return rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, m, v, 0, sizeof(intptr_t), &w, cpu);
	case 5: return rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, m, v, *v, &w, 0, 9, cpu);
	default: return rseq_load_add_store__ptr(RSEQ_MO_RELAXED, m, v, 1, cpu + 1000);	/* aborts: other CPU */
	}
}
