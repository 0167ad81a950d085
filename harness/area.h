/* Queries and preparation to unload, on whatever the thread's area holds; run natively and by the simulators. */
#include <rseq/rseq.h>
struct xq { int32_t raw, start, cpu, nav, cav, nid, cid, after; };
static void area_query(struct xq *q)
{
	q->raw = rseq_current_cpu_raw();
	q->start = rseq_cpu_start();
	q->cpu = rseq_current_cpu();
	q->nav = rseq_node_id_available();
	q->cav = rseq_mm_cid_available();
	q->nid = q->nav ? (int32_t)rseq_current_node_id() : 0;
	q->cid = rseq_current_mm_cid();
	q->after = 1;
}
static void area_unload(struct xq *q) { rseq_prepare_unload(); q->after = 1; }
static void area_clear(struct xq *q) { rseq_clear_rseq_cs(); q->after = 1; }
