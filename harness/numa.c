/*
 * NUMA driver: rseq_mempool_range_init_numa() with move_pages and numa_node_of_cpu replaced by recording stand-ins.
 * stdin: one case per line:  <pages> <cpu> <node> <flags> <failing request> <errno> <unmigrated> | "pool <cpus> <order of stride pages>"
 * stdout: per case a JSON list of events.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/wait.h>
#include <unistd.h>
#include <rseq/mempool.h>

static char *base; static long pages, cpu_want, node, failreq, failerr, unmig, nreq, nlook;
#ifdef HAVE_LIBNUMA
# define LIB 1
#else
# define LIB 0
#endif
int numa_node_of_cpu(int cpu) { nlook++; if (cpu != cpu_want || node < 0) { errno = EINVAL; return -1; } return node; }
/* Consecutive requests that continue one another (same process, flags and nodes, none failed) are logged as one. */
static struct { int on, pid, flags, nn, nodes[16]; long first, count, ret; } pend;
static void flush_moves(void)
{
	if (!pend.on) return;
	printf(",{\"e\":\"move\",\"pid\":%d,\"flags\":%d,\"runs\":[[%ld,%ld]],\"nodes\":[", pend.pid, pend.flags, pend.first, pend.count);
	for (int k = 0; k < pend.nn; k++) printf("%s%d", k ? "," : "", pend.nodes[k]);
	printf("],\"ret\":%ld}", pend.ret); pend.on = 0;
}
long move_pages(int pid, unsigned long count, void **pg, const int *nodes, int *status, int flags)
{
	long ret = 0; nreq++;
	int own = pid == 0 || pid == getpid(), seen[16], ns = 0, fails = nreq == failreq;
	if (nodes) for (unsigned long i = 0; i < count; i++) { int k; for (k = 0; k < ns; k++) if (seen[k] == nodes[i]) break; if (k == ns && ns < 16) seen[ns++] = nodes[i]; }
	if (fails) ret = -failerr;
	else { for (unsigned long i = 0; status && i < count; i++) status[i] = (long)i < unmig ? -EBUSY : node; ret = unmig < (long)count ? unmig : (long)count; }
	for (unsigned long i = 0; i < count;) {
		uintptr_t a = (uintptr_t)pg[i], d = a - (uintptr_t)base; unsigned long j = i + 1;
		while (j < count && (uintptr_t)pg[j] == a + (j - i) * 4096) j++;
		long first = d % 4096 || a < (uintptr_t)base || d / 4096 > 0x7fffffff ? -1L : (long)(d / 4096);
		if (pend.on && !fails && pend.ret >= 0 && pend.pid == own && pend.flags == flags && pend.nn == ns && !memcmp(pend.nodes, seen, ns * sizeof *seen) && first >= 0 && pend.first >= 0 && pend.first + pend.count == first) {
			pend.count += j - i; pend.ret += j == count ? ret : 0;
		} else {
			flush_moves();
			pend.on = 1; pend.pid = own; pend.flags = flags; pend.nn = ns; memcpy(pend.nodes, seen, ns * sizeof *seen); pend.first = first; pend.count = j - i; pend.ret = fails || j == count ? ret : 0;
		}
		i = j;
	}
	if (ret < 0) { flush_moves(); errno = -ret; return -1; }
	return ret;
}
static void call(char *b, long n, long cpu, long nd, long flags)
{
	base = b; pages = n; cpu_want = cpu; node = nd; nreq = 0;
	printf(",{\"e\":\"call\",\"n\":%ld,\"cpu\":%ld,\"node\":%ld,\"flags\":%ld,\"lib\":%d}", n, cpu, nd, flags, LIB);
	errno = 0;
	int rc = rseq_mempool_range_init_numa(b, (size_t)n * 4096, cpu, flags), e = errno;
	flush_moves();
	printf(",{\"e\":\"ret\",\"rc\":%d,\"err\":%d}", rc, rc ? e : 0);
}
static int ncalls;
static int initfn(void *priv, void *addr, size_t len, int cpu)
{
	ncalls++; call(addr, len / 4096, cpu, (cpu * 7 + 1) % 5, 2); return 0;
}
int main(void)
{
	static char line[256];
	while (fgets(line, sizeof line, stdin)) {
		fflush(stdout);
		pid_t p = fork();
		if (!p) {
			alarm(20); freopen("/dev/null", "w", stderr);
			static char ob[1 << 22]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
			printf("[{\"e\":\"start\"}");
			long n, cpu, nd, fl; long cpus, ord;
			if (sscanf(line, "pool %ld %ld", &cpus, &ord) == 2) {
				struct rseq_mempool_attr *a = rseq_mempool_attr_create();
				rseq_mempool_attr_set_percpu(a, 4096UL << ord, cpus); rseq_mempool_attr_set_init(a, initfn, NULL);
				rseq_mempool_attr_set_max_nr_ranges(a, 1);
				struct rseq_mempool *m = rseq_mempool_create("numa", 64, a);
				printf(",{\"e\":\"pool\",\"ok\":%d,\"calls\":%d,\"want\":%ld}", m != NULL, ncalls, cpus);
				if (m) rseq_mempool_destroy(m);
			} else {
				sscanf(line, "%ld %ld %ld %ld %ld %ld %ld", &n, &cpu, &nd, &fl, &failreq, &failerr, &unmig);
				call((char *)0x700000000000UL, n, cpu, nd, fl);
			}
			printf("]\n"); fflush(stdout); _exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st) || WEXITSTATUS(st)) printf("[{\"e\":\"start\"},{\"e\":\"%s\"}]\n", WIFSIGNALED(st) && WTERMSIG(st) == 14 ? "hang" : "crash");
	}
	return 0;
}
