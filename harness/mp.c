/*
 * Memory-pool driver: runs operation scripts against the real allocator and logs, for every call, its result and the
 * projected state (where the item lies, what every live and freed item reads as on every CPU, what resources are owned).
 * Each script runs in its own process; a process that dies is logged as a "crash" event naming the call in progress.
 */
#define _GNU_SOURCE
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include "interpose.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define NP 8
#define NH 8192
#define NT 4096
#define LOGSZ (64 << 20)

struct shared {
	long len;
	char op[16]; int p, h, proc;	/* call in progress, for crash events */
	char log[LOGSZ];
};
static struct shared *sh;
static int proc;

struct pool {
	struct rseq_mempool *m;
	int on, ncpu, pset, robust, type, policy; uintptr_t poison; size_t stride, ilen; int inset;
	int icb, zomb, born;
};
static struct pool P[NP];
static struct { int st; /* 0 none 1 live 2 freed */ int p; char *ptr; } H[NH];
static int hmax;
static struct rseq_mempool_set *set;
static int obs = 1;
static char *rbase[NH]; static int rpool[NH]; static int nr;
static uint64_t tokh[NT]; static int ntok;
static int seen_pool[NP];

static void lg(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	int n = vsnprintf(sh->log + sh->len, LOGSZ - sh->len, f, ap);
	va_end(ap);
	sh->len += n;
	if (sh->len > LOGSZ - 65536) { fprintf(stderr, "log overflow\n"); _exit(99); }
}
static uint64_t fnv(const unsigned char *p, size_t n)
{
	uint64_t h = 1469598103934665603ULL ^ n;
	for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ULL; h ^= h >> 29; }
	return h;
}
static int all_word(const char *p, size_t n, uintptr_t w)
{
	for (size_t i = 0; i < n; i += 8) if (*(uintptr_t *) (p + i) != w) return 0;
	return 1;
}
/* content -> small id; 0 = all zero, 1 = all poison, others interned */
static int tok(struct pool *q, const char *p)
{
	if (all_word(p, q->ilen, 0)) return 0;
	if (q->pset && all_word(p, q->ilen, q->poison)) return 1;
	uint64_t h = fnv((const unsigned char *) p, q->ilen);
	for (int i = 0; i < ntok; i++) if (tokh[i] == h) return i + 2;
	if (ntok < NT) { tokh[ntok++] = h; return ntok + 1; }
	return 99999;
}
/* 99: zeroes */
static void pat(char *b, size_t n, int k) { if (k == 99) { memset(b, 0, n); return; } for (size_t i = 0; i < n; i++) b[i] = (char) (k * 37 + i * (2 * k + 1) + (i >> 8) * 11 + 1) | (i % 8 == 0); }
/* pools with the default stride are also driven without naming it */
static char *at(struct pool *q, char *ptr, int cpu)
{
	if (q->stride == 65536 && (cpu & 1)) return (char *) rseq_percpu_ptr((char *) ptr, cpu);
	return (char *) rseq_percpu_ptr((char *) ptr, cpu, q->stride);
}
static void limbs(const char *n, uint64_t v)
{
	lg(",\"%s\":[%u,%u,%u,%u]", n, (unsigned) (v & 0xffff), (unsigned) (v >> 16 & 0xffff), (unsigned) (v >> 32 & 0xffff), (unsigned) (v >> 48));
}
static const char *en(int e)
{
	switch (e) { case EINVAL: return "EINVAL"; case ENOMEM: return "ENOMEM"; case EBUSY: return "EBUSY"; case 0: return "E0"; default: return "EOTHER"; }
}

/* init callback log */
static int icbn, icb_seq[512][4];	/* cpu, priv ok, len==stride, area ok */
static char *icb_addr[512];
static int icb_cur, aorder;
static int icb_priv[NP];
static int icb_any;	/* pool-set call: the pool is known by its private pointer only */
static int icb(void *priv, void *addr, size_t len, int cpu)
{
	int in = ip_in_lib;
	if (icb_any && (int *) priv >= icb_priv && (int *) priv < icb_priv + NP) icb_cur = (int *) priv - icb_priv;
	struct pool *q = &P[icb_cur];
	if (ip_fault()) { errno = ENOMEM; return -1; }
	ip_in_lib = 0;
	if (icbn < 512) {
		icb_seq[icbn][0] = cpu;
		icb_seq[icbn][1] = priv == &icb_priv[icb_cur];
		icb_seq[icbn][2] = len == q->stride;
		icb_addr[icbn++] = addr;
	}
	if (len <= q->stride)	/* fill each item-sized chunk with the CPU's own pattern */
		for (size_t o = 0; o + q->ilen <= len; o += q->ilen) pat((char *) addr + o, q->ilen, 1000 + cpu);
	ip_in_lib = in;
	return 0;
}
static void log_icb(void)
{
	/* cpu and area index relative to the lowest address reported in this batch */
	char *lo = NULL;
	for (int i = 0; i < icbn; i++) if (!lo || icb_addr[i] < lo) lo = icb_addr[i];
	lg(",\"icb\":[");
	for (int i = 0; i < icbn; i++) {
		size_t d = icb_addr[i] - lo, st = P[icb_cur].stride;
		lg("%s[%d,%d,%d,%d,%d]", i ? "," : "", icb_seq[i][0], icb_seq[i][1], icb_seq[i][2], d % st ? -1 : (int) (d / st),
			ip_covers((uintptr_t) icb_addr[i], st) && !((uintptr_t) icb_addr[i] & (st - 1)));
	}
	lg("]");
	icbn = 0;
}
static void observe_pages(void);
static int pmfd = -1;
static void observe(void)
{
	if (obs == 1) {
		lg(",\"c\":[");
		int first = 1;
		for (int h = 0; h < hmax; h++) {
			if (H[h].st != 1) continue;
			struct pool *q = &P[H[h].p];
			if (!q->on || q->zomb || (proc != q->born && q->policy == 0 && q->type == 0)) continue;
			lg("%s[%d", first ? "" : ",", h);
			first = 0;
			for (int c = 0; c < q->ncpu; c++) lg(",%d", tok(q, at(q, H[h].ptr, c)));
			lg("]");
		}
		lg("],\"f\":[");
		first = 1;
		for (int h = 0; h < hmax; h++) {
			if (H[h].st != 2) continue;
			struct pool *q = &P[H[h].p];
			if (!q->on || q->zomb || !q->pset || (proc != q->born && q->policy == 0 && q->type == 0)) continue;
			lg("%s[%d", first ? "" : ",", h);
			first = 0;
			for (int c = 0; c < q->ncpu; c++) {
				char *a = at(q, H[h].ptr, c);
				int t = all_word(a, q->ilen, q->poison) ? 0 : all_word(a + 8, q->ilen - 8, q->poison) ? 1 : 2;
				lg(",%d", t);
			}
			lg("]");
		}
		lg("]");
	}
	if (pmfd >= 0) observe_pages();
	long pg = ip_pages();
	lg(",\"pg\":%ld,\"fd\":%ld,\"hp\":%ld,\"wild\":%ld", pg, ip_fds(), ip_heap(), ip_wild);
}
/*
 * Which pages of which CPU's area are memory of their own (not the zero page, not the shared page of initial values)?
 * /proc/self/pagemap: present (63), not file-backed or shared (61), mapped exclusively (56).
 */
static int own_page(char *a)
{
	uint64_t e = 0;
	if (pread(pmfd, &e, 8, (uintptr_t) a / 4096 * 8) != 8) { fprintf(stderr, "pagemap\n"); _exit(95); }
	return e >> 63 && !(e >> 61 & 1) && (e >> 56 & 1);
}
static void observe_pages(void)
{
	int first = 1;
	lg(",\"pv\":[");
	for (int r = 0; r < nr; r++) {
		if (rpool[r] < 0) continue;
		struct pool *q = &P[rpool[r]];
		if (!q->on || q->zomb) continue;
		for (int c = 0; c < q->ncpu; c++)
			for (size_t o = 0; o < q->stride; o += 4096)
				if (own_page(rbase[r] + c * q->stride + o)) { lg("%s[%d,%d,%d,%zu]", first ? "" : ",", rpool[r], r, c + 1, o / 4096); first = 0; }
	}
	lg("]");
}
static void begin(const char *op, int p, int h)
{
	strncpy(sh->op, op, 15); sh->p = p; sh->h = h; sh->proc = proc;
	ip_fault_hit = 0; ip_munmap_hit = 0; ip_nreq = 0;
}
static void ev(const char *op) { lg("{\"e\":\"%s\",\"pr\":%d", op, proc); }
static void evend(void)
{
	lg(",\"flt\":%d,\"nreq\":%ld}\n", ip_fault_hit + ip_munmap_hit, ip_nreq);
	ip_fault_countdown = 0; ip_munmap_countdown = 0;
	sh->op[0] = 0;
}
/* log where an item lies */
static void log_item(int p, int h)
{
	struct pool *q = &P[p];
	char *ptr = H[h].ptr;
	char *base = (char *) ((uintptr_t) ptr & ~(q->stride - 1));
	size_t off = ptr - base;
	int r, ov = 0, inm = 1;
	for (r = 0; r < nr; r++) if (rbase[r] == base && rpool[r] == p) break;
	if (r == nr && nr < NH) { rbase[nr] = base; rpool[nr++] = p; }
	for (int c = 0; c < q->ncpu; c++) {
		char *a = at(q, ptr, c);
		if (!ip_covers((uintptr_t) a, q->ilen)) inm = 0;
		for (int g = 0; g < hmax; g++) {
			if (g == h || H[g].st != 1) continue;
			struct pool *s = &P[H[g].p];
			if (!s->on) continue;
			for (int d = 0; d < s->ncpu; d++) {
				char *b = at(s, H[g].ptr, d);
				if (a < b + s->ilen && b < a + q->ilen) ov = 1;
			}
		}
	}
	lg(",\"p\":%d,\"h\":%d,\"r\":%d,\"s\":%zu,\"al\":%d,\"inm\":%d,\"ov\":%d", p, h, r, off / q->ilen, off % q->ilen == 0, inm, ov);
}
/*
 * Which pool does an address belong to?  Mappings that appear during a call for pool p are p's; those that appear during a
 * pool-set allocation belong to the pool whose ranges cost that many pages (scripts give set pools distinct range sizes).
 */
extern void ip_snapshot(void (*cb)(uintptr_t, uintptr_t));
static uintptr_t prange[NP][1024][2]; static int nprange[NP];
static long rpages[NP], last_pages;
static int attr_to;
static void attr_cb(uintptr_t a, uintptr_t e)
{
	for (int i = 0; i < NP; i++) for (int j = 0; j < nprange[i]; j++) if (prange[i][j][0] == a) return;
	if (nprange[attr_to] < 1024) { prange[attr_to][nprange[attr_to]][0] = a; prange[attr_to][nprange[attr_to]++][1] = e; }
}
static void attribute(int p, int create)
{
	long now = ip_pages(), d = now - last_pages;
	last_pages = now;
	if (create) rpages[p] = d;
	if (d <= 0) return;
	if (p < 0) for (int i = 0; i < NP; i++) if (P[i].on && rpages[i] == d) p = i;
	if (p < 0) return;
	attr_to = p;
	ip_snapshot(attr_cb);
}

static void run(char *line)
{
	char op[16];
	int n = 0;
	if (sscanf(line, "%15s %n", op, &n) != 1) return;
	char *a = line + n;

	if (!strcmp(op, "pages")) {	/* from now on, log which pages are populated; huge pages would blur the picture */
		prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
		pmfd = open("/proc/self/pagemap", O_RDONLY);
		if (pmfd < 0) { fprintf(stderr, "pagemap\n"); _exit(95); }
		/* self-test: a page only read is not owned, a page written is */
		char *t = mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		volatile char x = t[0]; (void) x; t[4096] = 1;
		if (own_page(t) || !own_page(t + 4096)) { fprintf(stderr, "pagemap not usable\n"); _exit(95); }
		munmap(t, 8192);
		return;
	}
	if (!strcmp(op, "obs")) { obs = atoi(a); return; }
	if (!strcmp(op, "place")) { long al; sscanf(a, "%d %ld", &ip_place, &al); ip_place_align = al; return; }
	if (!strcmp(op, "maxlen")) { extern size_t ip_max_len; ip_max_len = 1UL << atoi(a); return; }
	if (!strcmp(op, "aorder")) { aorder = atoi(a); return; }
	if (!strcmp(op, "fault")) { ip_fault_countdown = atol(a); return; }
	if (!strcmp(op, "mfault")) { ip_munmap_countdown = atol(a); return; }
	if (!strcmp(op, "create")) {
		/* p attr type policy robust pset poison ncpu stride ilen max icb name */
		int p, hasattr, type, policy, robust, pset, ncpu, cb, name;
		unsigned long long poison, stride, ilen, max;
		sscanf(a, "%d %d %d %d %d %d %llx %d %llu %llu %llu %d %d", &p, &hasattr, &type, &policy, &robust, &pset, &poison, &ncpu, &stride, &ilen, &max, &cb, &name);
		struct rseq_mempool_attr *at_ = NULL;
		int aok = 1;
		begin("create", p, -1);
		long cd = ip_fault_countdown;
		ip_fault_countdown = 0;
		if (hasattr) {
			at_ = LIB(rseq_mempool_attr_create());
			if (!at_) aok = 0;
			/* the setters are independent, in whatever order, and the last value given counts; the init callback only comes before the policy */
			int todo[6] = { 0, 1, 2, 3, 4, 5 }, n = aorder % 1000;
			if (aorder >= 1000) {
				if (aorder >= 2000) aok &= !rseq_mempool_attr_set_global(at_, 1UL << 21);
				else aok &= !rseq_mempool_attr_set_percpu(at_, 1UL << 21, 77);
				aok &= !rseq_mempool_attr_set_max_nr_ranges(at_, 7);
				if (pset) aok &= !rseq_mempool_attr_set_poison(at_, 0x7766554433221100ULL);
				aok &= !rseq_mempool_attr_set_populate_policy(at_, policy == 1 ? RSEQ_MEMPOOL_POPULATE_COW_INIT : RSEQ_MEMPOOL_POPULATE_COW_ZERO);
			}
			for (int i = 5; aorder && i > 0; i--) { int j = n % (i + 1), t = todo[i]; n /= i + 1; todo[i] = todo[j]; todo[j] = t; }
			for (int i = 0, seen = 0; i < 6; i++) if (aorder && (todo[i] == 2 || todo[i] == 5)) todo[i] = seen++ ? 5 : 2;
			for (int i = 0; i < 6; i++) switch (todo[i]) {
			case 0:
				if (type == 0) aok &= !rseq_mempool_attr_set_percpu(at_, stride, ncpu);
				else if (type == 1) aok &= !rseq_mempool_attr_set_global(at_, stride);
				break;
			case 1: if (robust) aok &= !rseq_mempool_attr_set_robust(at_); break;
			case 2: if (cb) aok &= !rseq_mempool_attr_set_init(at_, icb, &icb_priv[p]); break;
			case 3: if (max || aorder) aok &= !rseq_mempool_attr_set_max_nr_ranges(at_, max); break;
			case 4: if (pset) aok &= !rseq_mempool_attr_set_poison(at_, poison); break;
			case 5: aok &= !rseq_mempool_attr_set_populate_policy(at_, policy); break;
			}
		}
		struct pool *q = &P[p];
		memset(q, 0, sizeof *q);
		q->born = proc; q->type = hasattr ? type : 0; q->policy = hasattr ? policy : 0;
		if (q->type == 1 && q->policy == 0) q->policy = 1;
		q->ncpu = type == 1 ? 1 : ncpu; q->robust = robust; q->stride = stride; q->icb = cb;
		q->pset = pset || robust; q->poison = pset ? poison : (q->policy == 0 ? 0x5555555555555555ULL : 0);
		q->ilen = 8; while (q->ilen < ilen && q->ilen) q->ilen <<= 1;
		if (!hasattr || !stride) q->stride = 65536;
		icb_cur = p; icb_any = 0; icbn = 0;
		char nm[300];
		memset(nm, 'n', sizeof nm); nm[name == -1 ? 0 : name > 1 ? (name > 290 ? 290 : name) : 4] = 0;
		ip_nreq = 0;
		ip_fault_countdown = cd;
		ip_last_len = 0;
		errno = 0;
		q->m = LIB(rseq_mempool_create(name ? nm : NULL, ilen, at_));
		int e = errno;
		memset(nm, 'X', sizeof nm);
		attribute(p, 1);
		if (hasattr) {	/* later changes to the attribute object must not matter */
			rseq_mempool_attr_set_poison(at_, 0x1122334455667788ULL);
			rseq_mempool_attr_set_max_nr_ranges(at_, 1);
			if (type == 0) rseq_mempool_attr_set_percpu(at_, 1UL << 20, 1);
			rseq_mempool_attr_set_populate_policy(at_, RSEQ_MEMPOOL_POPULATE_COW_ZERO);
			long cd2 = ip_fault_countdown; ip_fault_countdown = 0;
			LIBV(rseq_mempool_attr_destroy(at_));
			ip_fault_countdown = cd2;
		}
		ev("create");
		int gm = -2;
		if (q->m) { q->on = 1; errno = 0; gm = rseq_mempool_get_max_nr_cpus(q->m); if (!hasattr || (type == 0 && ncpu == 0)) q->ncpu = gm; }
		lg(",\"p\":%d,\"res\":\"%s\",\"aok\":%d,\"attr\":%d,\"typ\":%d,\"pol\":%d,\"rob\":%d,\"pset\":%d,\"pz\":%d,\"nc\":%d,\"cb\":%d,\"gm\":%d,\"gmax\":%d,\"max\":%llu", p, q->m ? "ok" : en(e), aok, hasattr, type, policy,
			robust, pset, q->poison == 0, ncpu, cb, gm, rseq_get_max_nr_cpus(), max);
		limbs("stride", hasattr ? stride : 0); limbs("ilen", ilen); limbs("mlen", ip_last_len);
		/* tokens of the init-callback pattern per CPU */
		lg(",\"it\":[");
		if (q->m && cb) {
			char *b = malloc(q->ilen);
			for (int c = 0; c < q->ncpu; c++) { pat(b, q->ilen, 1000 + (type == 1 ? -1 : c)); lg("%s%d", c ? "," : "", tok(q, b)); }
			free(b);
		}
		lg("]");
		log_icb(); observe(); evend();
		return;
	}
	if (!strcmp(op, "malloc") || !strcmp(op, "smalloc")) {
		/* p|-1 kind h len k */
		int p, h, k; char kind; unsigned long long len;
		sscanf(a, "%d %c %d %llu %d", &p, &kind, &h, &len, &k);
		int s = op[0] == 's';
		if (s ? !set : !P[p].on) return;
		begin(op, p, h);
		char *ptr, *ib = NULL, *ib2 = NULL;
		/* for huge lengths (expected to be refused before any access) hand over a small buffer */
		size_t bl = len < (1 << 20) ? len : 4096;
		if (kind == 'i') { ib = malloc(bl + 8); ib2 = malloc(bl + 8); pat(ib, bl, k); memcpy(ib2, ib, bl); }
		ip_nreq = 0;
		icb_cur = s ? 0 : p; icb_any = s; icbn = 0;
		errno = 0;
		/* global pools are driven through the non-per-cpu wrappers */
		int glob = !s && P[p].type == 1;
		if (!s) {
			struct rseq_mempool *m = P[p].m;
			if (kind == 'p') ptr = LIB((char *) (glob ? rseq_mempool_malloc(m) : rseq_mempool_percpu_malloc(m)));
			else if (kind == 'z') ptr = LIB((char *) (glob ? rseq_mempool_zmalloc(m) : rseq_mempool_percpu_zmalloc(m)));
			else ptr = LIB((char *) (glob ? rseq_mempool_malloc_init(m, ib, len) : rseq_mempool_percpu_malloc_init(m, ib, len)));
		} else {
			if (kind == 'p') ptr = LIB((char *) (k & 1 ? rseq_mempool_set_malloc(set, len) : rseq_mempool_set_percpu_malloc(set, len)));
			else if (kind == 'z') ptr = LIB((char *) (k & 1 ? rseq_mempool_set_zmalloc(set, len) : rseq_mempool_set_percpu_zmalloc(set, len)));
			else ptr = LIB((char *) (k & 1 ? rseq_mempool_set_malloc_init(set, ib, len) : rseq_mempool_set_percpu_malloc_init(set, ib, len)));
		}
		int e = errno;
		attribute(s ? -1 : p, 0);
		ev(op);
		lg(",\"res\":\"%s\",\"kind\":\"%c\",\"k\":%d,\"nz\":%d", ptr ? "ok" : en(e), kind, k, kind == 'i' && len && k != 99);
		if (!s && !ptr) lg(",\"p\":%d", p);
		limbs("len", len);
		if (ptr) {
			if (s) {	/* find the owning pool: the one whose recorded mapping contains it */
				int f = -1;
				for (int i = 0; i < NP; i++) {
					if (!P[i].on) continue;
					/* content-independent ownership test: poolwise address windows (see "place" per pool) */
					for (int j = 0; j < nprange[i]; j++) if ((uintptr_t) ptr >= prange[i][j][0] && (uintptr_t) ptr < prange[i][j][1]) f = i;
				}
				p = f;
			}
			if (p < 0) { lg(",\"p\":-1,\"h\":%d,\"r\":0,\"s\":0,\"al\":0,\"inm\":0,\"ov\":0", h); }
			else {
				for (int g = 0; g < hmax; g++) if (H[g].st == 2 && H[g].p == p && H[g].ptr == ptr) H[g].st = 0;
				if (h >= hmax) hmax = h + 1;
				H[h].p = p; H[h].ptr = ptr; H[h].st = 1;
				log_item(p, h);
				struct pool *q = &P[p];
				/* prefix test for init, expected token when the whole item is initialised */
				int pre = 1, t = -1, srcok = 1;
				if (kind == 'i') {
					for (int c = 0; c < q->ncpu; c++) if (memcmp(at(q, ptr, c), ib2, len)) pre = 0;
					if (len == q->ilen) t = tok(q, ib2);
					if (memcmp(ib, ib2, len)) srcok = 0;
				}
				lg(",\"pre\":%d,\"t\":%d,\"src\":%d", pre, t, srcok);
			}
		} else if (kind == 'i') lg(",\"src\":%d", !memcmp(ib, ib2, bl));
		free(ib); free(ib2);
		log_icb(); observe(); evend();
		return;
	}
	if (!strcmp(op, "free")) {
		int h; sscanf(a, "%d", &h);
		if (h >= hmax || !H[h].st) return;
		struct pool *q = &P[H[h].p];
		begin("free", H[h].p, h);
		if (q->stride == 65536 && (h & 1)) {
			if (q->type == 1) LIBV(rseq_mempool_free(H[h].ptr));
			else LIBV(rseq_mempool_percpu_free(H[h].ptr));
		} else if (q->type == 1) {
			long *lp = (long *) H[h].ptr - 3;	/* arguments are expressions too */
			size_t half = q->stride / 2;
			LIBV(rseq_mempool_free(lp + 3, half + half));
		}
		else LIBV(rseq_mempool_percpu_free(H[h].ptr, q->stride));
		ev("free"); lg(",\"p\":%d,\"h\":%d", H[h].p, h);
		H[h].st = 2;
		observe(); evend();
		return;
	}
	if (!strcmp(op, "freeraw")) {	/* h d: free the slot d slots away from item h (a slot that is not allocated) */
		int h, d; sscanf(a, "%d %d", &h, &d);
		if (h >= hmax || !H[h].st) return;
		struct pool *q = &P[H[h].p];
		begin("freeraw", H[h].p, h);
		LIBV(rseq_mempool_percpu_free(H[h].ptr + (ptrdiff_t) d * (ptrdiff_t) q->ilen, q->stride));
		ev("freeraw"); lg(",\"p\":%d,\"h\":%d,\"d\":%d", H[h].p, h, d); observe(); evend();
		return;
	}
	if (!strcmp(op, "write")) {	/* h cpu k : user fills its item on one CPU */
		int h, cpu, k; sscanf(a, "%d %d %d", &h, &cpu, &k);
		if (h >= hmax || H[h].st != 1) return;
		struct pool *q = &P[H[h].p];
		if (cpu >= q->ncpu) return;
		begin("write", H[h].p, h);
		pat(at(q, H[h].ptr, cpu), q->ilen, k);
		char *b = malloc(q->ilen); pat(b, q->ilen, k); int t = tok(q, b); free(b);
		ev("write"); lg(",\"p\":%d,\"h\":%d,\"cpu\":%d,\"t\":%d", H[h].p, h, cpu, t); observe(); evend();
		return;
	}
	if (!strcmp(op, "fillw")) {	/* h cpu hexword : user fills its item on one CPU with one word */
		int h, cpu; unsigned long long v; sscanf(a, "%d %d %llx", &h, &cpu, &v);
		if (h >= hmax || H[h].st != 1) return;
		struct pool *q = &P[H[h].p];
		if (cpu >= q->ncpu) return;
		begin("write", H[h].p, h);
		uintptr_t *x = (uintptr_t *) at(q, H[h].ptr, cpu);
		for (size_t i = 0; i < q->ilen / 8; i++) x[i] = v;
		ev("write"); lg(",\"p\":%d,\"h\":%d,\"cpu\":%d,\"t\":%d", H[h].p, h, cpu, tok(q, (char *) x)); observe(); evend();
		return;
	}
	if (!strcmp(op, "poke")) {	/* h cpu byte : change one byte of an item (live: legitimate; freed: corruption) */
		int h, cpu; long byte; sscanf(a, "%d %d %ld", &h, &cpu, &byte);
		if (h >= hmax || !H[h].st) return;
		struct pool *q = &P[H[h].p];
		if (cpu >= q->ncpu) return;
		begin("poke", H[h].p, h);
		char *x = at(q, H[h].ptr, cpu);
		if (byte < 0) byte = q->ilen + byte;
		x[byte % q->ilen] ^= 0x10;
		ev("poke"); lg(",\"p\":%d,\"h\":%d,\"cpu\":%d,\"t\":%d", H[h].p, h, cpu, tok(q, x)); observe(); evend();
		return;
	}
	if (!strcmp(op, "flcorrupt")) {	/* h how: damage the free-list link stored for freed item h of a robust pool */
		int h; char how[16]; sscanf(a, "%d %15s", &h, how);
		if (h >= hmax || H[h].st != 2) return;
		struct pool *q = &P[H[h].p];
		begin("flcorrupt", H[h].p, h);
		/* the link lives in one of the strides after the last CPU: the one that does not read as poison (the only one, or not) */
		uintptr_t *link = NULL; int cand = 0;
		for (int x = q->ncpu; x < q->ncpu + 2; x++) {
			uintptr_t *l = (uintptr_t *) at(q, H[h].ptr, x);
			if (!ip_covers((uintptr_t) l, q->stride - ((uintptr_t) l & (q->stride - 1)))) continue;
			if (q->policy == 0 && *l == q->poison) continue;
			link = l; cand++;
		}
		if (cand != 1) { sh->op[0] = 0; return; }
		uintptr_t old = *link;
		if (!strcmp(how, "trunc")) *link = 0;
		else if (!strcmp(how, "loop")) *link = (uintptr_t) link;
		else if (!strcmp(how, "out")) *link = (uintptr_t) &H[0];
		else if (!strcmp(how, "outlow")) *link = (uintptr_t) link - 4 * q->stride * (q->ncpu + 2);
		ev("flcorrupt"); lg(",\"p\":%d,\"h\":%d,\"how\":\"%s\",\"chg\":%d", H[h].p, h, how, *link != old); observe(); evend();
		return;
	}
	if (!strcmp(op, "destroy")) {
		int p; sscanf(a, "%d", &p);
		if (!P[p].on) return;
		begin("destroy", p, -1);
		errno = 0;
		int r = LIB(rseq_mempool_destroy(P[p].m));
		ev("destroy"); lg(",\"p\":%d,\"res\":%d", p, r);
		if (r) P[p].zomb = 1;	/* partly released: its items may be gone */
		if (!r) { P[p].on = 0; for (int h = 0; h < hmax; h++) if (H[h].p == p) H[h].st = 0; for (int i = 0; i < nr; i++) if (rpool[i] == p) rpool[i] = -1; nprange[p] = 0; }
		last_pages = ip_pages();
		lg(",\"mapped\":%ld", ip_pages_mapped());
		observe(); evend();
		return;
	}
	if (!strcmp(op, "freeall")) {	/* p: free every live item of pool p (-1: all pools), one call each */
		int p, k = hmax; sscanf(a, "%d", &p);
		for (int h = 0; h < k; h++) {
			if (H[h].st != 1 || (p >= 0 && H[h].p != p) || P[H[h].p].zomb || (proc != P[H[h].p].born && P[H[h].p].policy == 0 && P[H[h].p].type == 0)) continue;
			char b[32]; sprintf(b, "free %d", h); run(b);
		}
		return;
	}
	if (!strcmp(op, "destroyall")) {
		if (set) run("setdestroy");
		for (int p = 0; p < NP; p++) if (P[p].on) { char b[32]; sprintf(b, "destroy %d", p); run(b); }
		return;
	}
	if (!strcmp(op, "ptr")) {	/* cpu log2(stride) how: address arithmetic only */
		int cpu, so, how; sscanf(a, "%d %d %d", &cpu, &so, &how);
		begin("ptr", -1, -1);
		long *b = (long *) 0x10000, *r;
		struct big { char x[24]; } *bb = (struct big *) 0x10000;
		size_t st = (size_t) 1 << so;
		unsigned int st32 = 1U << (so & 31);
		switch (how) {
		case 0: r = rseq_percpu_ptr(b, cpu, st); break;
		case 1: r = rseq_percpu_ptr(b, (unsigned int) cpu, st); break;
		case 2: r = rseq_percpu_ptr(b, (long) cpu, st); break;
		case 3: r = (long *) rseq_percpu_ptr(bb, cpu, st); break;
		case 4: r = rseq_percpu_ptr(b, cpu, st32); break;
		case 5: r = rseq_percpu_ptr(b + 1, cpu + 1 - 1, so < 12 ? 0 : st) - 1; break;
		default: r = rseq_percpu_ptr(b, cpu); break;
		}
		ev("ptr"); lg(",\"cpu\":%d,\"so\":%d,\"how\":%d", cpu, so, how);
		limbs("d", (uintptr_t) r - 0x10000); evend();
		return;
	}
	if (!strcmp(op, "attrnull")) {	/* every entry point refuses a missing object with EINVAL */
		begin("attrnull", -1, -1);
		int ok = 1;
#define E(x) ({ errno = 0; int r_ = LIB(x); if (r_ != -1 || errno != EINVAL) ok = 0; })
		E(rseq_mempool_attr_set_init(NULL, icb, NULL)); E(rseq_mempool_attr_set_robust(NULL)); E(rseq_mempool_attr_set_percpu(NULL, 4096, 1));
		E(rseq_mempool_attr_set_global(NULL, 4096)); E(rseq_mempool_attr_set_max_nr_ranges(NULL, 1)); E(rseq_mempool_attr_set_poison(NULL, 1));
		E(rseq_mempool_attr_set_populate_policy(NULL, 0)); E(rseq_mempool_get_max_nr_cpus(NULL));
		ev("attrnull"); lg(",\"ok\":%d", ok); observe(); evend();
		return;
	}
	if (!strcmp(op, "destroynull")) { begin("destroynull", 0, 0); int r = LIB(rseq_mempool_destroy(NULL)); ev("destroynull"); lg(",\"res\":%d", r); observe(); evend(); return; }
	if (!strcmp(op, "setcreate")) {
		begin("setcreate", -1, -1);
		errno = 0;
		set = LIB(rseq_mempool_set_create());
		ev("setcreate"); lg(",\"res\":\"%s\"", set ? "ok" : en(errno)); observe(); evend();
		return;
	}
	if (!strcmp(op, "setadd")) {
		int p; sscanf(a, "%d", &p);
		if (!set || !P[p].on) return;
		begin("setadd", p, -1);
		errno = 0;
		int r = LIB(rseq_mempool_set_add_pool(set, P[p].m));
		ev("setadd"); lg(",\"p\":%d,\"res\":\"%s\"", p, r == 0 ? "ok" : r == -1 ? en(errno) : "odd");
		if (!r) P[p].inset = 1;
		observe(); evend();
		return;
	}
	if (!strcmp(op, "setdestroy")) {
		begin("setdestroy", -1, -1);
		int r = LIB(rseq_mempool_set_destroy(set));
		if (!r) set = NULL;
		else for (int p = 0; p < NP; p++) if (P[p].inset && P[p].on) P[p].zomb = 1;
		ev("setdestroy"); lg(",\"res\":%d", r);
		if (!r) for (int p = 0; p < NP; p++) if (P[p].inset && P[p].on) { P[p].on = 0; P[p].inset = 0; nprange[p] = 0; for (int h = 0; h < hmax; h++) if (H[h].p == p) H[h].st = 0; for (int i = 0; i < nr; i++) if (rpool[i] == p) rpool[i] = -1; }
		last_pages = ip_pages();
		lg(",\"mapped\":%ld", ip_pages_mapped());
		observe(); evend();
		return;
	}
	if (!strcmp(op, "hole")) {	/* child: occupy the address range the pool's mapping left behind, as an allocator might */
		int h; sscanf(a, "%d", &h);
		if (h >= hmax || !H[h].st) return;
		struct pool *q = &P[H[h].p];
		char *base = (char *) ((uintptr_t) H[h].ptr & ~(q->stride - 1));
		char *m = mmap(base, q->stride, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (m == base) memset(m, 0x77, q->stride);
		ev("hole"); lg(",\"p\":%d,\"h\":%d,\"ok\":%d", H[h].p, h, m == base); evend();
		return;
	}
	if (!strcmp(op, "holecheck")) {
		int h; sscanf(a, "%d", &h);
		struct pool *q = &P[H[h].p];
		char *base = (char *) ((uintptr_t) H[h].ptr & ~(q->stride - 1));
		begin("holecheck", H[h].p, h);
		int ok = 1;
		for (size_t i = 0; i < q->stride; i++) if (base[i] != 0x77) ok = 0;
		ev("holecheck"); lg(",\"p\":%d,\"h\":%d,\"ok\":%d", H[h].p, h, ok); evend();
		return;
	}
	fprintf(stderr, "unknown op %s\n", op);
	_exit(98);
}

static int cfd[2] = { -1, -1 }, afd[2] = { -1, -1 }; static pid_t child;
static void crash_event(int status, int pr)
{
	int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 1000 + WEXITSTATUS(status);
	/* drop a partially written last event */
	while (sh->len > 0 && sh->log[sh->len - 1] != '\n') sh->len--;
	lg("{\"e\":\"crash\",\"pr\":%d,\"sig\":%d,\"op\":\"%s\",\"p\":%d,\"h\":%d}\n", pr, sig, sh->op, sh->p, sh->h);
	sh->op[0] = 0;
}
static int childdead;
static void exec_line(char *l)
{
	if (!strncmp(l, "fork", 4)) {
		if (pipe(cfd) || pipe(afd)) _exit(97);
		lg("{\"e\":\"fork\",\"pr\":0}\n");
		childdead = 0;
		child = fork();
		if (!child) {
			proc = 1;
			char buf[4096];
			for (;;) {
				int n = 0; char ch;
				while (read(cfd[0], &ch, 1) == 1 && ch != '\n') buf[n++] = ch;
				buf[n] = 0;
				if (!n || !strcmp(buf, "exit")) _exit(0);
				run(buf);
				ch = 'k';
				if (write(afd[1], &ch, 1) != 1) _exit(96);
			}
		}
		close(afd[1]);
		return;
	}
	if (!strncmp(l, "c ", 2) || !strncmp(l, "join", 4)) {
		int j = l[0] == 'j';
		if (j) l = "  exit";
		if (!child) return;
		if (!childdead) {
			char b[4200]; int n = snprintf(b, sizeof b, "%s\n", l + 2);
			if (write(cfd[1], b, n) != n) {}
			char ch; struct pollfd pf = { .fd = afd[0], .events = POLLIN };
			int r = poll(&pf, 1, 10000);
			if (r <= 0) { kill(child, SIGKILL); }
			if (r <= 0 || read(afd[0], &ch, 1) != 1) {
				int st; waitpid(child, &st, 0); childdead = 1;
				if (!(j && WIFEXITED(st) && WEXITSTATUS(st) == 0)) crash_event(st, 1);
			}
		}
		if (j) { lg("{\"e\":\"join\",\"pr\":0}\n"); close(cfd[0]); close(cfd[1]); close(afd[0]); child = 0; }
		return;
	}
	run(l);
}
int main(int argc, char **argv)
{
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	FILE *f = fopen(argv[1], "r");
	FILE *o = fopen(argv[2], "w");
	static char line[1 << 16];
	static char *script[1 << 18]; int n = 0;
	int hangs = 0;
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	while (1) {
		char *g = fgets(line, sizeof line, f);
		if (!g || !strncmp(line, "---", 3)) {
			if (n) {
				sh->len = 0; sh->op[0] = 0; sh->p = sh->h = -1;
				if (hangs >= 2) {	/* enough evidence: do not spend the time limit on more of the same */
					fprintf(o, "{\"e\":\"skipped\",\"pr\":0}\n---\n");
					for (int i = 0; i < n; i++) free(script[i]);
					n = 0;
					if (!g) break;
					continue;
				}
				fflush(o);
				pid_t pid = fork();
				if (!pid) {
					freopen("/dev/null", "w", stderr);
					/* warm up lazily allocated library/libc state before accounting starts */
					LIBV(rseq_get_max_nr_cpus()); ip_reset();
					for (int i = 0; i < n; i++) {
						exec_line(script[i]);
					}
					_exit(0);
				}
				int st, waited = 0;
				struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
				for (;;) {
					int r = waitpid(pid, &st, WNOHANG);
					if (r == pid) break;
					clock_gettime(CLOCK_MONOTONIC, &t1);
					if (t1.tv_sec - t0.tv_sec > 20) { hangs++; kill(pid, SIGKILL); waitpid(pid, &st, 0); st = SIGALRM; break; }
					usleep(waited++ < 200 ? 50 : 1000);
				}
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
					if (WIFEXITED(st)) { fprintf(stderr, "driver error %d\n", WEXITSTATUS(st)); return 3; }
					crash_event(st, 0);
				}
				fwrite(sh->log, 1, sh->len, o);
				fprintf(o, "---\n");
				for (int i = 0; i < n; i++) free(script[i]);
				n = 0;
			}
			if (!g) break;
			continue;
		}
		line[strcspn(line, "\n")] = 0;
		if (line[0]) script[n++] = strdup(line);
	}
	fclose(o);
	return 0;
}
