/*
 * Scheduler for memory pools: several threads (user-level contexts) call the allocator; the library's own code is executed one
 * instruction at a time and can be interrupted between any two of them (code of the C library runs to its end).  Mutexes are
 * replaced by ones that hand over to another thread when taken.
 *
 *   SCRIPT pools ops;ops;...     pools: kind/ilen/max,...  kind: c(pu, COW_INIT) z(COW_ZERO) g(lobal) with r(obust) appended
 *                                ops before the first ';' run first, alone: m:p z:p i:p (allocate), M:len Z:len I:len (from the set), a:p (add to the
 *                                set), x:n (take all slots of pool 0 but n), f:k F:k (free the k-th item of this thread / of the setup), w:k r:k (write, read), o (a pool of its own)
 *   RUN k t:n,...                RAND k count seed      SWEEP k t1 t2      PAIR k t1 t2 stride seed
 * output: k TAB segments TAB [events]
 */
#define _GNU_SOURCE
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include "cs.h"
int cs_step_on = 1;
extern char __start_libtext[], __stop_libtext[];
#define NT 4
#define STK (256 * 1024)
#define STRIDE 4096
#define MAXI 48
struct op { char c; long a; };
static struct op script[NT + 1][16]; static int nops[NT + 1], nthr;
static struct pl { char kind; int robust, ilen, max, ncpu; struct rseq_mempool *m; } P[8]; static int np, inset[8];
static struct rseq_mempool_set *set;
struct item { char *ptr; int h, live, ncpu, ilen; };
static struct item I[NT + 1][MAXI]; static int ni[NT + 1], hcount;
static char *bases[256]; static int nbases;
static struct th { gregset_t g; fpregset_t fp; struct _libc_fpstate fps; int err, done, blocked; char *stk; } T[NT];
static gregset_t gmain;
static int cur, want; static long steps, tsteps[NT], endstep[NT]; static int dead;
static char ev[1 << 18]; static size_t evn; static char segs[1 << 16]; static size_t segn;
static sigjmp_buf jb;
enum { MAXSTEPS = 300000 };
static void emit(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	if (evn < sizeof ev - 4096) { if (evn > 1) ev[evn++] = ','; evn += vsnprintf(ev + evn, sizeof ev - evn, f, ap); }
	va_end(ap);
}
/* ---- schedule ---- */
struct seg { int t; long n; };
static struct seg plan[4096]; static int nplan, ip_, rnd_on, rnd_left; static long left;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int can(int t) { return !T[t].done && !T[t].blocked; }
static int nalive(void) { int n = 0; for (int i = 0; i < nthr; i++) n += !T[i].done; return n; }
static int ncan(void) { int n = 0; for (int i = 0; i < nthr; i++) n += can(i); return n; }
static int nextseg(struct seg *s)
{
	while (ip_ < nplan) { *s = plan[ip_++]; if (can(s->t)) return 1; }
	if (rnd_on && rnd_left-- > 0) {
		do s->t = rnd() % nthr; while (!can(s->t));
		switch (rnd() % 6) { case 0: s->n = 1 + rnd() % 200; break; case 1: s->n = 1 + rnd() % 3; break; default: s->n = 1 + rnd() % 40; }
		return 1;
	}
	static int rr; for (int i = 0; i < nthr; i++) { rr = (rr + 1) % nthr; if (can(rr)) { s->t = rr; s->n = 4000; return 1; } }
	return 0;
}
static struct { uintptr_t ip; int n; } vis[NT][4096];
static int visits(uintptr_t ip) { unsigned i = (ip * 2654435761u >> 7) & 4095; while (vis[cur][i].ip && vis[cur][i].ip != ip) i = (i + 1) & 4095; vis[cur][i].ip = ip; return ++vis[cur][i].n; }
static void body(void);
static void on_trap(int sig, siginfo_t *si, void *u)
{
	ucontext_t *uc = u; greg_t *g = uc->uc_mcontext.gregs; int w = want; want = 0;
	if (w == 2) {
		memcpy(gmain, g, sizeof gmain);
		for (int t = 0; t < nthr; t++) {
			memcpy(T[t].g, g, sizeof T[t].g); T[t].fps = *uc->uc_mcontext.fpregs;
			T[t].g[REG_RIP] = (greg_t)body; T[t].g[REG_RSP] = ((greg_t)T[t].stk + STK - 256) | 8; T[t].g[REG_RBP] = 0; T[t].g[REG_EFL] = 0x202;
		}
	} else {
		struct th *h = &T[cur]; uintptr_t ip = g[REG_RIP];
		if (!w && (ip < (uintptr_t)__start_libtext || ip >= (uintptr_t)__stop_libtext)) return;	/* not the library's code */
		if (++steps > MAXSTEPS) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); }
		if (w == 1) { h->done = 1; endstep[cur] = tsteps[cur]; }
		else if (w == 3) h->blocked = 1;
		else if (visits(ip) > 3) return;
		else if (++tsteps[cur], --left > 0) return;	/* later rounds of a loop are no new places to stop at */
		memcpy(h->g, g, sizeof h->g); h->fps = *uc->uc_mcontext.fpregs; h->err = errno;
	}
	if (!nalive()) { memcpy(g, gmain, sizeof gmain); return; }
	struct seg s;
	if (!ncan() || !nextseg(&s)) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); }
	if (segn < sizeof segs - 64) segn += sprintf(segs + segn, "%s%d:%ld", segn ? "," : "", s.t, s.n);
	left = s.n ? s.n : 100000;
	cur = s.t; memcpy(g, T[cur].g, sizeof T[cur].g); *uc->uc_mcontext.fpregs = T[cur].fps; errno = T[cur].err;
}
static void on_fatal(int sig, siginfo_t *si, void *u) { emit("{\"e\":\"crash\",\"sig\":%d}", sig); siglongjmp(jb, 2); }
static __attribute__((noinline)) void trap(int w) { want = w; __asm__ __volatile__ ("int3" ::: "memory"); }
/* ---- mutexes ---- */
static struct { void *m; int owner; } mx[64]; static int stepping;
static int *owner(void *m)
{
	for (int i = 0; i < 64; i++) { if (mx[i].m == m) return &mx[i].owner; if (!mx[i].m) { mx[i].m = m; mx[i].owner = -1; return &mx[i].owner; } }
	abort();
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!stepping) return 0; int *o = owner(m); if (*o >= 0) return EBUSY; *o = cur; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { while (__wrap_pthread_mutex_trylock(m)) trap(3); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (!stepping) return 0;
	if (*owner(m) != cur) emit("{\"e\":\"badunlock\"}");	/* not its lock: undefined */
	*owner(m) = -1; for (int i = 0; i < nthr; i++) T[i].blocked = 0;
	return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { *owner(m) = -1; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
/* ---- operations ---- */
static int tok(const char *p, int n)
{
	uint64_t w = *(uint64_t *)p;
	for (int i = 0; i < n; i += 8) if (*(uint64_t *)(p + i) != w) return -1;
	return w < 900 ? (int)w : -1;
}
static char *at(struct item *i, int c) { return (char *)rseq_percpu_ptr((char *)i->ptr, c, STRIDE); }
static void fill(struct item *i, int v) { for (int c = 0; c < i->ncpu; c++) for (int j = 0; j < i->ilen; j += 8) *(uint64_t *)(at(i, c) + j) = v; }
static void content(struct item *i) { evn += sprintf(ev + evn, "\"c\":["); for (int c = 0; c < i->ncpu; c++) evn += sprintf(ev + evn, "%s%d", c ? "," : "", tok(at(i, c), i->ilen)); evn += sprintf(ev + evn, "]}"); }
static int rindex_(char *p) { char *b = (char *)((uintptr_t)p & ~(uintptr_t)(STRIDE - 1)); int i; for (i = 0; i < nbases; i++) if (bases[i] == b) return i; if (nbases < 255) bases[nbases++] = b; return i; }
static uint64_t ini[STRIDE / 8];
static int mkpool(struct pl *p)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (p->kind == 'g') rseq_mempool_attr_set_global(a, STRIDE); else rseq_mempool_attr_set_percpu(a, STRIDE, 2);
	p->ncpu = p->kind == 'g' ? 1 : 2;
	if (p->robust) rseq_mempool_attr_set_robust(a);
	if (p->max) rseq_mempool_attr_set_max_nr_ranges(a, p->max);
	rseq_mempool_attr_set_populate_policy(a, p->kind == 'z' ? RSEQ_MEMPOOL_POPULATE_COW_ZERO : RSEQ_MEMPOOL_POPULATE_COW_INIT);
	p->m = rseq_mempool_create("vp", p->ilen, a);
	rseq_mempool_attr_destroy(a);
	return !!p->m;
}
#define STEPPED(x) do { if (stepping) STEP_ON(); x; STEP_OFF(); } while (0)
static void doop(int me, struct op *o)
{
	static void *res[NT + 1]; static int rr[NT + 1], e[NT + 1];
	if (strchr("mziMZI", o->c)) {
		int isset = o->c < 'a'; char k = o->c | 32; int h = hcount++;
		if (me < NT) memset(vis[me], 0, sizeof vis[me]);
		emit("{\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"a\":%ld,\"kind\":\"%c\",\"h\":%d}", me, isset ? "set" : "malloc", o->a, k == 'm' ? 'p' : k, h);
		long a = o->a; res[me] = NULL; errno = 0;
		int len = isset ? (int)a : P[a].ilen; struct rseq_mempool *m = isset ? NULL : P[a].m;
		switch (o->c) {
		case 'm': STEPPED(res[me] = rseq_mempool_percpu_malloc(m)); break;
		case 'z': STEPPED(res[me] = rseq_mempool_percpu_zmalloc(m)); break;
		case 'i': STEPPED(res[me] = rseq_mempool_percpu_malloc_init(m, ini, len)); break;
		case 'M': STEPPED(res[me] = rseq_mempool_set_percpu_malloc(set, len)); break;
		case 'Z': STEPPED(res[me] = rseq_mempool_set_percpu_zmalloc(set, len)); break;
		case 'I': STEPPED(res[me] = rseq_mempool_set_percpu_malloc_init(set, ini, len)); break;
		}
		e[me] = errno;
		struct item *i = &I[me][ni[me]++]; i->h = h; i->live = !!res[me]; i->ptr = res[me];
		if (!res[me]) { emit("{\"e\":\"ret\",\"t\":%d,\"ok\":0,\"r\":-1,\"off\":0,\"err\":\"%s\",\"c\":[]}", me, e[me] == ENOMEM ? "ENOMEM" : e[me] == EINVAL ? "EINVAL" : "?"); return; }
		i->ncpu = isset ? P[0].ncpu : P[a].ncpu; i->ilen = len;
		emit("{\"e\":\"ret\",\"t\":%d,\"ok\":1,\"r\":%d,\"off\":%d,\"err\":\"\",", me, rindex_(i->ptr), (int)((uintptr_t)i->ptr & (STRIDE - 1))); content(i);
	} else if (o->c == 'f' || o->c == 'F') {
		int w = o->c == 'f' ? me : NT;
		if (o->a >= ni[w] || !I[w][o->a].live) return;
		struct item *i = &I[w][o->a]; i->live = 0; if (me < NT) memset(vis[me], 0, sizeof vis[me]);
		emit("{\"e\":\"call\",\"t\":%d,\"op\":\"free\",\"a\":0,\"kind\":\"\",\"h\":%d}", me, i->h);
		void *p = i->ptr;
		STEPPED(rseq_mempool_percpu_free(p, STRIDE));
		emit("{\"e\":\"ret\",\"t\":%d,\"ok\":1,\"r\":-1,\"off\":0,\"err\":\"\",\"c\":[]}", me);
	} else if (o->c == 'w' || o->c == 'r') {
		if (o->a >= ni[me] || !I[me][o->a].live) return;
		struct item *i = &I[me][o->a];
		if (o->c == 'w') { fill(i, 100 + i->h); emit("{\"e\":\"write\",\"h\":%d,\"v\":%d}", i->h, 100 + i->h); }
		else { emit("{\"e\":\"read\",\"h\":%d,", i->h); content(i); }
	} else if (o->c == 'a') {
		emit("{\"e\":\"call\",\"t\":%d,\"op\":\"add\",\"a\":%ld,\"kind\":\"\",\"h\":0}", me, o->a);
		struct rseq_mempool *m = P[o->a].m;
		STEPPED(rr[me] = rseq_mempool_set_add_pool(set, m));
		e[me] = errno; if (!rr[me]) inset[o->a] = 1;
		emit("{\"e\":\"ret\",\"t\":%d,\"ok\":%d,\"r\":-1,\"off\":0,\"err\":\"%s\",\"c\":[]}", me, rr[me] == 0, rr[me] == 0 ? "" : e[me] == EBUSY ? "EBUSY" : "?");
	} else if (o->c == 'x') {	/* take all slots of pool 0 but a */
		struct op m = { 'm', 0 }; for (int n = STRIDE / P[0].ilen * P[0].max - o->a; n > 0; n--) doop(me, &m);
	} else if (o->c == 'o') {
		static struct pl q[NT + 1]; static struct item it[NT + 1]; static int ok[NT + 1]; int me2 = me;
		emit("{\"e\":\"call\",\"t\":%d,\"op\":\"own\",\"a\":0,\"kind\":\"\",\"h\":0}", me);
		q[me].kind = 'c'; q[me].robust = 0; q[me].ilen = 256; q[me].max = 1; ok[me] = 0;
		STEPPED(rr[me2] = mkpool(&q[me2]));
		if (rr[me]) {
			it[me].ncpu = 2; it[me].ilen = 256; struct rseq_mempool *m = q[me].m;
			STEPPED(res[me2] = rseq_mempool_percpu_zmalloc(m)); it[me].ptr = res[me];
			if (it[me].ptr && tok(at(&it[me], 0), 256) == 0 && tok(at(&it[me], 1), 256) == 0) ok[me] = 1;
			if (it[me].ptr) { void *p = it[me].ptr; fill(&it[me], 5); STEPPED(rseq_mempool_percpu_free(p, STRIDE)); }
			STEPPED(rr[me2] = rseq_mempool_destroy(m)); if (rr[me]) ok[me] = 0;
		}
		emit("{\"e\":\"ret\",\"t\":%d,\"ok\":%d,\"r\":-1,\"off\":0,\"err\":\"\",\"c\":[]}", me, ok[me]);
	}
}
static void body(void)
{
	int me = cur;
	for (int i = 0; i < nops[me + 1]; i++) doop(me, &script[me + 1][i]);
	trap(1); abort();
}
static void run1(int k)
{
	evn = 0; ev[evn++] = '['; segn = 0; segs[0] = 0; steps = 0; memset(tsteps, 0, sizeof tsteps); ip_ = 0; hcount = 0; nbases = 0; stepping = 0; memset(ni, 0, sizeof ni); memset(mx, 0, sizeof mx); memset(I, 0, sizeof I); memset(inset, 0, sizeof inset); memset(vis, 0, sizeof vis);
	for (int i = 0; i < STRIDE / 8; i++) ini[i] = 77;
	emit("{\"e\":\"start\",\"nt\":%d}", nthr);
	for (int i = 0; i < np; i++) {
		if (!mkpool(&P[i])) { emit("{\"e\":\"nopool\"}"); goto out; }
		int ord = 0; while ((1 << ord) < P[i].ilen) ord++;
		emit("{\"e\":\"pool\",\"p\":%d,\"ncpu\":%d,\"cap\":%d,\"ilen\":%d,\"ord\":%d,\"max\":%d,\"robust\":%s}", i, P[i].ncpu, STRIDE / P[i].ilen, P[i].ilen, ord, P[i].max, P[i].robust ? "true" : "false");
	}
	set = rseq_mempool_set_create();
	for (int t = 0; t < nthr; t++) { struct th *h = &T[t]; if (!h->stk) h->stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); h->done = h->blocked = h->err = 0; }
	if (!sigsetjmp(jb, 1)) {
		for (int i = 0; i < nops[0]; i++) doop(NT, &script[0][i]);
		stepping = 1; trap(2); stepping = 0;
		/* afterwards: what do the live items read as; every remaining slot can be had; everything can be freed */
		for (int t = 0; t <= NT; t++) for (int i = 0; i < ni[t]; i++) if (I[t][i].live) { emit("{\"e\":\"read\",\"h\":%d,", I[t][i].h); content(&I[t][i]); }
		for (int p = 0; p < np; p++) if (P[p].max) for (int i = 0; i < 12 && ni[NT] < MAXI; i++) { struct op o = { 'm', p }; doop(NT, &o); if (!I[NT][ni[NT] - 1].live) break; }
		for (int t = 0; t <= NT; t++) for (int i = 0; i < ni[t]; i++) if (I[t][i].live) {
			struct item *x = &I[t][i]; x->live = 0; emit("{\"e\":\"call\",\"t\":%d,\"op\":\"free\",\"a\":0,\"kind\":\"\",\"h\":%d}", NT, x->h);
			rseq_mempool_percpu_free(x->ptr, STRIDE); emit("{\"e\":\"ret\",\"t\":%d,\"ok\":1,\"r\":-1,\"off\":0,\"err\":\"\",\"c\":[]}", NT);
		}
		int ok = 1;
		if (rseq_mempool_set_destroy(set)) ok = 0;
		for (int i = 0; i < np; i++) if (!inset[i])	/* the others went with the set */
			 ok &= !rseq_mempool_destroy(P[i].m);
		emit("{\"e\":\"end\",\"ok\":%s}", ok ? "true" : "false");
	}
out:
	ev[evn++] = ']'; ev[evn] = 0;
	printf("%d\t%s\t%s\n", k, segs, ev);
}
static void parse_script(char *pools, char *s)
{
	char *sv, *parts[NT + 1]; int n = 0; np = 0;
	for (char *p = strtok_r(pools, ",", &sv); p; p = strtok_r(NULL, ",", &sv)) { struct pl *q = &P[np++]; char kd[4]; sscanf(p, "%3[a-z]/%d/%d", kd, &q->ilen, &q->max); q->kind = kd[0]; q->robust = kd[1] == 'r'; }
	parts[n++] = s; for (; *s; s++) if (*s == ';') { *s = 0; if (n <= NT) parts[n++] = s + 1; }
	for (int t = 0; t < n; t++) { nops[t] = 0; for (char *p = strtok_r(parts[t], ",", &sv); p; p = strtok_r(NULL, ",", &sv)) { struct op *o = &script[t][nops[t]++]; o->c = p[0]; o->a = p[1] == ':' ? atol(p + 2) : 0; } }
	nthr = n - 1;
}
int main(void)
{
	static char line[1 << 17];
	stack_t ss = { .ss_sp = malloc(1 << 18), .ss_size = 1 << 18 };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK };
	sigaction(SIGTRAP, &sa, NULL); sa.sa_sigaction = on_fatal;
	int fs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }; for (int i = 0; i < 5; i++) sigaction(fs[i], &sa, NULL);
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0; char *s = strtok(line, " "); if (!s) continue;
		rnd_on = 0; nplan = 0;
		if (!strcmp(s, "SCRIPT")) { char *a = strtok(NULL, " "), *b = strtok(NULL, " "); parse_script(a, b); continue; }
		int k = atoi(strtok(NULL, " "));
		if (!strcmp(s, "RUN")) { char *q = strtok(NULL, " "); for (char *p = q ? strtok(q, ",") : NULL; p && nplan < 4000; p = strtok(NULL, ",")) if (sscanf(p, "%d:%ld", &plan[nplan].t, &plan[nplan].n) == 2) nplan++; run1(k); }
		else if (!strcmp(s, "RAND")) {
			int n = atoi(strtok(NULL, " ")); uint64_t seed = strtoull(strtok(NULL, " "), NULL, 0);
			for (int i = 0; i < n; i++) { rs = (seed + i) * 0x9E3779B97F4A7C15ULL | 1; for (int j = 0; j < 5; j++) rnd(); rnd_on = 1; rnd_left = 10 + rnd() % 100; nplan = 0; run1(k); }
		} else if (!strcmp(s, "SWEEP")) {
			int t1 = atoi(strtok(NULL, " ")), t2 = atoi(strtok(NULL, " ")); long stride = atol(strtok(NULL, " "));
			for (long b = 1; b < 20000; b += stride) { struct seg p[] = { { t1, b }, { t2, 0 }, { t1, 0 } }; memcpy(plan, p, sizeof p); nplan = 3; run1(k); if (endstep[t1] <= b) break; }
		} else if (!strcmp(s, "PAIR")) {
			int t1 = atoi(strtok(NULL, " ")), t2 = atoi(strtok(NULL, " ")); long n = atol(strtok(NULL, " ")); uint64_t seed = atol(strtok(NULL, " "));
			struct seg p0[] = { { t1, 0 }, { t2, 0 } }; memcpy(plan, p0, sizeof p0); nplan = 2; run1(k); long N1 = endstep[t1], N2 = endstep[t2];
			rs = seed * 0x9E3779B97F4A7C15ULL | 1; for (int j = 0; j < 5; j++) rnd();
			if (N1 > 1 && N2 > 1) for (long i = 0; i < n; i++) { struct seg p[] = { { t1, 1 + (long)(rnd() % N1) }, { t2, 1 + (long)(rnd() % N2) }, { t1, 0 }, { t2, 0 } }; memcpy(plan, p, sizeof p); nplan = 4; run1(k); }
		}
	}
	return 0;
}
