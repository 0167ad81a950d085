/*
 * Recorder for litmus threads.
 *   REC k i z               single-step thread i (its z-th load reads 0); every access to a shared variable (each on a protected page) and every fence
 *                           is recorded, each load is given a value of its own, so the result shows where it came from
 *   HW k n i,i[,i]          run threads concurrently n times on the hardware; prints each distinct outcome
 *   VAL k                   move values of every type through the primitives
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "cs.h"
#include "mo.h"
extern ptrdiff_t rseq_offset;
struct kabi { uint32_t cpu_id_start, cpu_id; uint64_t rseq_cs; uint32_t flags, node_id, mm_cid, pad[25]; };
static __thread struct kabi fake __attribute__((aligned(128), tls_model("initial-exec")));
int cs_step_on = 1;
#define NOP 12
static uint64_t R[4][NOP];
static char out[65536]; static int on, nout, nload, nsteps, cur = -1, curw, locked, helper, recording, zeroat;
static sigjmp_buf jb;
static struct movar *var(void *a) { for (struct movar *v = mo_vars; v->p; v++) if ((char *)a >= (char *)v->p && (char *)a < (char *)v->p + 4096) return v; return 0; }
static void prot(int p) { for (struct movar *v = mo_vars; v->p; v++) mprotect(v->p, 4096, p); }
static int uniform(struct movar *v)	/* the value all bytes of v show, or -2; -3 if bytes outside were touched */
{
	unsigned char *b = v->p;
	for (int i = v->size; i < 4096; i++) if (b[i]) return -3;
	for (int i = 1; i < v->size; i++) if (b[i] != b[0]) return -2;
	return b[0];
}
static int dec(uint64_t r)
{
	int b = r & 0xff;
	if (r == ~0ULL) return -1;
	if (r == REP(b) || r == (REP(b) & (~0ULL >> (64 - 8 * mo_tsize)))) return b;
	return -2;
}
static void ev(const char *f, const char *a, int k) { nout += snprintf(out + nout, sizeof out - nout - 100, f, nout > 1 ? "," : "", a, k); }
static int fence(unsigned char *p)
{
	int lock = 0;
	for (;; p++) {
		if (*p == 0xf0) { lock = 1; continue; }
		if (*p == 0x66 || *p == 0xf2 || *p == 0xf3 || *p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65 || *p == 0x67) continue;
		break;
	}
	if (lock) return 1;
	if ((*p & 0xf0) == 0x40) p++;	/* REX */
	if (p[0] == 0x0f && p[1] == 0xae && (p[2] & 0xf8) == 0xf0) return 1;	/* mfence */
	if ((p[0] == 0x86 || p[0] == 0x87) && (p[1] >> 6) != 3) return 1;	/* xchg with memory */
	if (p[0] == 0x0f && p[1] == 0xa2) return 1;	/* cpuid */
	return 0;
}
static void done_access(void)
{
	struct movar *v = &mo_vars[cur];
	if (curw) ev("%s{\"o\":\"W\",\"v\":\"%s\",\"k\":%d}", v->name, uniform(v));
	mprotect(v->p, 4096, PROT_NONE); cur = -1;
}
static void on_trap(int s, siginfo_t *si, void *u)
{
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	if (!recording) return;
	if (cur >= 0) done_access();
	if (locked) { ev("%s{\"o\":\"F\"}%.0s%.0d", "", 0); locked = 0; }
	if (++nsteps > 20000) siglongjmp(jb, 1);
	if (fence((unsigned char *)g[REG_RIP])) { ev("%s{\"o\":\"F\"}%.0s%.0d", "", 0); locked = 1; }
}
static void on_segv(int s, siginfo_t *si, void *u)
{
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	struct movar *v = recording ? var(si->si_addr) : 0;
	if (!v) { if (recording) siglongjmp(jb, 2); signal(s, SIG_DFL); raise(s); return; }
	if (cur >= 0 && &mo_vars[cur] != v) { done_access(); mprotect(v->p, 4096, PROT_READ | PROT_WRITE); }	/* a copy between variables: one after the other */
	mprotect(v->p, 4096, PROT_READ | PROT_WRITE);
	cur = v - mo_vars; curw = !!(g[REG_ERR] & 2);
	if (!curw) {
		nload++; ev("%s{\"o\":\"R\",\"v\":\"%s\"}%.0d", v->name, 0);
		if (!(helper && *v->name == 'v')) memset(v->p, nload == zeroat ? 0 : 64 + nload, v->size);
	}
}
/* zero: the load that reads 0 */
static void rec(int k, int i, int zero)
{
	struct moent *t = &mo_threads[i];
	memset(&fake, 0, sizeof fake); rseq_offset = (char *)&fake - (char *)__builtin_thread_pointer();
	prot(PROT_READ | PROT_WRITE); for (struct movar *v = mo_vars; v->p; v++) memset(v->p, 0, 4096);
	for (int j = 0; j < NOP; j++) R[0][j] = ~0ULL;
	nout = 0; out[nout++] = '['; nload = nsteps = 0; cur = -1; locked = 0; helper = t->helper; zeroat = zero;
	const char *err = "";
	prot(PROT_NONE); recording = 1;
	int x = sigsetjmp(jb, 1);
	if (!x) { STEP_ON(); t->fn(R[0]); STEP_OFF(); } else err = x == 1 ? "hang" : "crash";
	recording = 0; prot(PROT_READ | PROT_WRITE);
	if (cur >= 0) done_access();
	printf("%d\t%s\t%s]\t[", k, err, out);
	for (int j = 0; j < NOP; j++) {
		int b = dec(R[0][j]);
		if (b == -1) printf("%s{\"o\":\"N\",\"n\":0}", j ? "," : "");
		else printf("%s{\"o\":\"%s\",\"n\":%d}", j ? "," : "", b > 64 ? "L" : "C", b > 64 ? b - 64 : b);
	}
	printf("]\n");
}
/* ---- on the hardware ---- */
static int hwn, hwt[4], nhw; static volatile int gen, ready[4]; static pthread_t th[4]; static volatile int go[4]; static int cpu0;
static void *hwthread(void *a)
{
	int me = (long)a, g = 0; cpu_set_t cs; CPU_ZERO(&cs); CPU_SET((cpu0 + me) % 8, &cs); pthread_setaffinity_np(pthread_self(), sizeof cs, &cs);
	for (;;) {
		int spins = 0;
		while (__atomic_load_n(&gen, __ATOMIC_ACQUIRE) == g) if (++spins > 2000) sched_yield();
		g = __atomic_load_n(&gen, __ATOMIC_ACQUIRE); if (g < 0) return 0;
		for (int d = (g * 7 + me * 13) % 40; d > 0; d--) __asm__ __volatile__ ("");
		mo_threads[hwt[me]].fn(R[me]);
		__atomic_store_n(&ready[me], g, __ATOMIC_RELEASE);
	}
}
static void hw(int k, int n)
{
	static char seen[256][1200]; int ns = 0; static int cnt[256];
	memset((void *)ready, 0, sizeof ready); gen = 0;
	for (long t = 0; t < nhw; t++) pthread_create(&th[t], 0, hwthread, (void *)t);
	for (int it = 1; it <= n; it++) {
		for (struct movar *v = mo_vars; v->p; v++) memset(v->p, 0, 64);
		memset(R, 0xff, sizeof R);
		__atomic_store_n(&gen, it, __ATOMIC_RELEASE);
		for (int t = 0; t < nhw; t++) { int sp = 0; while (__atomic_load_n(&ready[t], __ATOMIC_ACQUIRE) != it) if (++sp > 2000) sched_yield(); }
		char s[1200]; int m = 0;
		for (int t = 0; t < nhw; t++) for (int j = 0; j < NOP; j++) m += sprintf(s + m, "%d ", dec(R[t][j]));
		for (struct movar *v = mo_vars; v->p; v++) m += sprintf(s + m, "%d ", uniform(v));
		int i; for (i = 0; i < ns && strcmp(seen[i], s); i++); if (i == ns && ns < 256) { strcpy(seen[ns], s); cnt[ns++] = 0; } if (i < 256) cnt[i]++;
	}
	__atomic_store_n(&gen, -1, __ATOMIC_RELEASE);
	for (int t = 0; t < nhw; t++) pthread_join(th[t], 0);
	for (int i = 0; i < ns; i++) printf("%d\t%d\t%s\n", k, cnt[i], seen[i]);
}
static void vals(int k)
{
	static const uint64_t pat[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x0123456789abcdef, 0xfedcba9876543210, 0x00ff00ff00ff00ff, 0x1122334455667788, 0x8877665544332211 };
	for (struct movent *e = mo_vals; e->op; e++) for (unsigned i = 0; i < sizeof pat / 8 + 24; i++) {
		static unsigned char buf[64] __attribute__((aligned(64))); uint64_t in, o = 0; int ok = 1;
		in = i < sizeof pat / 8 ? pat[i] : (0x9E3779B97F4A7C15ULL * (i + 1)) ^ (i * 0xC2B2AE3D27D4EB4FULL >> (i % 40));
		if (!strcmp(e->type, "bool")) in &= 1;
		memset(buf, 0xa5, sizeof buf);
		e->fn(&in, buf + 16, &o);
		for (int j = 0; j < 64; j++) if ((j < 16 || j >= 16 + e->size) && buf[j] != 0xa5) ok = 0;
		printf("%d\t{\"e\":\"val\",\"op\":\"%s\",\"type\":\"%s\",\"size\":%d,\"signed\":%s,\"around\":%s,\"in\":[", k, e->op, e->type, e->size, e->sign ? "true" : "false", ok ? "true" : "false");
		for (int j = 0; j < 8; j++) printf("%s%d", j ? "," : "", (int)(in >> (8 * j) & 0xff));
		printf("],\"out\":["); for (int j = 0; j < 8; j++) printf("%s%d", j ? "," : "", (int)(o >> (8 * j) & 0xff));
		printf("]}\n");
	}
}
int main(int c, char **v)
{
	static char line[4096];
	stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
	sigaltstack(&ss, 0);
	struct sigaction sa = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK };
	sigaction(SIGTRAP, &sa, 0); sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, 0);
	cpu0 = c > 1 ? atoi(v[1]) : 0;
	rseq_offset = (char *)&fake - (char *)__builtin_thread_pointer();
	while (fgets(line, sizeof line, stdin)) {
		char ids[64]; int k, n, z;
		if (sscanf(line, "REC %d %d %d", &k, &n, &z) == 3) rec(k, n, z);
		else if (sscanf(line, "HW %d %d %63s", &k, &n, ids) == 3) { nhw = 0; for (char *p = strtok(ids, ","); p; p = strtok(0, ",")) hwt[nhw++] = atoi(p); prot(PROT_READ | PROT_WRITE); hw(k, n); }
		else if (sscanf(line, "VAL %d", &k) == 1) vals(k);
		fflush(stdout);
	}
	return 0;
}
