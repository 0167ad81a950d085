/*
 * Scheduler: several threads (user-level contexts) run operations on per-CPU structures, one instruction at a time, under a
 * virtual kernel that places them on virtual CPUs, preempts, migrates and resumes them at chosen instruction boundaries.
 *
 * input lines:
 *   SCRIPT mode+10*representation op:arg,op:arg;op:arg,...     threads separated by ';', the part before the first ';' runs first, alone (setup)
 *   RUN k t@c:n,t@c:n,...                    segments: thread t runs on CPU c for n instruction boundaries (0: until it ends)
 *   RAND k count seed                        random segments
 *   SWEEP k t1 t2 c2 back step               for every b: t1 runs b boundaries on CPU 0, t2 runs all of its script on c2, t1 continues on CPU back
 *   PAIR k t1 t2 stride seed                 t1 b1, t2 b2, t1 b3, t2 to the end, t1 to the end, all on CPU 0
 * output: k TAB segments TAB [events]
 */
#define _GNU_SOURCE
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include "cs.h"
#include "pc.h"

extern ptrdiff_t rseq_offset;
struct kabi { uint32_t cpu_id_start, cpu_id; uint64_t rseq_cs; uint32_t flags, node_id, mm_cid, pad[25]; };
struct kcs { uint32_t version, flags; uint64_t start_ip, post_commit_offset, abort_ip; };
static __thread struct kabi fake __attribute__((aligned(128), tls_model("initial-exec")));
#define SIG 0x53053053u
int cs_step_on = 1;

#define NT 4
#define STK 65536
struct opx { pcop fn; const char *name; long arg; };
static struct opx script[NT + 1][16]; static int nops[NT + 1], nthr, mode;
static struct th { gregset_t g; struct kabi area; int cpu, on, done; char *stk; } T[NT];
static long popped[NT][16]; static int npop[NT];	/* what each thread took off the lists */
static gregset_t gmain;
static int cur, cpucur[NCPU], want;	/* want: 0 step, 1 thread ended, 2 start, */
static char ev[1 << 18]; static size_t evn;
static char segs[1 << 16]; static size_t segn;
static long steps; static int dead;
static sigjmp_buf jb;
enum { MAXSTEPS = 60000 };
static long endstep[NT];	/* when each thread ended */
static int endseg[NT], nseg;	/* and in which segment */
static int waits, stepall;	/* some operation waits for another thread; count the instructions of every segment */

static void emit(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	if (evn < sizeof ev - 4096) { if (evn > 1) ev[evn++] = ','; evn += vsnprintf(ev + evn, sizeof ev - evn, f, ap); }
	va_end(ap);
}
static int insec(struct kcs *d, uint64_t ip) { return ip - d->start_ip < d->post_commit_offset; }
/* the kernel's work before a thread that was off the CPU (or interrupted) runs again */
static void fixup(struct kabi *a, gregset_t g, int cpu)
{
	if (a->rseq_cs) {
		struct kcs *d = (struct kcs *)a->rseq_cs; uint32_t s;
		if (insec(d, g[REG_RIP])) {
			memcpy(&s, (void *)(d->abort_ip - 4), 4);
			if (d->version || d->flags || s != SIG || insec(d, d->abort_ip)) { emit("{\"e\":\"crash\",\"sig\":0}"); dead = 1; return; }
			g[REG_RIP] = d->abort_ip;
		}
		a->rseq_cs = 0;
	}
	a->cpu_id = a->cpu_id_start = cpu; a->mm_cid = (cpu + 1) % NCPU; a->node_id = 0;
}
/* ---- deciding who runs ---- */
struct seg { int t, c; long n; };
static struct seg plan[4096]; static int nplan, ip_, rnd_on, rnd_left; static long left;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int alive(int t) { return !T[t].done; }
static int nalive(void) { int n = 0; for (int i = 0; i < nthr; i++) n += alive(i); return n; }
static int nextseg(struct seg *s)
{
	if (!nalive()) return 0;
	while (ip_ < nplan) { *s = plan[ip_++]; if (alive(s->t)) return 1; }
	if (rnd_on && rnd_left-- > 0) {
		do s->t = rnd() % nthr; while (!alive(s->t));
		s->c = rnd() % 4 ? T[s->t].cpu : (int)(rnd() % (rnd() % 2 ? NCPU : 2));
		if (rnd() % 8 == 0) s->c = 0;
		switch (rnd() % 6) { case 0: s->n = 1 + rnd() % 60; break; case 1: s->n = 1; break; default: s->n = 1 + rnd() % 14; }
		return 1;
	}
	/* everybody to the end, in turns long enough for any operation */
	static int rr; for (int i = 0; i < nthr; i++) { rr = (rr + 1) % nthr; if (alive(rr)) { s->t = rr; s->c = T[rr].cpu; s->n = waits || stepall ? 500 : 0; return 1; } }
	return 0;
}
static void put(int t, int c)	/* make t current on c */
{
	struct th *h = &T[t];
	if (h->on && h->cpu == c) return;	/* was running there all the time: no interruption */
	if (cpucur[c] >= 0) T[cpucur[c]].on = 0;
	if (h->on) cpucur[h->cpu] = -1;
	cpucur[c] = t; h->on = 1; h->cpu = c;
	fixup(&h->area, h->g, c);
}
static int sched(void)
{
	struct seg s;
	if (!nextseg(&s)) return -1;
	nseg++;
	if (segn < sizeof segs - 64) segn += sprintf(segs + segn, "%s%d@%d:%ld", segn ? "," : "", s.t, s.c, s.n);
	/* an interruption without losing the CPU: same place, same thread */
	if (s.n < 0) { s.n = -s.n; if (T[s.t].on) { cpucur[T[s.t].cpu] = -1; T[s.t].on = 0; } }
	put(s.t, s.c); left = s.n ? s.n : 2000;	/* 0: to the end, unless it waits for somebody */
	cs_step_on = s.n || waits || stepall;	/* nobody interrupts this one: no need to stop at every instruction */
	return s.t;
}
static void body(void);
static void on_trap(int sig, siginfo_t *si, void *u)
{
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	int w = want; want = 0;
	if (w == 2) {
		memcpy(gmain, g, sizeof gmain);
		for (int t = 0; t < nthr; t++) {	/* initial registers: those of main with another stack and entry */
			memcpy(T[t].g, g, sizeof T[t].g);
			T[t].g[REG_RIP] = (greg_t)body; T[t].g[REG_RSP] = ((greg_t)T[t].stk + STK - 256) | 8; T[t].g[REG_RBP] = 0; T[t].g[REG_EFL] = 0x202;
		}
	}
	else {
		struct th *h = &T[cur];
		if (++steps > MAXSTEPS) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); }
		if (w == 1) { h->done = 1; endstep[cur] = steps; endseg[cur] = nseg; h->on = 0; cpucur[h->cpu] = -1; }
		else if (--left > 0) return;
		memcpy(h->g, g, sizeof h->g); h->area = fake;
	}
	int t = sched();
	if (dead) siglongjmp(jb, 2);
	if (t < 0) { memcpy(g, gmain, sizeof gmain); return; }
	cur = t; memcpy(g, T[t].g, sizeof T[t].g); fake = T[t].area;
	if (!cs_step_on) g[REG_EFL] &= ~0x100L;
}
static void on_fatal(int sig, siginfo_t *si, void *u) { emit("{\"e\":\"crash\",\"sig\":%d}", sig); siglongjmp(jb, 2); }
static void on_slow(int sig, siginfo_t *si, void *u) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); }
static __attribute__((noinline)) void trap(int w) { want = w; __asm__ __volatile__ ("int3" ::: "memory"); }
/* thread body; never returns */
static void body(void)
{
	for (int i = 0; i < nops[cur + 1]; i++) {
		int me = cur; struct opx *o = &script[me + 1][i]; static struct pcres res[NT]; static long lastcpu[NT];
		static long arg[NT]; arg[me] = o->arg;
		if (!strcmp(o->name, "lback")) {	/* push again the arg-th node this thread popped */
			if (o->arg >= npop[me] || popped[me][o->arg] < 0) continue;
			arg[me] = popped[me][o->arg]; popped[me][o->arg] = -1;
		}
		res[me].cpu = -9; res[me].val = -9;
		emit("{\"e\":\"call\",\"t\":%d,\"i\":%d,\"op\":\"%s\",\"arg\":%ld}", me, i, strcmp(o->name, "lback") ? o->name : "lpush", arg[me]);
		STEP_ON(); o->fn(mode, arg[cur], lastcpu[cur], &res[cur]); STEP_OFF();
		lastcpu[me] = res[me].cpu;
		if (!strcmp(o->name, "lpop")) popped[me][npop[me]++] = res[me].val;
		emit("{\"e\":\"ret\",\"t\":%d,\"i\":%d,\"cpu\":%ld,\"val\":%ld}", me, i, res[me].cpu, res[me].val);
	}
	trap(1);
	abort();
}
static void prepare(void)
{
	memset(pcc, 0, sizeof pcc);
	static struct pcnode near[NITEM], *far[NITEM];
	/* nodes next to one another, or 4 GiB apart (link encodings 1, 2: at a multiple of 4 GiB, so with a low half of zero) */
	for (long i = 0; i < NITEM; i++) {
		if (!far[i]) {
			far[i] = (struct pcnode *)mmap((void *)((0x1000 + i) << 32), 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
			if (far[i] != (struct pcnode *)((0x1000 + i) << 32)) far[i] = &near[i];
		}
		pcn[i] = pe == &pc_encs[1] || pe == &pc_encs[2] ? far[i] : &near[i];
		memset(pcn[i], 0, sizeof *pcn[i]);
	}
	for (int c = 0; c < NCPU; c++) { pcc[c].ctr = pe->ctr0; pcc[c].lock = pe->free; pcc[c].boff = pcc[c].moff = pc_enc(0); }
	for (int c = 0; c < NCPU; c++) pcc[c].pp = (intptr_t)&pcc[c].pp;
	/* f_pinc: pp + offsetof(buf) holds the address of the counter */
	for (int c = 0; c < NCPU; c++) { pcc[c].pp = (intptr_t)&pcc[c]; }
}
static const char *kind = "x";
static void finalstate(void)
{
	emit("{\"e\":\"end\",\"cpus\":[");
	evn--; /* no comma juggling: build by hand */
	evn++;
	for (int c = 0; c < NCPU; c++) {
		long ctr = (long)((uintptr_t)pcc[c].ctr - (uintptr_t)pe->ctr0), nb = pc_dec(pcc[c].boff), nm = pc_dec(pcc[c].moff);
		evn += sprintf(ev + evn, "%s{\"ctr\":%ld,\"lock\":%d,\"dat\":%ld,\"list\":[", c ? "," : "", ctr % pe->unit || ctr / pe->unit != (int)(ctr / pe->unit) ? -999999L : ctr / pe->unit, pcc[c].lock != pe->free, (long)pcc[c].dat);
		int n = 0; for (struct pcnode *p = (struct pcnode *)pcc[c].head; p && n < 32; p = (struct pcnode *)p->next[pe->link]) evn += sprintf(ev + evn, "%s%ld", n++ ? "," : "", p->id);
		evn += sprintf(ev + evn, "],\"buf\":[");
		if (nb < 0 || nb > BUFCAP) evn += sprintf(ev + evn, "-4");
		else for (long i = 0; i < nb && strcmp(kind, "pinc"); i++) evn += sprintf(ev + evn, "%s%ld", i ? "," : "", pc_dec(pcc[c].buf[i]));
		evn += sprintf(ev + evn, "],\"mbuf\":[");
		if (nm < 0 || nm > BUFCAP) evn += sprintf(ev + evn, "-4");
		else for (long i = 0; i < nm; i++) evn += sprintf(ev + evn, "%s%ld", i ? "," : "", pc_item_id(&pcc[c].mbuf[i]));
		evn += sprintf(ev + evn, "]}");
	}
	evn += sprintf(ev + evn, "]}");
}
static int has(const char *n) { for (int t = 0; t <= nthr; t++) for (int i = 0; i < nops[t]; i++) if (!strcmp(script[t][i].name, n)) return 1; return 0; }
static void run1(int k)
{
	prepare(); kind = "x";
	if (has("pinc")) { kind = "pinc"; for (int c = 0; c < NCPU; c++) pcc[c].buf[0] = (intptr_t)&pcc[c].ctr; }
	evn = 0; ev[evn++] = '['; segn = 0; segs[0] = 0; steps = 0; nseg = 0; cs_step_on = 1; waits = has("lock"); ip_ = 0; dead = 0; memset(npop, 0, sizeof npop);
	emit("{\"e\":\"start\",\"mode\":%d,\"nt\":%d}", mode, nthr);
	memset(&fake, 0, sizeof fake);
	rseq_offset = (char *)&fake - (char *)__builtin_thread_pointer();
	for (int c = 0; c < NCPU; c++) cpucur[c] = -1;
	/* setup operations, alone on CPU 0 (mode 1: concurrency id 1) */
	fixup(&fake, gmain, 0);
	for (int i = 0; i < nops[0]; i++) {
		struct pcres r = { -9, -9 }; struct opx *o = &script[0][i];
		emit("{\"e\":\"call\",\"t\":%d,\"i\":%d,\"op\":\"%s\",\"arg\":%ld}", NT, i, o->name, o->arg);
		o->fn(mode, o->arg, 0, &r);
		emit("{\"e\":\"ret\",\"t\":%d,\"i\":%d,\"cpu\":%ld,\"val\":%ld}", NT, i, r.cpu, r.val);
	}
	for (int t = 0; t < nthr; t++) {
		struct th *h = &T[t]; if (!h->stk) h->stk = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		memset(&h->area, 0, sizeof h->area); h->cpu = t == 0 ? 0 : t % 2; h->on = h->done = 0;
		fixup(&h->area, h->g, h->cpu);
	}
	struct itimerval iv = { { 0, 0 }, { 4, 0 } }, off = { { 0, 0 }, { 0, 0 } };
	if (!waits) setitimer(ITIMER_VIRTUAL, &iv, NULL);
	if (!sigsetjmp(jb, 1)) {
		trap(2);
		finalstate();
	}
	if (!waits) setitimer(ITIMER_VIRTUAL, &off, NULL);
	ev[evn++] = ']'; ev[evn] = 0;
	printf("%d\t%s\t%s\n", k, segs, ev);
}
static void parse_plan(char *s)
{
	nplan = 0;
	for (char *p = strtok(s, ","); p && nplan < 4000; p = strtok(NULL, ",")) { struct seg *g = &plan[nplan]; if (sscanf(p, "%d@%d:%ld", &g->t, &g->c, &g->n) == 3) nplan++; }
}
static void parse_script(char *s)
{
	char *sv, *sv2; int t = 0; nthr = -1;
	char *parts[NT + 1]; int np = 0; parts[np++] = s;
	for (; *s; s++) if (*s == ';') { *s = 0; if (np <= NT) parts[np++] = s + 1; }
	for (t = 0; t < np; t++) {
		nops[t] = 0;
		for (char *p = strtok_r(parts[t], ",", &sv); p; p = strtok_r(NULL, ",", &sv)) {
			char *n = strtok_r(p, ":", &sv2), *a = strtok_r(NULL, ":", &sv2); struct opx *o = &script[t][nops[t]];
			o->fn = NULL; for (struct pcent *e = pc_ops; e->name; e++) if (!strcmp(e->name, n)) { o->fn = e->fn; o->name = e->name; }
			if (!o->fn) { fprintf(stderr, "no op %s\n", n); exit(3); }
			o->arg = a ? atol(a) : 0; nops[t]++;
		}
	}
	nthr = np - 1;
}
int main(void)
{
	static char line[1 << 17], lab[64];
	stack_t ss = { .ss_sp = malloc(1 << 18), .ss_size = 1 << 18 };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK };
	sigaction(SIGTRAP, &sa, NULL);
	sa.sa_sigaction = on_fatal;
	int fs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
	for (int i = 0; i < 5; i++) sigaction(fs[i], &sa, NULL);
	sa.sa_sigaction = on_slow; sigaction(SIGVTALRM, &sa, NULL);
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		char *s = strtok(line, " ");
		if (!s) continue;
		rnd_on = 0; nplan = 0;
		if (!strcmp(s, "SCRIPT")) { int m = atoi(strtok(NULL, " ")); mode = m % 10; pe = &pc_encs[m / 10 % 4]; char *q = strtok(NULL, " "); parse_script(q); continue; }
		int k = atoi(strtok(NULL, " "));
		if (!strcmp(s, "RUN")) { char *q = strtok(NULL, " "); parse_plan(q ? q : ""); run1(k); }
		else if (!strcmp(s, "RAND")) {
			int n = atoi(strtok(NULL, " ")); uint64_t seed = strtoull(strtok(NULL, " "), NULL, 0);
			for (int i = 0; i < n; i++) { rs = (seed + i) * 0x9E3779B97F4A7C15ULL | 1; for (int j = 0; j < 5; j++) rnd(); rnd_on = 1; rnd_left = 30 + rnd() % 200; nplan = 0; run1(k); }
		} else if (!strcmp(s, "SWEEP")) {
			int t1 = atoi(strtok(NULL, " ")), t2 = atoi(strtok(NULL, " ")), c2 = atoi(strtok(NULL, " ")), back = atoi(strtok(NULL, " "));
			for (long b = 1; b < 400; b++) {
				struct seg p[] = { { t1, 0, b }, { t2, c2, 0 }, { t1, back, 0 } }; memcpy(plan, p, sizeof p); nplan = 3; run1(k);
				if (endseg[t1] == 1) break;	/* the first segment was longer than all of t1 */
			}
		} else if (!strcmp(s, "PAIR")) {
			int t1 = atoi(strtok(NULL, " ")), t2 = atoi(strtok(NULL, " ")), stride = atoi(strtok(NULL, " ")), seed = atoi(strtok(NULL, " "));
			struct seg p0[] = { { t1, 0, 0 }, { t2, 0, 0 } }; memcpy(plan, p0, sizeof p0); nplan = 2; stepall = 1; run1(k); stepall = 0; long N1 = endstep[t1], N2 = steps - N1;
			for (long b1 = 1; b1 < N1; b1++) for (long b2 = 1 + (b1 + seed) % stride; b2 < N2; b2 += stride) {
				struct seg p[] = { { t1, 0, b1 }, { t2, 0, b2 }, { t1, 0, 0 }, { t2, 0, 0 } }; memcpy(plan, p, sizeof p); nplan = 4; run1(k);
			}
		}
	}
	return 0;
}
