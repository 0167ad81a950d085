/*
 * Stepping driver: executes one per-CPU helper instruction by instruction under a virtual kernel that plays
 * the rseq part of the scheduler at chosen instruction boundaries, and logs what becomes visible in memory.
 *
 * input lines:  CASE wrap mo mode cpu | reg cpu_id cid stale | a0..a5 | addr=val addr=val ... | dst src len | variants ; separated
 *               RUN k plan      step the current case with interrupts "b:variant,b:variant"
 *               SWEEP k         step without interrupt, then with each variant at every boundary
 *               NATIVE k        run without stepping
 *               REAL k          step against the real kernel's registration (every boundary is an interruption)
 *               PAIRS k n seed  n random pairs of interrupts
 * output: one line per run: k TAB plan TAB [events]
 */
#define _GNU_SOURCE
#include <signal.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ucontext.h>
#include <unistd.h>
#include <sched.h>
#include <sys/mman.h>
#include "cs.h"

extern ptrdiff_t rseq_offset;
extern unsigned int rseq_size;
extern const ptrdiff_t __rseq_offset __attribute__((weak));
extern uint64_t __start___rseq_cs_ptr_array[] __attribute__((weak)), __stop___rseq_cs_ptr_array[] __attribute__((weak));
extern uint64_t __start___rseq_exit_point_array[] __attribute__((weak)), __stop___rseq_exit_point_array[] __attribute__((weak));
#define REGISTERED_SIG 0x53053053u

#define ARENA 0x20000000UL
#define ARENA_SZ (3 * 4096UL)
#define BIG 0x30000000UL
#define BIG_SZ (1UL << 20)
static unsigned char *arena = (unsigned char *)ARENA, shadow[ARENA_SZ];

/* kernel ABI layout of the thread area */
struct kabi { uint32_t cpu_id_start, cpu_id; uint64_t rseq_cs; uint32_t flags, node_id, mm_cid, pad[25]; };
struct kcs { uint32_t version, flags; uint64_t start_ip, post_commit_offset, abort_ip; };
static __thread struct kabi fake __attribute__((aligned(128), tls_model("initial-exec")));
static struct kabi fshadow;
static void *stale_desc;

int cs_step_on;
static sigjmp_buf jb;
static char ev[1 << 20];
static size_t evn;
static long nstep;
#define MAXSTEP 20000

struct var { int cpu, cid, n; uint64_t ad[8], va[8]; };
static struct {
	char name[64]; cswrap fn; struct csargs ar; int reg, cpu_id, cid, stale;
	int nm; uint64_t ad[16], va[16]; uint64_t dst, src, len; int nv; struct var v[8];
} C;
static int plan_b[64], plan_v[64], nplan;
static uint64_t prev_ip, last_cs;
static int in_attempt, left, passed_exit, vcpu, vcid, realk, quiet_store;
static struct kcs *desc;

static void emit(const char *f, ...)
{
	va_list ap; va_start(ap, f);
	if (evn < sizeof ev - 4096) {
		if (evn > 1) ev[evn++] = ',';
		evn += vsnprintf(ev + evn, sizeof ev - evn, f, ap);
	}
	va_end(ap);
}
#define WD(x) (int)((uint64_t)(x) & 0xffff), (int)(((uint64_t)(x) >> 16) & 0xffff), (int)(((uint64_t)(x) >> 32) & 0xffff), (int)(((uint64_t)(x) >> 48) & 0xffff)
#define WF "[%d,%d,%d,%d]"

static uint64_t rd64(uint64_t a) { uint64_t x; memcpy(&x, (void *)a, 8); return x; }
static int indst(uint64_t a) { return C.len && a >= C.dst && a < C.dst + C.len; }

/* log what the last instruction made visible */
static void diff(int post)
{
	if (memcmp(arena, shadow, ARENA_SZ)) {
		for (size_t i = 0; i < ARENA_SZ; ) {
			if (arena[i] == shadow[i]) { i++; continue; }
			if (indst(ARENA + i)) {
				emit("{\"e\":\"stb\",\"i\":%d,\"b\":%d}", (int)(ARENA + i - C.dst), arena[i]);
				shadow[i] = arena[i]; i++;
			} else {
				size_t w = i & ~7UL;
				emit("{\"e\":\"st\",\"a\":" WF ",\"v\":" WF ",\"post\":%d}", WD(ARENA + w), WD(rd64(ARENA + w)), post);
				memcpy(shadow + w, arena + w, 8); i = w + 8;
			}
		}
	}
}
static int insec(struct kcs *d, uint64_t ip) { return d && ip - d->start_ip < d->post_commit_offset; }
static int listed(uint64_t d)
{
	for (uint64_t *p = __start___rseq_cs_ptr_array; p < __stop___rseq_cs_ptr_array; p++) if (*p == d) return 1;
	return 0;
}
static int isexit(uint64_t start, uint64_t ip)
{
	for (uint64_t *p = __start___rseq_exit_point_array; p + 1 < __stop___rseq_exit_point_array; p += 2) if (p[0] == start && p[1] == ip) return 1;
	return 0;
}
static int sigok(struct kcs *d) { uint32_t s; memcpy(&s, (void *)(d->abort_ip - 4), 4); return s == REGISTERED_SIG; }

static void leave_done(void)
{
	if (left && !passed_exit) emit("{\"e\":\"badexit\"}");
	left = 0;
}
static void observe(uint64_t ip)
{
	struct kabi f = fake;
	struct kcs *d = (struct kcs *)f.rseq_cs;
	int post = desc && ip == desc->start_ip + desc->post_commit_offset && insec(desc, prev_ip);
	diff(post);
	f.rseq_cs = fshadow.rseq_cs;
	if (memcmp(&f, &fshadow, sizeof f)) {
		emit("{\"e\":\"area\"}");
		fshadow = fake;
	}
	/* leaving the section */
	if (desc && insec(desc, prev_ip) && !insec(desc, ip)) {
		if (ip != desc->abort_ip && !post) { left = 1; passed_exit = 0; }
	}
	if (left && isexit(desc->start_ip, ip)) passed_exit = 1;
	if (fake.rseq_cs != last_cs || (d && ip == d->start_ip && !insec(d, prev_ip))) {
		leave_done();
		if (fake.rseq_cs) {
			int al = (fake.rseq_cs & 31) == 0;
			if (fake.rseq_cs < 4096) { emit("{\"e\":\"arm\",\"ok\":0,\"why\":\"pointer\"}"); desc = NULL; }
			else {
				desc = d;
				int over = d->start_ip + d->post_commit_offset < d->start_ip;
				emit("{\"e\":\"arm\",\"al\":%d,\"ver\":%d,\"fl\":%d,\"sig\":%d,\"listed\":%d,\"out\":%d,\"start\":%d}", al, d->version != 0, d->flags != 0, sigok(d),
				     listed(fake.rseq_cs), !insec(d, d->abort_ip) && !over, ip == d->start_ip);
				in_attempt = 1;
			}
		} else emit("{\"e\":\"disarm\"}");
		last_cs = fake.rseq_cs; fshadow.rseq_cs = fake.rseq_cs;
	}
	prev_ip = ip;
}
static void set_ids(void)
{
	if (!C.reg) return;
	fake.cpu_id_start = fake.cpu_id = vcpu; fake.mm_cid = vcid; fake.node_id = 7;
	fshadow.cpu_id_start = fake.cpu_id_start; fshadow.cpu_id = fake.cpu_id; fshadow.mm_cid = fake.mm_cid; fshadow.node_id = fake.node_id;
}
/* the kernel's rseq work on return to user mode after preemption or signal delivery */
static void irq(struct var *v, greg_t *ip)
{
	const char *res = "none";
	char w[2048]; int wn = 0;
	if (fake.rseq_cs && C.reg) {
		struct kcs *d = (struct kcs *)fake.rseq_cs;
		if (!insec(d, *ip)) res = "clear";
		else if (d->version || d->flags || !sigok(d) || insec(d, d->abort_ip) || (fake.rseq_cs & 31)) res = "kill";
		else { res = "abort"; *ip = d->abort_ip; prev_ip = *ip; }
		if (!strcmp(res, "abort")) left = 0;
		fake.rseq_cs = fshadow.rseq_cs = last_cs = 0;
	}
	if (v->cpu >= 0) { vcpu = v->cpu; vcid = v->cid; set_ids(); }
	w[0] = 0;
	for (int i = 0; i < v->n; i++) {
		memcpy((void *)v->ad[i], &v->va[i], 8); memcpy(shadow + (v->ad[i] - ARENA), &v->va[i], 8);
		wn += snprintf(w + wn, sizeof w - wn, "%s[" WF "," WF "]", i ? "," : "", WD(v->ad[i]), WD(v->va[i]));
	}
	emit("{\"e\":\"irq\",\"res\":\"%s\",\"cpu\":%d,\"cid\":%d,\"w\":[%s]}", res, C.reg ? vcpu : -1, C.reg ? vcid : -1, w);
}
static void on_trap(int sig, siginfo_t *si, void *u)
{
	greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
	if (realk) { if (++nstep > MAXSTEP) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); } return; }
	observe(g[REG_RIP]);
	for (int i = 0; i < nplan; i++) if (plan_b[i] == nstep) irq(&C.v[plan_v[i]], &g[REG_RIP]);
	if (++nstep > MAXSTEP) { emit("{\"e\":\"hang\"}"); siglongjmp(jb, 1); }
}
static void on_fatal(int sig, siginfo_t *si, void *u)
{
	diff(0);
	emit("{\"e\":\"crash\",\"sig\":%d}", sig);
	siglongjmp(jb, 2);
}
static const char *opname(void) { static char b[64]; strcpy(b, C.name); char *u = strchr(b, '_'); if (u) *u = 0; return b; }
static int warm; static uint64_t warmcs;
static void run1(int k, const char *plan, int mode) /* 0 step, 1 native, 2 real kernel */
{
	static struct csargs ar;
	char mem[4096]; int mn = 0;
	nplan = 0;
	if (mode == 0) for (const char *p = plan; *p; ) {
		char *q; plan_b[nplan] = strtol(p, &q, 10); if (*q != ':') break;
		plan_v[nplan] = strtol(q + 1, &q, 10); nplan++; p = *q == ',' ? q + 1 : q;
	}
	if (C.stale == 2 && mode == 0 && !warm) {	/* an earlier call of the same helper left its descriptor announced */
		warm = 1; run1(-2, "native", 1); warm = 0;
		warmcs = fake.rseq_cs;
	}
	memset(arena, 0xA5, ARENA_SZ);
	mem[0] = 0;
	for (int i = 0; i < C.nm; i++) {
		memcpy((void *)C.ad[i], &C.va[i], 8);
		mn += snprintf(mem + mn, sizeof mem - mn, "%s[" WF "," WF "]", i ? "," : "", WD(C.ad[i]), WD(C.va[i]));
	}
	int big = C.len > 300;
	/* a copy that is longer than what is mapped: it can only fault */
	int huge = !strncmp(C.name, "mcs", 3) && (uint64_t)C.ar.a[4] > BIG_SZ;
	unsigned char *sp = (unsigned char *)C.src, *dp = (unsigned char *)C.dst;
	for (uint64_t i = 0; i < C.len; i++) { sp[i] = 1 + (i * 37 + i / 251) % 250; dp[i] = 0xEE; }
	if (big) { dp[C.len] = 0xEE; dp[-1] = 0xEE; }
	memcpy(shadow, arena, ARENA_SZ);
	memset(&fake, 0x5a, sizeof fake);
	fake.rseq_cs = C.stale == 2 ? (warm ? 0 : warmcs) : C.stale ? (uint64_t)stale_desc : 0; fake.flags = 0;
	vcpu = C.cpu_id; vcid = C.cid;
	if (C.reg) { set_ids(); }
	else { fake.cpu_id_start = 0; fake.cpu_id = (uint32_t)C.cpu_id; fake.node_id = 0; fake.mm_cid = 0; }
	fshadow = fake; last_cs = fake.rseq_cs; desc = NULL; left = 0; prev_ip = 0; nstep = 0; in_attempt = 0;
	evn = 0; ev[evn++] = '[';
	ar = C.ar;
	for (int i = 0; i < NLIVE; i++) ar.live[i] = 0x1111111111111111ULL * (i + 1) + i;
	realk = mode == 2;
	ptrdiff_t save = rseq_offset;
	char *tp = __builtin_thread_pointer();
	if (realk || mode == 3) {
		rseq_offset = __rseq_offset;
		ar.cpu = ((struct kabi *)(tp + __rseq_offset))->cpu_id;
		if (C.ar.mode == 1) ar.cpu = ((struct kabi *)(tp + __rseq_offset))->mm_cid;
	} else rseq_offset = (char *)&fake - tp;
	int rk = realk || mode == 3;
	emit("{\"e\":\"call\",\"op\":\"%s\",\"k\":\"%s\",\"mo\":%d,\"mode\":%d,\"cpu\":%d,\"reg\":%d,\"cpuid\":%d,\"cid\":%d,\"len\":%d,\"how\":%d,\"a\":[" WF "," WF "," WF "," WF "," WF "," WF "],\"m\":[%s]}",
	     opname(), strstr(C.name, "_k") ? C.name : "", ar.mo, ar.mode, ar.cpu, rk ? 1 : C.reg, rk ? ar.cpu : C.cpu_id, rk ? ar.cpu : (C.reg ? C.cid : -1), huge ? -2 : big ? -1 : (int)C.len, mode,
	     WD(ar.a[0]), WD(ar.a[1]), WD(ar.a[2]), WD(ar.a[3]), WD(ar.a[4]), WD(ar.a[5]), mem);
	int j = sigsetjmp(jb, 1);
	if (!j) {
		cs_step_on = mode == 0 || mode == 2;
		int r = C.fn(&ar);
		cs_step_on = 0;
		leave_done();
		if (mode == 1 || mode == 3) diff(0);
		else if (mode == 2) diff(0);
		int lv = 1;
		for (int i = 0; i < NLIVE; i++) if (ar.live[i] != 0x1111111111111111ULL * (i + 1) + i) lv = 0;
		for (int i = 0; i < NARG; i++) if (ar.out[i] != C.ar.a[i] && !strstr(C.name, "_k")) lv = 0;
		if (ar.out[NARG] != ar.cpu) lv = 0;
		if (!strcmp(C.name, "clear") || !strcmp(C.name, "q")) lv = 1;
		int cp = 1, un = 1;
		for (uint64_t i = 0; i < C.len; i++) { if (dp[i] != sp[i]) cp = 0; if (dp[i] != 0xEE) un = 0; }
		if (big && (dp[C.len] != 0xEE || dp[-1] != 0xEE)) cp = un = 0;
		struct kabi f = fake; f.rseq_cs = fshadow.rseq_cs;
		if (mode == 1 && memcmp(&f, &fshadow, sizeof f)) emit("{\"e\":\"area\"}");
		emit("{\"e\":\"ret\",\"rc\":%d,\"live\":%d,\"cp\":%d,\"un\":%d}", r, lv, cp, un);
	}
	rseq_offset = save; realk = 0; cs_step_on = 0;
	ev[evn++] = ']'; ev[evn] = 0;
	if (!warm) printf("%d\t%s\t%s\n", k, plan, ev);
}
static uint64_t hx(const char *s) { return strtoull(s, NULL, 0); }
static uint64_t rs = 88172645463325252ULL;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

int main(void)
{
	static char line[1 << 16];
	stack_t ss = { .ss_sp = malloc(1 << 18), .ss_size = 1 << 18 };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = on_trap, .sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK };
	sigaction(SIGTRAP, &sa, NULL);
	sa.sa_sigaction = on_fatal;
	int fs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };
	for (int i = 0; i < 5; i++) sigaction(fs[i], &sa, NULL);
	if (mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA) return 3;
	if (mmap((void *)BIG, BIG_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)BIG) return 3;
	cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs);
	int pick = getpid() % CPU_COUNT(&cs);
	for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs) && pick-- == 0) { CPU_ZERO(&cs); CPU_SET(i, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
	if (__start___rseq_cs_ptr_array < __stop___rseq_cs_ptr_array) stale_desc = (void *)*__start___rseq_cs_ptr_array;
	/* every descriptor of the binary must be acceptable to the kernel */
	evn = 0; ev[evn++] = '[';
	emit("{\"e\":\"scan\",\"n\":%d}", (int)(__stop___rseq_cs_ptr_array - __start___rseq_cs_ptr_array));
	for (uint64_t *p = __start___rseq_cs_ptr_array; p < __stop___rseq_cs_ptr_array; p++) {
		struct kcs *d = (struct kcs *)*p;
		emit("{\"e\":\"desc\",\"al\":%d,\"ver\":%d,\"fl\":%d,\"sig\":%d,\"listed\":1,\"out\":%d,\"start\":1}", (*p & 31) == 0, d->version != 0, d->flags != 0, sigok(d),
		     !insec(d, d->abort_ip) && d->post_commit_offset > 0 && d->post_commit_offset < 4096);
	}
	ev[evn++] = ']'; ev[evn] = 0;
	printf("-1\tscan\t%s\n", ev);
	while (fgets(line, sizeof line, stdin)) {
		char *s = strtok(line, " \n");
		if (!s) continue;
		if (!strcmp(s, "CASE")) {
			memset(&C, 0, sizeof C);
			strncpy(C.name, strtok(NULL, " \n"), 63);
			for (struct cswent *w = cs_wraps; w->name; w++) if (!strcmp(w->name, C.name)) C.fn = w->fn;
			C.ar.mo = atoi(strtok(NULL, " \n")); C.ar.mode = atoi(strtok(NULL, " \n")); C.ar.cpu = atoi(strtok(NULL, " \n"));
			C.reg = atoi(strtok(NULL, " \n")); C.cpu_id = atoi(strtok(NULL, " \n")); C.cid = atoi(strtok(NULL, " \n")); C.stale = atoi(strtok(NULL, " \n"));
			for (int i = 0; i < NARG; i++) C.ar.a[i] = hx(strtok(NULL, " \n"));
			C.dst = hx(strtok(NULL, " \n")); C.src = hx(strtok(NULL, " \n")); C.len = hx(strtok(NULL, " \n"));
			for (s = strtok(NULL, " \n"); s && strcmp(s, "V"); s = strtok(NULL, " \n")) {
				char *e = strchr(s, '='); C.ad[C.nm] = hx(s); C.va[C.nm++] = hx(e + 1);
			}
			for (s = strtok(NULL, " \n"); s; s = strtok(NULL, " \n")) { /* cpu:cid[:addr=val]* */
				struct var *v = &C.v[C.nv++];
				char *q; v->cpu = strtol(s, &q, 10); v->cid = strtol(q + 1, &q, 10);
				while (*q == ':') { v->ad[v->n] = strtoull(q + 1, &q, 0); v->va[v->n++] = strtoull(q + 1, &q, 0); }
			}
			continue;
		}
		int k = atoi(strtok(NULL, " \n"));
		if (!C.fn) { printf("%d\tmissing\t[]\n", k); continue; }
		char plan[64];
		if (!strcmp(s, "RUN")) { char *p = strtok(NULL, " \n"); run1(k, p ? p : "-", 0); }
		else if (!strcmp(s, "NATIVE")) run1(k, "native", 1);
		else if (!strcmp(s, "REAL")) run1(k, "real", 2);
		else if (!strcmp(s, "REALN")) run1(k, "realn", 3);
		else if (!strcmp(s, "SWEEP")) {
			run1(k, "-", 0);
			long n = nstep;
			for (long b = 0; b < n && b < 400; b++) for (int v = 0; v < C.nv; v++) { sprintf(plan, "%ld:%d", b, v); run1(k, plan, 0); }
		} else if (!strcmp(s, "PAIRS")) {
			int n = atoi(strtok(NULL, " \n")); rs = hx(strtok(NULL, " \n")) * 2654435761u + 88172645463325252ULL;
			run1(k, "-", 0);
			long N = nstep;
			for (int i = 0; i < n; i++) {
				long b = rnd() % N, c = b + 1 + rnd() % N; sprintf(plan, "%ld:%d,%ld:%d", b, (int)(rnd() % C.nv), c, (int)(rnd() % C.nv)); run1(k, plan, 0);
			}
		}
	}
	return 0;
}
