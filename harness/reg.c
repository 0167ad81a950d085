/*
 * Registration driver: librseq against a mock kernel and a mock C library (or the real ones).
 * Configuration through the environment (read before the library's constructor runs):
 *   RM_KERN=1|0|real   RM_AUX=<feature size>  RM_ALIGN=<align>  RM_LIBC="<present mask>,<size>,<offset>,<flags>"
 *   RM_FAIL="n:errno,..." fail the n-th rseq syscall  RM_CPU the first CPU number the mock kernel writes, RM_GETCPU="cpu,node" what sched_getcpu and getcpu say
 * Script (argv): r<t> u<t> a<q> q<t> R<t>,<t> (concurrent registration) k<t> (kernel updates ids) n  fallback node  g the process exits
 *                S<t>,<k>,<u>  thread t registers, and at the k-th instruction it executes in the library thread u registers (as far as it gets)
 * One JSON event per line on stdout.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <ucontext.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sched.h>
#include <rseq/rseq.h>

#define NT 4
#define KFIX 32
static int real_kernel, kern = 1, nsys, fe_n[32], fe_e[32], nfe;
static unsigned long aux_size, aux_align;
static int libc_mask = 0; static unsigned int libc_size, libc_flags; static ptrdiff_t libc_off;
static int k_cpu = 5, k_node = 2, k_cid = 3, k_getcpu = 77, k_gnode = 9;
static int slow_dlsym;

struct kabi { uint32_t cpu_id_start, cpu_id; uint64_t cs; uint32_t flags, node_id, mm_cid; char rest[36]; };
static __thread struct kabi fakelibc __attribute__((aligned(64), tls_model("initial-exec")));	/* the area of the mock C library */
struct kth { void *ptr; uint32_t len, sig; };
static __thread struct kth self;
static __thread int tid;
static __thread char canary0[256] = { 0x11, 0x22, 0x33 };
static __thread char canary1[256];
static __thread char sysbuf[4096]; static __thread int sysn, sysc;
static pthread_mutex_t out = PTHREAD_MUTEX_INITIALIZER;
static const char *cur = "init"; static int curt = -1;

long __real_syscall(long n, ...);
unsigned long __real_getauxval(unsigned long t);
void *__real_dlsym(void *h, const char *s);
int __real_sched_getcpu(void);

static __attribute__((constructor(101))) void cfg(void)
{
	char *e;
	setvbuf(stdout, NULL, _IOLBF, 1 << 16);
	if ((e = getenv("RM_KERN"))) { if (!strcmp(e, "real")) real_kernel = 1; else kern = atoi(e); }
	if ((e = getenv("RM_AUX"))) aux_size = atol(e);
	if ((e = getenv("RM_ALIGN"))) aux_align = atol(e);
	if ((e = getenv("RM_LIBC"))) { long o; sscanf(e, "%d,%u,%ld,%u", &libc_mask, &libc_size, &o, &libc_flags); libc_off = o ? (char *)&fakelibc - (char *)rseq_thread_pointer() : 0; }
	if ((e = getenv("RM_CPU"))) k_cpu = atoi(e);
	if ((e = getenv("RM_GETCPU"))) sscanf(e, "%d,%d", &k_getcpu, &k_gnode);
	if ((e = getenv("RM_SLOW"))) slow_dlsym = atoi(e);
	if ((e = getenv("RM_FAIL"))) for (char *p = strtok(strdup(e), ","); p; p = strtok(NULL, ",")) { sscanf(p, "%d:%d", &fe_n[nfe], &fe_e[nfe]); nfe++; }
}
unsigned long __wrap_getauxval(unsigned long t)
{
	if (real_kernel) return __real_getauxval(t);
	if (t == 27) { if (!aux_size) errno = ENOENT; return aux_size; }
	if (t == 28) { if (!aux_align) errno = ENOENT; return aux_align; }
	return __real_getauxval(t);
}
int __wrap_sched_getcpu(void) { return real_kernel ? __real_sched_getcpu() : k_getcpu; }
void *__wrap_dlsym(void *h, const char *s)
{
	if (!strcmp(s, "__rseq_offset") || !strcmp(s, "__rseq_size") || !strcmp(s, "__rseq_flags")) {
		if (slow_dlsym && s[7] == 's') usleep(slow_dlsym * 1000);
		if (real_kernel) return __real_dlsym(RTLD_DEFAULT, s);
		if (s[7] == 'o') return libc_mask & 1 ? &libc_off : NULL;
		if (s[7] == 's') return libc_mask & 2 ? (void *)&libc_size : NULL;
		return libc_mask & 4 ? (void *)&libc_flags : NULL;
	}
	return __real_dlsym(h, s);
}
static int kfeat(void) { return aux_size ? (int)aux_size : 20; }
static void kwrite(struct kabi *a, uint32_t len, int cpu, int node, int cid)
{
	int f = kfeat();
	a->cpu_id_start = cpu < 0 ? 0 : cpu; a->cpu_id = cpu;
	if (f >= 24) a->node_id = node;
	if (f >= 28) a->mm_cid = cid;
	/* feature fields this model has no name for: the kernel owns everything up to its feature size */
	for (int i = 32; i < f && i < (int)len; i++) ((char *)a)[i] = cpu < 0 ? 0 : 0x40 + i % 50;
}
static long k_rseq(void *ptr, uint32_t len, int flags, uint32_t sig)
{
	int i, n = __atomic_add_fetch(&nsys, 1, __ATOMIC_SEQ_CST);
	if (!kern) return -ENOSYS;
	if (ptr) for (i = 0; i < nfe; i++) if (fe_n[i] == n) return -fe_e[i];
	if (flags & 1) {
		if (flags & ~1) return -EINVAL;
		if (!self.ptr || self.ptr != ptr || self.len != len) return -EINVAL;
		if (self.sig != sig) return -EPERM;
		kwrite(ptr, len, -1, 0, 0); self.ptr = NULL; self.len = 0;
		return 0;
	}
	if (flags) return -EINVAL;
	if (self.ptr) {
		if (self.ptr != ptr || self.len != len) return -EINVAL;
		if (self.sig != sig) return -EPERM;
		return -EBUSY;
	}
	if (len < KFIX || (len != KFIX && (int)len < kfeat())) return -EINVAL;
	if (!ptr || ((uintptr_t)ptr & (KFIX - 1)) || (len != KFIX && aux_align && ((uintptr_t)ptr & (aux_align - 1)))) return -EINVAL;
	self.ptr = ptr; self.len = len; self.sig = sig;
	kwrite(ptr, len, k_cpu + tid, k_node, k_cid + tid);
	return 0;
}
long __wrap_syscall(long n, ...)
{
	va_list ap; long a[6]; va_start(ap, n); for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
	long r;
	if (n == SYS_getcpu && !real_kernel) { *(unsigned *)a[0] = k_getcpu; if (a[1]) *(unsigned *)a[1] = k_gnode; return 0; }
	if (n != 334) return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (real_kernel) { r = __real_syscall(n, a[0], a[1], a[2], a[3]); if (r < 0) r = -errno; }
	else r = k_rseq((void *)a[0], a[1], a[2], a[3]);
	char *own = (char *)rseq_thread_pointer() + rseq_offset;
	sysn += snprintf(sysbuf + sysn, sizeof sysbuf - sysn, "%s{\"own\":%d,\"null\":%d,\"len\":%d,\"fl\":%d,\"sig\":%d,\"ret\":%d}", sysc++ ? "," : "",
			 (char *)a[0] == own, a[0] == 0, (int)a[1], (int)a[2], (uint32_t)a[3] == RSEQ_SIG && RSEQ_SIG == 0x53053053, (int)r);
	if (r < 0) { errno = -r; return -1; }
	return r;
}
static int gone;
static __attribute__((destructor(101))) void after(void)
{
	if (!gone) return;
	printf("{\"e\":\"gone\",\"nav\":%d,\"cav\":%d}\n", rseq_node_id_available(), rseq_mm_cid_available()); fflush(stdout);
	_exit(0);
}
static int canary(void)
{
	for (int i = 0; i < 256; i++) if (canary0[i] != (i < 3 ? 0x11 * (i + 1) : 0) || canary1[i]) return 0;
	return 1;
}
static void on_abort(int s)
{
	char b[8192];
	int n = snprintf(b, sizeof b, "{\"e\":\"died\",\"op\":\"%s\",\"t\":%d,\"sig\":%d,\"sys\":[%s]}\n", cur, tid, s, sysbuf);
	fflush(stdout); write(1, b, n); _exit(0);
}
/* ---- worker threads ---- */
struct wk { pthread_t th; sem_t go, done; char op; int arg; long res[8]; int t; } W[NT];
static void sysreset(void) { sysn = sysc = 0; sysbuf[0] = 0; }
static void tail(char *b) { sprintf(b, "\"size\":%d,\"sys\":[%s],\"can\":%d", (int)rseq_size, sysbuf, canary()); }
static void doop(char op, int arg)
{
	char b[8192]; int rc;
	sysreset();
	switch (op) {
	case 'S': case 'r': cur = "reg";
		if (op == 'S') __asm__ __volatile__ ("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
		rc = rseq_register_current_thread();
		if (op == 'S') __asm__ __volatile__ ("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
		flockfile(stdout); tail(b); printf("{\"e\":\"reg\",\"t\":%d,\"rc\":%d,%s}\n", tid, rc, b); fflush(stdout); funlockfile(stdout); break;
	case 'u': cur = "unreg"; rc = rseq_unregister_current_thread(); tail(b); printf("{\"e\":\"unreg\",\"t\":%d,\"rc\":%d,%s}\n", tid, rc, b); break;
	case 'a': cur = "avail"; rc = rseq_available(arg); tail(b); printf("{\"e\":\"avail\",\"t\":%d,\"q\":%d,\"rc\":%d,%s}\n", tid, arg, rc, b); break;
	case 'n': cur = "node"; rc = rseq_fallback_current_node(); tail(b); printf("{\"e\":\"node\",\"t\":%d,\"rc\":%d,\"want\":%d,%s}\n", tid, rc, k_gnode, b); break;
	case 'k': cur = "kernel"; fakelibc.cpu_id = arg; fakelibc.cpu_id_start = arg < 0 ? 0 : arg; fakelibc.node_id = arg + 1; fakelibc.mm_cid = arg + 2; if (self.ptr) kwrite(self.ptr, self.len, arg, arg + 1, arg + 2); break;
	case 'q': {
		struct kabi *a = (struct kabi *)((char *)rseq_thread_pointer() + rseq_offset);
		int safe = real_kernel || !(libc_mask == 7 && libc_size) || libc_off;
		cur = "query";
		int fb = __wrap_sched_getcpu();
		if (real_kernel) {	/* values may move under us: only compare twice-read stable values */
			for (int i = 0; i < 1000; i++) {
				struct kabi x = *(volatile struct kabi *)a;
				int raw = rseq_current_cpu_raw(), st = rseq_cpu_start(), c = rseq_current_cpu(), na = rseq_node_id_available(), ca = rseq_mm_cid_available();
				int cid = rseq_current_mm_cid(), nd = na ? (int)rseq_current_node_id() : -1; int f2 = __wrap_sched_getcpu();
				struct kabi y = *(volatile struct kabi *)a; fb = f2;
				if (x.cpu_id != y.cpu_id || x.mm_cid != y.mm_cid || x.node_id != y.node_id) continue;
				tail(b);
				printf("{\"e\":\"query\",\"t\":%d,\"acpu\":%d,\"ast\":%d,\"anode\":%d,\"acid\":%d,\"fb\":%d,\"raw\":%d,\"start\":%d,\"cpu\":%d,\"nav\":%d,\"cav\":%d,\"cid\":%d,\"nid\":%d,%s}\n",
				       tid, (int)x.cpu_id, (int)x.cpu_id_start, (int)x.node_id, (int)x.mm_cid, (int)x.cpu_id < 0 ? c : fb, raw, st, c, na, ca, cid, nd, b);
				break;
			}
			break;
		}
		if (!safe) break;
		int na = rseq_node_id_available(), ca = rseq_mm_cid_available();
		int nd = na ? (int)rseq_current_node_id() : -1;
		int raw = rseq_current_cpu_raw(), st = rseq_cpu_start(), c = rseq_current_cpu(), cid = rseq_current_mm_cid();
		tail(b);
		printf("{\"e\":\"query\",\"t\":%d,\"acpu\":%d,\"ast\":%d,\"anode\":%d,\"acid\":%d,\"fb\":%d,\"raw\":%d,\"start\":%d,\"cpu\":%d,\"nav\":%d,\"cav\":%d,\"cid\":%d,\"nid\":%d,%s}\n",
		       tid, (int)a->cpu_id, (int)a->cpu_id_start, (int)a->node_id, (int)a->mm_cid, fb, raw, st, c, na, ca, cid, nd, b);
		break; }
	}
	fflush(stdout);
}
extern char __start_librseq_text[] __attribute__((weak)), __stop_librseq_text[] __attribute__((weak));
static int st_at, st_n, st_u = -1, st_started, st_done;
static int waitms(sem_t *s, int ms)
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_nsec += ms * 1000000L; if (ts.tv_nsec >= 1000000000L) { ts.tv_sec++; ts.tv_nsec -= 1000000000L; }
	int r; while ((r = sem_timedwait(s, &ts)) && errno == EINTR) ;
	return !r;
}
static void on_step(int sig, siginfo_t *si, void *u_)
{
	ucontext_t *u = u_;
	char *ip = (char *)u->uc_mcontext.gregs[REG_RIP];
	if (ip < __start_librseq_text || ip >= __stop_librseq_text) return;
	if (++st_n != st_at) return;
	int e = errno;
	st_started = 1; W[st_u].op = 'r'; sem_post(&W[st_u].go); st_done = waitms(&W[st_u].done, 15);
	errno = e;
	u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
}
static void *worker(void *p)
{
	struct wk *w = p; tid = w->t;
	fakelibc.cpu_id_start = fakelibc.cpu_id = k_cpu + tid; fakelibc.node_id = k_node; fakelibc.mm_cid = k_cid + tid;
	for (;;) { sem_wait(&w->go); if (w->op == 'x') return NULL; doop(w->op, w->arg); sem_post(&w->done); }
}
static void start(int t) { sem_init(&W[t].go, 0, 0); sem_init(&W[t].done, 0, 0); W[t].t = t; pthread_create(&W[t].th, NULL, worker, &W[t]); }
int main(int argc, char **argv)
{
	signal(SIGABRT, on_abort); signal(SIGSEGV, on_abort); signal(SIGBUS, on_abort); signal(SIGILL, on_abort);
	struct sigaction sa = { .sa_sigaction = on_step, .sa_flags = SA_SIGINFO }; sigaction(SIGTRAP, &sa, 0);
	int stripped = argc > 1 && !strcmp(argv[1], "stripped");
	sysreset();
	unsigned f = 0;
	if (real_kernel) {
		unsigned *s = __real_dlsym(RTLD_DEFAULT, "__rseq_size"); libc_size = s ? *s : 0; ptrdiff_t *o = __real_dlsym(RTLD_DEFAULT, "__rseq_offset"); libc_off = o ? *o : 0;
		libc_mask = s ? 7 : 0; f = __real_getauxval(27); aux_size = f;
	}
	printf("{\"e\":\"start\",\"mask\":%d,\"lsize\":%d,\"aux\":%d,\"kern\":%d,\"stripped\":%d,\"size\":%d,\"offok\":%d,\"flok\":%d}\n", libc_mask, (int)libc_size, (int)aux_size, kern, stripped,
	       (int)rseq_size, stripped || !(libc_mask == 7 && libc_size) || rseq_offset == libc_off, stripped || rseq_flags == (libc_mask == 7 && libc_size ? libc_flags : 0));
	fflush(stdout);
	for (int i = 0; i < NT; i++) start(i);
	for (int i = 1 + stripped; i < argc; i++) {
		char *s = argv[i]; int t = atoi(s + 1);
		if (*s == 'R') {	/* concurrent */
			printf("{\"e\":\"conc\",\"t\":[%s]}\n", s + 1); fflush(stdout);
			for (int j = 0; j < NT; j++) if (strchr(s + 1, '0' + j)) { W[j].op = 'r'; sem_post(&W[j].go); if (slow_dlsym) usleep(3000); }
			for (int j = 0; j < NT; j++) if (strchr(s + 1, '0' + j)) sem_wait(&W[j].done);
			continue;
		}
		if (*s == 'S') {
			sscanf(s + 1, "%d,%d,%d", &t, &st_at, &st_u); st_n = st_started = st_done = 0;
			printf("{\"e\":\"conc\",\"t\":[%d,%d]}\n", t, st_u); fflush(stdout);
			W[t].op = 'S'; sem_post(&W[t].go); sem_wait(&W[t].done);
			if (st_started && !st_done) sem_wait(&W[st_u].done);
			printf("{\"e\":\"steps\",\"n\":%d,\"done\":%d}\n", st_n, st_done); fflush(stdout);
			continue;
		}
		if (*s == 'g') { gone = 1; break; }
		if (*s == 'a') { W[0].op = 'a'; W[0].arg = t; t = 0; }
		else if (*s == 'k') { char *c = strchr(s, '='); W[t].op = 'k'; W[t].arg = c ? atoi(c + 1) : 6; }
		else if (*s == 'x') { W[t].op = 'x'; sem_post(&W[t].go); pthread_join(W[t].th, NULL); printf("{\"e\":\"exit\",\"t\":%d}\n", t); start(t); continue; }
		else W[t].op = *s;
		sem_post(&W[t].go); sem_wait(&W[t].done);
	}
	fflush(stdout);
	if (gone) exit(0);	/* the library's destructor, then ours */
	printf("{\"e\":\"end\"}\n"); fflush(stdout);
	_exit(0);
}
