/* Runs critical sections of a plug-in under the real kernel, prepares, unloads the plug-in, and lets the kernel look at the thread's area.
   unl <plug-in> <kind> <mode> <how often>; one JSON event.  Exits 3 where the kernel offers no restartable sequences. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/mman.h>
#include <rseq/rseq.h>
static void nothing(int s) { (void)s; }
int main(int argc, char **argv)
{
	int kind = atoi(argv[2]), mode = atoi(argv[3]), n = atoi(argv[4]), pfd[2];
	if (!rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL) || rseq_register_current_thread()) return 3;
	if (mode && !rseq_mm_cid_available()) return 3;
	if (pipe(pfd)) return 3;
	int want = kind == 1 ? 1 : kind == 6 ? -1 : 0;
	pid_t p = fork();
	if (!p) {
		int res[3] = { want, 0, 0 };
		signal(SIGUSR1, nothing);
		for (int i = 0; i < n; i++) {
			void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
			int (*f)(int, int, intptr_t *, int) = h ? dlsym(h, "p_run") : NULL;
			Dl_info di;
			if (!f || !dladdr((void *)f, &di)) _exit(9);
			intptr_t v = 0; int rc, t = 0;
			do { v = 0; rc = f(kind, mode, &v, mode ? (int)rseq_current_mm_cid() : (int)rseq_cpu_start()); } while (rc == -1 && kind != 6 && ++t < 1000);
			if (rc != want) res[0] = rc;
			volatile uint64_t *cs = (volatile uint64_t *)((char *)rseq_thread_pointer() + rseq_offset + 8);
			if (*cs) res[1]++;
			if (i & 1) rseq_prepare_unload(); else rseq_clear_rseq_cs();
			dlclose(h);
			void *q = dlopen(argv[1], RTLD_NOW | RTLD_NOLOAD);
			if (q) _exit(9);	/* still there: nothing is shown */
			if (*cs) res[2]++;
			raise(SIGUSR1); sched_yield();
			if (i % 16 == 0) usleep(10);
		}
		if (write(pfd[1], res, sizeof res) < 0) _exit(9);
		_exit(0);
	}
	int st, res[3] = { want, 0, 0 }; waitpid(p, &st, 0);
	close(pfd[1]); if (read(pfd[0], res, sizeof res) < 0) return 3;
	if (WIFEXITED(st) && WEXITSTATUS(st)) return 3;
	printf("{\"e\":\"survive\",\"kind\":%d,\"mode\":%d,\"sig\":%d,\"rc\":%d,\"want\":%d,\"used\":%d,\"left\":%d}\n", kind, mode, WIFSIGNALED(st) ? WTERMSIG(st) : 0, res[0], want, res[1] > 0, res[2] > 0);
	return 0;
}
