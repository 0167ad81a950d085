/*
 * CPU detection driver: rseq_get_max_nr_cpus() against an operating system it makes up.
 * stdin, one case per line: steps separated by ';', each  <mask>|<reads>|<conf>|<dirs>
 *   mask: text with 'N' for newline, or '!' + errno if open fails
 *   reads: comma list applied in turn to successive reads: n>0 at most n bytes, -e fails with errno e; empty: as asked
 *   conf: sysconf answer;  dirs: '!' if the directory cannot be opened, else space separated names ('~' prefix: not a directory)
 * stdout: one line per case: JSON list of [rc, open descriptors], or the signal.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
#include <rseq/rseq.h>

#define POSSIBLE "/sys/devices/system/cpu/possible"
#define CPUDIR "/sys/devices/system/cpu"
static char *text, *dirs[1 << 16]; static int nodir, openerr, reads[4096], nreads, ri, conf, ndirs, nopen; static size_t tlen;
#define VFD 900
static size_t vpos[8]; static int vused[8];
int __real_open(const char *p, int f, ...); int __real_open64(const char *p, int f, ...);
ssize_t __real_read(int fd, void *b, size_t n); ssize_t __real_pread(int fd, void *b, size_t n, off_t o);
int __real_close(int fd); DIR *__real_opendir(const char *p); long __real_sysconf(int n);
struct dirent *__real_readdir(DIR *d); int __real_closedir(DIR *d); FILE *__real_fopen(const char *p, const char *m);
static int vopen(void) { if (openerr) { errno = openerr; return -1; } for (int i = 0; i < 8; i++) if (!vused[i]) { vused[i] = 1; vpos[i] = 0; nopen++; return VFD + i; } errno = EMFILE; return -1; }
int __wrap_open(const char *p, int f, ...) { if (!strcmp(p, POSSIBLE)) return vopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { if (!strcmp(p, POSSIBLE)) return vopen(); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __real_open64(p, f, m); }
static ssize_t vread(int i, void *b, size_t n)
{
	if (ri < nreads) { int k = reads[ri++]; if (k < 0) { errno = -k; return -1; } if ((size_t)k < n) n = k; }
	if (n > tlen - vpos[i]) n = tlen - vpos[i];
	memcpy(b, text + vpos[i], n); vpos[i] += n; return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd >= VFD && fd < VFD + 8 && vused[fd - VFD]) return vread(fd - VFD, b, n); return __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { if (fd >= VFD && fd < VFD + 8 && vused[fd - VFD]) { vpos[fd - VFD] = (size_t)o < tlen ? o : tlen; return vread(fd - VFD, b, n); } return __real_pread(fd, b, n, o); }
int __wrap_close(int fd) { if (fd >= VFD && fd < VFD + 8) { if (!vused[fd - VFD]) { errno = EBADF; return -1; } vused[fd - VFD] = 0; nopen--; return 0; } return __real_close(fd); }
static ssize_t ck_read(void *c, char *b, size_t n) { return vread((long)c, b, n); }
static int ck_close(void *c) { vused[(long)c] = 0; nopen--; return 0; }
FILE *__wrap_fopen(const char *p, const char *m)
{
	if (strcmp(p, POSSIBLE)) return __real_fopen(p, m);
	int fd = vopen(); if (fd < 0) return NULL;
	return fopencookie((void *)(long)(fd - VFD), "r", (cookie_io_functions_t){ .read = ck_read, .close = ck_close });
}
static struct { int pos; struct dirent de; } vd; static int vdopen;
DIR *__wrap_opendir(const char *p)
{
	size_t n = strlen(p); while (n > 1 && p[n - 1] == '/') n--;
	if (n != strlen(CPUDIR) || strncmp(p, CPUDIR, n)) return __real_opendir(p);
	if (nodir) { errno = ENOENT; return NULL; }
	vd.pos = 0; vdopen = 1; nopen++; return (DIR *)&vd;
}
struct dirent *__wrap_readdir(DIR *d)
{
	if (d != (DIR *)&vd) return __real_readdir(d);
	if (vd.pos >= ndirs) return NULL;
	char *s = dirs[vd.pos++]; memset(&vd.de, 0, sizeof vd.de);
	vd.de.d_type = *s == '~' ? (s++, DT_REG) : DT_DIR; vd.de.d_ino = 7; strcpy(vd.de.d_name, s); return &vd.de;
}
int __wrap_closedir(DIR *d) { if (d != (DIR *)&vd) return __real_closedir(d); nopen--; vdopen = 0; return 0; }
long __wrap_sysconf(int n) { if (n == _SC_NPROCESSORS_CONF) { if (conf < 0) errno = EINVAL; return conf; } return __real_sysconf(n); }

static char line[1 << 20];
static void setup(char *s)
{
	char *f[4]; for (int i = 0; i < 4; i++) { f[i] = s; char *e = strchr(s, '|'); if (e) { *e = 0; s = e + 1; } }
	openerr = 0; text = strdup(f[0]); tlen = strlen(text); if (*f[0] == '!') openerr = atoi(f[0] + 1);
	for (size_t i = 0; i < tlen; i++) if (text[i] == 'N') text[i] = '\n';
	nreads = ri = 0; for (char *p = f[1]; *p;) { reads[nreads++] = strtol(p, &p, 10); if (*p == ',') p++; }
	conf = atoi(f[2]); nodir = *f[3] == '!'; ndirs = 0;
	if (!nodir) for (char *p = strtok(f[3], " "); p; p = strtok(NULL, " ")) dirs[ndirs++] = strdup(p);
}
int main(void)
{
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0; fflush(stdout);
		pid_t p = fork();
		if (!p) {
			int first = 1; char *s = line; alarm(10);
			char out[1 << 16]; int n = sprintf(out, "[");
			for (;;) {
				char *e = strchr(s, ';'); if (e) *e = 0;
				setup(s);
				int rc = rseq_get_max_nr_cpus();
				n += sprintf(out + n, "%s[%d,%d]", first ? "" : ",", rc, nopen); first = 0;
				if (!e) break; s = e + 1;
			}
			printf("%s]\n", out); fflush(stdout); _exit(0);
		}
		int st; waitpid(p, &st, 0);
		if (WIFSIGNALED(st)) printf("{\"sig\":%d}\n", WTERMSIG(st));
		else if (WEXITSTATUS(st)) printf("{\"sig\":%d}\n", -WEXITSTATUS(st));
	}
	return 0;
}
