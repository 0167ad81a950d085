#define _GNU_SOURCE
#include "interpose.h"
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>

__thread int ip_in_lib;
long ip_fault_countdown, ip_nreq, ip_munmap_countdown, ip_wild;
int ip_fault_hit, ip_munmap_hit, ip_place;
size_t ip_place_align = 65536, ip_max_len = (size_t) 1 << 31;
uint64_t ip_last_len;
#define PG 4096UL
#define MAXI 65536
static struct { uintptr_t a, e; } iv[MAXI];
static int niv;
static unsigned char fdown[4096];
#define MAXB (1 << 16)
static void *hb[MAXB];
static long nhb;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;

void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
int __real_memfd_create(const char *, unsigned);
int __real_ftruncate(int, off_t);
int __real_close(int);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
#define LOCK __real_pthread_mutex_lock(&lk)
#define UNLOCK __real_pthread_mutex_unlock(&lk)

int ip_fault(void)
{
	if (!ip_in_lib)
		return 0;
	__sync_fetch_and_add(&ip_nreq, 1);
	if (ip_fault_countdown > 0 && --ip_fault_countdown == 0) {
		ip_fault_hit++;
		return 1;
	}
	return 0;
}

static void iv_add(uintptr_t a, uintptr_t e)
{
	LOCK;
	if (niv < MAXI) { iv[niv].a = a; iv[niv].e = e; niv++; }
	UNLOCK;
}
int ip_covers(uintptr_t a, size_t len)
{
	uintptr_t e = a + len;
	int again = 1;
	LOCK;
	while (a < e && again) {
		again = 0;
		for (int i = 0; i < niv; i++)
			if (iv[i].a <= a && a < iv[i].e) { a = iv[i].e; again = 1; break; }
	}
	UNLOCK;
	return a >= e;
}
static void iv_del(uintptr_t a, uintptr_t e)
{
	LOCK;
	for (int i = 0; i < niv; i++) {
		uintptr_t s = iv[i].a, t = iv[i].e;
		if (t <= a || s >= e)
			continue;
		if (s < a && t > e) {
			iv[i].e = a;
			if (niv < MAXI) { iv[niv].a = e; iv[niv].e = t; niv++; }
		} else if (s < a) iv[i].e = a;
		else if (t > e) iv[i].a = e;
		else { iv[i] = iv[--niv]; i--; }
	}
	UNLOCK;
}
long ip_pages(void) { long n = 0; for (int i = 0; i < niv; i++) n += (iv[i].e - iv[i].a) / PG; return n; }
long ip_pages_mapped(void)
{
	/* no stdio/heap: this may run in a forked child */
	static char buf[1 << 20];
	int fd = open("/proc/self/maps", O_RDONLY);
	long n = 0, got = 0, r;
	while ((r = read(fd, buf + got, sizeof(buf) - 1 - got)) > 0) got += r;
	buf[got] = 0;
	__real_close(fd);
	for (char *l = buf; *l; ) {
		unsigned long a = strtoul(l, &l, 16), e = strtoul(l + 1, &l, 16);
		for (int i = 0; i < niv; i++) {
			uintptr_t s = iv[i].a > a ? iv[i].a : a, t = iv[i].e < e ? iv[i].e : e;
			if (s < t) n += (t - s) / PG;
		}
		l = strchr(l, '\n');
		if (!l) break;
		l++;
	}
	return n;
}
long ip_fds(void) { long n = 0; for (int i = 0; i < 4096; i++) n += fdown[i]; return n; }
long ip_heap(void) { return nhb; }
void ip_reset(void)
{
	niv = 0; nhb = 0; memset(fdown, 0, sizeof(fdown)); ip_wild = 0; ip_nreq = 0;
	ip_fault_countdown = 0; ip_fault_hit = 0; ip_munmap_countdown = 0; ip_munmap_hit = 0;
}
static void hb_add(void *p) { LOCK; if (p && nhb < MAXB) hb[nhb++] = p; UNLOCK; }
static int hb_del(void *p)
{
	int f = 0;
	LOCK;
	for (long i = nhb - 1; i >= 0; i--) if (hb[i] == p) { hb[i] = hb[--nhb]; f = 1; break; }
	UNLOCK;
	return f;
}

/* Placement: 0 kernel's choice.  n>0: address chosen so that (addr + 2 pages) % align == (n-1)*page, with guard gaps. */
static uintptr_t place_next = 0x210000000000UL;
void *__wrap_mmap(void *a, size_t len, int prot, int fl, int fd, off_t off)
{
	void *r;
	if (!ip_in_lib)
		return __real_mmap(a, len, prot, fl, fd, off);
	if (ip_fault()) { errno = ENOMEM; return MAP_FAILED; }
	if (fl & (MAP_FIXED | MAP_FIXED_NOREPLACE)) {
		if (!ip_covers((uintptr_t) a, len)) { ip_wild++; errno = EINVAL; return MAP_FAILED; }
		return __real_mmap(a, len, prot, fl, fd, off);
	}
	ip_last_len = len;
	if (len > ip_max_len) { errno = ENOMEM; return MAP_FAILED; }
	if (ip_place > 0 && !a) {
		uintptr_t al = ip_place_align, x;
		LOCK;
		x = (place_next + al - 1) & ~(al - 1);
		x = x + (uintptr_t) (ip_place - 1) * PG + al - 2 * PG;
		place_next = x + ((len + al - 1) & ~(al - 1)) + al;
		UNLOCK;
		r = __real_mmap((void *) x, len, prot, fl | MAP_FIXED_NOREPLACE, fd, off);
		if (r == MAP_FAILED)
			r = __real_mmap(a, len, prot, fl, fd, off);
	} else
		r = __real_mmap(a, len, prot, fl, fd, off);
	if (r != MAP_FAILED)
		iv_add((uintptr_t) r, (uintptr_t) r + ((len + PG - 1) & ~(PG - 1)));
	return r;
}
void *__wrap_mmap64(void *a, size_t len, int prot, int fl, int fd, off_t off) { return __wrap_mmap(a, len, prot, fl, fd, off); }
int __wrap_munmap(void *a, size_t len)
{
	int r;
	if (!ip_in_lib)
		return __real_munmap(a, len);
	if (ip_munmap_countdown > 0 && --ip_munmap_countdown == 0) { ip_munmap_hit++; errno = ENOMEM; return -1; }
	len = (len + PG - 1) & ~(PG - 1);
	if (!len || !ip_covers((uintptr_t) a, len)) { ip_wild++; errno = EINVAL; return -1; }
	r = __real_munmap(a, len);
	if (!r) iv_del((uintptr_t) a, (uintptr_t) a + len);
	return r;
}
int __wrap_madvise(void *a, size_t len, int adv)
{
	if (ip_in_lib) {
		if (ip_fault()) { errno = ENOMEM; return -1; }
		if (!ip_covers((uintptr_t) a, len)) ip_wild++;
	}
	return __real_madvise(a, len, adv);
}
int __wrap_memfd_create(const char *n, unsigned f)
{
	int r;
	if (ip_fault()) { errno = EMFILE; return -1; }
	r = __real_memfd_create(n, f);
	if (ip_in_lib && r >= 0 && r < 4096) fdown[r] = 1;
	return r;
}
int __wrap_ftruncate(int fd, off_t l) { if (ip_fault()) { errno = ENOSPC; return -1; } return __real_ftruncate(fd, l); }
int __wrap_ftruncate64(int fd, off_t l) { return __wrap_ftruncate(fd, l); }
int __wrap_close(int fd)
{
	if (ip_in_lib && fd >= 0 && fd < 4096) {
		if (!fdown[fd]) { ip_wild++; errno = EBADF; return -1; }
		fdown[fd] = 0;
	}
	return __real_close(fd);
}
/*
 * Memory the library allocates ends where its last byte is (up to alignment): what follows is inaccessible, and so is freed
 * memory.  Reading or writing outside of what was asked for ends the process, which is logged.
 */
#define GA_LEN (1UL << 30)
static char *ga_base; static size_t ga_next;
struct ga_blk { uint32_t off; uint32_t pages; size_t n; };
static struct ga_blk ga_tab[1 << 16]; static unsigned ga_n;
static void *ga_alloc(size_t n)
{
	if (n > GA_LEN / 8) return NULL;
	if (!ga_base) {
		void *b = __real_mmap(NULL, GA_LEN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		ga_base = b == MAP_FAILED ? (char *) 1 : b;
	}
	if (ga_base == (char *) 1) return NULL;
	size_t len = (n + 4095) & ~4095UL, at = __atomic_fetch_add(&ga_next, len + 4096, __ATOMIC_RELAXED);
	unsigned k = __atomic_fetch_add(&ga_n, 1, __ATOMIC_RELAXED);
	if (at + len + 4096 > GA_LEN || k >= sizeof ga_tab / sizeof *ga_tab) return NULL;
	if (len && mprotect(ga_base + at, len, PROT_READ | PROT_WRITE)) return NULL;
	char *p = ga_base + at + len - ((n + 15) & ~15UL);
	ga_tab[k] = (struct ga_blk) { (uint32_t) (p - ga_base), (uint32_t) (len / 4096), n };
	return p;
}
static int ga_has(void *p) { return ga_base > (char *) 1 && (char *) p >= ga_base && (char *) p < ga_base + GA_LEN; }
static struct ga_blk *ga_find(void *p)
{
	for (unsigned k = ga_n < sizeof ga_tab / sizeof *ga_tab ? ga_n : sizeof ga_tab / sizeof *ga_tab; k--;) if (ga_tab[k].pages != ~0U && ga_base + ga_tab[k].off == (char *) p) return &ga_tab[k];
	return NULL;
}
static void ga_free(void *p)
{
	struct ga_blk *b = ga_find(p);
	if (!b) abort();	/* not (or no longer) allocated */
	if (b->pages) mprotect((void *) ((uintptr_t) p & ~4095UL), b->pages * 4096UL, PROT_NONE);
	b->pages = ~0U;
}
static void *lib_alloc(size_t n) { void *p = ip_in_lib ? ga_alloc(n) : NULL; return p ? p : __real_malloc(n); }
void *__wrap_malloc(size_t n)
{
	void *p;
	if (ip_fault()) { errno = ENOMEM; return NULL; }
	p = lib_alloc(n);
	if (ip_in_lib) { if (p) memset(p, 0xa5, n); hb_add(p); }
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p;
	if (ip_fault()) { errno = ENOMEM; return NULL; }
	p = ip_in_lib && (!a || b < GA_LEN / a) ? ga_alloc(a * b) : NULL;	/* fresh pages: zero */
	if (!p) p = __real_calloc(a, b);
	if (ip_in_lib) hb_add(p);
	return p;
}
void *__wrap_realloc(void *o, size_t n)
{
	void *p;
	if (ip_fault()) { errno = ENOMEM; return NULL; }
	if (ip_in_lib && (!o || ga_has(o))) {
		struct ga_blk *b = o ? ga_find(o) : NULL;
		if (o && !b) abort();
		p = lib_alloc(n);
		if (p && o) { memcpy(p, o, b->n < n ? b->n : n); ga_free(o); }
	} else p = __real_realloc(o, n);
	if (ip_in_lib && p) { if (o) hb_del(o); hb_add(p); }
	return p;
}
void __wrap_free(void *p)
{
	if (ip_in_lib && p) hb_del(p);
	if (ga_has(p)) ga_free(p); else __real_free(p);
}
char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p;
	if (ip_fault()) { errno = ENOMEM; return NULL; }
	p = lib_alloc(n);
	if (p) memcpy(p, s, n);
	if (ip_in_lib) hb_add(p);
	return p;
}
char *__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p;
	if (ip_fault()) { errno = ENOMEM; return NULL; }
	p = lib_alloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	if (ip_in_lib) hb_add(p);
	return p;
}
int __wrap_posix_memalign(void **o, size_t al, size_t n)
{
	if (ip_fault()) return ENOMEM;
	*o = aligned_alloc(al, (n + al - 1) & ~(al - 1));
	if (ip_in_lib) hb_add(*o);
	return *o ? 0 : ENOMEM;
}
int (*ip_lock_hook)(pthread_mutex_t *), (*ip_unlock_hook)(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	if (ip_in_lib && ip_lock_hook) return ip_lock_hook(m);
	return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	if (ip_in_lib && ip_unlock_hook) return ip_unlock_hook(m);
	return __real_pthread_mutex_unlock(m);
}
void ip_snapshot(void (*cb)(uintptr_t, uintptr_t)) { for (int i = 0; i < niv; i++) cb(iv[i].a, iv[i].e); }
