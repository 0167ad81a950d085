/* Runs harness/area.h on a thread area the kernel does not know, cases on stdin: "<op> <size> <os cpu> <64 bytes in hex>"; one JSON event per case. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "area.h"
#ifdef __cplusplus
extern "C" {
#endif
ptrdiff_t rseq_offset; unsigned int rseq_size, rseq_flags;
static int os_cpu;
int32_t rseq_fallback_current_cpu(void) { return os_cpu; }
#ifdef __cplusplus
}
#endif
static __thread unsigned char other[256] __attribute__((aligned(64))), area[256] __attribute__((aligned(64)));
static void bytes(const char *n, const unsigned char *p, int k) { printf("\"%s\":[", n); for (int i = 0; i < k; i++) printf("%s%d", i ? "," : "", p[i]); printf("],"); }
#define V(n, x) do { uint32_t v_ = (uint32_t)(x); printf("\"%s\":[%u,%u,%u,%u],", n, v_ & 255, v_ >> 8 & 255, v_ >> 16 & 255, v_ >> 24); } while (0)
int main(void)
{
	char op; int size, os; static char hex[512]; unsigned char b[64];
	rseq_offset = (char *)area - (char *)rseq_thread_pointer();
	while (scanf(" %c %d %d %511s", &op, &size, &os, hex) == 4) {
		struct xq q; memset(&q, 0, sizeof q);
		for (int i = 0; i < 64; i++) { unsigned x; sscanf(hex + 2 * i, "%2x", &x); b[i] = x; }
		memcpy(area, b, 64); memset(area + 64, 0x5a, 192); memset(other, 0x5a, 256);
		rseq_size = size; os_cpu = os;
		if (op == 'q') area_query(&q); else if (op == 'u') area_unload(&q); else area_clear(&q);
		for (int i = 64; i < 256; i++) if (area[i] != 0x5a || other[i] != 0x5a) area[0] ^= 0xff;	/* wrote past the area: shown as a change */
		printf("{\"e\":\"%s\",\"be\":0,\"size\":%d,", op == 'q' ? "query" : "unload", size);
		bytes("b", b, 64); bytes("after", area, 64); V("os", os); V("raw", q.raw); V("start", q.start); V("cpu", q.cpu); V("nid", q.nid); V("cid", q.cid);
		printf("\"nav\":%d,\"cav\":%d}\n", q.nav, q.cav);
	}
	return 0;
}
