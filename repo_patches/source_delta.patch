From 1236c2a13ad9a1d16603714a0605e61efd77043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 01/10] fix: mempool set: honour the init values of set
 malloc_init

rseq_mempool_set_percpu_malloc_init() asked for a zeroed item, which takes
precedence over the init values: the item was zeroed instead of being
initialized with the content of @init_ptr.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From 0428dc48aa32e606a75f7cfa56a5542b9adcf0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 02/10] fix: mempool: report munmap failure from pool destroy

rseq_mempool_destroy() returned 0 when unmapping a range failed, even
though the pool was not destroyed.
---
 src/rseq-mempool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..1de1b75 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -910,7 +910,8 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
 		list_del(&range->node);
-		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
+		ret = rseq_mempool_range_destroy(pool, range, mapping_accessible);
+		if (ret) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
 			goto end;
-- 
2.43.0


From 97e44034cbc6ee73d3a62ca3df8a6d39890c4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 03/10] fix: mempool: allow retrying destroy of a robust pool
 after a failure

When unmapping one of the ranges of a robust pool fails, ranges which
precede it are already unmapped. Calling rseq_mempool_destroy() again then
walked the free list through the unmapped ranges.
---
 src/rseq-mempool.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 1de1b75..19078d0 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -907,6 +907,13 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	check_free_list(pool, mapping_accessible);
 	check_pool_poison(pool, mapping_accessible);
 
+	/*
+	 * The pool content is now validated. In case of partial failure
+	 * below, ranges linked by the free list may be unmapped already:
+	 * don't validate again when destroy is retried.
+	 */
+	pool->attr.robust_set = false;
+
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
 		list_del(&range->node);
-- 
2.43.0


From a41b71ba8260e24965f6795f474b92fddbdb96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 04/10] fix: mempool: refuse item lengths which have no next
 power of two

For item_len above 2^63 (2^31 on 32-bit), the order is the number of bits of
unsigned long, and the shift computing the rounded item length is undefined.
On x86-64 the pool was created with 1-byte items.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 19078d0..f9652f0 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -945,7 +945,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= (int) BIT_PER_ULONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From 232316dfb08880b5764cce3872837834307f675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 05/10] fix: mempool: refuse configurations overflowing the
 mapping size

stride * max_nr_cpus (plus init values, free list, header and alignment)
could wrap around, which created a pool with a mapping smaller than what its
per-cpu areas span.
---
 src/rseq-mempool.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index f9652f0..246c6f0 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -937,6 +937,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 	struct rseq_mempool_attr attr = {};
 	struct rseq_mempool_range *range;
 	struct rseq_mempool *pool;
+	size_t nr_strides;
 	int order;
 
 	/* Make sure each item is large enough to contain free list pointers. */
@@ -1004,6 +1005,20 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 		errno = EINVAL;
 		return NULL;
 	}
+	/*
+	 * The mapping holding the header, per-cpu areas, init values and
+	 * free list, with one extra stride for alignment, should be
+	 * representable.
+	 */
+	nr_strides = (size_t) attr.max_nr_cpus + 1;
+	if (attr.populate_policy == RSEQ_MEMPOOL_POPULATE_COW_INIT)
+		nr_strides++;
+	if (attr.robust_set)
+		nr_strides++;
+	if (attr.stride > (SIZE_MAX - POOL_HEADER_NR_PAGES * rseq_get_page_len()) / nr_strides) {
+		errno = EINVAL;
+		return NULL;
+	}
 
 	pool = calloc(1, sizeof(struct rseq_mempool));
 	if (!pool)
-- 
2.43.0


From d972c99b3bdd0f1db5f11b7b205f025b5deed168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:32 +0000
Subject: [PATCH 06/10] fix: mempool: allow destroy of robust COW_INIT pool
 with live items after fork

A child process can destroy a COW_INIT pool to free its remaining resources,
but it cannot free the items allocated by its parent. Do not report them as
leaks.
---
 src/rseq-mempool.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 246c6f0..6d8727b 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -574,7 +574,8 @@ void check_pool_poison(const struct rseq_mempool *pool, bool mapping_accessible)
 
 /* Always inline for __builtin_return_address(0). */
 static inline __attribute__((always_inline))
-void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range)
+void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range,
+		bool mapping_accessible)
 {
 	unsigned long *bitmap = range->alloc_bitmap;
 	size_t count, total_leaks = 0;
@@ -584,8 +585,11 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 
 	count = ((pool->attr.stride >> pool->item_order) + BIT_PER_ULONG - 1) / BIT_PER_ULONG;
 
-	/* Assert that all items in the pool were freed. */
-	for (size_t k = 0; k < count; ++k)
+	/*
+	 * Assert that all items in the pool were freed. Items which were
+	 * allocated across fork cannot be freed by the child process.
+	 */
+	for (size_t k = 0; mapping_accessible && k < count; ++k)
 		total_leaks += rseq_hweight_ulong(bitmap[k]);
 	if (total_leaks) {
 		fprintf(stderr, "%s: Pool \"%s\" (%p) has %zu leaked items on destroy, caller: %p.\n",
@@ -603,7 +607,7 @@ int rseq_mempool_range_destroy(struct rseq_mempool *pool,
 		struct rseq_mempool_range *range,
 		bool mapping_accessible)
 {
-	destroy_alloc_bitmap(pool, range);
+	destroy_alloc_bitmap(pool, range, mapping_accessible);
 	if (!mapping_accessible) {
 		/*
 		 * Only the header pages are populated in the child
-- 
2.43.0


From d98c29589289f20251ee9fd97998eb97a19ab4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:19 +0000
Subject: [PATCH 07/10] fix: rseq: register an area covering the kernel feature
 size

The allocation size passed to the rseq system call was derived from
rseq_size, which is zero when the first thread registers. On a kernel
whose feature size is above 32 bytes, the first registration would thus
use 32 bytes, while its unregistration (and registration of following
threads) would use the feature size. The unregistration then fails, and
the advertised size exceeds the registered area.
---
 src/rseq.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..ce2b20f 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,20 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and large enough to hold
+ * the features supported by the kernel.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From 70138b49dc596eca20f6064f1bb78178a0c169f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:19 +0000
Subject: [PATCH 08/10] fix: rseq: reserve the whole thread area for kernel
 extensions

The alignment attribute of the __rseq_abi TLS variable does not extend
its size: other TLS variables were allocated within the area the kernel
may write to when its feature size exceeds 32 bytes.
---
 src/rseq.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index ce2b20f..ca5e8cf 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -65,14 +65,18 @@ static int rseq_ownership;
 #define ORIG_RSEQ_ALLOC_SIZE		32
 
 /*
- * The alignment on RSEQ_THREAD_AREA_ALLOC_SIZE guarantees that the
- * rseq_abi structure allocated size is at least
- * RSEQ_THREAD_AREA_ALLOC_SIZE bytes to hold extra space for yet unknown
- * kernel rseq extensions.
+ * Reserve RSEQ_THREAD_AREA_ALLOC_SIZE bytes for the rseq area to hold
+ * extra space for yet unknown kernel rseq extensions. Note that
+ * aligning the variable does not extend its size.
  */
 static
-__thread struct rseq_abi __rseq_abi __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
-	.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+__thread union {
+	struct rseq_abi abi;
+	char reserved[RSEQ_THREAD_AREA_ALLOC_SIZE];
+} __rseq __attribute__((tls_model("initial-exec"), aligned(RSEQ_THREAD_AREA_ALLOC_SIZE))) = {
+	.abi = {
+		.cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED,
+	},
 };
 
 static int sys_rseq(struct rseq_abi *rseq_abi, uint32_t rseq_len,
@@ -164,7 +168,7 @@ int rseq_register_current_thread(void)
 		/* Treat libc's ownership as a successful registration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
+	rc = sys_rseq(&__rseq.abi, get_rseq_min_alloc_size(), 0, RSEQ_SIG);
 	if (rc) {
 		/*
 		 * After at least one thread has registered successfully
@@ -198,7 +202,7 @@ int rseq_unregister_current_thread(void)
 		/* Treat libc's ownership as a successful unregistration. */
 		return 0;
 	}
-	rc = sys_rseq(&__rseq_abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
+	rc = sys_rseq(&__rseq.abi, get_rseq_min_alloc_size(), RSEQ_ABI_FLAG_UNREGISTER, RSEQ_SIG);
 	if (rc)
 		return -1;
 	return 0;
@@ -282,7 +286,7 @@ void rseq_init(void)
 	rseq_ownership = 1;
 
 	/* Calculate the offset of the rseq area from the thread pointer. */
-	rseq_offset = (uintptr_t)&__rseq_abi - (uintptr_t)rseq_thread_pointer();
+	rseq_offset = (uintptr_t)&__rseq.abi - (uintptr_t)rseq_thread_pointer();
 
 	/* rseq flags are deprecated, always set to 0. */
 	rseq_flags = 0;
-- 
2.43.0


From e257d2c2a47e24357438ccae2306f16092cc0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:58 +0000
Subject: [PATCH 09/10] fix: mempool.h: parenthesize macro arguments

rseq_percpu_ptr() applied its cast and multiplication to the first operand
of a stride expression only, giving the wrong address for a stride such as
"base + extra" or "cond ? a : b"; rseq_mempool_free() likewise cast only
the first operand of its pointer expression.
---
 include/rseq/mempool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rseq/mempool.h b/include/rseq/mempool.h
index b28d18f..67b12b3 100644
--- a/include/rseq/mempool.h
+++ b/include/rseq/mempool.h
@@ -257,7 +257,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
  * This API is MT-safe.
  */
 #define rseq_mempool_free(_ptr, _stride...)		\
-	librseq_mempool_percpu_free((void __rseq_percpu *) _ptr, RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
+	librseq_mempool_percpu_free((void __rseq_percpu *) (_ptr), RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))
 
 /*
  * rseq_percpu_ptr: Offset a per-cpu pointer for a given CPU.
@@ -285,7 +285,7 @@ void librseq_mempool_percpu_free(void __rseq_percpu *ptr, size_t stride);
 #define rseq_percpu_ptr(_ptr, _cpu, _stride...)		\
 	((__typeof__(*(_ptr)) *) ((uintptr_t) (_ptr) +	\
 		((unsigned int) (_cpu) *		\
-			(uintptr_t) RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE))))
+			(uintptr_t) (RSEQ_PARAM_SELECT_ARG1(_, ##_stride, RSEQ_MEMPOOL_STRIDE)))))
 
 /*
  * rseq_mempool_set_create: Create a pool set.
-- 
2.43.0


From 52e8cbb716a84d3b54a4ba88e55d5fd871ba8eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:35 +0000
Subject: [PATCH 10/10] fix: rseq_smp_mb used a 64-bit register on i386

The full barrier macro is shared by the x86-64 and i386 code but named
%rsp, which does not exist in 32-bit mode: no i386 program using
rseq_smp_mb() could be assembled.
---
 include/rseq/arch/x86.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/rseq/arch/x86.h b/include/rseq/arch/x86.h
index a6a4068..10fe322 100644
--- a/include/rseq/arch/x86.h
+++ b/include/rseq/arch/x86.h
@@ -46,8 +46,13 @@
  */
 
 /* CPU memory barrier. */
+#ifdef __x86_64__
 #define rseq_smp_mb()	\
 	__asm__ __volatile__ ("lock; addl $0,-128(%%rsp)" ::: "memory", "cc")
+#else
+#define rseq_smp_mb()	\
+	__asm__ __volatile__ ("lock; addl $0,-128(%%esp)" ::: "memory", "cc")
+#endif
 /* CPU read memory barrier */
 #define rseq_smp_rmb()	rseq_barrier()
 /* CPU write memory barrier */
-- 
2.43.0

