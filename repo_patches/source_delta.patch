From fb63f8bed29f1775caef6bdec9c68b49a1895275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 01/26] fix: quota: do not exceed the limit on 32-bit unit
 overflow

The sum of the current usage and a request, both in units, was computed
in 32 bits before it was compared with the limit. With a large limit it
wrapped around: the request was granted beyond the limit (or an assertion
failed in a debug build). Compare the request with what is left instead.
Also let the whole QUOTA_MAX be released in one call.
---
 include/small/quota.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..2b37690 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,12 +140,13 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
+		/* Do not add up first: the sum may overflow 32 bits. */
+		if (size_in_units > total_in_units - used_in_units)
+			return -1;
+
 		uint32_t new_used_in_units = used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
-		if (new_used_in_units > total_in_units)
-			return -1;
-
 		uint64_t new_value =
 			((uint64_t) total_in_units << 32) | new_used_in_units;
 
@@ -159,7 +160,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From 10d51397bffa5ee942a5d488e46c2f8955354c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 02/26] fix: quota_lessor: do not refuse a lease the source can
 satisfy

The amount taken from the source was halved from 1 MB down until it was
below the required one, so the required amount itself was normally never
tried: with less than the next power of two left a lease failed although
the source quota had enough.
---
 include/small/quota_lessor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/small/quota_lessor.h b/include/small/quota_lessor.h
index cdd15f7..6e2e0de 100644
--- a/include/small/quota_lessor.h
+++ b/include/small/quota_lessor.h
@@ -127,16 +127,18 @@ quota_lease(struct quota_lessor *lessor, ssize_t size)
 	size_t required = size + lessor->leased - lessor->used;
 	size_t use = required > QUOTA_USE_MIN ? required : QUOTA_USE_MIN;
 
-	for (; use >= required; use = use/2) {
-
+	for (;;) {
 		ssize_t used = quota_use(lessor->source, use);
 		if (used >= 0) {
 			lessor->used += used;
 			lessor->leased += size;
 			return size;
 		}
+		if (use <= required)
+			return -1;
+		/* Ask for less, but in the end for what is required. */
+		use = use / 2 > required ? use / 2 : required;
 	}
-	return -1;
 }
 
 /*
-- 
2.43.0


From 4b1ed861219fd72b6fd8788338b120542f3d7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 03/26] fix: lf_lifo: lf_lifo_is_empty() of a list that was in
 use

A list emptied by lf_lifo_pop() keeps the ABA counter in the low bits of
its head, so comparing the head with NULL reported any list which had
ever had an element as not empty.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..2c46d48 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* The head of an empty list still carries the ABA value. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From 9fff860a2e4acd75d1044ec1ea1437b84e70c8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 04/26] fix: small: do not allocate from a pool deactivated by
 the sweep

smalloc() retried the allocation with the pool chosen before sparse pools
were swept. If the sweep had just deactivated that pool, the request could
be refused though the pool now in charge had free objects, or be served by
the deactivated pool, after which small_alloc_info() reported a real size
bigger than the block and the waste of the pool was overestimated forever.
---
 small/small.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/small.c b/small/small.c
index 666cb58..25132ad 100644
--- a/small/small.c
+++ b/small/small.c
@@ -346,6 +346,8 @@ smalloc(struct small_alloc *alloc, size_t size)
 		 * pools and release their sparse slabs. It might not help tho.
 		 */
 		small_mempool_group_sweep_sparse(alloc);
+		/* The pool could have been deactivated. */
+		pool = &small_mempool->used_pool->pool;
 		ptr = mempool_alloc(pool);
 	}
 
-- 
2.43.0


From 60b7c5aaf28ffb9f19b0f08c3e833bd6ba893e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 05/26] fix: region: region_reset() must leave the region empty

Only the newest block was emptied, so a region of several blocks was still
partially used after the reset.
---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..0bb2a05 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -307,13 +307,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From a063bc7ddae7a08f265e2e8e27a18583c1c01653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 06/26] fix: region: call the truncation callback from
 region_reset()

As documented it is called on any truncation; region_free() and the
sanitizer build of region_reset() do call it.
---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 0bb2a05..bf68f00 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -314,6 +314,8 @@ region_reset(struct region *region)
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
+	if (small_unlikely(region->on_truncate_cb != NULL))
+		region->on_truncate_cb(region, 0, region->cb_arg);
 }
 
 /** How much memory is used by this region. */
-- 
2.43.0


From 36f758fbef08adab83e12e213bda8946b474366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 07/26] fix: region: region_reserve_cb() read a non-existent
 block on failure

---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index bf68f00..ac664a4 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -358,6 +358,8 @@ region_reserve_cb(void *ctx, size_t *size)
 {
 	struct region *region = (struct region *) ctx;
 	void *ptr = region_reserve(region, *size);
+	if (ptr == NULL)
+		return NULL;
 	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
 					       struct rslab,
 					       slab.next_in_list);
-- 
2.43.0


From 3bf4aaf7bc71e5bdeff7a0a8aa9d5f046460b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 08/26] fix: lsregion: do not skip data of a reused slab in
 lsregion_to_iovec()

The cached slab got its id when it was cached, so slabs allocated before it
was put back to the end of the list had bigger ids and a savepoint in such a
slab hid everything allocated later in the reused one.
---
 small/lsregion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..2b165ec 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -75,6 +75,11 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/*
+		 * Slabs created since this one was cached have bigger
+		 * ids. Keep ids growing towards the end of the list.
+		 */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From 62ec7a77e3a6d7a6b4b2f031d7cec4e16539d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 09/26] fix: matras: support extents whose id space exceeds 32
 bits

With large extents and small blocks shift1 is 32 or more: ids were split
with an undefined shift and the loops over a space of up to 2^32 blocks
overflowed their 32-bit counters.
---
 include/small/matras.h |  2 +-
 small/matras.c         | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/small/matras.h b/include/small/matras.h
index 85d436c..431edb9 100644
--- a/include/small/matras.h
+++ b/include/small/matras.h
@@ -427,7 +427,7 @@ matras_view_get_no_check(const struct matras *m, const struct matras_view *v,
 	assert(id < v->block_count);
 
 	/* see "Shifts and masks explanation" for details */
-	matras_id_t n1 = id >> m->shift1;
+	matras_id_t n1 = (uint64_t)id >> m->shift1;
 	matras_id_t n2 = (id & m->mask1) >> m->shift2;
 	matras_id_t n3 = (id & m->mask2);
 
diff --git a/small/matras.c b/small/matras.c
index 991eeac..d5f0102 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -79,7 +79,7 @@ matras_create(struct matras *m, matras_id_t block_size,
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
 	m->shift2 = log1 - log2;
-	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
+	m->mask1 = (matras_id_t)(((uint64_t)1 << m->shift1) - 1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
 }
 
@@ -146,9 +146,10 @@ matras_destroy(struct matras *m)
 	if (m->head.block_count == 0)
 		return;
 
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	matras_id_t i1 = 0, i2;
+	size_t j1 = 0, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
@@ -187,7 +188,7 @@ matras_alloc_internal(struct matras *m)
 	 * (n2 == 0 && n3 == 0) is identical to (id & mask1 == 0)
 	 */
 	matras_id_t extent1_available = id;
-	matras_id_t n1 = id >> m->shift1;
+	matras_id_t n1 = (uint64_t)id >> m->shift1;
 	id &= m->mask1;
 	matras_id_t extent2_available = id;
 	matras_id_t n2 = id >> m->shift2;
@@ -272,7 +273,7 @@ matras_dealloc(struct matras *m)
 	/* Deleting extents in same way (but reverse order) like in matras_alloc
 	 * See matras_alloc for details. */
 	bool extent1_free = !id;
-	matras_id_t n1 = id >> m->shift1;
+	matras_id_t n1 = (uint64_t)id >> m->shift1;
 	id &= m->mask1;
 	bool extent2_free = !id;
 	matras_id_t n2 = id >> m->shift2;
@@ -413,9 +414,10 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	void **extent1p = 0;
 	if (prev_view)
 		extent1p = (void **) prev_view->root;
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	matras_id_t i1 = 0, i2;
+	size_t j1 = 0, j2;
 	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
@@ -461,7 +463,7 @@ matras_touch_no_check(struct matras *m, matras_id_t id)
 	assert(matras_needs_touch(m, id));
 
 	/* see "Shifts and masks explanation" for details */
-	matras_id_t n1 = id >> m->shift1;
+	matras_id_t n1 = (uint64_t)id >> m->shift1;
 	matras_id_t n2 = (id & m->mask1) >> m->shift2;
 	matras_id_t n3 = id & m->mask2;
 
-- 
2.43.0


From a20103d15ef4d44712a736635a64d588a4bcda09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 10/26] fix: matras: free extents added between two read views
 with the later one

An extent table shared with the previous view was skipped on destruction
of a view, along with extents the previous view does not cover: these were
lost when the later view was destroyed.
---
 small/matras.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index d5f0102..f991166 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -407,8 +407,13 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
-		return;
+	/*
+	 * An extent shared with the previous view isn't freed, but it may refer
+	 * to extents beyond the end of that view, which were added after it had
+	 * been created.
+	 */
+	bool root_is_shared = prev_view && v->root == prev_view->root &&
+			      prev_view->block_count;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
 	void **extent1p = 0;
@@ -428,10 +433,10 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
+		bool extent2_is_shared = false;
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
 			extent2p = (void **) extent1p[i1];
+			extent2_is_shared = extent2 == extent2p;
 		}
 		for (i2 = j2 = 0;
 		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
@@ -447,9 +452,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (!extent2_is_shared)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!root_is_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 2499654a0b8a6fc16965ce96442b06f8cc7ef664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 11/26] fix: static: refuse requests whose size overflows the
 position

static_reserve() and friends returned a pointer instead of NULL for a size
close to SIZE_MAX.
---
 include/small/static.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..e1ff8c6 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,7 +73,7 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
-	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
+	if (size > SMALL_STATIC_SIZE - static_storage_pos) {
 		if (size > SMALL_STATIC_SIZE)
 			return NULL;
 		static_storage_pos = 0;
@@ -105,6 +105,8 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From 4bd0e5cfd858ab2511347f1e9f3151d1dde61eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 12/26] fix: features: do not shift by an unknown feature
 number

A number of 64 or more made an undefined shift before it was checked.
---
 small/small_features.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/small/small_features.c b/small/small_features.c
index 06654eb..ea7edd8 100644
--- a/small/small_features.c
+++ b/small/small_features.c
@@ -113,13 +113,11 @@ static rt_helper_t rt_helpers[FEATURE_MAX] = {
 bool
 small_test_feature(unsigned int feature)
 {
-	uint64_t mask = SMALL_FEATURE_MASK(feature);
-
 	if (feature >= FEATURE_MAX)
 		return false;
 
 	/* Make sure it is compiled in. */
-	if (!(builtin_mask & mask))
+	if (!(builtin_mask & SMALL_FEATURE_MASK(feature)))
 		return false;
 
 	/*
-- 
2.43.0


From ed2ac2bd2741323fe7611cf53981a5eed36819e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 13/26] fix: rlist: rlist_cut_before() must not look at the
 discarded list

It compared the item with the first element of the list being
overwritten instead of the list being cut: if that stale pointer happened
to be the item nothing was moved.
---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From ffaa73a412067af3efaaf1f9da1300aba7419167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 14/26] fix: mempool: free the slab of a single object when it
 becomes empty

---
 small/mempool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..20ae3f0 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,9 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+	/* A slab of a single object is made hot and empty by one free. */
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From ef0be5cb51210068844617f38c3f9e79bd494cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 15/26] fix: slab_cache: initialize the used size in the ASAN
 implementation

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From fdcfaf8c1ec3bbc46c96de554eb1915388acadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 16/26] fix: region: join the end of an allocation in the ASAN
 implementation

---
 small/region_asan.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..73e473f 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -144,8 +144,10 @@ region_join(struct region *region, size_t size)
 		size_t copy_size = alloc->used;
 		if (offset < copy_size)
 			copy_size = offset;
+		/* The last copied chunk may be the end of an allocation. */
+		char *payload = small_asan_payload_from_header(alloc);
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       payload + alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0


From faffd938b841f81dc470be728ccc9ad0ef0c6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 17/26] fix: lsregion: flush all allocations of the same id in
 the ASAN implementation

---
 include/small/lsregion_asan.h | 8 ++++++++
 small/lsregion_asan.c         | 8 ++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion_asan.h b/include/small/lsregion_asan.h
index 5876dca..8a16550 100644
--- a/include/small/lsregion_asan.h
+++ b/include/small/lsregion_asan.h
@@ -55,6 +55,8 @@ struct lsregion {
 	struct rlist allocations;
 	/** Total size of allocated memory. */
 	size_t used;
+	/** The last used allocation sequence number. */
+	int64_t slab_id;
 };
 
 /** Extra data associated with each lsregion allocation. */
@@ -70,6 +72,11 @@ struct lsregion_allocation {
 	size_t used;
 	/** Allocation id. */
 	int64_t id;
+	/**
+	 * Allocation sequence number. In contrast to id it is unique, so
+	 * that lsregion_svp can tell allocations with the same id.
+	 */
+	int64_t slab_id;
 	/** Allocation alignment. */
 	size_t alignment;
 };
@@ -79,6 +86,7 @@ lsregion_create(struct lsregion *lsregion, struct slab_arena *arena)
 {
 	(void)arena;
 	lsregion->used = 0;
+	lsregion->slab_id = 0;
 	rlist_create(&lsregion->allocations);
 }
 
diff --git a/small/lsregion_asan.c b/small/lsregion_asan.c
index c153407..391d560 100644
--- a/small/lsregion_asan.c
+++ b/small/lsregion_asan.c
@@ -51,6 +51,7 @@ lsregion_prepare_buf(struct lsregion *lsregion, size_t size, size_t alignment)
 	alloc->size = size;
 	alloc->used = 0;
 	alloc->id = LSLAB_NOT_USED_ID;
+	alloc->slab_id = ++lsregion->slab_id;
 	alloc->alignment = alignment;
 	rlist_add_tail_entry(&lsregion->allocations, alloc, link);
 	return alloc;
@@ -109,14 +110,17 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int64_t max_alloc_id = LSLAB_NOT_USED_ID;
 	int cnt = 0;
 	rlist_foreach_entry(alloc, &lsregion->allocations, link) {
+		/* There might be a reserved allocation at the end of the list. */
+		if (alloc->id == LSLAB_NOT_USED_ID)
+			break;
 		/* An already seen allocation. */
-		if (alloc->id <= prev_id)
+		if (alloc->slab_id <= prev_id)
 			continue;
 		if (cnt >= max_iovcnt)
 			break;
 		iov->iov_base = small_asan_payload_from_header(alloc);
 		iov->iov_len = alloc->used;
-		svp->slab_id = alloc->id;
+		svp->slab_id = alloc->slab_id;
 		/*
 		 * This isn't correct but will do for tests which span one slab
 		 * in a normal lsregion implementation. pos isn't used to
-- 
2.43.0


From 1b271a37b3b0d76b977b3b36aca37ad4afaf4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 18/26] fix: obuf: poison the rolled back part of a vector in
 the ASAN implementation

---
 small/obuf_asan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/small/obuf_asan.c b/small/obuf_asan.c
index f885a35..eeace4c 100644
--- a/small/obuf_asan.c
+++ b/small/obuf_asan.c
@@ -156,6 +156,9 @@ obuf_rollback_to_svp(struct obuf *buf, struct obuf_svp *svp)
 	buf->used = svp->used;
 	buf->iov[buf->pos].iov_len = svp->iov_len;
 	buf->reserved = false;
+	/* The last vector may be kept in part. */
+	ASAN_POISON_MEMORY_REGION(obuf_unallocated_ptr(buf),
+				  obuf_unallocated_size(buf));
 }
 
 void
-- 
2.43.0


From 6b3e02ed3b25033ee70180e5c0e2d6aedc3438be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:02 +0000
Subject: [PATCH 19/26] fix: region: account for blocks of 4 GB and more

The used and unused sizes of a block were 32-bit, so an allocation of 4 GB
or more was counted modulo 2^32 and region_truncate() freed too much.
---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index ac664a4..9772097 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -284,8 +284,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From 12bf8f78202e76e94b9c65c4308efba33ed1b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 20/26] fix: region: region_alloc_array() must not truncate the
 size to int

---
 include/small/region.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index 9772097..2874fad 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -399,7 +399,7 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_ = sizeof(T) * (count);					\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From 288a5c0cde91c68167f2c8e0e1c26d2a31098747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 21/26] fix: rb: iterate over trees higher than 48

A tree of n nodes is up to 2 * log2(n) high, so filled in descending
order it is 49 nodes high with 50331646 nodes already; iterators and
walks wrote past the end of their path then.
---
 include/small/rb.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/small/rb.h b/include/small/rb.h
index 12dc6bd..8daa9ab 100644
--- a/include/small/rb.h
+++ b/include/small/rb.h
@@ -64,9 +64,9 @@ enum {
 /*
  * Max height of the tree which can be iterated over.
  * The tree can have no more nodes than x86_64 has distinct
- * addresses.
+ * addresses, 2^48, and is up to 2 * log2(number of nodes) high.
  */
-#define RB_MAX_TREE_HEIGHT 48
+#define RB_MAX_TREE_HEIGHT 96
 
 /* Left accessors. */
 #define	rbtn_left_get(a_type, a_field, a_node)				\
-- 
2.43.0


From ec795f011d94caf3d84985f085f7cc036dd55f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 22/26] fix: slab_cache: refuse sizes near SIZE_MAX

Adding the size of the header wrapped around, so slab_get(), slab_get_large()
and smalloc() returned a tiny block for a request near SIZE_MAX.
---
 small/slab_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..0b73005 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,8 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +319,8 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From e8b51a7b814f01ae127580f17a5b8f7f8083b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 23/26] fix: region: refuse sizes near SIZE_MAX

Adding the alignment or the size of the header wrapped around, so an
allocation near SIZE_MAX got a tiny block.
---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 2874fad..42da87e 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (size > SIZE_MAX - alignment)
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..c3b0af5 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (size > SIZE_MAX - rslab_sizeof())
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From 5c36ec6c6733567a6c78120fea4ec85fb49a74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 24/26] fix: lsregion: refuse sizes near SIZE_MAX

The end of the block wrapped around, so it seemed to fit into the slab.
---
 include/small/lsregion.h | 3 ++-
 small/lsregion.c         | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..7133d52 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -247,7 +247,8 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 2b165ec..2f30ab8 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,9 +47,12 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
+	if (size > SIZE_MAX - alignment - lslab_sizeof())
+		return NULL;
 	/*
 	 * Need to allocate more, since it can happen, that the
 	 * new slab won't be aligned by the needed alignment, and
-- 
2.43.0


From 18155e1c2727ff926f03a0ab4aa4183d430e79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 25/26] fix: ibuf: refuse sizes near SIZE_MAX

The end of the room wrapped around, so it seemed to fit into the buffer;
and doubling the capacity never reached a size above SIZE_MAX / 2.
---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..524f412 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -69,9 +69,12 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
+	/* No such slab; it can't be doubled up to, either. */
+	if (size > SIZE_MAX / 2 - used)
+		return NULL;
 	/*
 	 * Check if we have enough space in the
 	 * current buffer. In this case de-fragment it
-- 
2.43.0


From b15a0b91407f3f78293f4ff50789addd8c237f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 26/26] fix: obuf: refuse sizes near SIZE_MAX

The end of the room wrapped around, so it seemed to fit into the buffer;
and doubling the capacity never reached a size above SIZE_MAX / 2.
---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..b82f568 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -41,6 +41,9 @@ obuf_alloc_pos(struct obuf *buf, size_t size)
 	assert(buf->capacity[pos] == 0 && buf->iov[pos].iov_len == 0);
 	assert(pos < SMALL_OBUF_IOV_MAX);
 	assert(buf->n_iov == pos);
+	/* No such slab; it can't be doubled up to, either. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	/** Initialize the next pos. */
 	buf->iov[pos+1] = buf->iov[pos];
 	buf->capacity[pos+1] = buf->capacity[pos];
@@ -116,7 +119,7 @@ obuf_dup(struct obuf *buf, const void *data, size_t size)
 	 * @pre buf->pos points at an array of allocated buffers.
 	 * The array ends with a zero-initialized buffer.
 	 */
-	while (iov->iov_len + to_copy > capacity) {
+	while (to_copy > capacity - iov->iov_len) {
 		/*
 		 * The data doesn't fit into this buffer.
 		 * It could be because the buffer is not
@@ -187,7 +190,9 @@ obuf_reserve_slow(struct obuf *buf, size_t size)
 	/* Make sure the next buffer can store size. */
 	if (size > capacity) {
 		if (capacity > 0) {
-			/* Simply realloc. */
+			/* Simply realloc, if there may be such a slab. */
+			if (size > SIZE_MAX / 2)
+				return NULL;
 			while (capacity < size)
 				capacity = capacity * 2;
 			struct slab *slab = slab_get(buf->slabc, capacity);
-- 
2.43.0

