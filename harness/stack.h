/* The quota - arena - slab cache stack under an allocator being checked. */
#pragma once
#include "pbt.h"
#include "sysmem.h"
#include "blocks.h"
#include <sys/mman.h>
#include <small_config.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"

struct Stack {
	struct quota quota;
	struct slab_arena arena;
	struct slab_cache caches[2];
	unsigned ncaches;
	size_t A;		/* arena slab size */
	size_t order0;		/* size of the smallest slab */
	unsigned order_max;
	size_t limit;
	bool limited;		/* the limit is low enough to be hit */
	bool faults;		/* some system calls fail */
	bool gigantic;		/* slabs of up to 2 GB */

	struct Opts {
		bool limit = true;	/* generate low limits */
		bool faults = true;	/* generate failing mmap/malloc */
		size_t max_A = 1 << 20, min_A = 0;
		unsigned max_caches = 1;
		unsigned gigantic = 0;		/* in one of so many cases */
		size_t unlimited = 1ULL << 34;
		unsigned limit_lo = 1, limit_hi = 16;	/* in arena slabs */
	};

	void create(Src &s) { create(s, Opts()); }
	void create(Src &s, const Opts &o)
	{
		A = s.pick<size_t>({65536, 65536, 65536, 131072, 262144});
		if (o.max_A >= (1 << 20) && s.chance(1, 12))
			A = 1 << 20;
		if (o.max_A >= (4 << 20) && s.chance(1, 60))
			A = 4 << 20;
		A = std::max(A, o.min_A);
		gigantic = HUGE_BLOCKS && o.gigantic && s.chance(1, o.gigantic);
		sparse_from = gigantic ? 1 << 20 : 64 << 20;
		if (gigantic) {
			A = 1ULL << (s.draw(3) ? 29 + s.draw(3) : 23 + s.draw(6));
			sm.map_limit = 64ULL << 30;
		}
		order_max = __builtin_ctzl(A / 4096);
		if (order_max > 15)
			order_max = 15;
		order0 = A >> order_max;
		limited = o.limit && s.draw(3) == 2 && !gigantic;
		limit = limited ? A * s.range(o.limit_lo, o.limit_hi) : o.unlimited;
		if (limited && s.draw(2))
			limit -= s.draw(A);
		quota_init(&quota, limit);
#ifdef ENABLE_ASAN
		/* what a quota lessor asks for at least */
		if (quota_total(&quota) < QUOTA_USE_MIN)
			quota_set(&quota, QUOTA_USE_MIN + 1024);
#endif
		limit = quota_total(&quota);
		size_t prealloc = s.draw(3) == 2 ? A * s.range(1, gigantic ? 2 : 4) : 0;
		if (prealloc > limit)
			prealloc = 0;
		sm.place = (decltype(sm.place))s.draw(3);
		sm.unaligned_p = s.pick({0, 0, 100});
		sm.tight = s.chance(1, 3);
		sm.far_lb = s.chance(1, 8) ? 32 + 4 * s.draw(4) : 0;
		if (slab_arena_create(&arena, &quota, prealloc, A, MAP_PRIVATE) != 0)
			FAIL("create", "slab_arena_create failed");
		ncaches = o.max_caches > 1 ? 1 + s.draw(o.max_caches) : 1;
		for (unsigned i = 0; i < ncaches; i++) {
#ifdef ENABLE_ASAN
			memset(&caches[i], 0xa5, sizeof(caches[i]));
#endif
			slab_cache_create(&caches[i], &arena);
		}
		faults = o.faults && s.draw(5) == 4;
#ifndef ENABLE_ASAN
		if (faults) {
			sm.mmap_p = s.pick({8, 32, 128});
			sm.malloc_p = s.pick({0, 8, 32, 128});
		}
#else
		faults = false;
#endif
		TR("arena slab %zu prealloc %zu limit %zu caches %u mmap_p %u malloc_p %u", A, prealloc,
		   limit, ncaches, sm.mmap_p, sm.malloc_p);
	}
	struct slab_cache *cache(unsigned i = 0) { return &caches[i]; }
	void no_faults()
	{
		sm.mmap_p = sm.malloc_p = 0;
		faults = false;
	}
	/* Can the system below refuse memory at all? */
	bool may_fail() const { return limited || faults; }

#ifndef ENABLE_ASAN
	/* Free slabs inside the arena, taken out and put back. */
	size_t arena_cached()
	{
		unsigned p0 = sm.mmap_p, p1 = sm.malloc_p;
		sm.mmap_p = sm.malloc_p = 0;
		size_t total = quota_total(&quota);
		quota_set(&quota, quota_used(&quota));
		std::vector<void *> v;
		void *p;
		while ((p = slab_map(&arena)))
			v.push_back(p);
		for (size_t i = v.size(); i-- > 0;)
			slab_unmap(&arena, v[i]);
		quota_set(&quota, total);
		sm.mmap_p = p0;
		sm.malloc_p = p1;
		return v.size();
	}
#endif
	void check_quota(const char *when)
	{
		CHECK(quota_used(&quota) <= quota_total(&quota), "overdrawn", "%s: quota used %zu of %zu",
		      when, quota_used(&quota), quota_total(&quota));
	}
	/* All allocators on the caches were destroyed. */
	void destroy(bool slabs_returned = true)
	{
		no_faults();
		for (unsigned i = 0; i < ncaches; i++) {
			if (slabs_returned) {
				CHECK(slab_cache_used(&caches[i]) == 0, "cache-used", "slab cache %u still "
				      "has %zu used after everything on it was destroyed", i,
				      slab_cache_used(&caches[i]));
				slab_cache_check(&caches[i]);
			}
			slab_cache_destroy(&caches[i]);
		}
		CHECK(sm.heap.empty(), "leak", "%zu heap blocks (%zu bytes) left after destroying the "
		      "caches", sm.heap.size(), sm.heap_bytes);
#ifndef ENABLE_ASAN
		size_t u = quota_used(&quota), C = arena_cached();
		CHECK(u == C * A, "quota", "after destroying the caches %zu bytes are charged, the arena "
		      "has %zu slabs of %zu", u, C, A);
#else
		CHECK(quota_used(&quota) == 0, "quota", "after destroying the caches %zu bytes are charged",
		      quota_used(&quota));
#endif
		slab_arena_destroy(&arena);
		sm.audit_empty("leak", "after destroying the arena");
	}
};
