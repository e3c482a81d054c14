/* C08: mempool. */
#include "stack.h"
#include <set>
#include "mempool.h"

const char *case_rule = "a case is 1-3 pools of generated object and slab sizes on one slab cache "
	"(limits and faults generated) and a sequence of alloc/free in generated order; non-trivial: some "
	"pool had objects in at least 2 slabs, a slab became empty, and a freed slot was reused";
unsigned case_max_ops = 300;

static Stack st;
static Blocks objs;

struct Pool {
	struct mempool p;
	uint32_t objsize = 0;
	size_t align = 1;
	size_t slabsize = 0;
	uint32_t objcount = 0;
	size_t slabs = 0;
	bool created = false;
	std::vector<char *> live;
	std::map<uintptr_t, unsigned> per_slab;	/* live objects by slab */
	std::set<uintptr_t> known;		/* every slab seen, with something live */
	std::set<char *> freed;
};
static std::vector<Pool> pools;
static bool reused, two_slabs, emptied;

static size_t
cache_used()
{
	return slab_cache_used(st.cache());
}

static size_t
slab_count(Pool &x)
{
#ifndef ENABLE_ASAN
	return mempool_total(&x.p) / x.slabsize;
#else
	return 0;
#endif
}

static void
check_stats(Pool &x, const char *when)
{
	struct mempool_stats t;
	memset(&t, 0xee, sizeof(t));
	mempool_stats(&x.p, &t);
	size_t n = x.live.size();
	CHECK(t.objsize == x.objsize, "stats", "%s: stats objsize %u, is %u", when, t.objsize, x.objsize);
	CHECK(t.objcount == n, "stats", "%s: stats objcount %u, live objects %zu", when, t.objcount, n);
	CHECK(t.totals.used == n * x.objsize, "stats", "%s: stats used %zu, live %zu", when, t.totals.used,
	      n * x.objsize);
	CHECK(mempool_count(&x.p) == n, "stats", "%s: mempool_count %zu, live objects %zu", when,
	      mempool_count(&x.p), n);
	CHECK(mempool_used(&x.p) == n * x.objsize, "stats", "%s: mempool_used %zu, live %zu", when,
	      mempool_used(&x.p), n * x.objsize);
	CHECK(t.totals.total >= t.totals.used, "stats", "%s: total %zu is less than used %zu", when,
	      t.totals.total, t.totals.used);
#ifndef ENABLE_ASAN
	CHECK(t.slabsize == x.slabsize, "stats", "%s: slabsize %u, is %zu", when, t.slabsize, x.slabsize);
	CHECK(mempool_total(&x.p) == t.slabcount * x.slabsize, "stats", "%s: mempool_total %zu, %u slabs of "
	      "%zu", when, mempool_total(&x.p), t.slabcount, x.slabsize);
	CHECK(t.totals.total == t.slabcount * (x.slabsize - mslab_sizeof()), "stats", "%s: total %zu with %u "
	      "slabs of %zu", when, t.totals.total, t.slabcount, x.slabsize);
#endif
}

static void
check_cache(const char *when)
{
#ifndef ENABLE_ASAN
	size_t sum = 0;
	for (auto &x : pools)
		if (x.created)
			sum += mempool_total(&x.p);
	CHECK(cache_used() == sum, "cache-used", "%s: the slab cache has %zu in use, pools hold %zu", when,
	      cache_used(), sum);
#endif
	(void)when;
}

/* More objects than 16 bits count. */
static bool many;
enum { MANY = 140000 };
static size_t peak;

static void
create(Src &s, Pool &x)
{
	x = Pool();
	memset((void *)&x.p, 0xa5, sizeof(x.p));
#ifndef ENABLE_ASAN
	if (s.draw(3) != 2) {
		unsigned order = s.draw(st.order_max + 1);
		if (s.draw(2) && order > 2)
			order = s.draw(3);
		if ((many || st.gigantic) && s.draw(4))
			order = st.order_max - s.draw(2);
		x.slabsize = st.order0 << order;
		size_t max = x.slabsize - mslab_sizeof();
		x.objsize = s.nearby(8, max, {8, 16, 32, max, max / 2, max / 2 + 1, max / 7, max / 8, max / 9,
			max / 16, max / 17});
		if (many && s.draw(4))
			x.objsize = 8 + s.draw(9);
		mempool_create_with_order(&x.p, st.cache(), x.objsize, order);
	} else {
		size_t max = st.A - mslab_sizeof();
		x.objsize = s.nearby(8, max, {max, max / 2, max / 3, st.A / 100, st.A / 100 + 1, 40, 41,
			sizeof(struct mslab), 81, 82});
		mempool_create(&x.p, st.cache(), x.objsize);
		struct mempool_stats t;
		mempool_stats(&x.p, &t);
		x.slabsize = t.slabsize;
		CHECK(x.slabsize && (x.slabsize & (x.slabsize - 1)) == 0 && x.slabsize <= st.A &&
		      x.slabsize >= st.order0, "slabsize", "slab size %zu", x.slabsize);
		size_t want = std::max<size_t>(x.objsize, sizeof(struct mslab)) * 100;
		CHECK(x.slabsize == st.A || x.slabsize >= want, "slabsize", "objects of %u in slabs of %zu: "
		      "overhead above 1%%", x.objsize, x.slabsize);
	}
	x.objcount = (x.slabsize - mslab_sizeof()) / x.objsize;
	x.align = x.objsize & -x.objsize;
#else
	if (s.chance(1, 12))
		x.objsize = s.nearby(20000, 300000, {32768, 65536, 131072});
	else
		x.objsize = s.nearby(1, 20000, {1, 2, 8, 16, 32, 4096, 8192, 12288});
	mempool_create(&x.p, st.cache(), x.objsize);
	x.align = x.objsize & -x.objsize;
	if (x.align > 4096)
		x.align = 4096;
#endif
	x.created = true;
	CHECK(mempool_is_initialized(&x.p), "init", "pool is not initialized after create");
	TR("create pool %d: objsize %u slab %zu objects in slab %u", (int)(&x - &pools[0]), x.objsize,
	   x.slabsize, x.objcount);
}

static void
op_alloc(Src &s, Pool &x)
{
	if (objs.bytes > (st.gigantic ? 48 << 20 : 8 << 20) || x.live.size() > (many ? MANY : 3000))
		return;
	size_t used0 = cache_used(), n0 = slab_count(x);
	/* slabs with enough free slots to be used, and the lowest of them */
	unsigned threshold = std::max(1u, x.objcount >> 3);
	bool avail = false, any = false;
	uintptr_t lowest = UINTPTR_MAX;
	for (auto &b : x.per_slab) {
		unsigned nfree = x.objcount - b.second;
		if (nfree > 0)
			any = true;
		if (nfree >= threshold) {
			avail = true;
			lowest = std::min(lowest, b.first);
		}
	}
	bool empty = n0 > x.per_slab.size();
	size_t q0 = quota_used(&st.quota);
	sm.faulted = false;
	char *p = (char *)mempool_alloc(&x.p);
	TR("pool %d alloc -> %p", (int)(&x - &pools[0]), p);
	if (!p) {
#ifdef ENABLE_ASAN
		FAIL("refused", "mempool_alloc returned NULL");
#endif
		CHECK(!any && !empty, "refused", "allocation refused with free slots in the pool's slabs");
		CHECK(sm.faulted || quota_total(&st.quota) - q0 < st.A, "refused", "allocation refused with "
		      "%zu left in quota", quota_total(&st.quota) - q0);
		CHECK(cache_used() == used0 && slab_count(x) == n0, "refused", "failed allocation changed "
		      "the memory of the pool");
		check_stats(x, "failed alloc");
		COUNT("alloc refused");
		return;
	}
	CHECK(((uintptr_t)p & (x.align - 1)) == 0, "align", "object %p of size %u is not aligned to %zu", p,
	      x.objsize, x.align);
#ifndef ENABLE_ASAN
	uintptr_t base = (uintptr_t)p & ~(x.slabsize - 1);
	CHECK(((uintptr_t)p + x.objsize - 1 & ~(x.slabsize - 1)) == base &&
	      (uintptr_t)p >= base + mslab_sizeof(), "outside", "object %p+%u is not within a slab of %zu", p,
	      x.objsize, x.slabsize);
	CHECK(sm.in_live_map((void *)base, x.slabsize), "unowned", "slab %p is not mapped memory",
	      (void *)base);
	size_t n1 = slab_count(x);
	CHECK(n1 == n0 || n1 == n0 + 1, "slabs", "alloc changed the number of slabs from %zu to %zu", n0, n1);
	if (n1 != n0) {
		CHECK(!avail && !empty, "growth", "a new slab taken while %s", avail ?
		      "one of the pool's slabs has an eighth of its slots free" :
		      "the pool holds an empty slab");
		CHECK(!x.per_slab.count(base), "growth", "a new slab taken but not used");
	} else if (avail) {
		CHECK(base <= lowest, "lowest", "object from slab %p while lower slab %p is as free",
		      (void *)base, (void *)lowest);
	} else if (!empty && any) {
		COUNT("served from cold slab");
	}
	peak = std::max(peak, (size_t)++x.per_slab[base]);
	CHECK(x.per_slab[base] <= x.objcount, "outside", "more objects than fit in a slab");
	CHECK(x.per_slab.size() <= n1, "slabs", "objects live in %zu slabs, pool has %zu",
	      x.per_slab.size(), n1);
	if (x.per_slab.size() >= 2)
		two_slabs = true;
#else
	CHECK(sm.in_live_heap(p, x.objsize), "unowned", "object is not in the heap");
#endif
	if (x.freed.erase(p))
		reused = true;
	objs.add(p, x.objsize, "object");
	x.live.push_back(p);
	check_stats(x, "alloc");
	check_cache("alloc");
	(void)avail; (void)lowest; (void)empty; (void)threshold;
}

static void
op_free(Pool &x, size_t i)
{
	char *p = x.live[i];
	x.live[i] = x.live.back();
	x.live.pop_back();
	TR("pool %d free %p", (int)(&x - &pools[0]), p);
	Blocks::check(*objs.find(p), "before free");
	objs.del(p);
	size_t n0 = slab_count(x);
	mempool_free(&x.p, p);
	size_t n1 = slab_count(x);
	x.freed.insert(p);
#ifndef ENABLE_ASAN
	uintptr_t base = (uintptr_t)p & ~(x.slabsize - 1);
	if (--x.per_slab[base] == 0) {
		x.per_slab.erase(base);
		emptied = true;
		CHECK(n1 == n0 || n1 + 1 == n0, "slabs", "free changed the number of slabs from %zu to %zu",
		      n0, n1);
	} else {
		CHECK(n1 == n0, "slabs", "free changed the number of slabs from %zu to %zu", n0, n1);
	}
	CHECK(n1 - x.per_slab.size() <= 1, "hoard", "the pool holds %zu empty slabs",
		      n1 - x.per_slab.size());
	CHECK(x.per_slab.size() <= n1, "slabs", "objects live in %zu slabs, pool has %zu",
	      x.per_slab.size(), n1);
#else
	two_slabs = emptied = reused = true;
	CHECK(!sm.in_live_heap(p, 1), "leak", "object was not freed");
#endif
	check_stats(x, "free");
	check_cache("free");
	(void)n0; (void)n1;
}

static void
op_destroy(Pool &x)
{
#ifdef ENABLE_ASAN
	while (!x.live.empty())
		op_free(x, x.live.size() - 1);
#endif
	for (char *p : x.live) {
		Blocks::check(*objs.find(p), "before destroy");
		objs.del(p);
	}
	TR("pool %d destroy (%zu live)", (int)(&x - &pools[0]), x.live.size());
	mempool_destroy(&x.p);
	CHECK(!mempool_is_initialized(&x.p), "init", "pool is initialized after destroy");
	x.created = false;
	x.live.clear();
	x.per_slab.clear();
	check_cache("destroy");
}

void
run_case(Src &s)
{
	sm.reset();
	objs.clear();
	reused = two_slabs = emptied = false;
	peak = 0;
	Stack::Opts o;
	o.max_A = 1 << 20;
	o.gigantic = 80;
	many = HUGE_BLOCKS && s.chance(1, 150);
	if (many)
		o.min_A = 1 << 20;
	st.create(s, o);
	pools.clear();
	pools.resize(1 + s.draw(3));
	unsigned grow = 5;
	uint64_t k = 0;
	while (s.more()) {
		if (k++ % 24 == 0)
			grow = s.pick({8, 8, 3, 5, 1});
		Pool &x = pools[s.draw(pools.size())];
		if (!x.created) {
			create(s, x);
			continue;
		}
		/* runs of the same operation: whole slabs come and go */
		size_t run = 1;
		if (s.chance(1, 6))
			run = 1 + s.draw(2 * std::max(1u, std::min(x.objcount, 200u)));
		if (many && s.chance(1, 10))
			run = s.draw(MANY);
		unsigned order = run > 1 ? s.draw(4) : 0;
		if (x.live.empty() || s.chance(grow, 9)) {
			while (run-- > 0)
				op_alloc(s, x);
		} else if (s.chance(1, 40)) {
			op_destroy(x);
		} else {
			while (run-- > 0 && !x.live.empty()) {
				size_t n = x.live.size();
				op_free(x, order == 0 ? s.draw(n) : order == 1 ? 0 :
					order == 2 ? n - 1 : n / 2);
			}
		}
		if (k % 8 == 0)
			objs.check_all("step");
		if (k % 32 == 0)
			slab_cache_check(st.cache());
		st.check_quota("step");
	}
	objs.check_all("end");
	bool drain = s.draw(2);
	for (auto &x : pools) {
		if (!x.created)
			continue;
		if (drain) {
			while (!x.live.empty())
				op_free(x, s.draw(2) ? 0 : x.live.size() - 1);
			CHECK(slab_count(x) <= 1, "hoard", "an empty pool holds %zu slabs",
				      slab_count(x));
		}
		op_destroy(x);
	}
	st.destroy();
	if (reused && two_slabs && emptied)
		s.nontrivial();
	if (pools.size() > 1) COUNT("case with several pools");
	if (st.limited) COUNT("case with low limit");
	if (st.gigantic) COUNT("case with slabs up to 2 GB");
	if (peak > 65536) COUNT("case with more than 65536 objects in a slab");
	if (!drain) COUNT("case destroying pools with live objects");
}
