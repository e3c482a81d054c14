/* C09: memory of small_alloc; with -DSTATS C10: its account and low memory. */
#include "stack.h"
#include <set>
#include "small.h"

#ifndef STATS
const char *case_rule = "a case is one or two object allocators of generated minimum, granularity and "
	"factor on one slab cache (limits and faults generated) and a sequence of smalloc/smfree of sizes "
	"from 0 to several MB; non-trivial: at least 4 different class sizes and one large block were "
	"live, and freed memory was handed out again";
#else
const char *case_rule = "a case is one or two object allocators of generated minimum, granularity and "
	"factor on one slab cache under a generated limit and a sequence of smalloc/smfree/statistics; "
	"non-trivial: blocks were served by a pool larger than their class and a request was refused or "
	"a lazily activated pool came into use";
#endif
unsigned case_max_ops = 250;

static Stack st;
static Blocks mem;
static bool reused, went_larger, activated, refused_any;
static unsigned long maxclasses;
static bool saw_large;

struct PoolSt {
	size_t objsize, slabsize, count, slabs, used, total;
};
struct B {
	size_t size;
	bool large;
	int cls, pool;		/* -1 unknown */
};
struct A {
	struct small_alloc *a = nullptr;
	bool created = false;
	unsigned gran = 1, objmin = 0;
	float factor = 0;
	std::vector<size_t> sizes;		/* class sizes by pool */
	std::map<char *, B> live;
	std::vector<char *> order;
	std::vector<size_t> waste;		/* by class */
	std::vector<PoolSt> last;
};
static std::vector<A> as;
static std::set<char *> freed;
/* memory of large blocks charged to the quota */
static size_t large_used;

static int
stats_cb(const void *p, void *ctx)
{
	const struct mempool_stats *m = (const struct mempool_stats *)p;
	PoolSt x;
	x.objsize = m->objsize;
	x.slabsize = m->slabsize;
	x.count = m->objcount;
	x.slabs = m->slabcount;
	x.used = m->totals.used;
	x.total = m->totals.total;
	SmPause pause;
	((std::vector<PoolSt> *)ctx)->push_back(x);
	return 0;
}

static int
stop_cb(const void *p, void *ctx)
{
	(void)p;
	return --*(int *)ctx == 0;
}

static std::vector<PoolSt>
stats(A &x, struct small_stats *t)
{
	std::vector<PoolSt> v;
	memset(t, 0xee, sizeof(*t));
	small_stats(x.a, t, stats_cb, &v);
	return v;
}

static void
check_totals(A &x, const char *when)
{
	struct small_stats t;
	auto v = stats(x, &t);
	size_t n = 0, used = 0, total = 0, live = 0, sz = 0;
	for (auto &p : v) {
		n += p.count;
		used += p.used;
		total += p.total;
		CHECK(p.used <= p.total || !p.slabsize, "stats", "%s: a pool uses %zu of %zu", when, p.used,
		      p.total);
#ifndef ENABLE_ASAN
		CHECK(p.used == p.count * p.objsize, "stats", "%s: pool of %zu: used %zu with %zu objects",
		      when, p.objsize, p.used, p.count);
		CHECK(p.total <= p.slabs * p.slabsize && p.total + p.slabs * 256 >= p.slabs * p.slabsize,
		      "stats", "%s: pool of %zu: total %zu with %zu slabs of %zu", when, p.objsize, p.total,
		      p.slabs, p.slabsize);
#endif
	}
	for (auto &b : x.live) {
#ifdef ENABLE_ASAN
		live++, sz += b.second.size;
#else
		if (!b.second.large)
			live++, sz += std::max(b.second.size, (size_t)x.objmin);
#endif
	}
	CHECK(n == live, "stats", "%s: statistics count %zu objects, %zu are live", when, n, live);
	CHECK(t.used >= sz, "stats", "%s: used %zu is less than %zu live bytes", when, t.used, sz);
#ifndef ENABLE_ASAN
	CHECK(t.used == used && t.total == total, "stats", "%s: totals %zu/%zu, sum of pools %zu/%zu", when,
	      t.used, t.total, used, total);
#else
	CHECK(t.used == sz, "stats", "%s: used %zu, live bytes %zu", when, t.used, sz);
	/* nothing else leases from this quota */
	size_t all = 0;
	for (auto &y : as)
		for (auto &b : y.live)
			all += b.second.size;
	CHECK(quota_leased(&st.cache()->quota) == all, "quota", "%s: %zu leased for %zu live bytes", when,
	      quota_leased(&st.cache()->quota), all);
#endif
	CHECK(!live || t.used > 0 || !sz, "stats", "%s: nothing used", when);
	if (!live)
		CHECK(t.used == 0, "stats", "%s: %zu used with nothing live", when, t.used);
}

static void
create(Src &s, A &x)
{
	if (!x.a) {
		SmPause pause;
		x.a = (struct small_alloc *)malloc(sizeof(*x.a));
	}
	memset((void *)x.a, 0xa5, sizeof(*x.a));
	x.gran = 1u << s.pick({3, 3, 4, 0, 1, 2, 5, 6, 10});
	x.objmin = s.nearby(8, 2000, {8, 12, 16, 24, 64, 100});
	if (s.draw(2))
		x.objmin = std::max(8u, x.gran);
	x.factor = s.draw(3) ? 1 + (1 + s.draw(100)) / 100.0f : s.pick({1.05f, 1.1f, 1.3f, 1.001f, 2.0f, 1.5f});
	float actual = 0;
	size_t used0 = slab_cache_used(st.cache());
	small_alloc_create(x.a, st.cache(), x.objmin, x.gran, x.factor, &actual);
#ifndef ENABLE_ASAN
	CHECK(actual > 1.0f && actual <= 2.0f, "factor", "actual factor %f", actual);
	x.objmin = (x.objmin + x.gran - 1) / x.gran * x.gran;
#endif
	CHECK(slab_cache_used(st.cache()) == used0, "create", "creating an allocator takes slabs");
	struct small_stats t;
	auto v = stats(x, &t);
	CHECK(t.used == 0, "stats", "fresh allocator uses %zu", t.used);
	x.sizes.clear();
#ifndef ENABLE_ASAN
	CHECK(!v.empty(), "pools", "no pools");
	x.last = v;
	size_t prev_slab = 0;
	for (auto &p : v) {
		CHECK(p.count == 0 && p.slabs == 0, "stats", "fresh allocator has objects");
		CHECK(p.objsize % x.gran == 0, "classes", "pool of %zu, granularity %u", p.objsize, x.gran);
		CHECK(x.sizes.empty() || (p.objsize > x.sizes.back() && p.slabsize >= prev_slab),
		      "classes", "pools are not ordered");
		x.sizes.push_back(p.objsize);
		prev_slab = p.slabsize;
	}
	CHECK(x.sizes[0] == x.objmin, "classes", "smallest pool is of %zu, minimum %u", x.sizes[0], x.objmin);
#endif
	x.waste.assign(x.sizes.size(), 0);
	x.last = v;
	x.live.clear();
	x.order.clear();
	x.created = true;
	int cnt = 1 + s.draw(3), want = cnt;
	small_stats(x.a, &t, stop_cb, &cnt);
	CHECK(cnt == 0 || (size_t)want > v.size(), "stats", "iteration of statistics went on after the "
	      "callback asked to stop");
	TR("create %d: objsize_min %u granularity %u factor %f (actual %f) %zu pools up to %zu",
	   (int)(&x - &as[0]), x.objmin, x.gran, x.factor, actual, v.size(),
	   x.sizes.empty() ? 0 : x.sizes.back());
}

/* Index of the smallest class that fits, -1 if none (large). */
static int
class_of(A &x, size_t size)
{
	auto it = std::lower_bound(x.sizes.begin(), x.sizes.end(), size);
	return it == x.sizes.end() ? -1 : it - x.sizes.begin();
}

#ifndef ENABLE_ASAN
static bool
last_of_group(A &x, size_t i)
{
	size_t run = 0;
	for (size_t k = i; k-- > 0 && x.last[k].slabsize == x.last[i].slabsize; )
		run++;
	return i + 1 == x.sizes.size() || x.last[i + 1].slabsize != x.last[i].slabsize ||
		run % 32 == 31;
}
#endif

static void
op_alloc(Src &s, A &x, size_t size)
{
	if (mem.bytes + Blocks::weight(size) > (st.gigantic ? 64 << 20 : 24 << 20) && size < (1ULL << 32))
		return;
#ifdef ENABLE_ASAN
	if (size == 0)
		size = 1;
	size_t leased0 = quota_leased(&st.cache()->quota);
#endif
	size_t q0 = quota_used(&st.quota), left = quota_total(&st.quota) - q0;
	size_t cu0 = slab_cache_used(st.cache());
	int cls = class_of(x, size);
	bool large = cls < 0;
	sm.faulted = false;
	char *p = (char *)smalloc(x.a, size);
	TR("alloc %d: smalloc(%zu) -> %p", (int)(&x - &as[0]), size, p);
	if (!p) {
		refused_any = true;
		COUNT("smalloc refused");
		check_totals(x, "refused smalloc");
#ifndef ENABLE_ASAN
		size_t need = large ? size + slab_sizeof() : st.A;
		CHECK(sm.faulted || left < need, "refused", "smalloc(%zu) refused with %zu left in quota", size,
		      left);
#ifdef STATS
		struct small_stats t;
		auto v = stats(x, &t);
		if (!large) {
			/* unused slabs were reclaimed */
			for (size_t i = 0; i < v.size(); i++)
				CHECK(v[i].count || !v[i].slabs || x.waste[i] || last_of_group(x, i), "sweep",
				      "smalloc(%zu) refused while the pool of %zu holds %zu slabs and no "
				      "objects", size, v[i].objsize, v[i].slabs);
		}
		/* A pool with objects is in use, so is the last of a group; an empty
		 * one which saves little is not after memory ran out. */
		if (!large) {
			size_t k = cls;
			while (!v[k].count && !last_of_group(x, k) && x.waste[k] * 32 < v[k].slabsize)
				k++;
			size_t room = v[k].slabs * (v[k].slabs ? v[k].total / v[k].slabs / v[k].objsize : 0);
			if (v[k].count || last_of_group(x, k))
				CHECK(v[k].count >= room, "refused", "smalloc(%zu) refused although the pool "
				      "of %zu has %zu slots and %zu objects", size, v[k].objsize, room,
				      v[k].count);
		}
		unsigned m0 = sm.mmap_p, m1 = sm.malloc_p;
		bool faulted = sm.faulted;
		x.last = v;
		if (!faulted) {
			char *q = (char *)smalloc(x.a, size);
			CHECK(!q, "refused", "smalloc(%zu) was refused and succeeds if repeated", size);
			x.last = stats(x, &t);
		}
		(void)m0; (void)m1;
#endif
#else
		CHECK(size > left + (4 << 20) || left < size + (1 << 20), "refused", "smalloc(%zu) refused with "
		      "%zu left", size, left);
		CHECK(quota_leased(&st.cache()->quota) == leased0, "quota", "failed smalloc changed the lease");
#endif
		return;
	}
	CHECK(size <= (1ULL << 40), "huge", "smalloc(%zu) succeeded", size);
#ifdef ENABLE_ASAN
	CHECK(((uintptr_t)p & 3) == 0, "align", "smalloc(%zu) -> %p", size, p);
	CHECK(quota_leased(&st.cache()->quota) == leased0 + size, "quota", "smalloc(%zu) leases %zu", size,
	      quota_leased(&st.cache()->quota) - leased0);
	large = true;
	cls = 0;
#endif
	struct small_alloc_info info;
	memset(&info, 0xee, sizeof(info));
	small_alloc_info(x.a, p, size, &info);
	CHECK(info.is_large == large, "info", "smalloc(%zu): is_large is %d, largest pool is %zu", size,
	      info.is_large, x.sizes.empty() ? 0 : x.sizes.back());
	CHECK(info.real_size >= size, "info", "smalloc(%zu): real_size %zu", size, info.real_size);
	if (large)
		CHECK(info.real_size == size, "info", "large smalloc(%zu): real_size %zu", size, info.real_size);
	B b;
	b.size = size;
	b.large = large;
	b.cls = cls;
	b.pool = -1;
#ifndef ENABLE_ASAN
	if (large) {
		CHECK(((uintptr_t)p & 7) == 0, "align", "large smalloc(%zu) -> %p", size, p);
		CHECK(sm.in_live_heap(p, size), "unowned", "smalloc(%zu) -> %p is not in the heap", size, p);
		CHECK(slab_cache_used(st.cache()) >= cu0 + size, "cache-used", "smalloc(%zu) adds %zu", size,
		      slab_cache_used(st.cache()) - cu0);
		saw_large = true;
	} else {
		CHECK(((uintptr_t)p & (x.gran - 1)) == 0, "align", "smalloc(%zu) -> %p, granularity %u", size, p,
		      x.gran);
		CHECK(sm.in_live_map(p, info.real_size), "unowned", "smalloc(%zu) -> %p is not in mapped memory",
		      size, p);
#ifdef STATS
		struct small_stats t;
		auto v = stats(x, &t);
		int pool = -1;
		for (size_t i = 0; i < v.size(); i++) {
			if (v[i].count == x.last[i].count + 1 && pool < 0)
				pool = i;
			else
				CHECK(v[i].count == x.last[i].count, "stats", "smalloc(%zu) changed the count of "
				      "pool of %zu from %zu to %zu", size, v[i].objsize, x.last[i].count,
				      v[i].count);
		}
		CHECK(pool >= cls, "pool", "smalloc(%zu) served by pool %d, class %d", size, pool, cls);
		CHECK(v[pool].slabsize == v[cls].slabsize, "pool", "smalloc(%zu) served by a pool of other slab "
		      "size", size);
		CHECK(info.real_size <= v[pool].objsize, "info", "smalloc(%zu): real_size %zu, block is of %zu",
		      size, info.real_size, v[pool].objsize);
		x.last = v;
		b.pool = pool;
		size_t w = v[pool].objsize - v[cls].objsize;
		x.waste[cls] += w;
		if (w)
			went_larger = true;
		else if (!last_of_group(x, cls))
			activated = true;
		CHECK(!w || x.waste[cls] - w < v[cls].slabsize / 4, "waste", "blocks of class %zu waste %zu in larger "
		      "pools, slab is of %zu", v[cls].objsize, x.waste[cls], v[cls].slabsize);
#endif
	}
#endif
	if (freed.erase(p))
		reused = true;
	mem.add(p, info.real_size, "smalloc");
	x.live[p] = b;
	x.order.push_back(p);
	(void)q0; (void)cu0;
}

/* A request which can't be granted. */
static void
op_absurd(Src &s, A &x)
{
	size_t size = gen_absurd(s), q0 = quota_used(&st.quota), cu0 = slab_cache_used(st.cache());
	char *p = (char *)smalloc(x.a, size);
	TR("alloc %d: smalloc(%zu) -> %p", (int)(&x - &as[0]), size, p);
	CHECK(!p, "absurd", "smalloc(%zu) gives %p", size, p);
	CHECK(quota_used(&st.quota) == q0 && slab_cache_used(st.cache()) == cu0, "absurd", "refused smalloc(%zu) "
	      "changed the quota from %zu to %zu, the use of the cache from %zu to %zu", size, q0,
	      quota_used(&st.quota), cu0, slab_cache_used(st.cache()));
	COUNT("absurd size refused");
}

static void
op_free(A &x, size_t i)
{
	char *p = x.order[i];
	x.order[i] = x.order.back();
	x.order.pop_back();
	B b = x.live[p];
	x.live.erase(p);
	struct small_alloc_info info;
	small_alloc_info(x.a, p, b.size, &info);
	CHECK(info.real_size >= b.size && info.is_large == b.large, "info", "block of %zu: large %d real_size "
	      "%zu", b.size, info.is_large, info.real_size);
	Blocks::check(*mem.find(p), "before free");
	mem.del(p);
	size_t cu0 = slab_cache_used(st.cache());
	TR("alloc %d: smfree(%p, %zu)", (int)(&x - &as[0]), p, b.size);
	smfree(x.a, p, b.size);
	freed.insert(p);
#ifndef ENABLE_ASAN
	if (b.large) {
		CHECK(slab_cache_used(st.cache()) <= cu0 - b.size, "cache-used", "freeing %zu returns %zu",
		      b.size, cu0 - slab_cache_used(st.cache()));
		CHECK(!sm.in_live_heap(p, 1), "leak", "large block was not freed");
	}
#ifdef STATS
	else {
		struct small_stats t;
		auto v = stats(x, &t);
		for (size_t k = 0; k < v.size(); k++)
			CHECK(v[k].count + ((int)k == b.pool) == x.last[k].count, "stats", "smfree(%zu) of pool "
			      "of %zu: pool of %zu changes from %zu to %zu", b.size, v[b.pool].objsize,
			      v[k].objsize, x.last[k].count, v[k].count);
		x.waste[b.cls] -= v[b.pool].objsize - v[b.cls].objsize;
		CHECK(info.real_size <= v[b.pool].objsize, "info", "block of %zu: real_size %zu, it is of %zu",
		      b.size, info.real_size, v[b.pool].objsize);
		x.last = v;
	}
#endif
#endif
	(void)cu0;
}

static void
op_destroy(A &x)
{
#ifdef ENABLE_ASAN
	while (!x.order.empty())
		op_free(x, x.order.size() - 1);
#else
	/* large blocks belong to the slab cache, not to the allocator */
	for (size_t i = 0; i < x.order.size();) {
		if (x.live[x.order[i]].large)
			op_free(x, i);
		else
			i++;
	}
#endif
	for (char *p : x.order) {
		Blocks::check(*mem.find(p), "before destroy");
		mem.del(p);
		freed.insert(p);
	}
	TR("alloc %d: destroy (%zu live)", (int)(&x - &as[0]), x.order.size());
	small_alloc_destroy(x.a);
	x.created = false;
	x.live.clear();
	x.order.clear();
}

static size_t
gen_size(Src &s, A &x)
{
	size_t max = x.sizes.empty() ? 4096 : x.sizes.back();
	switch (s.weighted({6, 5, 2, 1, 1})) {
	case 0:
		if (st.gigantic && s.draw(3))
			return max - s.logsize(max);
		return s.logsize(max);
	case 1: {
		/* at the edges of a class */
		if (x.sizes.empty())
			return s.nearby(1, 4096, {1, 64, 128});
		size_t c = x.sizes[s.draw(x.sizes.size())];
		return c - 1 + s.draw(3);
	}
	case 2:
		return s.nearby(0, 2 * max, {max, max + 1});
	case 3:
		if (HUGE_BLOCKS && s.chance(1, 12) && !st.limited)
			return gen_huge(s);
		return s.range(max, std::max<size_t>(3 << 20, 2 * max));
	default:
		return s.draw(40) == 39 ? s.pick<size_t>({1ULL << 41, 1ULL << 62, (size_t)PTRDIFF_MAX - 4096}) :
			s.draw(x.objmin + 2);
	}
}

void
run_case(Src &s)
{
	sm.reset();
	mem.clear();
	freed.clear();
	reused = went_larger = activated = refused_any = saw_large = false;
	maxclasses = 0;
	large_used = 0;
	Stack::Opts o;
#ifdef STATS
	o.limit_lo = 2;
	o.limit_hi = 24;
	o.max_A = 262144;
#else
	o.limit_hi = 60;
#endif
	o.gigantic = 60;
	st.create(s, o);
	if (as.empty())
		as.resize(2);
	unsigned na = 1 + (s.draw(4) == 3);
	for (unsigned i = 0; i < na; i++)
		create(s, as[i]);
	unsigned grow = 5;
	uint64_t k = 0;
	/* a few sizes used over and over: makes lazily activated pools come into use */
	size_t fav[4] = {64, 64, 64, 64};
	while (s.more()) {
		A &x = as[s.draw(na)];
		if (!x.created) {
			create(s, x);
			continue;
		}
		if (k++ % 24 == 0) {
			grow = s.pick({8, 8, 3, 5, 1});
			fav[s.draw(4)] = gen_size(s, x);
		}
		size_t run = 1;
		unsigned how = 0;
		if (s.chance(1, 5)) {
			run = 1 + s.draw(s.draw(4) ? 40 : 300);
			how = s.draw(3);
		}
		if (ABSURD_SIZES && s.chance(1, 60)) {
			op_absurd(s, x);
		} else if (x.order.empty() || s.chance(grow, 9)) {
			size_t size = s.draw(2) ? fav[s.draw(4)] : gen_size(s, x);
			if (size > 100000 && run > 10)
				run = 10;
			if (x.order.size() > 3000)
				run = 0;
			while (run-- > 0)
				op_alloc(s, x, size);
		} else if (s.chance(1, 50)) {
			op_destroy(x);
		} else {
			while (run-- > 0 && !x.order.empty()) {
				size_t n = x.order.size();
				op_free(x, how == 0 ? s.draw(n) : how == 1 ? 0 : n - 1);
			}
		}
		if (x.created)
			check_totals(x, "step");
		if (k % 8 == 0) {
			mem.check_all("step");
			std::set<int> cl;
			for (auto &b : x.live)
				cl.insert(b.second.cls);
			maxclasses = std::max(maxclasses, cl.size());
		}
		if (k % 32 == 0 && x.created)
			small_alloc_check(x.a);
		st.check_quota("step");
	}
	mem.check_all("end");
	bool drain = s.draw(2);
	for (unsigned i = 0; i < na; i++) {
		A &x = as[i];
		if (!x.created)
			continue;
		if (drain) {
			while (!x.order.empty())
				op_free(x, s.draw(2) ? 0 : x.order.size() - 1);
			check_totals(x, "end");
		}
		op_destroy(x);
	}
	if (st.gigantic) COUNT("case with slabs up to 2 GB");
	st.destroy();
#ifndef STATS
#ifdef ENABLE_ASAN
	if (mem.next_tag > 10 && reused)
#else
	if (maxclasses >= 4 && saw_large && reused)
#endif
		s.nontrivial();
#else
	if (went_larger && (refused_any || activated))
		s.nontrivial();
#endif
	if (activated) COUNT("case with lazily activated pool");
	if (refused_any) COUNT("case with refusal");
	if (na > 1) COUNT("case with two allocators");
}
