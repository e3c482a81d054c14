/* C07: slab_cache as a buddy allocator. */
#include "pbt.h"
#include "sysmem.h"
#include "blocks.h"
#include <set>
#include <sys/mman.h>
#include <small_config.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"

const char *case_rule = "a case is 1-2 slab caches on one arena with generated slab size, "
	"preallocation, limit and faults, and a sequence of get/get_with_order/get_large/put; "
	"non-trivial: slabs of at least 3 different orders were live together, slabs were split and "
	"merged back, and an arena slab became entirely free again";
unsigned case_max_ops = 250;

struct Sl {
	struct slab *slab;
	size_t size;
	bool large;
	int cache;
};

static struct quota quota;
static struct slab_arena arena;
static struct slab_cache caches[2];
static unsigned ncaches;
static size_t A, order0;	/* arena slab size, smallest slab size */
static unsigned order_max;
static std::vector<Sl> in_use;
static Blocks whole, data;
static size_t large_charge, used[2];

static size_t
roundq(size_t x)
{
	return (x + 1023) / 1024 * 1024;
}

static size_t
model_real_size(size_t size)
{
	size_t need = size + slab_sizeof();
	if (need > A)
		return need;
	size_t r = order0;
	while (r < need)
		r <<= 1;
	return r;
}

/* Arena slabs (by base) with something in use, per cache. */
static std::map<uintptr_t, int>
used_bases()
{
	std::map<uintptr_t, int> r;
	for (auto &x : in_use)
		if (!x.large)
			r[(uintptr_t)x.slab & ~(A - 1)] = x.cache;
	return r;
}

/* Is there an aligned chunk of the given size in a partially used arena slab
 * of this cache with nothing in use in it? */
static bool
has_chunk(int cache, size_t size)
{
	auto bases = used_bases();
	for (auto &b : bases) {
		if (b.second != cache)
			continue;
		std::vector<bool> busy(A / size, false);
		for (auto &x : in_use) {
			if (x.large || ((uintptr_t)x.slab & ~(A - 1)) != b.first)
				continue;
			size_t off = (uintptr_t)x.slab - b.first;
			for (size_t i = off / size; i <= (off + x.size - 1) / size; i++)
				busy[i] = true;
		}
		for (bool v : busy)
			if (!v)
				return true;
	}
	return false;
}

static size_t
owned_slabs()
{
	size_t u = quota_used(&quota);
	CHECK(u >= large_charge && (u - large_charge) % A == 0, "quota",
	      "quota used %zu does not consist of large slabs (%zu) and arena slabs of %zu", u,
	      large_charge, A);
	return (u - large_charge) / A;
}

/* Slabs in the arena itself: taken out and put back in the same order. */
static size_t
count_arena_cached()
{
	size_t total = quota_total(&quota);
	quota_set(&quota, quota_used(&quota));
	std::vector<void *> v;
	void *p;
	while ((p = slab_map(&arena)))
		v.push_back(p);
	for (size_t i = v.size(); i-- > 0;)
		slab_unmap(&arena, v[i]);
	quota_set(&quota, total);
	return v.size();
}

static void
check_used(const char *when)
{
	for (unsigned c = 0; c < ncaches; c++)
		CHECK(slab_cache_used(&caches[c]) == used[c], "used", "%s: slab_cache_used %zu, in use %zu",
		      when, slab_cache_used(&caches[c]), used[c]);
}

static bool merged, became_free;
static unsigned max_orders;

/* Slabs which need more than 32 bits for their size. */
static bool
want_huge(Src &s)
{
	return HUGE_BLOCKS && s.chance(1, 80) && quota_total(&quota) > (4ULL << 30);
}

static void
op_get(Src &s, int c)
{
	struct slab_cache *cache = &caches[c];
	unsigned how = s.weighted({6, 4, 2});
	size_t want = 0, size = 0;
	bool large = false;
	int order = -1;
	switch (how) {
	case 0:
		want = s.nearby(0, A * 2, {A - slab_sizeof(), A, order0 - slab_sizeof(),
			2 * order0 - slab_sizeof(), A / 2 - slab_sizeof(), A / 4});
		if (s.chance(1, 30))
			want = s.range(A, A * 40);
		if (want_huge(s))
			want = gen_huge(s);
		size = model_real_size(want);
		large = size > A;
		CHECK(slab_real_size(cache, want) == size, "real-size", "slab_real_size(%zu) = %zu, "
		      "expected %zu", want, slab_real_size(cache, want), size);
		break;
	case 1:
		order = s.draw(order_max + 1);
		size = order0 << order;
		want = size - slab_sizeof();
		break;
	default:
		want = s.nearby(1, A * 3, {A - slab_sizeof() + 1, A});
		if (want + slab_sizeof() <= A)
			want += A;
		if (want_huge(s))
			want = gen_huge(s);
		size = want + slab_sizeof();
		large = true;
	}
	if (data.bytes > (24 << 20)) {
		COUNT("skipped: enough memory in use");
		return;
	}
	size_t q0 = quota_used(&quota), left = quota_total(&quota) - q0;
	bool chunk = !large && has_chunk(c, size);
	size_t U = used_bases().size(), N = owned_slabs();
	/* entirely free arena slabs, at most one of which each other cache keeps */
	bool spare = N >= U + ncaches;
	sm.faulted = false;
	struct slab *slab = how == 0 ? slab_get(cache, want) : how == 1 ?
		slab_get_with_order(cache, order) : slab_get_large(cache, want);
	TR("cache%d %s(%zu) -> %p (size %zu)", c, how == 0 ? "get" : how == 1 ? "get_with_order" :
	   "get_large", how == 1 ? (size_t)order : want, (void *)slab, size);
	if (!slab) {
		CHECK(!chunk, "refused", "%zu bytes refused although a free chunk of size %zu exists",
		      want, size);
		if (!large)
			CHECK(!spare || sm.faulted, "refused", "a slab was refused with %zu arena slabs of which "
			      "%zu are in use", N, U);
		size_t need = large ? roundq(size) : A;
		CHECK(left < need || sm.faulted, "refused", "slab of %zu refused with %zu left in quota",
		      size, left);
		CHECK(quota_used(&quota) == q0, "quota", "failed get changed the quota from %zu to %zu", q0,
		      quota_used(&quota));
		check_used("failed get");
		COUNT("get refused");
		return;
	}
	CHECK(slab->size == size, "size", "slab for %zu bytes has size %zu, expected %zu", want,
	      slab->size, size);
	CHECK(slab_capacity(slab) >= want, "capacity", "slab for %zu bytes has capacity %zu", want,
	      slab_capacity(slab));
	CHECK((char *)slab_data(slab) >= (char *)slab &&
	      (char *)slab_data(slab) + slab_capacity(slab) <= (char *)slab + size, "capacity",
	      "data of the slab is not inside it");
	CHECK(slab_from_data(slab_data(slab)) == slab, "from-data", "slab_from_data is wrong");
	if (large) {
		CHECK(sm.in_live_heap(slab, size), "unowned", "large slab is not a live heap block");
		CHECK(quota_used(&quota) == q0 + roundq(size), "quota", "large slab of %zu charges %zu",
		      size, quota_used(&quota) - q0);
		large_charge += roundq(size);
	} else {
		CHECK(((uintptr_t)slab & (size - 1)) == 0, "align", "slab %p of size %zu is not aligned",
		      (void *)slab, size);
		CHECK(sm.in_live_map(slab, size), "unowned", "slab is not in mapped memory");
		CHECK((slab_from_ptr((char *)slab_data(slab) + slab_capacity(slab) - 1,
				     ~(intptr_t)(size - 1)) == slab), "from-ptr", "slab_from_ptr is wrong");
		size_t q1 = quota_used(&quota);
		if (q1 != q0) {
			CHECK(q1 == q0 + A, "quota", "slab changes the quota by %zu", q1 - q0);
			CHECK(!chunk, "growth", "new memory taken for a slab of %zu although a free chunk "
			      "of that size exists in the cache", size);
			CHECK(!spare, "growth", "new memory taken with %zu arena slabs of which %zu are "
			      "in use", N, U);
		}
	}
	whole.add(slab, size, "slab", false);
	data.add(slab_data(slab), slab_capacity(slab), "slab data");
	used[c] += size;
	in_use.push_back({slab, size, large, c});
	check_used("get");
	std::set<size_t> orders;
	for (auto &x : in_use)
		orders.insert(x.size);
	if (orders.size() > max_orders)
		max_orders = orders.size();
}

/* A request which can't be granted. */
static void
op_absurd(Src &s, int c)
{
	struct slab_cache *cache = &caches[c];
	size_t want = gen_absurd(s), q0 = quota_used(&quota);
	size_t N = owned_slabs();
	bool large = s.draw(2);
	struct slab *slab = large ? slab_get_large(cache, want) : slab_get(cache, want);
	TR("cache%d %s(%zu) -> %p", c, large ? "get_large" : "get", want, (void *)slab);
	CHECK(!slab, "absurd", "%s(%zu) gives a slab of %zu", large ? "slab_get_large" : "slab_get", want,
	      slab->size);
	CHECK(quota_used(&quota) == q0 && owned_slabs() == N, "quota", "refused get of %zu changed the quota from "
	      "%zu to %zu", want, q0, quota_used(&quota));
	check_used("absurd get");
	COUNT("absurd size refused");
}

static void
op_put(size_t i, Src &s)
{
	Sl x = in_use[i];
	Blocks::check(*data.find(slab_data(x.slab)), "before put");
	CHECK(x.slab->size == x.size, "size", "size of a slab in use changed");
	whole.del(x.slab);
	data.del(slab_data(x.slab));
	in_use[i] = in_use.back();
	in_use.pop_back();
	size_t q0 = quota_used(&quota);
	uintptr_t base = (uintptr_t)x.slab & ~(A - 1);
	TR("put %p (size %zu)", (void *)x.slab, x.size);
	if (s.draw(3) == 0 && x.large)
		slab_put_large(&caches[x.cache], x.slab);
	else if (s.draw(3) == 0 && !x.large)
		slab_put_with_order(&caches[x.cache], x.slab);
	else
		slab_put(&caches[x.cache], x.slab);
	used[x.cache] -= x.size;
	if (x.large) {
		large_charge -= roundq(x.size);
		CHECK(quota_used(&quota) == q0 - roundq(x.size), "quota", "large slab of %zu gives %zu back",
		      x.size, q0 - quota_used(&quota));
		CHECK(!sm.in_live_heap(x.slab, 1), "leak", "large slab was not freed");
	} else {
		CHECK(quota_used(&quota) == q0, "quota", "put changed the quota");
		auto b = used_bases();
		if (!b.count(base)) {
			became_free = true;
			size_t N = owned_slabs(), C = count_arena_cached();
			CHECK(C + b.size() <= N, "arena", "arena has %zu cached slabs, %zu are in use, %zu "
			      "are owned", C, b.size(), N);
			CHECK(N - b.size() - C <= ncaches, "hoard", "%zu entirely free arena slabs are "
			      "kept by %u caches", N - b.size() - C, ncaches);
		} else {
			merged = true;
		}
	}
	check_used("put");
}

void
run_case(Src &s)
{
	sm.reset();
	whole.clear();
	data.clear();
	in_use.clear();
	merged = became_free = false;
	max_orders = 0;
	large_charge = 0;
	used[0] = used[1] = 0;
	A = s.pick<size_t>({65536, 65536, 131072, 262144, 1 << 20});
	if (s.chance(1, 40))
		A = 4 << 20;
	bool gigantic = HUGE_BLOCKS && s.chance(1, 80);
	sparse_from = gigantic ? 1 << 20 : 64 << 20;
	if (gigantic) {
		A = 1ULL << (s.draw(3) ? 29 + s.draw(3) : 23 + s.draw(6));
		sm.map_limit = 64ULL << 30;
	}
	order_max = __builtin_ctzl(A / 4096);
	if (order_max > 15)
		order_max = 15;
	order0 = A >> order_max;
	size_t total = gigantic ? 1ULL << 35 : s.draw(3) ? (s.draw(3) ? 1ULL << 32 : 1ULL << 34) : A * s.range(1, 12);
	size_t prealloc = s.draw(2) ? 0 : A * s.draw(gigantic ? 3 : 8);
	quota_init(&quota, total);
	sm.place = (decltype(sm.place))s.draw(3);
	sm.unaligned_p = s.pick({0, 0, 128});
	sm.tight = s.chance(1, 3);
	sm.far_lb = s.chance(1, 8) ? 32 + 4 * s.draw(4) : 0;
	if (slab_arena_create(&arena, &quota, prealloc, A, MAP_PRIVATE) != 0)
		FAIL("create", "arena");
	sm.mmap_p = s.weighted({4, 1}) ? s.pick({10, 64}) : 0;
	sm.malloc_p = s.weighted({4, 1}) ? s.pick({10, 64}) : 0;
	ncaches = 1 + (s.draw(4) == 3);
	TR("arena slab %zu prealloc %zu quota %zu caches %u mmap_p %u malloc_p %u", A, prealloc, total,
	   ncaches, sm.mmap_p, sm.malloc_p);
	for (unsigned c = 0; c < ncaches; c++)
		slab_cache_create(&caches[c], &arena);
	/* phases: mostly growing, mostly shrinking */
	unsigned grow = 6;
	uint64_t k = 0;
	while (s.more()) {
		if (k++ % 16 == 0)
			grow = s.pick({6, 6, 3, 9});
		if (ABSURD_SIZES && s.chance(1, 50)) {
			op_absurd(s, s.draw(ncaches));
		} else if (in_use.empty() || s.chance(grow, 10)) {
			op_get(s, s.draw(ncaches));
		} else {
			size_t i = s.draw(in_use.size());
			op_put(i, s);
		}
		if (k % 8 == 0)
			data.check_all("step");
		if (k % 16 == 0)
			for (unsigned c = 0; c < ncaches; c++)
				slab_cache_check(&caches[c]);
	}
	sm.mmap_p = sm.malloc_p = 0;
	data.check_all("end");
	bool destroy_with_live = s.draw(2);
	if (!destroy_with_live) {
		while (!in_use.empty())
			op_put(s.draw(in_use.size()), s);
		for (unsigned c = 0; c < ncaches; c++) {
			CHECK(slab_cache_used(&caches[c]) == 0, "used", "used %zu after all was returned",
			      slab_cache_used(&caches[c]));
			slab_cache_check(&caches[c]);
			/* a full-size slab is available without new memory */
			size_t q0 = quota_used(&quota);
			if (owned_slabs() >= ncaches && owned_slabs() > 0 && ncaches == 1) {
				struct slab *f = slab_get_with_order(&caches[c], order_max);
				CHECK(f != NULL && quota_used(&quota) == q0, "coalesce", "no full-size "
				      "slab after everything was returned");
				slab_put(&caches[c], f);
			}
		}
	}
	size_t N = owned_slabs();
	for (unsigned c = 0; c < ncaches; c++)
		slab_cache_destroy(&caches[c]);
	CHECK(sm.heap.empty(), "leak", "%zu heap blocks left after destroy", sm.heap.size());
	CHECK(quota_used(&quota) == N * A, "quota", "after destroying the caches %zu is charged, "
	      "arena owns %zu", quota_used(&quota), N * A);
	CHECK(count_arena_cached() == N, "leak", "after destroying the caches the arena has %zu of %zu "
	      "slabs", count_arena_cached(), N);
	slab_arena_destroy(&arena);
	sm.audit_empty("leak", "end");
	if (max_orders >= 3 && merged && became_free)
		s.nontrivial();
	if (destroy_with_live) COUNT("case destroyed with slabs in use");
	if (ncaches == 2) COUNT("case with two caches");
	if (became_free) COUNT("case where an arena slab became free");
}
