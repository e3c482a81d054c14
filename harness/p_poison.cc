/* C29: the allocators of the AddressSanitizer build make memory which is not
 * handed out inaccessible and detect misuse. */
#include "stack.h"
#include <setjmp.h>
#include <sanitizer/asan_interface.h>
#include "mempool.h"
#include "small.h"
#include "region.h"
#include "lsregion.h"
#include "obuf.h"

const char *case_rule = "a case is a history of allocating, reserving, freeing, truncating, collecting and rolling "
	"back of generated sizes and alignments on several allocators of every kind of the ASAN build, with "
	"generated misuses; non-trivial: memory of at least 4 kinds was given back, and a misuse was detected";
unsigned case_max_ops = 150;

static Stack st;
static jmp_buf jump;
static bool armed;
static char last_expr[200];
static unsigned kinds_back, misuses;

static void
on_assert(const char *file, int line, const char *func, const char *expr)
{
	snprintf(last_expr, sizeof(last_expr), "%s:%d %s: %s", file, line, func, expr);
	if (armed) {
		armed = false;
		longjmp(jump, 1);
	}
	FAIL("assertion", "%s", last_expr);
}

/* The statement must be detected as a misuse. */
#define MISUSE(stmt, ...) do {						\
	armed = true;							\
	if (setjmp(jump) == 0) {					\
		stmt;							\
		armed = false;						\
		FAIL("undetected", __VA_ARGS__);			\
	}								\
	TR("misuse detected: %s", last_expr);				\
	misuses++;							\
} while (0)

struct L {
	char *p = nullptr;
	size_t size = 0, align = 1;
	uint64_t tag = 0;
	int64_t extra = 0;	/* used before (region), id (lsregion) */
};
static uint64_t tags;

static bool
poisoned(const char *p)
{
	return __asan_address_is_poisoned(p);
}

static void
no_sanitize_fill(const L &l)
{
	for_pattern(l.size, [&](size_t i) { l.p[i] = (char)pat(l.tag, i); });
}

/* Everything about a live piece of memory. */
static void
check_live(const L &l, const char *what, const char *when)
{
	void *bad = l.size ? __asan_region_is_poisoned(l.p, l.size) : nullptr;
	CHECK(!bad, "poisoned", "%s: byte %zd of %s %p+%zu is poisoned", when, (char *)bad - l.p, what, l.p, l.size);
	auto it = sm.heap.upper_bound((uintptr_t)l.p);
	CHECK(it != sm.heap.begin(), "unowned", "%s: %s %p is not in the heap", when, what, l.p);
	--it;
	char *b = (char *)it->first, *e = b + it->second;
	CHECK(l.p > b && l.p + l.size <= e, "unowned", "%s: %s %p+%zu is not in the heap", when, what, l.p, l.size);
	for (char *q = l.p + l.size; q < e; q++)
		CHECK(poisoned(q), "accessible", "%s: byte %zd after %s %p+%zu is accessible", when,
		      q - (l.p + l.size), what, l.p, l.size);
	CHECK(poisoned(e), "accessible", "%s: the byte after the block of %s is accessible", when, what);
	/* a part of an 8-byte granule can not be poisoned */
	char *g = (char *)((uintptr_t)l.p & ~7);
	CHECK(g > b, "accessible", "%s: nothing before %s %p", when, what, l.p);
	for (char *q = b; q < g; q++)
		CHECK(poisoned(q), "accessible", "%s: byte %zd before %s %p+%zu is accessible", when, l.p - q,
		      what, l.p, l.size);
	for_pattern(l.size, [&](size_t i) {
		CHECK((unsigned char)l.p[i] == pat(l.tag, i), "content", "%s: byte %zu of %s %p+%zu changed", when, i,
		      what, l.p, l.size);
	});
}

static void
check_aligned(const char *p, size_t align, const char *what)
{
	CHECK((uintptr_t)p % align == 0, "align", "%s %p is not aligned to %zu", what, p, align);
	CHECK((uintptr_t)p % (2 * align) != 0, "overaligned", "%s %p is aligned to more than %zu", what, p, align);
}

static L
fresh(char *p, size_t size, size_t align, const char *what, int64_t extra = 0)
{
	CHECK(p != NULL, "refused", "%s returned NULL", what);
	check_aligned(p, align, what);
	L l;
	l.p = p;
	l.size = size;
	l.align = align;
	l.tag = ++tags;
	l.extra = extra;
	void *bad = size ? __asan_region_is_poisoned(p, size) : nullptr;
	CHECK(!bad, "poisoned", "%s: byte %zd of %p+%zu is poisoned", what, (char *)bad - p, p, size);
	no_sanitize_fill(l);
	check_live(l, what, "fresh");
	return l;
}

static void
check_dead(const L &l, const char *what)
{
	CHECK(!sm.in_live_heap(l.p, 1) || !l.size, "unfreed", "%s %p+%zu was not freed", what, l.p, l.size);
	for_pattern(l.size, [&](size_t i) {
		CHECK(poisoned(l.p + i), "accessible", "byte %zu of %s %p+%zu which was given back is accessible", i,
		      what, l.p, l.size);
	});
}

/* A block which a function of the library is to free. Writes before a block
 * which can not be trapped are detected when it is freed. */
static char *
corrupt(Src &s, L &l, char *saved)
{
	size_t n = (uintptr_t)l.p & 7;
	if (n == 0)
		return nullptr;
	char *q = l.p - 1 - s.draw(n);
	*saved = *q;
	*q ^= 1 << s.draw(8);
	return q;
}

struct Pool {
	struct mempool p;
	std::vector<L> live;
};
struct Small {
	struct small_alloc a;
	std::vector<L> live;
};
struct Reg {
	struct region r;
	std::vector<L> live;
	char *rptr = nullptr;
	size_t rsize = 0, ralign = 1;
	size_t used = 0;
};
struct Ls {
	struct lsregion r;
	std::vector<L> live;
	char *rptr = nullptr;
	size_t rsize = 0, ralign = 1;
	int64_t id = 0;
};
static std::vector<Pool> pools;
static std::vector<Small> smalls;
static std::vector<Reg> regs;
static std::vector<Ls> lss;
static struct slab_cache cache2;
static struct slab_arena arena2;
static std::vector<L> slabs, maps;

static size_t
gen_size(Src &s)
{
	return s.nearby(1, 12000, {1, 2, 3, 7, 8, 9, 16, 127, 128, 129, 4096});
}

template <class V> static L
take(Src &s, V &v)
{
	size_t i = s.draw(v.size());
	L l = v[i];
	v[i] = v.back();
	v.pop_back();
	return l;
}

static void
op_pool(Src &s)
{
	size_t n = s.draw(pools.size());
	Pool &x = pools[n];
	size_t align = x.p.objsize & -x.p.objsize;
	if (align > 4096)
		align = 4096;
	unsigned op = s.weighted({4, 3, 1, 1});
	if (op == 0 || x.live.empty()) {
		TR("mempool %zu alloc of %u", n, x.p.objsize);
		char *p = (char *)mempool_alloc(&x.p);
		SmPause pause;
		x.live.push_back(fresh(p, x.p.objsize, align, "mempool object"));
	} else if (op == 1) {
		L l = take(s, x.live);
		check_live(l, "mempool object", "before free");
		TR("mempool %zu free %p", n, l.p);
		mempool_free(&x.p, l.p);
		check_dead(l, "mempool object");
		kinds_back |= 1;
	} else if (op == 2) {
		L &l = x.live[s.draw(x.live.size())];
		Pool &y = pools[(n + 1 + s.draw(pools.size() - 1)) % pools.size()];
		MISUSE(mempool_free(&y.p, l.p), "freeing an object of another pool is not detected");
		COUNT("free by wrong pool");
		check_live(l, "mempool object", "after detected misuse");
	} else {
		L l = take(s, x.live);
		char c, *q = corrupt(s, l, &c);
		size_t count = mempool_count(&x.p);
		if (q) {
			MISUSE(mempool_free(&x.p, l.p), "byte written %zd before an object is not detected", l.p - q);
			COUNT("corrupted before");
			*q = c;
			x.p.objcount = count;
		}
		mempool_free(&x.p, l.p);
		check_dead(l, "mempool object");
	}
}

static void
op_small(Src &s)
{
	size_t n = s.draw(smalls.size());
	Small &x = smalls[n];
	unsigned op = s.weighted({4, 3, 1, 1, 1});
	if (op == 0 || x.live.empty()) {
		size_t size = s.draw(30) == 29 ? 0 : gen_size(s);
		char *p = (char *)smalloc(&x.a, size);
		TR("small %zu alloc %zu -> %p", n, size, p);
		SmPause pause;
		x.live.push_back(fresh(p, size, 4, "small object"));
		struct small_alloc_info info;
		small_alloc_info(&x.a, p, size, &info);
		CHECK(info.real_size == size, "info", "real size %zu of %zu: not all of it is accessible",
		      info.real_size, size);
	} else if (op == 1) {
		L l = take(s, x.live);
		check_live(l, "small object", "before free");
		TR("small %zu free %p", n, l.p);
		smfree(&x.a, l.p, l.size);
		check_dead(l, "small object");
		kinds_back |= 2;
	} else if (op == 2) {
		L &l = x.live[s.draw(x.live.size())];
		Small &y = smalls[(n + 1 + s.draw(smalls.size() - 1)) % smalls.size()];
		MISUSE(smfree(&y.a, l.p, l.size), "freeing an object of another allocator is not detected");
		COUNT("free by wrong allocator");
		check_live(l, "small object", "after detected misuse");
	} else if (op == 3) {
		L &l = x.live[s.draw(x.live.size())];
		size_t wrong = s.nearby(0, 13000, {l.size + 1, l.size - (l.size > 0), l.size + 8, l.size & ~7, 0,
			l.size + (1ULL << 32), l.size ^ 256, l.size + 65536});
		if (wrong == l.size)
			wrong++;
		MISUSE(smfree(&x.a, l.p, wrong), "freeing %zu bytes as %zu is not detected", l.size, wrong);
		COUNT("free with wrong size");
		check_live(l, "small object", "after detected misuse");
	} else {
		L l = take(s, x.live);
		char c, *q = corrupt(s, l, &c);
		if (q) {
			size_t used = x.a.used, count = x.a.objcount;
			MISUSE(smfree(&x.a, l.p, l.size), "byte written %zd before an object is not detected", l.p - q);
			COUNT("corrupted before");
			*q = c;
			/* as if nothing had been done */
			x.a.used = used;
			x.a.objcount = count;
			CHECK(quota_lease(x.a.quota, l.size) >= 0, "harness", "lease");
		}
		smfree(&x.a, l.p, l.size);
		check_dead(l, "small object");
	}
}

static size_t
gen_align(Src &s)
{
	return s.draw(2) ? 1 : 1ULL << s.weighted({3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1});
}

static void
check_reservation(char *p, size_t size, const char *what)
{
	void *bad = __asan_region_is_poisoned(p, size);
	CHECK(!bad, "poisoned", "%s: byte %zd of reservation of %zu is poisoned", what, (char *)bad - p, size);
	CHECK(poisoned(p + size), "accessible", "%s: byte after a reservation of %zu is accessible", what, size);
	CHECK(poisoned((char *)((uintptr_t)p & ~7) - 1), "accessible", "%s: byte before a reservation is accessible",
	      what);
	for_pattern(size, [&](size_t i) { p[i] = (char)0xEE; });
}

static void
op_region(Src &s)
{
	size_t n = s.draw(regs.size());
	Reg &x = regs[n];
	switch (s.weighted({5, 3, 3, 1, 2, 2})) {
	case 0: {
		size_t size = gen_size(s), align = gen_align(s), used = region_used(&x.r);
		if (x.rptr) {
			align = x.ralign;
			size = s.draw(2) ? x.rsize : 1 + s.draw(x.rsize);
			if (s.draw(6) == 5) {
				size_t over = x.rsize + 1 + s.logsize(5000);
				MISUSE(region_aligned_alloc(&x.r, over, align), "allocating %zu of reserved %zu is not "
				       "detected", over, x.rsize);
				COUNT("allocation above reservation");
			}
		}
		char *p = (char *)(align > 1 ? region_aligned_alloc(&x.r, size, align) : region_alloc(&x.r, size));
		TR("region %zu alloc %zu align %zu -> %p", n, size, align, p);
		if (x.rptr)
			CHECK(p == x.rptr, "reserve", "region_alloc after reserve returned another address");
		x.rptr = nullptr;
		SmPause pause;
		x.live.push_back(fresh(p, size, align, "region block", used));
		break;
	}
	case 1: {
		if (x.rptr)
			break;
		size_t size = gen_size(s), align = gen_align(s), got = size;
		char *p;
		if (align == 1 && s.draw(2))
			p = (char *)region_reserve_cb(&x.r, &got);
		else if (align == 1)
			p = (char *)region_reserve(&x.r, size), got = size;
		else
			p = (char *)region_aligned_reserve(&x.r, size, align);
		TR("region %zu reserve %zu align %zu -> %p", n, size, align, p);
		check_aligned(p, align, "region reservation");
		CHECK(got >= size, "reserve", "got %zu", got);
		x.rptr = p;
		x.ralign = align;
		x.rsize = x.r.reserved;
		CHECK(x.rsize >= got, "reserve", "reserved %zu of %zu", x.rsize, got);
		check_reservation(p, x.rsize, "region_reserve");
		break;
	}
	case 2: {
		size_t k = x.live.size();
		if (k)
			k = s.draw(2) ? k - 1 : s.draw(k);
		size_t used = k == x.live.size() ? region_used(&x.r) : x.live[k].extra;
		if (k < x.live.size() && x.live[k].size > 1 && s.draw(5) == 4) {
			/* into the middle of a block */
			size_t mid = used + 1 + s.draw(x.live[k].size - 1);
			if (k + 1 == x.live.size() && !x.rptr) {
				MISUSE(region_truncate(&x.r, mid), "truncation into a block is not detected");
				COUNT("truncation into a block");
			}
		}
		TR("region %zu truncate %zu", n, used);
		char *rp = x.rptr;
		size_t rs = x.rsize;
		region_truncate(&x.r, used);
		if (rp) {
			CHECK(!sm.in_live_heap(rp, 1), "unfreed", "reservation survived truncation");
			for_pattern(rs, [&](size_t i) {
				CHECK(poisoned(rp + i), "accessible", "byte %zu of truncated reservation is "
				      "accessible", i);
			});
		}
		x.rptr = nullptr;
		SmPause pause;
		while (x.live.size() > k) {
			check_dead(x.live.back(), "region block");
			x.live.pop_back();
			kinds_back |= 4;
		}
		break;
	}
	case 3: {
		unsigned how = s.draw(3);
		TR("region %zu %s", n, how == 0 ? "free" : how == 1 ? "reset" : "destroy");
		if (how == 0)
			region_free(&x.r);
		else if (how == 1)
			region_reset(&x.r);
		else
			region_destroy(&x.r), region_create(&x.r, st.cache());
		x.rptr = nullptr;
		for (auto &l : x.live)
			check_dead(l, "region block");
		SmPause pause;
		x.live.clear();
		break;
	}
	case 4: {
		if (x.rptr || x.live.empty())
			break;
		size_t used = region_used(&x.r), size = 1 + s.draw(std::min<size_t>(used, 20000));
		std::vector<char> exp;
		{
			SmPause pause;
			exp.resize(size);
			size_t left = size;
			for (size_t i = x.live.size(); i-- > 0 && left;) {
				size_t m = std::min(left, x.live[i].size);
				memcpy(&exp[left - m], x.live[i].p + x.live[i].size - m, m);
				left -= m;
			}
		}
		char *p = (char *)region_join(&x.r, size);
		TR("region %zu join %zu -> %p", n, size, p);
		CHECK(p && !__asan_region_is_poisoned(p, size) && memcmp(p, exp.data(), size) == 0, "join",
		      "region_join(%zu)", size);
		SmPause pause;
		exp = {};
		if (region_used(&x.r) != used)
			x.live.push_back(fresh(p, size, 1, "joined block", used));
		break;
	}
	default: {
		if (!x.rptr) {
			MISUSE(region_truncate(&x.r, region_used(&x.r) + 1 + s.logsize(1000)), "truncation above the "
			       "used size is not detected");
			COUNT("truncation above used");
		} else if (s.draw(2)) {
			MISUSE(region_reserve(&x.r, gen_size(s)), "reserving twice is not detected");
			COUNT("double reserve");
		} else {
			MISUSE(region_join(&x.r, 1), "region_join with a reservation is not detected");
		}
		for (auto &l : x.live)
			check_live(l, "region block", "after detected misuse");
		break;
	}
	}
}

static void
op_lsregion(Src &s)
{
	size_t n = s.draw(lss.size());
	Ls &x = lss[n];
	switch (s.weighted({5, 3, 3, 1})) {
	case 0: {
		size_t size = gen_size(s), align = gen_align(s);
		if (x.rptr) {
			align = x.ralign;
			size = s.draw(2) ? x.rsize : 1 + s.draw(x.rsize);
			if (s.draw(6) == 5) {
				size_t over = x.rsize + 1 + s.logsize(5000);
				MISUSE(lsregion_aligned_alloc(&x.r, over, align, x.id), "allocating %zu of reserved %zu is "
				       "not detected", over, x.rsize);
				COUNT("allocation above reservation");
			}
		}
		if (s.draw(2))
			x.id++;
		char *p = (char *)(align > 1 ? lsregion_aligned_alloc(&x.r, size, align, x.id) :
			lsregion_alloc(&x.r, size, x.id));
		TR("lsregion %zu alloc %zu align %zu id %lld -> %p", n, size, align, (long long)x.id, p);
		if (x.rptr)
			CHECK(p == x.rptr, "reserve", "lsregion_alloc after reserve returned another address");
		x.rptr = nullptr;
		SmPause pause;
		x.live.push_back(fresh(p, size, align, "lsregion block", x.id));
		break;
	}
	case 1: {
		size_t size = gen_size(s), align = gen_align(s);
		if (x.rptr) {
			MISUSE(lsregion_reserve(&x.r, size), "reserving twice is not detected");
			COUNT("double reserve");
			break;
		}
		char *p = (char *)(align == 1 ? lsregion_reserve(&x.r, size) :
			lsregion_aligned_reserve(&x.r, size, align));
		TR("lsregion %zu reserve %zu align %zu -> %p", n, size, align, p);
		check_aligned(p, align, "lsregion reservation");
		x.rptr = p;
		x.ralign = align;
		x.rsize = size;
		check_reservation(p, size, "lsregion_reserve");
		break;
	}
	case 2: {
		if (x.rptr || x.live.empty())
			break;
		int64_t id = x.live[s.draw(x.live.size())].extra;
		TR("lsregion %zu gc %lld", n, (long long)id);
		for (auto &l : x.live)
			check_live(l, "lsregion block", "before collection");
		lsregion_gc(&x.r, id);
		size_t k = 0;
		while (k < x.live.size() && x.live[k].extra <= id)
			check_dead(x.live[k++], "lsregion block"), kinds_back |= 8;
		SmPause pause;
		x.live.erase(x.live.begin(), x.live.begin() + k);
		break;
	}
	default:
		TR("lsregion %zu destroy", n);
		lsregion_destroy(&x.r);
		lsregion_create(&x.r, &st.arena);
		x.rptr = nullptr;
		for (auto &l : x.live)
			check_dead(l, "lsregion block");
		SmPause pause;
		x.live.clear();
		break;
	}
}

static void
op_slab(Src &s)
{
	unsigned op = s.draw(6);
	if (op < 2 || (op < 4 && slabs.empty())) {
		size_t size = gen_size(s);
		struct slab *slab = slab_get(st.cache(), size);
		TR("slab_get %zu -> %p", size, slab);
		/* the whole slab is for use, header included */
		size_t real = slab_real_size(st.cache(), size);
		CHECK(slab_capacity(slab) >= size && (char *)slab_data(slab) + slab_capacity(slab) <= (char *)slab + real,
		      "slab", "slab of %zu has %zu for %zu", real, slab_capacity(slab), size);
		L l;
		l.p = (char *)slab_data(slab);
		size_t gap = l.p - (char *)slab;
		l.size = real - gap;
		l.tag = ++tags;
		l.extra = gap;
		CHECK((uintptr_t)slab % 16 == 0, "align", "slab %p", slab);
		CHECK((uintptr_t)slab % 32 != 0, "overaligned", "slab %p is aligned to more than 16", slab);
		void *bad = __asan_region_is_poisoned(slab, real);
		CHECK(!bad, "poisoned", "byte %zd of slab is poisoned", (char *)bad - (char *)slab);
		CHECK(poisoned((char *)slab - 1) && poisoned((char *)slab + real), "accessible", "bytes around a "
		      "slab are accessible");
		no_sanitize_fill(l);
		SmPause pause;
		slabs.push_back(l);
	} else if (op == 2) {
		L l = take(s, slabs);
		CHECK(!__asan_region_is_poisoned(l.p, l.size), "poisoned", "slab is poisoned");
		for_pattern(l.size, [&](size_t i) {
			CHECK((unsigned char)l.p[i] == pat(l.tag, i), "content", "slab byte %zu changed", i);
		});
		slab_put(st.cache(), (struct slab *)(l.p - l.extra));
		check_dead(l, "slab");
		kinds_back |= 16;
	} else if (op == 3) {
		L &l = slabs[s.draw(slabs.size())];
		MISUSE(slab_put(&cache2, (struct slab *)(l.p - l.extra)), "slab_put to another cache is not detected");
		COUNT("slab to wrong cache");
	} else if (op == 5 && s.chance(1, 6)) {
		/* a cache is for one thread: another one is told from it */
		L *l = slabs.empty() ? nullptr : &slabs[s.draw(slabs.size())];
		bool get = !l || s.draw(2);
		pthread_t self = st.cache()->thread_id, other;
		pthread_create(&other, NULL, [](void *p) -> void * {
			slab_cache_set_thread((struct slab_cache *)p);
			return nullptr;
		}, st.cache());
		pthread_join(other, NULL);
		CHECK(!pthread_equal(st.cache()->thread_id, self), "thread", "slab_cache_set_thread does not set "
		      "the calling thread");
		if (get)
			MISUSE(slab_get(st.cache(), 100), "slab_get of a cache of another thread is not detected");
		else
			MISUSE(slab_put(st.cache(), (struct slab *)(l->p - l->extra)), "slab_put to a cache of "
			       "another thread is not detected");
		slab_cache_set_thread(st.cache());
		COUNT("cache of another thread");
	} else if (op == 4 || maps.empty()) {
		char *p = (char *)slab_map(&st.arena);
		TR("slab_map -> %p", p);
		SmPause pause;
		if (maps.size() < 4) {
			maps.push_back(fresh(p, st.A, 8, "arena slab"));
		} else {
			sm.active = true;
			slab_unmap(&st.arena, p);
			sm.active = false;
		}
	} else if (s.draw(2)) {
		L &l = maps[s.draw(maps.size())];
		MISUSE(slab_unmap(&arena2, l.p), "slab_unmap to another arena is not detected");
		COUNT("slab to wrong arena");
	} else {
		L l = take(s, maps);
		check_live(l, "arena slab", "before unmap");
		slab_unmap(&st.arena, l.p);
		check_dead(l, "arena slab");
		kinds_back |= 32;
	}
}

/* Between the creation of two allocators many others came and went: owners must
 * not be mixed up after 256 or 65536 of them. */
static void
others(Src &s)
{
	if (!s.chance(1, 12))
		return;
	size_t n = s.chance(1, 8) ? 65536 : 256;
	for (n -= 1 + s.draw(4) / 3; n-- > 0;) {
		struct mempool p;
		mempool_create(&p, st.cache(), 64);
		mempool_destroy(&p);
	}
	COUNT("many allocators created in between");
}

void
run_case(Src &s)
{
	sm.reset();
	tags = 0;
	armed = false;
	kinds_back = misuses = 0;
	small_on_assert_failure = on_assert;
	Stack::Opts o;
	o.limit = false;
	o.faults = false;
	o.max_A = 65536;
	st.create(s, o);
	others(s);
	slab_arena_create(&arena2, &st.quota, 0, 65536, MAP_PRIVATE);
	others(s);
	slab_cache_create(&cache2, &st.arena);
	{
		SmPause pause;
		pools.clear();
		smalls.clear();
		regs.clear();
		lss.clear();
		slabs.clear();
		maps.clear();
		pools.resize(2 + s.draw(2));
		smalls.resize(2 + s.draw(2));
		regs.resize(1 + s.draw(2));
		lss.resize(1 + s.draw(2));
	}
	uint32_t size = gen_size(s);
	for (auto &x : pools) {
		/* often pools of the same size */
		if (s.draw(2))
			size = s.nearby(1, 12000, {1, 8, 16, 24, 100, 8192, 4096, 2048});
		others(s);
		mempool_create(&x.p, st.cache(), size);
	}
	for (auto &x : smalls) {
		float f;
		others(s);
		small_alloc_create(&x.a, st.cache(), 16, 8, 1.3f, &f);
	}
	for (auto &x : regs)
		region_create(&x.r, st.cache());
	for (auto &x : lss)
		lsregion_create(&x.r, &st.arena);
	unsigned n = 0;
	while (s.more()) {
		switch (s.weighted({3, 4, 5, 4, 2})) {
		case 0: op_pool(s); break;
		case 1: op_small(s); break;
		case 2: op_region(s); break;
		case 3: op_lsregion(s); break;
		default: op_slab(s); break;
		}
		if (++n % 16 == 0) {
			for (auto &x : pools)
				for (auto &l : x.live)
					check_live(l, "mempool object", "step");
			for (auto &x : smalls)
				for (auto &l : x.live)
					check_live(l, "small object", "step");
			for (auto &x : regs)
				for (auto &l : x.live)
					check_live(l, "region block", "step");
			for (auto &x : lss)
				for (auto &l : x.live)
					check_live(l, "lsregion block", "step");
		}
	}
	for (auto &x : pools) {
		for (auto &l : x.live)
			mempool_free(&x.p, l.p), check_dead(l, "mempool object");
		mempool_destroy(&x.p);
	}
	for (auto &x : smalls) {
		for (auto &l : x.live)
			smfree(&x.a, l.p, l.size), check_dead(l, "small object");
		small_alloc_destroy(&x.a);
	}
	for (auto &x : regs) {
		region_destroy(&x.r);
		for (auto &l : x.live)
			check_dead(l, "region block");
	}
	for (auto &x : lss) {
		lsregion_destroy(&x.r);
		for (auto &l : x.live)
			check_dead(l, "lsregion block");
	}
	for (auto &l : slabs)
		slab_put(st.cache(), (struct slab *)(l.p - l.extra)), check_dead(l, "slab");
	for (auto &l : maps)
		slab_unmap(&st.arena, l.p), check_dead(l, "arena slab");
	slab_cache_destroy(&cache2);
	slab_arena_destroy(&arena2);
	st.destroy();
	if (__builtin_popcount(kinds_back) >= 4 && misuses)
		s.nontrivial();
}
