/* C17: obuf stores a byte stream and rolls back exactly. */
#include "stack.h"
#include "obuf.h"
#include <sys/mman.h>
#ifdef ENABLE_ASAN
#include <sanitizer/asan_interface.h>
#endif

const char *case_rule = "a case is 1-2 output buffers on one slab cache (limits and faults generated) and a "
	"sequence of dup/alloc/reserve/savepoint/rollback/reset; non-trivial: a buffer spanned at least 3 "
	"vectors, was rolled back across a vector boundary to a place inside the data and was appended to again";
unsigned case_max_ops = 120;

static Stack st;
static bool spanned, rolled, appended_after;

/* One append: size bytes of content pat(tag, i). */
struct Seg {
	size_t size;
	uint64_t tag;
	char *ptr;		/* handed out by alloc (contiguous), or null */
	size_t pat = 0;		/* size the written places were chosen for, if more */
};
struct Svp {
	struct obuf_svp s;
	size_t used, nsegs;
};
struct O {
	struct obuf o;
	size_t start;
	std::vector<Seg> segs;
	std::vector<Svp> svps;
	size_t used = 0, reserved = 0;
	char *rptr = nullptr;
	/* where each byte is, by vector, as long as it is not rolled back */
	std::vector<std::pair<void *, size_t>> places;
	bool was_rolled = false;
};
static std::vector<O> os;
static uint64_t next_tag;
static bool deep;		/* huge sparse allocations */

/* Offsets of a segment which are written and compared. */
template <class F> static void
offsets(size_t size, F f)
{
	if (size <= (1 << 20) && !deep) {
		for_pattern(size, f);
		return;
	}
	if (size <= 4096) {
		for (size_t i = 0; i < size; i++)
			f(i);
		return;
	}
	for (size_t i = 0; i < 256; i++)
		f(i);
	for (size_t i = 1; i < 8; i++)
		f(size / 8 * i);
	for (size_t i = size - 256; i < size; i++)
		f(i);
}

static int
id(O &x)
{
	return &x - &os[0];
}

/* Shape of the vectors: sums, counts, ownership; and that data did not move. */
static void
check_shape(O &x, const char *when)
{
	struct obuf *o = &x.o;
	CHECK(obuf_is_initialized(o), "initialized", "%s: obuf_is_initialized is false", when);
	CHECK(obuf_size(o) == x.used, "size", "%s: obuf_size %zu, %zu bytes were appended", when, obuf_size(o),
	      x.used);
	int n = obuf_iovcnt(o);
	CHECK(n >= 0 && n <= SMALL_OBUF_IOV_MAX, "iovcnt", "%s: %d vectors", when, n);
	size_t sum = 0;
	for (int i = 0; i < n; i++) {
		CHECK(o->iov[i].iov_len <= o->capacity[i], "overflow", "%s: vector %d has %zu bytes in %zu", when, i,
		      o->iov[i].iov_len, o->capacity[i]);
#ifndef ENABLE_ASAN
		CHECK(o->iov[i].iov_len > 0, "empty", "%s: vector %d of %d is empty", when, i, n);
#endif
		sum += o->iov[i].iov_len;
		CHECK(sm.owned(o->iov[i].iov_base, o->iov[i].iov_len), "unowned", "%s: vector %d %p+%zu is not in "
		      "allocated memory", when, i, o->iov[i].iov_base, o->iov[i].iov_len);
		for (int j = 0; j < i; j++)
			CHECK((char *)o->iov[i].iov_base + o->iov[i].iov_len <= (char *)o->iov[j].iov_base ||
			      (char *)o->iov[j].iov_base + o->iov[j].iov_len <= (char *)o->iov[i].iov_base,
			      "overlap", "%s: vectors %d and %d overlap", when, i, j);
	}
	CHECK(sum == x.used, "size", "%s: the %d vectors have %zu bytes, %zu were appended", when, n, sum, x.used);
	if (n >= 3)
		spanned = true;
	/* data which was there before stays where it was */
	SmPause pause;
	for (size_t i = 0; i < x.places.size(); i++) {
		if (x.places[i].second == 0)
			continue;
		CHECK((int)i < n && o->iov[i].iov_base == x.places[i].first && o->iov[i].iov_len >= x.places[i].second,
		      "moved", "%s: vector %zu was %p+%zu, now %p+%zu", when, i, x.places[i].first,
		      x.places[i].second, o->iov[i].iov_base, (int)i < n ? o->iov[i].iov_len : 0);
	}
	x.places.clear();
	for (int i = 0; i < n; i++)
		x.places.push_back({o->iov[i].iov_base, o->iov[i].iov_len});
}

static void
check_content(O &x, const char *when)
{
	struct obuf *o = &x.o;
	int n = obuf_iovcnt(o), v = 0;
	size_t at = 0;		/* inside vector v */
	size_t seg = 0;
	for (auto &g : x.segs) {
		while (v < n && at == o->iov[v].iov_len)
			v++, at = 0;
		if (g.ptr) {
			CHECK(v < n && g.size <= o->iov[v].iov_len - at && g.ptr == (char *)o->iov[v].iov_base + at,
			      "address", "%s: allocation %zu of %zu bytes was handed out at %p, the stream has it at %p",
			      when, seg, g.size, g.ptr, v < n ? (char *)o->iov[v].iov_base + at : nullptr);
		}
		size_t base = 0;	/* of vector part in the segment */
		int w = v;
		size_t a = at;
		offsets(std::max(g.size, g.pat), [&](size_t i) {
			if (i >= g.size)
				return;
			while (w < n && i - base >= o->iov[w].iov_len - a) {
				base += o->iov[w].iov_len - a;
				w++;
				a = 0;
			}
			CHECK(w < n, "content", "%s: the vectors end before byte %zu of append %zu", when, i, seg);
			unsigned char c = ((unsigned char *)o->iov[w].iov_base)[a + i - base];
			CHECK(c == pat(g.tag, i), "content", "%s: byte %zu of append %zu (of %zu bytes) is %#x, should "
			      "be %#x", when, i, seg, g.size, c, pat(g.tag, i));
		});
		size_t left = g.size;
		while (v < n && left >= o->iov[v].iov_len - at && left > 0) {
			left -= o->iov[v].iov_len - at;
			v++;
			at = 0;
		}
		at += left;
		seg++;
	}
#if defined(ENABLE_ASAN) && defined(POISON)
	for (int i = 0; i < n; i++) {
		char *b = (char *)o->iov[i].iov_base;
		size_t len = o->iov[i].iov_len, cap = o->capacity[i];
		void *p = __asan_region_is_poisoned(b, len);
		CHECK(!p, "poisoned", "%s: byte %zd of vector %d is poisoned", when, (char *)p - b, i);
		if (i < SMALL_OBUF_IOV_CHECKED_MAX)
			CHECK(__asan_address_is_poisoned((char *)((uintptr_t)b & ~7) - 1), "accessible",
			      "%s: the byte before vector %d is accessible", when, i);
		size_t from = x.reserved && i == o->pos ? cap : len;
		for (size_t j = from; j <= cap; j++)
			CHECK(__asan_address_is_poisoned(b + j), "accessible", "%s: byte %zu of vector %d, which has "
			      "%zu bytes, is accessible", when, j, i, len);
	}
	if (x.reserved)
		CHECK(!__asan_region_is_poisoned(x.rptr, x.reserved), "poisoned", "%s: the reservation is poisoned",
		      when);
#endif
}

static size_t
held(O &x)
{
#ifdef ENABLE_ASAN
	(void)x;
	return 0;
#else
	size_t t = 0;
	for (int i = 0; i <= SMALL_OBUF_IOV_MAX && x.o.capacity[i] > 0; i++)
		t += slab_real_size(st.cache(), x.o.capacity[i]);
	return t;
#endif
}

static void
check_all(const char *when, bool full)
{
	size_t total = 0;
	for (auto &x : os) {
		check_shape(x, when);
		if (full)
			check_content(x, when);
		total += held(x);
	}
	(void)total;
#ifndef ENABLE_ASAN
	CHECK(slab_cache_used(st.cache()) == total, "total", "%s: the slab cache has %zu used, the buffers "
	      "hold %zu", when, slab_cache_used(st.cache()), total);
	st.check_quota(when);
#endif
}

static void
append(O &x, char *p, size_t size, uint64_t tag, bool write)
{
	SmPause pause;
	if (write)
		offsets(size, [&](size_t i) { p[i] = (char)pat(tag, i); });
	x.segs.push_back(Seg{size, tag, p});
	x.used += size;
	if (x.was_rolled)
		appended_after = true;
}

static bool
may_refuse(O &x, uint64_t nm, uint64_t nf, size_t size)
{
	/* the last vector may be full */
	return st.limited || sm.n_mmap_failed != nm || sm.n_malloc_failed != nf || size > (1 << 28) ||
		x.o.pos + 1 >= SMALL_OBUF_IOV_MAX ||
		/* or the capacity of the next, as they double, is more than is left */
		(x.o.pos > 12 && (x.start << (x.o.pos + 1)) > quota_total(&st.quota) - quota_used(&st.quota));
}

static size_t
room(O &x)
{
	return x.o.capacity[x.o.pos] - x.o.iov[x.o.pos].iov_len;
}

static size_t
size_for(Src &s, O &x)
{
	size_t r = room(x);
	switch (s.weighted({6, 4, 3, 1})) {
	case 0: return 1 + s.logsize(3000);
	case 1: return std::max<size_t>(1, s.nearby(0, r + r / 2 + 2, {r, r + 1, r - (r > 0)}));
	case 2: return s.nearby(1, 3 * x.start, {x.start, x.start + 1, 2 * x.start});
	default: return s.nearby(1, 2 * st.A, {st.order0, st.A, 4096});
	}
}

static void
roll(O &x, size_t used, size_t nsegs)
{
	SmPause pause;
	x.segs.resize(nsegs);
	x.used = used;
	size_t sum = 0;
	for (auto &g : x.segs)
		sum += g.size;
	CHECK(sum == used, "harness", "savepoint inside an append");
	/* the surviving prefix stays in place */
	for (auto &p : x.places) {
		size_t k = std::min(p.second, used);
		p.second = k;
		used -= k;
	}
	x.reserved = 0;
}

static void
check_svp(O &x, Svp &v, const char *when)
{
	/* a savepoint converts to the address of the data around it */
	if (v.s.iov_len == 0 || v.used == 0)
		return;
	char *p = (char *)obuf_svp_to_ptr(&x.o, &v.s);
	const Seg &g = x.segs[v.nsegs - 1];
	CHECK(p == (char *)x.o.iov[v.s.pos].iov_base + v.s.iov_len, "svp-ptr", "%s: savepoint pointer", when);
	CHECK((g.pat > g.size) || (unsigned char)p[-1] == pat(g.tag, g.size - 1), "svp-ptr", "%s: the byte before the savepoint is not "
	      "the last one appended before it", when);
}

void
run_case(Src &s)
{
	sm.reset();
	spanned = rolled = appended_after = false;
	next_tag = 1;
	deep = false;
#if !defined(ENABLE_ASAN) && !defined(__SANITIZE_ADDRESS__)
	deep = s.chance(1, 200);
#endif
	if (deep)
		sm.heap_limit = (size_t)28 << 30;
	Stack::Opts opts;
	opts.limit = !deep;
	st.create(s, opts);
	{
		SmPause p;
		os.clear();
		os.resize(deep ? 1 : 1 + s.weighted({3, 1}));
	}
	for (auto &x : os) {
		x.start = s.chance(1, 8) ? 1 + s.logsize(1 << 18) : s.pick<size_t>({16, 1, 1024, 16384, 4096, 16320});
		if (deep)
			x.start = HUGE_BLOCKS && s.draw(4) == 0 ? (4ULL << 30) + s.draw(3) * 1000 : 1;
		memset((void *)&x.o, 0xa5, sizeof(x.o));
		obuf_create(&x.o, st.cache(), x.start);
		TR("obuf %d start_capacity %zu%s", id(x), x.start, deep ? " (deep)" : "");
	}
	check_all("create", true);
	unsigned n = 0;
	size_t cap = deep ? (size_t)(HUGE_BLOCKS ? 12 : 8) << 30 : 4 << 20;
	std::vector<char> src;
	while (s.more()) {
		O &x = os[s.draw(os.size())];
		struct obuf *o = &x.o;
		const char *what = "";
		uint64_t nm = sm.n_mmap_failed, nf = sm.n_malloc_failed;
		size_t res = x.reserved;
		struct obuf_svp now = obuf_create_svp(o);
		CHECK(now.used == x.used, "svp", "savepoint with %zu used, %zu were appended", now.used, x.used);
#if ABSURD_SIZES
		if (!res && s.chance(1, 50)) {
			/* a request which can't be granted */
			size_t sz = gen_absurd(s), got = sz, q0 = quota_used(&st.quota), cu0 = slab_cache_used(st.cache());
			unsigned how = s.draw(4);
			static const char *name[] = {"alloc", "alloc_cb", "reserve", "reserve_cb"};
			TR("obuf %d: %s(%zu), room %zu", id(x), name[how], sz, room(x));
			void *p = how == 0 ? obuf_alloc(o, sz) : how == 1 ? obuf_alloc_cb(o, sz) : how == 2 ?
				obuf_reserve(o, sz) : obuf_reserve_cb(o, &got);
			CHECK(!p, "absurd", "obuf_%s(%zu) gives %p", name[how], sz, p);
			CHECK(quota_used(&st.quota) == q0 && slab_cache_used(st.cache()) == cu0, "absurd", "failed "
			      "obuf_%s(%zu) changed the quota or the slab cache", name[how], sz);
			check_all("absurd size", false);
			COUNT("absurd size refused");
			continue;
		}
#endif
		switch (s.weighted({6, 8, 5, 6, 4, 1, 1, 1, deep ? 20u : 1u, deep && HUGE_BLOCKS ? 3u : 0u,
			deep && HUGE_BLOCKS ? 2u : 0u})) {
		case 0: { /* dup */
			what = "obuf_dup";
			if (res)
				break;
			size_t sz = size_for(s, x);
			if (sz + x.used > cap || sz > (8 << 20))
				break;
			uint64_t tag = next_tag++;
			{
				SmPause pz;
				src.resize(sz);
				for (size_t i = 0; i < sz; i++)
					src[i] = (char)pat(tag, i);
			}
			TR("obuf %d: dup(%zu), room %zu", id(x), sz, room(x));
			int c0 = obuf_iovcnt(o);
			size_t got = obuf_dup(o, src.data(), sz);
			CHECK(got <= sz, "dup", "obuf_dup(%zu) returned %zu", sz, got);
			if (got < sz) {
				CHECK(may_refuse(x, nm, nf, sz), "refused", "obuf_dup(%zu) copied %zu although nothing refused "
				      "memory", sz, got);
				COUNT("dup refused");
			}
			if (got > 0) {
				if (obuf_iovcnt(o) > c0 + 1 || (c0 && obuf_iovcnt(o) > c0 && o->iov[c0].iov_len < got))
					COUNT("dup split");
				SmPause pz;
				x.segs.push_back(Seg{got, tag, nullptr});
				x.used += got;
				if (x.was_rolled)
					appended_after = true;
			}
			break;
		}
		case 1: { /* alloc */
			what = "obuf_alloc";
			if (res)
				break;
			size_t sz = size_for(s, x);
			if (sz + x.used > cap)
				break;
			bool cb = s.chance(1, 4);
			size_t r = room(x);
			TR("obuf %d: alloc%s(%zu), room %zu", id(x), cb ? "_cb" : "", sz, r);
			char *p = (char *)(cb ? obuf_alloc_cb(o, sz) : obuf_alloc(o, sz));
			if (p == NULL) {
				CHECK(may_refuse(x, nm, nf, sz), "refused", "obuf_alloc(%zu) failed although nothing refused "
				      "memory", sz);
#ifndef ENABLE_ASAN
				CHECK(r < sz, "refused", "obuf_alloc(%zu) failed with room for %zu", sz, r);
#endif
				COUNT("alloc refused");
				break;
			}
			append(x, p, sz, next_tag++, true);
			break;
		}
		case 2: { /* reserve */
			what = "obuf_reserve";
			if (res)
				break;
			size_t sz = size_for(s, x);
			if (sz + x.used > cap)
				break;
			bool cb = s.chance(1, 3);
			size_t r = room(x);
			TR("obuf %d: reserve%s(%zu), room %zu", id(x), cb ? "_cb" : "", sz, r);
			size_t got = sz;
			char *p = (char *)(cb ? obuf_reserve_cb(o, &got) : obuf_reserve(o, sz));
			if (p == NULL) {
				CHECK(may_refuse(x, nm, nf, sz), "refused", "obuf_reserve(%zu) failed although nothing "
				      "refused memory", sz);
#ifndef ENABLE_ASAN
				CHECK(r < sz, "refused", "obuf_reserve(%zu) failed with room for %zu", sz, r);
#endif
				COUNT("reserve refused");
				break;
			}
			CHECK(got >= sz, "reserve", "obuf_reserve_cb(%zu) says %zu", sz, got);
			CHECK(sm.owned(p, got), "unowned", "obuf_reserve(%zu): %p is not in allocated memory", sz, p);
			/* the whole reservation may be written */
			offsets(got, [&](size_t i) { p[i] = (char)0xEE; });
			x.reserved = got;
			x.rptr = p;
			break;
		}
		case 3: { /* use the reservation */
			what = "alloc of reserved";
			if (!res)
				break;
			size_t sz = s.nearby(1, std::min(res, deep ? res : (size_t)1 << 20), {res, res / 2});
			TR("obuf %d: alloc(%zu) of reserved %zu", id(x), sz, res);
			uint64_t tag = next_tag++;
			bool early = s.draw(2);
			if (early)
				offsets(sz, [&](size_t i) { x.rptr[i] = (char)pat(tag, i); });
			char *p = (char *)obuf_alloc(o, sz);
			CHECK(p == x.rptr, "reserve", "obuf_alloc(%zu) of %zu reserved at %p returned %p", sz, res, x.rptr, p);
			append(x, p, sz, tag, !early);
			x.reserved = 0;
			break;
		}
		case 4: { /* savepoint or rollback */
			if (x.svps.empty() || s.draw(2)) {
				what = "savepoint";
#ifdef ENABLE_ASAN
				if (res)
					break;
#endif
				TR("obuf %d: savepoint %zu at %zu", id(x), x.svps.size(), x.used);
				SmPause pz;
				x.svps.push_back(Svp{now, x.used, x.segs.size()});
				break;
			}
			what = "rollback";
			size_t k = s.draw(x.svps.size());
			k = x.svps.size() - 1 - k;
			Svp &v = x.svps[k];
			check_content(x, "before rollback");
			check_svp(x, v, "before rollback");
			TR("obuf %d: rollback to savepoint %zu at %zu", id(x), k, v.used);
			if (v.s.pos < (size_t)o->pos && v.used > 0 && v.used < x.used) {
				rolled = true;
				x.was_rolled = true;
			}
			struct obuf_svp copy = v.s;
			obuf_rollback_to_svp(o, &copy);
			roll(x, v.used, v.nsegs);
			SmPause pz;
			x.svps.resize(k + 1);
			break;
		}
		case 5: {
			what = "obuf_reset";
			TR("obuf %d: reset", id(x));
			if (s.draw(3) == 0) {
				struct obuf_svp z;
				obuf_svp_reset(&z);
				obuf_rollback_to_svp(o, &z);
			} else {
				obuf_reset(o);
			}
			roll(x, 0, 0);
			SmPause pz;
			x.svps.clear();
			CHECK(obuf_size(o) == 0 && obuf_iovcnt(o) == 0, "reset", "after reset: size %zu, %d vectors",
			      obuf_size(o), obuf_iovcnt(o));
			break;
		}
		case 6: {
			what = "destroy and create";
			TR("obuf %d: destroy, create", id(x));
			obuf_destroy(o);
			CHECK(!obuf_is_initialized(o), "initialized", "obuf_is_initialized after obuf_destroy");
			obuf_create(o, st.cache(), x.start);
			roll(x, 0, 0);
			SmPause pz;
			x.svps.clear();
			break;
		}
		case 7: {
			what = "huge";
#ifndef ENABLE_ASAN
			if (res)
				break;
			size_t sz = ((size_t)1 << s.range(36, 45)) + s.draw(4096);
			TR("obuf %d: alloc(%zu)", id(x), sz);
			CHECK((s.draw(2) ? obuf_alloc(o, sz) : obuf_reserve(o, sz)) == NULL, "huge", "got %zu bytes under a "
			      "limit of %zu", sz, st.limit);
#else
			what = "burst";
			if (res || o->pos >= SMALL_OBUF_IOV_CHECKED_MAX)
				break;
			for (unsigned i = s.range(40, 100); i-- > 0;) {
				size_t sz = 1 + s.draw(3);
				append(x, (char *)obuf_alloc(o, sz), sz, next_tag++, true);
			}
			if (o->pos >= SMALL_OBUF_IOV_CHECKED_MAX)
				COUNT("vectors shared by allocations");
#endif
			break;
		}
		case 8: { /* fill the current vector and enter the next one */
			what = "next vector";
			if (res)
				break;
			for (unsigned i = deep ? s.range(1, 20) : 1; i-- > 0;) {
			size_t r = room(x);
			size_t sz = !deep && s.draw(2) ? r + 1 : std::max<size_t>(r, 1);
			if (sz + x.used > cap)
				break;
			TR("obuf %d: alloc(%zu), room %zu, vectors %d", id(x), sz, r, obuf_iovcnt(o));
			char *p = (char *)obuf_alloc(o, sz);
			if (p == NULL) {
				CHECK(r < sz && may_refuse(x, nm, nf, sz), "refused", "obuf_alloc(%zu) failed", sz);
				if (obuf_iovcnt(o) == SMALL_OBUF_IOV_MAX)
					COUNT("all vectors taken");
				break;
			}
			append(x, p, sz, next_tag++, true);
			}
			break;
		}
		case 9: { /* a single allocation of 4 GB and more */
			what = "4 GB";
			size_t sz = gen_huge(s);
			if (res || sz + x.used > cap)
				break;
			bool two = s.draw(2);
			size_t r = room(x);
			TR("obuf %d: %s(%zu), room %zu, vectors %d", id(x), two ? "reserve and alloc" : "alloc", sz, r, obuf_iovcnt(o));
			char *q = two ? (char *)obuf_reserve(o, sz) : nullptr;
			if (two && q)
				CHECK(sm.owned(q, sz), "unowned", "obuf_reserve(%zu): %p is not in allocated memory", sz, q);
			char *p = two && !q ? nullptr : (char *)obuf_alloc(o, sz);
			if (two && q)
				CHECK(p == q, "reserve", "obuf_alloc(%zu) of as much reserved at %p returned %p", sz, q, p);
			if (p == NULL) {
				CHECK(r < sz, "refused", "obuf_alloc(%zu) failed", sz);
				break;
			}
			append(x, p, sz, next_tag++, true);
			COUNT("allocation of 4 GB and more");
			break;
		}
		case 10: { /* data of 4 GB and more, nearly all of it zeros which were never touched */
			what = "dup of 4 GB";
			size_t sz = gen_huge(s);
			if (res || sz + x.used > cap)
				break;
			uint64_t tag = next_tag++;
			char *d;
			{
				SmPause pz;
				d = (char *)mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				CHECK(d != MAP_FAILED, "harness", "no %zu bytes of data", sz);
				offsets(sz, [&](size_t i) { d[i] = (char)pat(tag, i); });
			}
			TR("obuf %d: dup(%zu), room %zu, vectors %d", id(x), sz, room(x), obuf_iovcnt(o));
			int c0 = obuf_iovcnt(o);
			size_t got = obuf_dup(o, d, sz);
			CHECK(got <= sz, "dup", "obuf_dup(%zu) returned %zu", sz, got);
			SmPause pz;
			munmap(d, sz);
			if (got < sz)
				COUNT("dup refused");
			else
				COUNT("dup of 4 GB and more");
			if (got > 0) {
				if (obuf_iovcnt(o) > c0 + 1)
					COUNT("dup of 4 GB and more split");
				x.segs.push_back(Seg{got, tag, nullptr, sz});
				x.used += got;
				if (x.was_rolled)
					appended_after = true;
			}
			break;
		}
		}
		check_all(what, ++n % 6 == 0);
	}
	check_all("at the end", true);
	for (auto &x : os) {
		for (auto &v : x.svps)
			check_svp(x, v, "at the end");
		obuf_destroy(&x.o);
		CHECK(!obuf_is_initialized(&x.o), "initialized", "obuf_is_initialized after obuf_destroy");
	}
	if (spanned && rolled && appended_after)
		s.nontrivial();
	st.destroy();
	SmPause p;
	os.clear();
	os.shrink_to_fit();
	src = {};
}
