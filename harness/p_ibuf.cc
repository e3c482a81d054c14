/* C16: ibuf is a lossless byte queue. */
#include "stack.h"
#include "ibuf.h"
#ifdef ENABLE_ASAN
#include <sanitizer/asan_interface.h>
#endif

const char *case_rule = "a case is 1-3 input buffers on one slab cache (limits and faults generated) and "
	"a sequence of reserve/alloc/write/consume/discard/truncate/shrink/reset/reinit; non-trivial: "
	"unread data was moved to the start of the buffer at least once and to a bigger buffer at least once "
	"while part of it had been consumed";
unsigned case_max_ops = 200;

static Stack st;
static bool moved, grown;

struct B {
	struct ibuf b;
	std::vector<unsigned char> data;	/* unread bytes */
	size_t start;
	uint64_t seq = 0;
	size_t reserved = 0;			/* promised contiguous room at wpos */
	bool open = false;			/* the free room is not poisoned */
};
static std::vector<B> bs;

static size_t
slab_of(B &x)
{
	return x.b.buf ? slab_real_size(st.cache(), ibuf_capacity(&x.b)) : 0;
}

static void
check_one(B &x, const char *when, bool deep)
{
	struct ibuf *b = &x.b;
	CHECK(b->buf <= b->rpos && b->rpos <= b->wpos && b->wpos <= b->end, "pointers",
	      "%s: buf %p rpos %p wpos %p end %p", when, b->buf, b->rpos, b->wpos, b->end);
	CHECK(ibuf_used(b) == x.data.size() && (size_t)(b->wpos - b->rpos) == x.data.size(), "used",
	      "%s: ibuf_used %zu, %zu bytes are written and not consumed", when, ibuf_used(b), x.data.size());
	CHECK(ibuf_unused(b) == (size_t)(b->end - b->wpos), "unused", "%s: ibuf_unused %zu", when, ibuf_unused(b));
	CHECK(ibuf_capacity(b) == (size_t)(b->end - b->buf), "capacity", "%s: ibuf_capacity", when);
	CHECK(ibuf_pos(b) == (size_t)(b->rpos - b->buf), "pos", "%s: ibuf_pos", when);
	if (b->buf == NULL) {
		CHECK(ibuf_capacity(b) == 0 && x.data.empty(), "capacity", "%s: no buffer, but capacity", when);
		return;
	}
	CHECK(ibuf_capacity(b) >= x.start, "capacity", "%s: capacity %zu below the start capacity %zu", when,
	      ibuf_capacity(b), x.start);
	CHECK(sm.owned(b->buf, ibuf_capacity(b)), "unowned", "%s: the buffer %p+%zu is not in allocated memory",
	      when, b->buf, ibuf_capacity(b));
#if defined(ENABLE_ASAN) && defined(POISON)
	if (deep) {
		void *p = __asan_region_is_poisoned(b->rpos, ibuf_used(b));
		CHECK(ibuf_used(b) == 0 || p == NULL, "poisoned", "%s: unread byte %zd is poisoned", when,
		      (char *)p - b->rpos);
		/* poisoning is exact at 8-byte boundaries for consumed data */
		for (char *q = b->buf; q < b->rpos && (uintptr_t)q / 8 < (uintptr_t)b->rpos / 8; q++)
			CHECK(__asan_address_is_poisoned(q), "accessible", "%s: consumed byte at %zu of %zu is "
			      "accessible", when, (size_t)(q - b->buf), ibuf_pos(b));
		if (!x.open)
			for (char *q = b->wpos; q < b->end; q++)
				CHECK(__asan_address_is_poisoned(q), "accessible", "%s: unallocated byte %zu is "
				      "accessible", when, (size_t)(q - b->wpos));
		else if (x.reserved)
			CHECK(__asan_region_is_poisoned(b->wpos, x.reserved) == NULL, "poisoned",
			      "%s: reserved memory is poisoned", when);
	}
#endif
	if (deep && !x.data.empty() && memcmp(b->rpos, x.data.data(), x.data.size()) != 0) {
		size_t i = 0;
		while ((unsigned char)b->rpos[i] == x.data[i])
			i++;
		FAIL("content", "%s: unread byte %zu of %zu is %#x, %#x was written", when, i, x.data.size(),
		     (unsigned char)b->rpos[i], x.data[i]);
	}
	size_t m = std::min(x.data.size(), (size_t)16);
	if (m)
		CHECK(memcmp(b->rpos, x.data.data(), m) == 0 &&
		      memcmp(b->wpos - m, x.data.data() + x.data.size() - m, m) == 0, "content",
		      "%s: unread data changed", when);
}

static void
check_all(const char *when, bool deep)
{
	size_t total = 0;
	for (auto &x : bs) {
		check_one(x, when, deep);
		total += slab_of(x);
	}
#ifndef ENABLE_ASAN
	CHECK(slab_cache_used(st.cache()) == total, "total", "%s: the slab cache has %zu used, the buffers "
	      "hold %zu", when, slab_cache_used(st.cache()), total);
	st.check_quota(when);
#else
	CHECK(slab_cache_used(st.cache()) == total, "total", "%s: the slab cache has %zu used, the buffers "
	      "hold %zu", when, slab_cache_used(st.cache()), total);
#endif
}

/* Put n bytes at p and into the model. */
static void
fill(B &x, char *p, size_t n)
{
	SmPause pause;
	size_t o = x.data.size();
	x.data.resize(o + n);
	for (size_t i = 0; i < n; i++)
		x.data[o + i] = pat(x.seq + 77 * (&x - &bs[0]), i);
	x.seq++;
	memcpy(p, x.data.data() + o, n);
}

struct Before {
	struct ibuf b;
	size_t cap, used, unused, slabs, quota;
	uint64_t nm, nf;
};

static Before
before(B &x)
{
	return Before{x.b, ibuf_capacity(&x.b), ibuf_used(&x.b), ibuf_unused(&x.b),
		slab_cache_used(st.cache()), quota_used(&st.quota), sm.n_mmap_failed, sm.n_malloc_failed};
}

/* Common rules of reserve and alloc of size bytes which returned p. */
static bool
after_room(B &x, const Before &o, void *p, size_t size, const char *what)
{
	struct ibuf *b = &x.b;
	bool fits = size <= o.unused;
	bool compact = !fits && size + o.used <= o.cap;
	if (p == NULL) {
		CHECK(!fits && !compact, "refused", "%s(%zu) failed, %zu bytes are free after and %zu of %zu in "
		      "the buffer", what, size, o.unused, o.cap - o.used, o.cap);
		CHECK(st.limited || sm.n_mmap_failed != o.nm || sm.n_malloc_failed != o.nf || size > (1 << 28),
		      "refused", "%s(%zu) failed although nothing refused memory", what, size);
		CHECK(memcmp(&o.b, b, sizeof(*b)) == 0, "changed", "failed %s(%zu) changed the buffer", what, size);
		CHECK(slab_cache_used(st.cache()) == o.slabs, "leak", "failed %s changed the slab cache", what);
		COUNT("refused");
		return false;
	}
	if (fits) {
		CHECK(b->buf == o.b.buf && b->rpos == o.b.rpos && p == o.b.wpos && b->end == o.b.end, "moved",
		      "%s(%zu) moved the data although %zu bytes were free", what, size, o.unused);
		COUNT("fits");
	} else if (compact) {
		CHECK(b->buf == o.b.buf && b->end == o.b.end && b->rpos == b->buf, "moved", "%s(%zu) with %zu "
		      "used of %zu took another buffer", what, size, o.used, o.cap);
		COUNT("compacted");
		if (o.used && o.b.rpos != o.b.buf)
			moved = true;
	} else {
		CHECK(ibuf_capacity(b) >= 2 * o.cap, "growth", "%s(%zu): the capacity grew from %zu to %zu only",
		      what, size, o.cap, ibuf_capacity(b));
		/* not more than needed by doubling and by slab sizes */
		size_t lim = std::max({2 * o.cap, x.start, 2 * (o.used + size)});
		CHECK(slab_of(x) <= slab_real_size(st.cache(), lim), "growth", "%s(%zu): the capacity grew from "
		      "%zu to %zu with %zu used", what, size, o.cap, ibuf_capacity(b), o.used);
		COUNT("grown");
		if (o.used && o.b.rpos != o.b.buf)
			grown = true;
	}
	if (size)
		CHECK(sm.owned(p, size), "unowned", "%s(%zu): %p is not in allocated memory", what, size, p);
	return true;
}

static const size_t SOME = 2 << 20;	/* start capacities may be above 4 GB */

static size_t
size_for(Src &s, B &x)
{
	struct ibuf *b = &x.b;
	size_t un = ibuf_unused(b), free_ = ibuf_capacity(b) - ibuf_used(b);
	switch (s.weighted({6, 3, 3, 2, 1})) {
	case 0: return 1 + s.logsize(2000);
	case 1: return 1 + s.nearby(0, std::max<size_t>(un, 1), {un, un / 2});
	case 2: return std::max<size_t>(1, s.nearby(un, free_ + 2, {un, un + 1, free_, free_ + 1}));
	case 3: {
		size_t lim = std::min(x.start, SOME);
		return s.nearby(1, 3 * st.A, {lim, lim + 1, st.A, st.order0, 2 * lim});
	}
	default: return s.nearby(1, 1 << 19, {4096, 65536});
	}
}

static bool
too_big(B &x, size_t n)
{
	return x.data.size() + n > (2 << 20);
}

void
run_case(Src &s)
{
	sm.reset();
	moved = grown = false;
	Stack::Opts opts;
	if (HUGE_BLOCKS) {
		opts.unlimited = 1ULL << 35;
		sm.heap_limit = 60ULL << 30;
		sm.absurd = 20ULL << 30;
	}
	st.create(s, opts);
	{
		SmPause p;
		bs.clear();
		bs.resize(1 + s.weighted({4, 2, 1}));
	}
	for (auto &x : bs) {
		x.start = s.chance(1, 8) ? 1 + s.logsize(1 << 20) : s.pick<size_t>({16384, 1024, 16, 1, 4096, 65536});
		if (HUGE_BLOCKS && !st.limited && s.chance(1, 100))
			x.start = (4ULL << 30) + s.draw(3) * 1000;
#ifdef ENABLE_ASAN
		memset(&x.b, 0xa5, sizeof(x.b));
#endif
		ibuf_create(&x.b, st.cache(), x.start);
		TR("ibuf %zu start_capacity %zu", (size_t)(&x - &bs[0]), x.start);
	}
	check_all("create", true);
	unsigned n = 0;
	while (s.more()) {
		B &x = bs[s.draw(bs.size())];
		struct ibuf *b = &x.b;
		int id = &x - &bs[0];
		Before o = before(x);
		const char *what = "";
#if ABSURD_SIZES
		if (s.chance(1, 50)) {
			/* a request which can't be granted */
			size_t sz = gen_absurd(s), got = sz;
			unsigned how = s.draw(4);
			static const char *name[] = {"alloc", "alloc_cb", "reserve", "reserve_cb"};
			TR("ibuf %d: %s(%zu)", id, name[how], sz);
			void *p = how == 0 ? ibuf_alloc(b, sz) : how == 1 ? ibuf_alloc_cb(b, sz) : how == 2 ?
				ibuf_reserve(b, sz) : ibuf_reserve_cb(b, &got);
			CHECK(!p, "absurd", "ibuf_%s(%zu) gives %p", name[how], sz, p);
			CHECK(memcmp(&o.b, b, sizeof(*b)) == 0, "changed", "failed ibuf_%s(%zu) changed the buffer",
			      name[how], sz);
			CHECK(slab_cache_used(st.cache()) == o.slabs && quota_used(&st.quota) == o.quota, "absurd",
			      "failed ibuf_%s(%zu) changed the slab cache", name[how], sz);
			COUNT("absurd size refused");
			continue;
		}
#endif
		size_t res = x.reserved;
		x.reserved = 0;
		bool huge = HUGE_BLOCKS && !st.limited && s.chance(1, 120);
		switch (huge ? 12 : s.weighted({8, 6, 6, 8, 2, 2, 2, 1, 1, 3, 1, 1})) {
		case 0: { /* alloc and write */
			what = "ibuf_alloc";
			size_t sz = size_for(s, x);
			if (too_big(x, sz))
				break;
			bool cb = s.chance(1, 4);
			TR("ibuf %d: alloc%s(%zu)", id, cb ? "_cb" : "", sz);
			void *p = cb ? ibuf_alloc_cb(b, sz) : ibuf_alloc(b, sz);
			if (!after_room(x, o, p, sz, what))
				break;
			CHECK(b->wpos == (char *)p + sz, "wpos", "ibuf_alloc(%zu) returned %p, wpos is %p", sz, p, b->wpos);
			fill(x, (char *)p, sz);
			x.open = false;
			break;
		}
		case 1: { /* reserve only, or write a part directly */
			what = "ibuf_reserve";
			size_t sz = size_for(s, x);
			if (too_big(x, sz))
				break;
			bool cb = s.chance(1, 4);
			TR("ibuf %d: reserve%s(%zu)", id, cb ? "_cb" : "", sz);
			void *p;
			if (cb) {
				size_t got = s.chance(1, 3) ? (sz = x.start, 0) : sz;
				p = ibuf_reserve_cb(b, &got);
				if (p != NULL)
					CHECK(got >= sz && got == ibuf_unused(b), "reserve_cb", "ibuf_reserve_cb: asked "
					      "for %zu, got %zu, %zu unused", sz, got, ibuf_unused(b));
			} else {
				p = ibuf_reserve(b, sz);
			}
			if (!after_room(x, o, p, sz, what))
				break;
			CHECK(p == b->wpos && ibuf_unused(b) >= sz, "reserve", "ibuf_reserve(%zu) returned %p with wpos "
			      "%p, %zu unused", sz, p, b->wpos, ibuf_unused(b));
			x.open = true;
			x.reserved = sz;
			size_t w = s.draw(2) ? s.nearby(0, std::min(sz, SOME), {std::min(sz, SOME)}) : 0;
			TR("  write %zu", w);
			fill(x, (char *)p, w);
			b->wpos += w;
			x.reserved -= w;
			break;
		}
		case 2: { /* use the reservation */
			what = "alloc reserved";
			x.reserved = res;
			if (res == 0)
				break;
			size_t sz = s.nearby(1, std::min(res, SOME), {std::min(res, SOME)});
			char *w = b->wpos;
			TR("ibuf %d: alloc %zu of reserved %zu", id, sz, res);
			void *p = ibuf_alloc(b, sz);
			CHECK(p == w && b->buf == o.b.buf && b->rpos == o.b.rpos, "reserve", "ibuf_alloc(%zu) within a "
			      "reservation of %zu at %p returned %p", sz, res, w, p);
			fill(x, (char *)p, sz);
			x.open = false;
			x.reserved = 0;
			break;
		}
		case 3: { /* consume */
			what = "ibuf_consume";
			size_t k = s.nearby(0, x.data.size(), {x.data.size(), x.data.size() / 2});
			bool before_ = s.chance(1, 3);
			TR("ibuf %d: consume%s(%zu)", id, before_ ? "_before" : "", k);
			if (b->buf == NULL)
				break;
			if (before_)
				ibuf_consume_before(b, b->rpos + k);
			else
				ibuf_consume(b, k);
			x.data.erase(x.data.begin(), x.data.begin() + k);
			CHECK(b->rpos == o.b.rpos + k && b->wpos == o.b.wpos && b->buf == o.b.buf, "consume", "ibuf_consume(%zu) "
			      "moved something else", k);
			x.reserved = res;
			break;
		}
		case 4: { /* discard */
			what = "ibuf_discard";
			size_t k = s.nearby(0, x.data.size(), {x.data.size()});
			TR("ibuf %d: discard(%zu)", id, k);
			if (b->buf == NULL)
				break;
			ibuf_discard(b, k);
			x.data.resize(x.data.size() - k);
			x.open = false;
			break;
		}
		case 5: { /* truncate after growing */
			what = "ibuf_truncate";
			size_t mark = ibuf_used(b);
			size_t sz = 1 + s.logsize(100000);
			if (too_big(x, sz) || b->buf == NULL)
				break;
			unsigned k = 1 + s.draw(3);
			TR("ibuf %d: %u x alloc(%zu) then truncate(%zu)", id, k, sz, mark);
			std::vector<unsigned char> was;
			{
				SmPause pz;
				was = x.data;
			}
			while (k--) {
				Before ob = before(x);
				void *p = ibuf_alloc(b, sz);
				if (!after_room(x, ob, p, sz, "ibuf_alloc"))
					break;
				fill(x, (char *)p, sz);
			}
			ibuf_truncate(b, mark);
			{
				SmPause pz;
				x.data = was;
				was = {};
				was.shrink_to_fit();
			}
			x.open = false;
			break;
		}
		case 6: { /* shrink */
			what = "ibuf_shrink";
			TR("ibuf %d: shrink (used %zu of %zu)", id, x.data.size(), o.cap);
			ibuf_shrink(b);
			size_t used = x.data.size();
			if (used == 0) {
				CHECK(b->buf == NULL && ibuf_capacity(b) == 0, "shrink", "ibuf_shrink of an empty buffer "
				      "left a capacity of %zu", ibuf_capacity(b));
				x.open = false;
			} else {
				size_t want = slab_real_size(st.cache(), std::max(used, x.start));
				bool refused = st.limited || sm.n_mmap_failed != o.nm || sm.n_malloc_failed != o.nf;
				size_t had = o.cap ? slab_real_size(st.cache(), o.cap) : 0;
				CHECK(slab_of(x) == want || (refused && slab_of(x) == had), "shrink", "ibuf_shrink: %zu bytes "
				      "used, slab of %zu, expected %zu", used, slab_of(x), want);
				if (slab_of(x) != had) {
					COUNT("shrunk");
					x.open = false;
				} else {
					CHECK(memcmp(&o.b, b, sizeof(*b)) == 0, "moved", "ibuf_shrink moved the data without "
					      "shrinking");
					x.reserved = res;
				}
			}
			break;
		}
		case 7:
			what = "ibuf_reset";
			TR("ibuf %d: reset", id);
			if (b->buf == NULL)
				break;
			ibuf_reset(b);
			x.data.clear();
			x.open = false;
			CHECK(ibuf_capacity(b) == o.cap && b->buf == o.b.buf, "reset", "ibuf_reset dropped the buffer");
			break;
		case 8:
			what = "ibuf_reinit";
			TR("ibuf %d: reinit", id);
			ibuf_reinit(b);
			x.data.clear();
			x.open = false;
			CHECK(b->buf == NULL && ibuf_capacity(b) == 0 && b->start_capacity == x.start, "reinit",
			      "ibuf_reinit left capacity %zu", ibuf_capacity(b));
			break;
		case 9: { /* consume nearly everything, then ask just more than what is left */
			what = "consume and alloc";
			if (x.data.empty())
				break;
			size_t k = x.data.size() - s.draw(std::min<size_t>(x.data.size(), 64));
			ibuf_consume(b, k);
			x.data.erase(x.data.begin(), x.data.begin() + k);
			size_t sz = ibuf_unused(b) + 1 + s.draw(ibuf_pos(b) + 2);
			TR("ibuf %d: consume(%zu), alloc(%zu)", id, k, sz);
			if (too_big(x, sz))
				break;
			o = before(x);
			void *p = ibuf_alloc(b, sz);
			x.open = false;
			if (after_room(x, o, p, sz, "ibuf_alloc"))
				fill(x, (char *)p, sz);
			break;
		}
		case 10: { /* hopeless request */
			what = "huge";
			size_t sz = ((size_t)1 << s.range(36, 45)) + s.draw(4096);
#ifdef ENABLE_ASAN
			break;
#endif
			TR("ibuf %d: reserve(%zu)", id, sz);
			void *p = s.draw(2) ? ibuf_alloc(b, sz) : ibuf_reserve(b, sz);
			CHECK(p == NULL, "huge", "got %zu bytes under a limit of %zu", sz, st.limit);
			after_room(x, o, p, sz, what);
			x.reserved = res;
			break;
		}
		case 11:
			what = "quota";
			if (!st.limited)
				break;
			/* give others memory or take it */
			quota_set(&st.quota, std::max(quota_used(&st.quota), st.A * (1 + s.draw(16))));
			TR("limit %zu", quota_total(&st.quota));
			x.reserved = res;
			break;
		case 12: { /* sizes and positions beyond 4 GB */
			what = "4 GB";
			size_t sz = gen_huge(s), used = x.data.size(), k = s.draw(64);
			bool reserve = s.draw(2);
			TR("ibuf %d: %s(%zu), keep %zu", id, reserve ? "reserve" : "alloc", sz, k);
			char *p = (char *)(reserve ? ibuf_reserve(b, sz) : ibuf_alloc(b, sz));
			x.open = false;
			if (!after_room(x, o, p, sz, what))
				break;
			if (reserve) {
				CHECK(p == b->wpos && ibuf_unused(b) >= sz, "reserve", "ibuf_reserve(%zu): %zu unused", sz,
				      ibuf_unused(b));
				CHECK(ibuf_alloc(b, sz) == p, "reserve", "ibuf_alloc(%zu) of as much reserved moved", sz);
			}
			CHECK(b->wpos == p + sz && ibuf_used(b) == used + sz && ibuf_capacity(b) == (size_t)(b->end - b->buf) &&
			      ibuf_capacity(b) >= used + sz && ibuf_unused(b) == (size_t)(b->end - b->wpos), "used",
			      "after %zu more than %zu: used %zu, unused %zu, capacity %zu", sz, used, ibuf_used(b),
			      ibuf_unused(b), ibuf_capacity(b));
			unsigned how = s.draw(3);
			if (how == 2) {
				/* all of it moves to another buffer, or within this one */
				std::vector<unsigned char> head, end;
				{
					SmPause pz;
					head = x.data;
					x.data.clear();
					fill(x, p + sz - k, k);
					end = x.data;
				}
				o = before(x);
				o.used = used + sz;
				size_t more = s.draw(4) ? ibuf_unused(b) + 1 + s.draw(1 << 20) : 0;
				TR("  %s", more ? "grow" : "shrink");
				if (more) {
					void *q = ibuf_reserve(b, more);
					after_room(x, o, q, more, "growth of 4 GB");
					if (q)
						COUNT("4 GB moved");
				} else {
					ibuf_shrink(b);
				}
				CHECK(ibuf_used(b) == used + sz, "used", "%zu bytes used of %zu", ibuf_used(b), used + sz);
				CHECK(memcmp(b->rpos, head.data(), used) == 0 && memcmp(b->wpos - k, end.data(), k) == 0, "content",
				      "content changed when 4 GB were moved");
				p = b->wpos - sz;
				SmPause pz;
				x.data = head;
				head = end = {};
				head.shrink_to_fit(), end.shrink_to_fit();
			}
			if (how == 1) {
				/* the last bytes stay */
				char *was = b->rpos;
				SmPause pz;
				x.data.clear();
				fill(x, p + sz - k, k);
				if (s.draw(2))
					ibuf_consume(b, used + sz - k);
				else
					ibuf_consume_before(b, p + sz - k);
				CHECK(ibuf_pos(b) == (size_t)(was - b->buf) + used + sz - k, "pos", "position %zu after consuming "
				      "%zu", ibuf_pos(b), used + sz - k);
			} else {
				fill(x, p, k);
				if (s.draw(2))
					ibuf_discard(b, sz - k);
				else
					ibuf_truncate(b, used + k);
			}
			check_all(what, true);
			if (s.draw(2)) {
				o = before(x);
				size_t more = ibuf_unused(b) + 1 + s.draw(std::min<size_t>(ibuf_pos(b) + 1, 1 << 20));
				TR("  %s(%zu)", reserve ? "alloc" : "reserve", more);
				void *q = reserve ? ibuf_alloc(b, more) : ibuf_reserve(b, more);
				if (after_room(x, o, q, more, "after 4 GB") && reserve)
					ibuf_discard(b, more);
				check_all(what, true);
			}
			switch (s.draw(4)) {
			case 0: ibuf_shrink(b); break;
			case 1: break;
			default: ibuf_reinit(b); x.data.clear();
			}
			COUNT("buffer of 4 GB and more");
			break;
		}
		}
		check_all(what, ++n % 8 == 0);
	}
	check_all("at the end", true);
	if (moved && grown)
		s.nontrivial();
	for (auto &x : bs)
		ibuf_destroy(&x.b);
	st.destroy();
	SmPause p;
	bs.clear();
	bs.shrink_to_fit();
}
