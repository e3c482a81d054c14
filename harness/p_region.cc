/* C12: region memory; with -DJOIN C13: joins, resets and callbacks. */
#include "stack.h"
#include "region.h"

#ifndef JOIN
const char *case_rule = "a case is 1-2 regions on one slab cache (limits and faults generated) and a "
	"sequence of reserve/alloc/aligned_alloc/truncate/guard/reset/free; non-trivial: a region spanned "
	"at least 2 slabs and was truncated to a mark which leaves some allocations and frees others";
#else
const char *case_rule = "a case is 1-2 regions on one slab cache (limits and faults generated) with "
	"generated callbacks and a sequence of alloc/join/reset/truncate/free; non-trivial: bytes of at "
	"least 2 allocations were joined, a join moved data and a reset or truncation came later";
#endif
unsigned case_max_ops = 200;

static Stack st;
static Blocks mem;
static bool partial_cut, multi_slab, joined2, moved, after_move;

struct Piece {
	char *ptr;		/* of the block */
	size_t pad, size;
};
struct Mark {
	size_t used, pieces, total;
};
struct R {
	struct region r;
	bool created = false, cb = false;
	std::vector<Piece> pieces;
	std::vector<Mark> marks;
	size_t used = 0;
	/* callback log of the current operation */
	unsigned n_alloc = 0, n_trunc = 0;
	size_t cb_size = 0, cb_used = 0, cb_region_used = 0;
};
static std::vector<R> rs;

static void
on_alloc(struct region *r, size_t size, void *arg)
{
	R *x = (R *)arg;
	CHECK(r == &x->r, "callback", "callback with another region");
	x->n_alloc++;
	x->cb_size = size;
	x->cb_region_used = region_used(r);
}

static void
on_truncate(struct region *r, size_t used, void *arg)
{
	R *x = (R *)arg;
	CHECK(r == &x->r, "callback", "callback with another region");
	x->n_trunc++;
	x->cb_used = used;
	x->cb_region_used = region_used(r);
}

static int
id(R &x)
{
	return &x - &rs[0];
}

static void
begin(R &x)
{
	for (auto &y : rs)
		y.n_alloc = y.n_trunc = 0;
	(void)x;
}

static void
expect_cb(R &x, const char *what, unsigned na, size_t size, size_t before, unsigned nt, size_t after)
{
	for (auto &y : rs)
		if (&y != &x)
			CHECK(!y.n_alloc && !y.n_trunc, "callback", "%s: callback of another region", what);
	if (!x.cb)
		na = nt = 0;
	CHECK(x.n_alloc == na, "callback", "%s: allocation callback called %u times, expected %u", what,
	      x.n_alloc, na);
	CHECK(x.n_trunc == nt, "callback", "%s: truncation callback called %u times, expected %u", what,
	      x.n_trunc, nt);
	if (na)
		CHECK(x.cb_size == size && x.cb_region_used == before, "callback", "%s: allocation callback "
		      "got size %zu with %zu used, expected %zu with %zu", what, x.cb_size,
		      x.cb_region_used, size, before);
	if (nt)
		CHECK(x.cb_used == after && x.cb_region_used == after, "callback", "%s: truncation callback "
		      "got used %zu with %zu used, expected %zu", what, x.cb_used, x.cb_region_used, after);
}

static void
check_used(const char *when)
{
	size_t total = 0;
	for (auto &x : rs) {
		if (!x.created)
			continue;
		CHECK(region_used(&x.r) == x.used, "used", "%s: region_used %zu, expected %zu", when,
		      region_used(&x.r), x.used);
		CHECK(region_total(&x.r) >= x.used, "total", "%s: total %zu is less than used %zu", when,
		      region_total(&x.r), x.used);
		total += region_total(&x.r);
	}
#ifndef ENABLE_ASAN
	CHECK(slab_cache_used(st.cache()) == total, "total", "%s: regions have %zu in total, the slab cache "
	      "says %zu", when, total, slab_cache_used(st.cache()));
#endif
}

static void
cut_model(R &x, size_t used)
{
	while (x.used > used) {
		Piece p = x.pieces.back();
		x.pieces.pop_back();
		x.used -= p.pad + p.size;
		Blocks::check(*mem.find(p.ptr), "before truncation");
		mem.del(p.ptr);
	}
	while (!x.marks.empty() && x.marks.back().used > used)
		x.marks.pop_back();
	CHECK(x.used == used, "harness", "mark");
}

static void
check_owned(const void *p, size_t size, const char *what)
{
	CHECK(sm.owned(p, size), "unowned", "%s: %p+%zu is not allocated memory", what, p, size);
}

/* A failed operation of the given size. */
static void
check_refused(R &x, const char *what, size_t size, size_t q0, size_t total0)
{
#ifdef ENABLE_ASAN
	FAIL("refused", "%s(%zu) failed", what, size);
#endif
	size_t left = quota_total(&st.quota) - q0;
	size_t need = std::max(st.A, size + 4096);
	CHECK(sm.faulted || left < need, "refused", "%s(%zu) refused with %zu left", what, size, left);
	CHECK(region_used(&x.r) == x.used && region_total(&x.r) == total0, "refused", "failed %s(%zu) changed "
	      "the region: used %zu -> %zu, total %zu -> %zu", what, size, x.used, region_used(&x.r),
	      total0, region_total(&x.r));
	expect_cb(x, what, 0, 0, 0, 0, 0);
	COUNT("refused");
}

/* Register an allocation just made. */
static void
registered(R &x, char *p, size_t size, size_t align, const char *what, bool fill)
{
	size_t eff = region_used(&x.r) - x.used;
	CHECK(((uintptr_t)p & (align - 1)) == 0, "align", "%s(%zu) -> %p not aligned to %zu", what, size, p,
	      align);
	check_owned(p, size, what);
	CHECK(eff >= size && eff < size + align, "used", "%s(%zu, align %zu) changes used by %zu", what, size,
	      align, eff);
	expect_cb(x, what, 1, eff, x.used, 0, 0);
	Block *b = mem.add(p, size, what, false);
	if (fill)
		Blocks::refill(*b);
	x.pieces.push_back({p, eff - size, size});
	x.used += eff;
	if (region_total(&x.r) > st.A || x.pieces.size() > 20)
		multi_slab = true;
	check_used(what);
}

static size_t
gen_size(Src &s, R &x)
{
	/* what is left in the current slab is interesting but not visible; sizes
	 * near slab sizes hit it often enough */
	size_t A = st.A, o = st.order0;
	size_t room = region_total(&x.r) - region_used(&x.r);
	size_t r = s.nearby(1, A * 2, {8, o - 80, o, 2 * o - 80, A / 2, A - 80, A, room > 4096 ? room - 100 : 64,
		room < 2 * A ? std::max<size_t>(room, 1) : 128});
	if (s.draw(3))
		r = 1 + s.logsize(s.draw(2) ? 2000 : 200);
	if (s.chance(1, 60))
		r = A * s.range(1, 8);
	return r;
}

/* Blocks which need more than 32 bits for their size. */
static bool
want_huge(Src &s)
{
	return HUGE_BLOCKS && s.chance(1, 100) && !st.limited;
}

static size_t
gen_align(Src &s)
{
	/* (the ASAN allocators take alignments below 32 KB) */
	if (HUGE_BLOCKS && !st.limited && s.chance(1, 400))
		return 1ULL << 32;
	if (s.chance(1, 25))
		return 1ULL << s.range(13, BIG_ALIGN);
	return 1ULL << s.weighted({6, 1, 2, 4, 3, 1, 1, 1, 1, 0, 1, 0, 1});
}

static void
op_alloc(Src &s, R &x, size_t size, size_t align, bool plain)
{
	begin(x);
	size_t q0 = quota_used(&st.quota), total0 = region_total(&x.r);
	sm.faulted = false;
	char *p;
	if (plain && s.draw(6) == 5)
		p = (char *)region_alloc_cb(&x.r, size);
	else
		p = (char *)(plain ? region_alloc(&x.r, size) : region_aligned_alloc(&x.r, size, align));
	TR("region %d %s(%zu, %zu) -> %p", id(x), plain ? "alloc" : "aligned_alloc", size, align, p);
	if (!p)
		return check_refused(x, "alloc", size + align, q0, total0);
	registered(x, p, size, align, plain ? "alloc" : "aligned_alloc", true);
}

/* A request which can't be granted. */
static void
op_absurd(Src &s, R &x)
{
	size_t size = gen_absurd(s), align = gen_align(s), q0 = quota_used(&st.quota), total0 = region_total(&x.r);
	begin(x);
	char *p;
	unsigned how = s.draw(5);
	switch (how) {
	case 0: p = (char *)region_alloc(&x.r, size); break;
	case 1: p = (char *)region_aligned_alloc(&x.r, size, align); break;
	case 2: p = (char *)region_reserve(&x.r, size); break;
	case 3: p = (char *)region_aligned_reserve(&x.r, size, align); break;
	default: {
		size_t room = size;
		p = (char *)region_reserve_cb(&x.r, &room);
	}
	}
	static const char *name[] = {"alloc", "aligned_alloc", "reserve", "aligned_reserve", "reserve_cb"};
	TR("region %d %s(%zu, %zu) -> %p", id(x), name[how], size, align, p);
	CHECK(!p, "absurd", "%s(%zu, align %zu) gives %p", name[how], size, align, p);
	CHECK(region_used(&x.r) == x.used && region_total(&x.r) == total0 && quota_used(&st.quota) == q0, "absurd",
	      "refused %s(%zu) changed the region: used %zu -> %zu, total %zu -> %zu, quota %zu -> %zu", name[how], size,
	      x.used, region_used(&x.r), total0, region_total(&x.r), q0, quota_used(&st.quota));
	expect_cb(x, name[how], 0, 0, 0, 0, 0);
	COUNT("absurd size refused");
}

struct S24 { void *a; char b[17]; };

static void
op_object(Src &s, R &x)
{
	begin(x);
	size_t q0 = quota_used(&st.quota), total0 = region_total(&x.r), size = 0, want, align;
	sm.faulted = false;
	char *p;
	switch (s.draw(4)) {
	case 0:
		p = (char *)region_alloc_object(&x.r, struct S24, &size);
		want = sizeof(S24), align = alignof(S24);
		break;
	case 1:
		p = (char *)region_alloc_object(&x.r, long double, &size);
		want = sizeof(long double), align = alignof(long double);
		break;
	case 2: {
		size_t n = want_huge(s) ? gen_huge(s) / 4 : 1 + s.logsize(3000);
		p = (char *)region_alloc_array(&x.r, uint32_t, n, &size);
		want = sizeof(uint32_t) * n, align = alignof(uint32_t);
		break;
	}
	default: {
		size_t n = 1 + s.logsize(300);
		p = (char *)region_alloc_array(&x.r, struct S24, n, &size);
		want = sizeof(S24) * n, align = alignof(S24);
	}
	}
	TR("region %d alloc_object/array(%zu) -> %p", id(x), want, p);
	CHECK(size == want, "size", "object/array size %zu, expected %zu", size, want);
	if (!p)
		return check_refused(x, "alloc", want + align, q0, total0);
	registered(x, p, want, align, "alloc_object/array", true);
}

static void
op_reserve(Src &s, R &x)
{
	size_t size = want_huge(s) ? gen_huge(s) : gen_size(s, x), align = s.draw(2) ? 1 : gen_align(s);
	bool plain = align == 1 && s.draw(2);
	bool cb = plain && s.draw(2);
	begin(x);
	size_t q0 = quota_used(&st.quota), total0 = region_total(&x.r), room = size;
	sm.faulted = false;
	char *p;
	if (cb)
		p = (char *)region_reserve_cb(&x.r, &room);
	else
		p = (char *)(plain ? region_reserve(&x.r, size) : region_aligned_reserve(&x.r, size, align));
	TR("region %d reserve%s(%zu, %zu) -> %p room %zu", id(x), cb ? "_cb" : "", size, align, p, room);
	if (!p)
		return check_refused(x, "reserve", size + align, q0, total0);
	CHECK(room >= size, "reserve", "reserve_cb(%zu) gives %zu", size, room);
	CHECK(((uintptr_t)p & (align - 1)) == 0, "align", "reserve(%zu) -> %p not aligned to %zu", size, p, align);
	check_owned(p, room, "reserve");
	CHECK(region_used(&x.r) == x.used, "used", "reserve changed used");
	expect_cb(x, "reserve", 0, 0, 0, 0, 0);
	check_used("reserve");
	/* the room is free: fill it */
	Block b = *mem.add(p, room, "reserve", false);
	bool filled = room < sparse_from;
	for (size_t i = 0; filled && i < room; i++)
		p[i] = (char)pat(b.tag, i);
	mem.del(p);
	switch (s.weighted({8, 1, 1})) {
	case 0: {
		size_t n = s.draw(3) ? room : s.range(1, room);
		begin(x);
		char *q = (char *)(plain ? region_alloc(&x.r, n) : region_aligned_alloc(&x.r, n, align));
		TR("region %d alloc(%zu) of reserved -> %p", id(x), n, q);
		CHECK(q == p, "reserve", "reserved %zu at %p, allocated %zu at %p", size, p, n, q);
		mem.next_tag--;
		registered(x, p, n, align, "alloc of reserved", !filled);
		Blocks::check(*mem.find(p), "contents written to the reserved room");
		break;
	}
	case 1:
		begin(x);
		region_truncate(&x.r, x.used);
		TR("region %d truncate(%zu) after reserve", id(x), x.used);
		expect_cb(x, "truncate", 0, 0, 0, 1, x.used);
		check_used("truncate after reserve");
		break;
	default:
		begin(x);
		TR("region %d free after reserve", id(x));
		cut_model(x, 0);
		region_free(&x.r);
		expect_cb(x, "free", 0, 0, 0, 1, 0);
		check_used("free after reserve");
		x.marks.clear();
	}
	(void)b;
}

static void
op_mark(R &x)
{
	if (x.marks.size() < 30)
		x.marks.push_back({region_used(&x.r), x.pieces.size(), region_total(&x.r)});
}

static void
op_truncate(Src &s, R &x)
{
	size_t used = 0, total = SIZE_MAX;
	if (s.draw(8) == 7 && !x.pieces.empty()) {
		used = x.used - x.pieces.back().size - x.pieces.back().pad;
	} else if (!x.marks.empty() && s.draw(8)) {
		Mark m = x.marks[s.draw(x.marks.size())];
		used = m.used;
		total = m.total;
	}
	size_t n0 = x.pieces.size(), total0 = region_total(&x.r), keep = 0, sum = 0;
	while (sum < used)
		sum += x.pieces[keep].pad + x.pieces[keep].size, keep++;
	CHECK(sum == used, "harness", "mark %zu", used);
	if (keep > 0 && keep < n0)
		partial_cut = true;
	begin(x);
	size_t old = x.used;
	cut_model(x, used);
	TR("region %d truncate(%zu) from %zu", id(x), used, old);
	region_truncate(&x.r, used);
	expect_cb(x, "truncate", 0, 0, 0, 1, used);
	check_used("truncate");
	CHECK(region_total(&x.r) <= total0 && region_total(&x.r) <= total, "total", "truncate to %zu leaves total "
	      "%zu, it was %zu when the mark was made", used, region_total(&x.r), total);
	if (used == 0)
		CHECK(region_total(&x.r) == 0, "total", "truncate to 0 leaves total %zu", region_total(&x.r));
	if (moved)
		after_move = true;
}

static void
op_guard(Src &s, R &x)
{
	size_t used = x.used, total;
	{
		total = region_total(&x.r);
		RegionGuard g(&x.r);
		TR("region %d guard at %zu", id(x), used);
		for (unsigned n = s.draw(5); n-- > 0;)
			op_alloc(s, x, gen_size(s, x), 1, true);
		mem.check_all("guard");
		begin(x);
		size_t u = used;
		cut_model(x, u);
	}
	expect_cb(x, "guard", 0, 0, 0, 1, used);
	check_used("guard");
	CHECK(region_total(&x.r) <= total, "total", "guard leaves total %zu of %zu", region_total(&x.r), total);
}

static void
op_reset(R &x)
{
	begin(x);
	size_t total = region_total(&x.r);
	cut_model(x, 0);
	x.marks.clear();
	TR("region %d reset", id(x));
	region_reset(&x.r);
	CHECK(region_used(&x.r) == 0, "reset", "%zu used after reset", region_used(&x.r));
	expect_cb(x, "reset", 0, 0, 0, 1, 0);
#ifndef ENABLE_ASAN
	CHECK(region_total(&x.r) == total, "reset", "reset changed total from %zu to %zu", total,
	      region_total(&x.r));
#endif
	check_used("reset");
	if (moved)
		after_move = true;
	(void)total;
}

static void
op_free(Src &s, R &x)
{
	begin(x);
#ifndef ENABLE_ASAN
	if (s.draw(3) == 2) {
		size_t after = s.draw(2) ? x.used : s.draw(x.used + 100);
		bool will = x.used > after;
		TR("region %d free_after(%zu)", id(x), after);
		if (will)
			cut_model(x, 0), x.marks.clear();
		region_free_after(&x.r, after);
		expect_cb(x, "free_after", 0, 0, 0, will, 0);
		CHECK(!will || region_total(&x.r) == 0, "free", "%zu bytes held after free_after", region_total(&x.r));
		check_used("free_after");
		return;
	}
#endif
	cut_model(x, 0);
	x.marks.clear();
	TR("region %d free", id(x));
	region_free(&x.r);
	CHECK(region_used(&x.r) == 0 && region_total(&x.r) == 0, "free", "%zu of %zu used after free",
	      region_used(&x.r), region_total(&x.r));
	expect_cb(x, "free", 0, 0, 0, 1, 0);
	check_used("free");
}

static void
op_join(Src &s, R &x)
{
	if (x.used == 0)
		return;
	/* length: whole pieces or any number of bytes */
	/* (gigabytes which were hardly touched are copied without touching them) */
	bool huge = HUGE_BLOCKS && x.used > (1ULL << 32) && s.draw(2);
	size_t n = 0, max = huge ? x.used : std::min<size_t>(x.used, 6 << 20);
	switch (s.draw(4)) {
	case 0: {
		size_t k = 1 + s.draw(x.pieces.size());
		for (size_t i = x.pieces.size() - k; i < x.pieces.size(); i++)
			n += x.pieces[i].pad + x.pieces[i].size;
		break;
	}
	case 1: n = s.range(1, max); break;
	case 2: n = 1 + s.logsize(max - 1); break;
	default: n = max;
	}
	n = std::min(n, max);
	huge = n > (6 << 20);
	std::vector<char> exp(huge ? 0 : n);
	size_t left = n, cnt = 0;
	for (size_t i = x.pieces.size(); i-- > 0 && left;) {
		Piece &p = x.pieces[i];
		size_t len = std::min(left, p.pad + p.size);
		if (!huge)
			memcpy(&exp[left - len], p.ptr + p.size - len, len);
		left -= len;
		cnt++;
	}
	begin(x);
	size_t q0 = quota_used(&st.quota), total0 = region_total(&x.r);
	sm.faulted = false;
	char *p = (char *)region_join(&x.r, n);
	TR("region %d join(%zu) of %zu allocations -> %p used %zu -> %zu", id(x), n, cnt, p, x.used,
	   region_used(&x.r));
	if (!p)
		return check_refused(x, "join", n, q0, total0);
	check_owned(p, n, "join");
	if (huge) {
		/* by pieces, at the places which are written */
		size_t end = n;
		for (size_t i = x.pieces.size(); i-- > 0 && end;) {
			Piece &q = x.pieces[i];
			size_t len = std::min(end, q.size);
			uint64_t tag = mem.find(q.ptr)->tag;
			for_pattern(q.size, [&](size_t j) {
				if (j + len < q.size)
					return;
				char c = p[end - q.size + j];
				CHECK(c == (char)pat(tag, j), "join", "join(%zu) of %zu allocations: byte %zu of one of %zu is "
				      "%#x, expected %#x", n, cnt, j, q.size, (unsigned char)c, pat(tag, j));
			});
			end -= std::min(end, q.size + q.pad);
		}
		COUNT("join of 4 GB and more");
	} else for (size_t i = 0; i < n; i++)
		CHECK(p[i] == exp[i], "join", "join(%zu) of %zu allocations: byte %zu is %#x, expected %#x", n,
		      cnt, i, (unsigned char)p[i], (unsigned char)exp[i]);
#ifndef PBT_ASAN
	/* contiguous bytes stay where they are */
	bool together = true;
	left = n;
	for (size_t i = x.pieces.size(); i-- > 0 && left;) {
		Piece &q = x.pieces[i];
		left -= std::min(left, q.pad + q.size);
		if (left && i > 0 && x.pieces[i - 1].ptr + x.pieces[i - 1].size != q.ptr - q.pad)
			together = false;
	}
	if (together)
		CHECK(region_used(&x.r) == x.used, "join", "join(%zu) of %zu allocations moved bytes which were "
		      "contiguous", n, cnt);
#endif
	if (region_used(&x.r) == x.used) {
		/* in place: must be the end of the data, as it was */
		Piece &l = x.pieces.back();
		CHECK(p + n == l.ptr + l.size, "join", "join without allocation returned %p+%zu, last "
		      "allocation is %p+%zu", p, n, l.ptr, l.size);
		expect_cb(x, "join", 0, 0, 0, 0, 0);
	} else {
		registered(x, p, n, 1, "join", false);
		Blocks::refill(*mem.find(p));
		moved = true;
	}
	if (cnt >= 2)
		joined2 = true;
	mem.check_all("join");
}

static void
op_callbacks(Src &s, R &x)
{
	x.cb = !x.cb;
	if (x.cb)
		region_set_callbacks(&x.r, on_alloc, on_truncate, &x);
	else
		region_set_callbacks(&x.r, NULL, NULL, s.draw(2) ? &x : NULL);
	TR("region %d callbacks %s", id(x), x.cb ? "on" : "off");
}

void
run_case(Src &s)
{
	sm.reset();
	mem.clear();
	partial_cut = multi_slab = joined2 = moved = after_move = false;
	Stack::Opts o;
	o.limit_lo = 1;
	o.limit_hi = 40;
	o.gigantic = 80;
	st.create(s, o);
	rs.clear();
	rs.resize(1 + (s.draw(3) == 2));
	for (auto &x : rs) {
		memset((void *)&x.r, 0xa5, sizeof(x.r));
		region_create(&x.r, st.cache());
		x.created = true;
		CHECK(region_used(&x.r) == 0 && region_total(&x.r) == 0, "create", "new region is not empty");
	}
	uint64_t k = 0;
	while (s.more()) {
		R &x = rs[s.draw(rs.size())];
		k++;
#ifdef JOIN
		unsigned op = s.weighted({10, 4, 2, 2, 2, 3, 1, 2, 2, 8, 2});
#else
		unsigned op = s.weighted({10, 6, 2, 5, 4, 4, 1, 1, 1, 1, 1});
#endif
		if (mem.bytes > (st.gigantic ? 48 << 20 : 12 << 20) && (op < 4 || op == 9))
			op = 7;
		if (ABSURD_SIZES && s.chance(1, 50)) {
			op_absurd(s, x);
			continue;
		}
		switch (op) {
		case 0: op_alloc(s, x, want_huge(s) ? gen_huge(s) : gen_size(s, x), 1, true); break;
		case 1: op_alloc(s, x, want_huge(s) ? gen_huge(s) : gen_size(s, x), gen_align(s), false); break;
		case 2: op_object(s, x); break;
		case 3: op_reserve(s, x); break;
		case 4: op_mark(x); break;
		case 5: op_truncate(s, x); break;
		case 6: op_guard(s, x); break;
		case 7: op_reset(x); break;
		case 8: op_free(s, x); break;
		case 9: op_join(s, x); break;
		default: op_callbacks(s, x);
		}
		if (k % 8 == 0)
			mem.check_all("step");
		st.check_quota("step");
	}
	mem.check_all("end");
	for (auto &x : rs) {
		begin(x);
		cut_model(x, 0);
		region_destroy(&x.r);
		expect_cb(x, "destroy", 0, 0, 0, 1, 0);
		x.created = false;
	}
	st.destroy();
#ifdef JOIN
	if (joined2 && moved && after_move)
		s.nontrivial();
#else
	if (partial_cut && multi_slab)
		s.nontrivial();
#endif
	if (st.gigantic) COUNT("case with slabs up to 2 GB");
	if (moved) COUNT("case with a moving join");
	if (partial_cut) COUNT("case with a partial truncation");
}
