/* C14: lsregion memory and collection; with -DFLUSH C15: conversion to iovecs. */
#include "stack.h"
#include <deque>
#include "lsregion.h"

#ifndef FLUSH
const char *case_rule = "a case is 1-2 log regions on one arena (limits and faults generated) and a sequence "
	"of alloc/aligned_alloc/reserve+alloc with non-decreasing ids and collections; non-trivial: a region "
	"spanned at least 3 slabs of which one was large, and a collection freed some slabs and kept others";
#else
const char *case_rule = "a case is 1-2 log regions on one arena with 1-2 savepoints each and a sequence of "
	"alloc/reserve/flush (any vector count)/collect; non-trivial: a flush was partial or continued "
	"inside a slab, and a slab was collected and data allocated and flushed after it";
#endif
unsigned case_max_ops = 200;

static Stack st;
static Blocks mem;
static bool partial_gc, three, saw_large, partial_flush, continued, flush_after_gc, collected;

struct Piece {
	char *ptr;
	size_t pad, size;
	int64_t id;
	uint64_t seq;
};
struct Slab {
	uintptr_t key;
	size_t total;	/* size of the slab */
	size_t used;
	int64_t max_id;
	char *end;	/* of the used part */
	char *limit;	/* of the slab, 0 if unknown */
	uint64_t first_seq, last_seq;
};
struct Svp {
	struct lsregion_svp svp;
	uint64_t seq;		/* next piece to emit */
	size_t off;		/* bytes of it already emitted */
};
struct L {
	struct lsregion r;
	bool created = false;
	std::deque<Piece> pieces;
	std::deque<Slab> slabs;
	std::vector<Svp> svps;
	uint64_t seq = 0;
	int64_t id = 0;
	size_t used = 0;
	bool reserved_slab = false;	/* an unused slab at the end */
	size_t resv_total = 0;
};
static std::vector<L> ls;

static int
idx(L &x)
{
	return &x - &ls[0];
}

static void
check_used(L &x, const char *when)
{
	CHECK(lsregion_used(&x.r) == x.used, "used", "%s: used %zu, expected %zu", when, lsregion_used(&x.r), x.used);
	size_t total = lsregion_total(&x.r);
	CHECK(total >= x.used, "total", "%s: total %zu is less than used %zu", when, total, x.used);
#ifndef ENABLE_ASAN
	size_t sum = 0;
	for (auto &s : x.slabs)
		sum += s.total;
	sum += x.resv_total;
	CHECK(total == sum || total == sum + st.A, "total", "%s: total %zu, slabs holding data have %zu (and one "
	      "of %zu may be kept)", when, total, sum, st.A);
#endif
}

static size_t
gen_size(Src &s, L &x)
{
	size_t A = st.A, h = 64;
	size_t r = 1 + s.logsize(s.draw(2) ? 2000 : A);
	if (s.draw(4) == 0)
		r = s.nearby(1, A * 2, {A - h, A - 48, A - 40, A - 56, A, A / 2, A / 3});
	if (s.draw(6) == 5 && !x.slabs.empty() && x.slabs.back().limit) {
		/* what is left in the current slab and around */
		size_t left = x.slabs.back().limit - x.slabs.back().end;
		r = left + s.draw(5);
		r = r > 2 ? r - 2 : 1;
	}
	if (s.chance(1, 40))
		r = A * s.range(1, 5) + s.draw(1000);
	return r;
}

static size_t
gen_align(Src &s)
{
	/* (the ASAN allocators take alignments below 32 KB) */
	if (HUGE_BLOCKS && !st.limited && s.chance(1, 400))
		return 1ULL << 32;
	if (s.chance(1, 25))
		return 1ULL << s.range(13, BIG_ALIGN);
	return 1ULL << s.weighted({4, 1, 2, 4, 3, 1, 1, 1, 1, 0, 1, 0, 1});
}

/* The slab a block lies in. */
static uintptr_t
slab_key(char *p, char **limit, size_t *total)
{
	auto it = sm.heap.upper_bound((uintptr_t)p);
	if (it != sm.heap.begin()) {
		--it;
		if ((uintptr_t)p < it->first + it->second) {
			*limit = (char *)it->first + it->second;
			*total = it->second;
			return it->first;
		}
	}
	uintptr_t b = (uintptr_t)p & ~(st.A - 1);
	*limit = (char *)b + st.A;
	*total = st.A;
	return b;
}

static void
check_refused(L &x, const char *what, size_t size, size_t q0, size_t total0)
{
#ifdef ENABLE_ASAN
	FAIL("refused", "%s(%zu) failed", what, size);
#endif
	size_t left = quota_total(&st.quota) - q0, need = std::max(st.A, size + 1024);
	CHECK(sm.faulted || left < need, "refused", "%s(%zu) refused with %zu left", what, size, left);
	CHECK(lsregion_total(&x.r) == total0 && quota_used(&st.quota) == q0, "refused", "failed %s(%zu) changed total "
	      "from %zu to %zu, quota from %zu to %zu", what, size, total0, lsregion_total(&x.r), q0,
	      quota_used(&st.quota));
	check_used(x, "refused");
	COUNT("refused");
}

static void
registered(L &x, char *p, size_t size, size_t align, const char *what, size_t reserved)
{
	CHECK(((uintptr_t)p & (align - 1)) == 0, "align", "%s(%zu) -> %p not aligned to %zu", what, size, p, align);
	CHECK(sm.owned(p, size), "unowned", "%s: %p+%zu is not allocated memory", what, p, size);
	size_t eff = lsregion_used(&x.r) - x.used;
	CHECK(eff >= size && eff < size + align, "used", "%s(%zu, align %zu) changes used by %zu", what, size, align, eff);
	Block *b = mem.add(p, size, what, false);
	if (!reserved)
		Blocks::refill(*b);
	char *limit;
	size_t total;
	uintptr_t key = slab_key(p, &limit, &total);
#ifndef ENABLE_ASAN
	bool same = !x.slabs.empty() && x.slabs.back().key == key;
	if (!x.slabs.empty() && !same) {
		/* it did not fit into the last slab */
		Slab &l = x.slabs.back();
		char *at = (char *)(((uintptr_t)l.end + align - 1) & ~(align - 1));
		CHECK(at + std::max(size, reserved) > l.limit, "growth", "%s(%zu, align %zu) takes another slab while there is room "
		      "for %zu in the last one", what, size, align, (size_t)(l.limit - l.end));
	}
	if (same) {
		Slab &l = x.slabs.back();
		CHECK(p - (eff - size) == l.end, "order", "%s(%zu) -> %p with padding %zu is not next to %p", what, size, p,
		      eff - size, l.end);
	}
#else
	bool same = false;
#endif
	if (!same)
		x.slabs.push_back({key, total, 0, -1, p, limit, x.seq, x.seq});
	Slab &l = x.slabs.back();
	l.used += eff;
	l.max_id = x.id;
	l.end = p + size;
	l.last_seq = x.seq;
	CHECK(l.end <= l.limit, "outside", "block ends beyond the slab");
	x.pieces.push_back({p, eff - size, size, x.id, x.seq++});
	x.used += eff;
	x.reserved_slab = false;
	x.resv_total = 0;
	check_used(x, what);
	if (x.slabs.size() >= 3)
		three = true;
	if (total > st.A)
		saw_large = true;
}

static void
next_id(Src &s, L &x)
{
	switch (s.draw(4)) {
	case 0: break;
	case 1: x.id++; break;
	case 2: x.id += s.draw(5); break;
	default: x.id += s.draw(3) ? 0 : s.logsize(1ULL << 40);
	}
#if defined(ENABLE_ASAN) && defined(FLUSH)
	x.id++;
#endif
}

struct S24 { void *a; char b[17]; };

static void
op_alloc(Src &s, L &x)
{
	bool huge = HUGE_BLOCKS && s.chance(1, 100) && !st.limited;
	size_t size = huge ? gen_huge(s) : gen_size(s, x), align = 1, q0 = quota_used(&st.quota), t0 = lsregion_total(&x.r);
	next_id(s, x);
	sm.faulted = false;
	char *p;
	switch (s.weighted({5, 4, 1})) {
	case 0:
		p = (char *)lsregion_alloc(&x.r, size, x.id);
		break;
	case 1:
		align = gen_align(s);
		p = (char *)lsregion_aligned_alloc(&x.r, size, align, x.id);
		break;
	default:
		size = sizeof(S24), align = alignof(S24);
		p = (char *)lsregion_alloc_object(&x.r, x.id, S24);
	}
	TR("region %d alloc(%zu, %zu, id %lld) -> %p", idx(x), size, align, (long long)x.id, p);
	if (!p)
		return check_refused(x, "alloc", size + align, q0, t0);
	registered(x, p, size, align, "alloc", 0);
}

/* A request which can't be granted. */
#if ABSURD_SIZES
static void
op_absurd(Src &s, L &x)
{
	size_t size = gen_absurd(s), align = gen_align(s), q0 = quota_used(&st.quota), t0 = lsregion_total(&x.r);
	char *p;
	void *unaligned;
	unsigned how = s.draw(4);
	switch (how) {
	case 0: p = (char *)lsregion_alloc(&x.r, size, x.id); break;
	case 1: p = (char *)lsregion_aligned_alloc(&x.r, size, align, x.id); break;
	case 2: p = (char *)lsregion_reserve(&x.r, size); break;
	default: p = (char *)lsregion_aligned_reserve(&x.r, size, align, &unaligned);
	}
	static const char *name[] = {"alloc", "aligned_alloc", "reserve", "aligned_reserve"};
	TR("region %d %s(%zu, %zu) -> %p", idx(x), name[how], size, align, p);
	CHECK(!p, "absurd", "%s(%zu, align %zu) gives %p", name[how], size, align, p);
	CHECK(lsregion_total(&x.r) == t0 && quota_used(&st.quota) == q0, "absurd", "refused %s(%zu) changed total from "
	      "%zu to %zu, quota from %zu to %zu", name[how], size, t0, lsregion_total(&x.r), q0, quota_used(&st.quota));
	check_used(x, "absurd");
	COUNT("absurd size refused");
}
#endif

static void
op_reserve(Src &s, L &x)
{
	bool huge = HUGE_BLOCKS && s.chance(1, 60) && !st.limited;
	size_t size = huge ? gen_huge(s) : gen_size(s, x), align = s.draw(2) ? 1 : gen_align(s);
	size_t q0 = quota_used(&st.quota), t0 = lsregion_total(&x.r), n0 = x.slabs.size();
	next_id(s, x);
	sm.faulted = false;
	bool plain = align == 1 && s.draw(2);
	char *p;
#ifndef ENABLE_ASAN
	void *unaligned = NULL;
	p = (char *)(plain ? lsregion_reserve(&x.r, size) : lsregion_aligned_reserve(&x.r, size, align, &unaligned));
	if (p && !plain)
		CHECK((char *)unaligned <= p && (char *)unaligned + align > p, "unaligned", "reserve(%zu, align %zu) -> %p, "
		      "unaligned %p", size, align, p, unaligned);
#else
	p = (char *)(plain ? lsregion_reserve(&x.r, size) : lsregion_aligned_reserve(&x.r, size, align));
#endif
	TR("region %d reserve(%zu, %zu) -> %p", idx(x), size, align, p);
	if (!p)
		return check_refused(x, "reserve", size + align, q0, t0);
	CHECK(((uintptr_t)p & (align - 1)) == 0, "align", "reserve(%zu) -> %p not aligned to %zu", size, p, align);
	CHECK(sm.owned(p, size), "unowned", "reserve: %p+%zu is not allocated memory", p, size);
	CHECK(lsregion_used(&x.r) == x.used, "used", "reserve changed used");
	Block b = *mem.add(p, size, "reserve", false);
	bool filled = size < sparse_from;
	for (size_t i = 0; filled && i < size; i++)
		p[i] = (char)pat(b.tag, i);
	mem.del(p);
	char *limit;
	size_t total;
	uintptr_t key = slab_key(p, &limit, &total);
	if (x.slabs.empty() || x.slabs.back().key != key) {
		x.reserved_slab = true;
		x.resv_total = total;
	}
	check_used(x, "reserve");
	(void)n0;
	/* anything that does not allocate may happen in between */
	if (s.draw(4) == 3)
		return;
	size_t n = s.draw(2) ? size : s.range(1, size);
	/* other log regions are free to allocate meanwhile */
	if (ls.size() > 1 && s.draw(3) == 2) {
		L &y = ls[1 - idx(x)];
		if (y.created && !y.reserved_slab)
			op_alloc(s, y);
	}
	char *q = (char *)(plain ? lsregion_alloc(&x.r, n, x.id) : lsregion_aligned_alloc(&x.r, n, align, x.id));
	TR("region %d alloc(%zu, id %lld) of reserved -> %p", idx(x), n, (long long)x.id, q);
	CHECK(q == p, "reserve", "reserved %zu at %p, allocated %zu at %p", size, p, n, q);
	registered(x, p, n, align, "alloc of reserved", size);
	Block *m = mem.find(p);
	if (!filled)
		Blocks::refill(*m);
	else
		m->tag = b.tag;
	Blocks::check(*m, "contents written to the reserved room");
}

static void
op_gc(Src &s, L &x, int64_t id)
{
	if (id < LSLAB_NOT_USED_ID)
		id = LSLAB_NOT_USED_ID;
	TR("region %d gc(%lld)", idx(x), (long long)id);
	size_t n0 = x.slabs.size();
	std::vector<Slab> gone;
	while (!x.slabs.empty() && x.slabs.front().max_id <= id) {
		Slab l = x.slabs.front();
		x.slabs.pop_front();
		x.used -= l.used;
		while (!x.pieces.empty() && x.pieces.front().seq <= l.last_seq) {
			char *p = x.pieces.front().ptr;
			Blocks::check(*mem.find(p), "before collection");
			mem.del(p);
			x.pieces.pop_front();
		}
		gone.push_back(l);
	}
	if (!gone.empty() && !x.slabs.empty())
		partial_gc = true;
	if (!gone.empty())
		collected = true;
	if (x.slabs.empty()) {
		/* a reserved slab is not in use either */
		x.reserved_slab = false;
		x.resv_total = 0;
	}
	lsregion_gc(&x.r, id);
	for (auto &l : gone)
		if (l.total > st.A)
			CHECK(!sm.in_live_heap((void *)l.key, 1), "leak", "a large slab was not freed by gc(%lld)",
			      (long long)id);
	check_used(x, "gc");
	if (x.slabs.empty())
		CHECK(lsregion_used(&x.r) == 0, "used", "used %zu after collecting everything", lsregion_used(&x.r));
	for (auto &v : x.svps) {
		/* whatever was not flushed and is collected is gone */
		uint64_t first = x.pieces.empty() ? x.seq : x.pieces.front().seq;
		if (v.seq < first)
			v.seq = first, v.off = 0;
	}
	mem.check_all("gc");
	(void)s; (void)n0;
}

static void
op_flush(Src &s, L &x)
{
	if (x.svps.empty() || (x.svps.size() < 2 && s.draw(12) == 11)) {
		Svp v;
		lsregion_svp_create(&v.svp);
		v.seq = x.pieces.empty() ? x.seq : x.pieces.front().seq;
		v.off = 0;
		x.svps.push_back(v);
		TR("region %d new savepoint", idx(x));
	}
	Svp &v = x.svps[s.draw(x.svps.size())];
	enum { MAX = 64 };
	static struct iovec iov[4096];
	int max = s.draw(3) ? 1 + s.draw(3) : s.draw(2) ? MAX : s.draw(MAX);
#ifdef ENABLE_ASAN
	max = s.draw(2) ? max : 4000;
#endif
	int cnt = max;
	memset(iov, 0xa5, sizeof(iov[0]) * (max + 2));
	uint64_t seq0 = v.seq;
	size_t off0 = v.off;
	int64_t max_id = lsregion_to_iovec(&x.r, iov, &cnt, &v.svp);
	TR("region %d flush max %d -> %d, id %lld, svp slab %lld pos %zu", idx(x), max, cnt, (long long)max_id,
	   (long long)v.svp.slab_id, v.svp.pos);
	CHECK(cnt >= 0 && cnt <= max, "iovcnt", "%d vectors with %d offered", cnt, max);
	struct iovec *e = &iov[max];
	unsigned char a5[sizeof(*e)];
	memset(a5, 0xa5, sizeof(a5));
	CHECK(memcmp(e, a5, sizeof(a5)) == 0, "iovcnt", "vector beyond the offered %d was written", max);
	uint64_t base = x.pieces.empty() ? x.seq : x.pieces.front().seq;
	int64_t last_id = LSLAB_NOT_USED_ID;
	for (int i = 0; i < cnt; i++) {
		char *p = (char *)iov[i].iov_base;
		size_t left = iov[i].iov_len;
		CHECK(left > 0, "empty", "vector %d is empty", i);
		while (left > 0) {
			CHECK(v.seq < x.seq, "extra", "vector %d has %zu bytes beyond all allocated data", i, left);
			Piece &pc = x.pieces[v.seq - base];
			char *at = pc.ptr - pc.pad + v.off;
			CHECK(p == at, "order", "vector %d: expected byte %zu of allocation #%llu at %p, got address %p", i, v.off,
			      (unsigned long long)v.seq, at, p);
			size_t len = std::min(left, pc.pad + pc.size - v.off);
			p += len;
			left -= len;
			v.off += len;
			last_id = pc.id;
			if (v.off == pc.pad + pc.size)
				v.seq++, v.off = 0;
		}
	}
	if (cnt < max)
		CHECK(v.seq == x.seq, "lost", "%d of %d vectors used, but allocations from #%llu to #%llu are not flushed",
		      cnt, max, (unsigned long long)v.seq, (unsigned long long)x.seq - 1);
	CHECK(max_id == last_id, "max-id", "flush returned id %lld, the last flushed allocation has %lld",
	      (long long)max_id, (long long)last_id);
	CHECK(cnt > 0 || max == 0 || seq0 == x.seq, "lost", "nothing was flushed");
	if (cnt && v.seq < x.seq)
		partial_flush = true;
	if (cnt && (char *)iov[0].iov_base != (char *)NULL && seq0 > base)
		continued = true;
	if (cnt && collected)
		flush_after_gc = true;
	(void)off0;
}

static int64_t
gen_gc_id(Src &s, L &x, bool flushed_only)
{
	int64_t hi = x.id;
	if (flushed_only) {
		for (auto &v : x.svps) {
			uint64_t base = x.pieces.empty() ? x.seq : x.pieces.front().seq;
			if (v.seq < x.seq)
				hi = std::min(hi, x.pieces[v.seq - base].id - 1);
		}
		return s.draw(3) ? hi : hi - (int64_t)s.draw(3);
	}
	switch (s.draw(4)) {
	case 0: return hi;
	case 1: return hi - (int64_t)s.draw(4);
	case 2:
		if (!x.pieces.empty())
			return x.pieces[s.draw(x.pieces.size())].id - (int64_t)s.draw(2);
		return hi;
	default:
		if (!x.slabs.empty())
			return x.slabs[s.draw(x.slabs.size())].max_id - (int64_t)s.draw(2);
		return s.draw(2) ? INT64_MAX : -1;
	}
}

static void
create(L &x)
{
	SmPause pause;
	x.pieces.clear();
	x.slabs.clear();
	x.svps.clear();
	x.id = x.used = x.seq = 0;
	x.reserved_slab = false;
	x.resv_total = 0;
	memset((void *)&x.r, 0xa5, sizeof(x.r));
	lsregion_create(&x.r, &st.arena);
	x.created = true;
	CHECK(lsregion_used(&x.r) == 0 && lsregion_total(&x.r) == 0, "create", "new region is not empty");
}

static void
destroy(L &x)
{
	for (auto &p : x.pieces)
		mem.del(p.ptr);
	size_t q0 = quota_used(&st.quota), large = 0;
	for (auto &l : x.slabs)
		if (l.total > st.A)
			large += (l.total + 1023) / 1024 * 1024;
	if (x.resv_total > st.A)
		large += (x.resv_total + 1023) / 1024 * 1024;
	TR("region %d destroy", idx(x));
	lsregion_destroy(&x.r);
#ifndef ENABLE_ASAN
	CHECK(quota_used(&st.quota) == q0 - large, "quota", "destroy returns %zu to the quota, large slabs had %zu",
	      q0 - quota_used(&st.quota), large);
#endif
	x.created = false;
	x.pieces.clear();
	(void)q0;
}

void
run_case(Src &s)
{
	sm.reset();
	mem.clear();
	partial_gc = three = saw_large = partial_flush = continued = flush_after_gc = collected = false;
	Stack::Opts o;
	o.limit_lo = 1;
	o.limit_hi = 30;
	o.gigantic = 80;
	st.create(s, o);
	ls.clear();
	ls.resize(1 + (s.draw(4) == 3));
	for (auto &x : ls)
		create(x);
	uint64_t k = 0;
	while (s.more()) {
		L &x = ls[s.draw(ls.size())];
		k++;
		if (!x.created) {
			create(x);
			continue;
		}
#ifdef FLUSH
		unsigned op = s.weighted({10, 3, 2, 7, 0});
#else
		unsigned op = s.weighted({10, 3, 3, 1, 1});
#endif
		/* an allocation not matching the reservation is misuse */
		if (op < 2 && x.reserved_slab) {
			op_gc(s, x, x.id);
			x.reserved_slab = false;
		}
		if (mem.bytes > (st.gigantic ? 48 << 20 : 12 << 20) && op < 2)
			op = 2;
#if ABSURD_SIZES
		if (s.chance(1, 50)) {
			op_absurd(s, x);
			continue;
		}
#endif
		switch (op) {
		case 0:
			for (unsigned n = s.draw(8) ? 1 : 1 + s.draw(30); n-- > 0;)
				op_alloc(s, x);
			break;
		case 1: op_reserve(s, x); break;
		case 2:
#ifdef FLUSH
			op_gc(s, x, gen_gc_id(s, x, s.draw(8) != 7));
#else
			op_gc(s, x, gen_gc_id(s, x, false));
#endif
			break;
		case 3:
#ifdef ENABLE_ASAN
			/* see C28 in DESIGN.md */
			if (x.reserved_slab)
				break;
#endif
			op_flush(s, x);
			break;
		default:
			if (s.draw(4) == 3)
				destroy(x);
		}
		if (k % 8 == 0)
			mem.check_all("step");
		st.check_quota("step");
	}
	mem.check_all("end");
	for (auto &x : ls) {
		if (!x.created)
			continue;
#ifdef FLUSH
		/* drain */
		if (!x.svps.empty()) {
			for (unsigned i = 0; i < 40; i++)
				op_flush(s, x);
		}
#endif
		if (s.draw(2)) {
			op_gc(s, x, x.id);
#ifndef ENABLE_ASAN
			CHECK(lsregion_total(&x.r) <= st.A, "total", "total %zu after collecting everything",
			      lsregion_total(&x.r));
#endif
		}
		destroy(x);
	}
	st.destroy();
#ifndef FLUSH
	if (partial_gc && three && saw_large)
#else
	if ((partial_flush || continued) && flush_after_gc)
#endif
		s.nontrivial();
	if (st.gigantic) COUNT("case with slabs up to 2 GB");
	if (partial_flush) COUNT("case with partial flush");
	if (flush_after_gc) COUNT("case with flush after collection");
	if (partial_gc) COUNT("case with partial collection");
}
