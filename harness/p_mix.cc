/* C26: running out of memory; with -DDESTROY C27: giving every byte back.
 * All allocators mixed on several caches and arenas which share one quota. */
#include "stack.h"
#include <memory>
#include "mempool.h"
#include "small.h"
#include "region.h"
#include "lsregion.h"
#include "ibuf.h"
#include "obuf.h"

#ifndef DESTROY
const char *case_rule = "a case is 1-2 arenas of different slab sizes sharing a quota of generated (mostly low, "
	"sometimes changing) limit, 1-3 slab caches and up to 6 allocators of all kinds on them, with failing "
	"mmap/malloc calls, and a history of allocating, freeing, emptying, destroying and re-creating; "
	"non-trivial: allocators of at least 2 kinds were refused memory and allocated later";
#else
const char *case_rule = "a case is 1-2 arenas sharing a quota, 1-3 slab caches and up to 6 allocators of all "
	"kinds, and a history of allocating, freeing, and destroying and re-creating allocators, caches and "
	"arenas in any valid order with objects still live; non-trivial: at least 3 kinds of allocators were "
	"destroyed while holding live objects, one of them with a large block";
#endif
unsigned case_max_ops = 220;

static struct quota quota;
static bool faulty, limited;
static unsigned base_mmap_p, base_malloc_p;
static Blocks mem;
static size_t ext;		/* charged by the harness, directly */
static unsigned kinds_refused, kinds_recovered, kinds_live, kinds_large;

struct Arena {
	struct slab_arena a;
	bool created = false;
	size_t A = 0;
	/* Slabs inside the arena, taken out and put back. */
	size_t cached()
	{
		unsigned p0 = sm.mmap_p, p1 = sm.malloc_p;
		sm.mmap_p = sm.malloc_p = 0;
		size_t total = quota_total(&quota);
		quota_set(&quota, quota_used(&quota));
		SmPause *none = nullptr;
		(void)none;
		std::vector<void *> v;
		void *p;
		while ((p = slab_map(&a))) {
			SmPause pause;
			v.push_back(p);
		}
		for (size_t i = v.size(); i-- > 0;)
			slab_unmap(&a, v[i]);
		quota_set(&quota, total);
		sm.mmap_p = p0;
		sm.malloc_p = p1;
		SmPause pause;
		size_t n = v.size();
		std::vector<void *>().swap(v);
		return n;
	}
};
struct Cache {
	struct slab_cache c;
	bool created = false;
	unsigned arena = 0;
};
static Arena arenas[2];
static Cache caches[3];
static unsigned narenas, ncaches;

enum Kind { POOL, SMALL, REGION, LSREGION, IBUF, OBUF, NKINDS };
static const char *kind_name[] = {"mempool", "small", "region", "lsregion", "ibuf", "obuf"};

struct Alloc {
	Kind kind;
	unsigned where = 0;	/* cache, or arena for lsregion */
	int id = 0;
	Alloc(Kind k) : kind(k) {}
	virtual ~Alloc() {}
	size_t A() { return arenas[kind == LSREGION ? where : caches[where].arena].A; }
	struct slab_cache *cache() { return &caches[where].c; }
	/* Allocate; false if refused. need is what the quota must have left so
	 * that a refusal is not justified. */
	virtual bool alloc(Src &s, size_t size, size_t &need) = 0;
	/* The last request can be served by a slab of the arena. */
	virtual bool by_slab() { return true; }
	/* The same request as the last alloc(), again. */
	virtual bool again(size_t &need) = 0;
	virtual void release(Src &s) = 0;	/* free something */
	virtual void empty(Src &s) = 0;		/* free everything */
	virtual void purge() {}			/* of memory kept though empty */
	virtual void destroy() = 0;
	virtual void check(const char *when) = 0;
	virtual bool live() = 0;
	virtual bool large() = 0;		/* has something above the slab size */
	virtual size_t max_size() { return A() * 2; }
};
static std::vector<std::unique_ptr<Alloc>> as;

static void
place(void *p, size_t size, const char *what, size_t align)
{
	CHECK(((uintptr_t)p & (align - 1)) == 0, "align", "%s: %p is not aligned to %zu", what, p, align);
	CHECK(sm.owned(p, size), "unowned", "%s: %p+%zu is not allocated memory", what, p, size);
	mem.add(p, size, what);
}

static void
drop(void *p)
{
	Blocks::check(*mem.find(p), "before free");
	mem.del(p);
}

struct APool : Alloc {
	struct mempool p;
	uint32_t objsize = 0;
	std::vector<char *> objs;
	APool(Src &s, unsigned w) : Alloc(POOL)
	{
		where = w;
		memset((void *)&p, 0xa5, sizeof(p));
		size_t A = this->A();
		if (s.draw(2)) {
			unsigned order = s.draw(cache()->order_max + 1);
			size_t slab = slab_order_size(cache(), order);
			size_t max = slab - mslab_sizeof();
			objsize = s.nearby(8, max, {max, max / 2, max / 3, max / 10, 64});
			mempool_create_with_order(&p, cache(), objsize, order);
		} else {
			size_t max = A - mslab_sizeof();
			objsize = s.nearby(8, max, {max, max / 2, A / 100, 100});
			mempool_create(&p, cache(), objsize);
		}
		TR("mempool on cache %u: object size %u", w, objsize);
	}
	bool alloc(Src &, size_t, size_t &need) override { return again(need); }
	bool again(size_t &need) override
	{
		need = A();
		size_t t0 = mempool_total(&p);
		char *q = (char *)mempool_alloc(&p);
		TR("mempool %d alloc -> %p", id, q);
		if (!q) {
			CHECK(mempool_count(&p) == objs.size() && mempool_total(&p) == t0, "refused",
			      "failed mempool_alloc changed the pool");
			return false;
		}
		place(q, objsize, "mempool_alloc", objsize & -objsize);
		SmPause pause;
		objs.push_back(q);
		return true;
	}
	void free_one(size_t i)
	{
		char *q = objs[i];
		objs[i] = objs.back();
		objs.pop_back();
		drop(q);
		TR("mempool %d free %p", id, q);
		mempool_free(&p, q);
	}
	void release(Src &s) override { if (!objs.empty()) free_one(s.draw(objs.size())); }
	void empty(Src &) override { while (!objs.empty()) free_one(objs.size() - 1); }
	void destroy() override
	{
		for (char *q : objs)
			drop(q);
		mempool_destroy(&p);
		objs.clear();
	}
	void check(const char *when) override
	{
		CHECK(mempool_count(&p) == objs.size() && mempool_used(&p) == objs.size() * objsize, "stats",
		      "%s: mempool has %zu objects, %zu are live", when, mempool_count(&p), objs.size());
	}
	bool live() override { return !objs.empty(); }
	bool large() override { return false; }
};

static int
small_cb(const void *p, void *ctx)
{
	*(size_t *)ctx += ((const struct mempool_stats *)p)->objcount;
	return 0;
}

struct ASmall : Alloc {
	struct small_alloc *a;
	struct O { char *p; size_t size; };
	std::vector<O> objs;
	size_t last = 1, nlarge = 0, largest = 0;
	ASmall(Src &s, unsigned w) : Alloc(SMALL)
	{
		where = w;
		SmPause pause;
		a = (struct small_alloc *)malloc(sizeof(*a));
		memset((void *)a, 0xa5, sizeof(*a));
		float f = s.pick({1.3f, 1.05f, 1.5f, 2.0f, 1.1f}), act;
		unsigned gran = s.pick({8, 8, 16, 64, 1});
		unsigned min = s.pick({8, 16, 64, 24});
		sm.active = pause.was;
		small_alloc_create(a, cache(), min, gran, f, &act);
		sm.active = false;
		TR("small on cache %u: minimum %u granularity %u factor %f", w, min, gran, f);
		largest = a->objsize_max;
	}
	~ASmall() override
	{
		SmPause pause;
		free(a);
	}
	bool alloc(Src &s, size_t size, size_t &need) override
	{
		last = size;
		(void)s;
		return again(need);
	}
	bool again(size_t &need) override
	{
		/* large blocks are charged by themselves; a pool needs one slab */
		need = last > largest ? last + 2048 : A();
		char *q = (char *)smalloc(a, last);
		TR("small %d alloc %zu -> %p", id, last, q);
		if (!q)
			return false;
		place(q, last, "smalloc", 1);
		if (last > largest)
			nlarge++;
		SmPause pause;
		objs.push_back({q, last});
		return true;
	}
	bool by_slab() override { return last <= largest; }
	void free_one(size_t i)
	{
		O o = objs[i];
		objs[i] = objs.back();
		objs.pop_back();
		drop(o.p);
		TR("small %d free %p+%zu", id, o.p, o.size);
		if (o.size > largest)
			nlarge--;
		smfree(a, o.p, o.size);
	}
	void release(Src &s) override { if (!objs.empty()) free_one(s.draw(objs.size())); }
	void empty(Src &) override { while (!objs.empty()) free_one(objs.size() - 1); }
	void destroy() override
	{
		/* large blocks are not remembered by the allocator: they are
		 * to be freed before; objects of pools are not */
		for (size_t i = objs.size(); i-- > 0;)
			if (objs[i].size > largest)
				free_one(i);
		for (auto &o : objs)
			drop(o.p);
		small_alloc_destroy(a);
		objs.clear();
	}
	void check(const char *when) override
	{
		struct small_stats t;
		size_t n = 0;
		small_stats(a, &t, small_cb, &n);
		CHECK(n + nlarge == objs.size(), "stats", "%s: small has %zu objects in pools, %zu are live", when, n,
		      objs.size() - nlarge);
		CHECK(n || t.used == 0, "stats", "%s: small uses %zu without objects", when, t.used);
	}
	bool live() override { return objs.size() > nlarge; }
	bool large() override { return nlarge; }
};

struct ARegion : Alloc {
	struct region r;
	struct O { char *p; size_t used; size_t size; };
	std::vector<O> objs;
	size_t last = 1, align = 1;
	ARegion(Src &, unsigned w) : Alloc(REGION)
	{
		where = w;
		memset((void *)&r, 0xa5, sizeof(r));
		region_create(&r, cache());
		TR("region on cache %u", w);
	}
	bool alloc(Src &s, size_t size, size_t &need) override
	{
		last = std::max<size_t>(size, 1);
		align = s.draw(3) == 2 ? 1u << s.draw(8) : 1;
		return again(need);
	}
	bool again(size_t &need) override
	{
		need = std::max(A(), last + align + 2048);
		size_t u0 = region_used(&r), t0 = region_total(&r);
		char *q = (char *)(align > 1 ? region_aligned_alloc(&r, last, align) : region_alloc(&r, last));
		TR("region %d alloc %zu align %zu -> %p", id, last, align, q);
		if (!q) {
			CHECK(region_used(&r) == u0 && region_total(&r) == t0, "refused", "failed region_alloc "
			      "changed used from %zu to %zu, total from %zu to %zu", u0, region_used(&r), t0,
			      region_total(&r));
			return false;
		}
		CHECK(region_used(&r) >= u0 + last && region_used(&r) < u0 + last + align, "used", "region_alloc "
		      "of %zu changed used from %zu to %zu", last, u0, region_used(&r));
		place(q, last, "region_alloc", align);
		SmPause pause;
		objs.push_back({q, u0, last});
		return true;
	}
	void cut(size_t n)
	{
		size_t u = objs[n].used;
		while (objs.size() > n) {
			drop(objs.back().p);
			objs.pop_back();
		}
		TR("region %d truncate to %zu", id, u);
		region_truncate(&r, u);
	}
	void release(Src &s) override
	{
		if (!objs.empty())
			cut(objs.size() - 1 - (s.draw(4) == 3 ? s.draw(objs.size()) : 0));
	}
	void empty(Src &s) override
	{
		for (auto &o : objs)
			drop(o.p);
		objs.clear();
		unsigned how = s.draw(3);
		TR("region %d empty %u", id, how);
		if (how == 0)
			region_free(&r);
		else if (how == 1)
			region_truncate(&r, 0);
		else
			region_reset(&r), region_free(&r);
		CHECK(region_total(&r) == 0 && region_used(&r) == 0, "total", "emptied region has total %zu used %zu",
		      region_total(&r), region_used(&r));
	}
	void destroy() override
	{
		for (auto &o : objs)
			drop(o.p);
		objs.clear();
		region_destroy(&r);
	}
	void check(const char *when) override
	{
		size_t u = objs.empty() ? 0 : objs.back().used + objs.back().size;
		CHECK(region_used(&r) >= u && region_used(&r) <= u + 128, "used", "%s: region uses %zu, expected %zu",
		      when, region_used(&r), u);
	}
	bool live() override { return !objs.empty(); }
	bool large() override
	{
		for (auto &o : objs)
			if (o.size > A())
				return true;
		return false;
	}
};

struct ALs : Alloc {
	struct lsregion r;
	struct O { char *p; size_t size; int64_t seq; };
	std::vector<O> objs;
	int64_t seq = 0;
	size_t last = 1, used = 0;
	ALs(Src &, unsigned w) : Alloc(LSREGION)
	{
		where = w;
		memset((void *)&r, 0xa5, sizeof(r));
		lsregion_create(&r, &arenas[w].a);
		TR("lsregion on arena %u", w);
	}
	bool alloc(Src &, size_t size, size_t &need) override
	{
		last = std::max<size_t>(size, 1);
		return again(need);
	}
	bool again(size_t &need) override
	{
		need = std::max(A(), last + 2048);
		size_t u0 = lsregion_used(&r), t0 = lsregion_total(&r);
		char *q = (char *)lsregion_alloc(&r, last, seq);
		TR("lsregion %d alloc %zu id %lld -> %p", id, last, (long long)seq, q);
		if (!q) {
			CHECK(lsregion_used(&r) == u0 && lsregion_total(&r) == t0, "refused", "failed "
			      "lsregion_alloc changed used from %zu to %zu, total from %zu to %zu", u0,
			      lsregion_used(&r), t0, lsregion_total(&r));
			return false;
		}
		CHECK(lsregion_used(&r) == u0 + last, "used", "lsregion_alloc of %zu changed used from %zu to %zu",
		      last, u0, lsregion_used(&r));
		place(q, last, "lsregion_alloc", 1);
		SmPause pause;
		objs.push_back({q, last, seq++});
		return true;
	}
	void gc(int64_t min)
	{
		/* slabs without newer data are freed: what is not, is unknown
		 * until used is asked; blocks up to min are given up */
		size_t n = 0;
		while (n < objs.size() && objs[n].seq <= min)
			drop(objs[n++].p);
		objs.erase(objs.begin(), objs.begin() + n);
		TR("lsregion %d gc %lld", id, (long long)min);
		lsregion_gc(&r, min);
	}
	void release(Src &s) override
	{
		if (!objs.empty())
			gc(objs[s.draw(2) ? 0 : s.draw(objs.size())].seq);
	}
	void empty(Src &) override
	{
		gc(seq);
		CHECK(lsregion_used(&r) == 0, "used", "emptied lsregion uses %zu", lsregion_used(&r));
		CHECK(lsregion_total(&r) <= A(), "total", "emptied lsregion holds %zu", lsregion_total(&r));
	}
	void destroy() override
	{
		for (auto &o : objs)
			drop(o.p);
		objs.clear();
		lsregion_destroy(&r);
	}
	void check(const char *when) override
	{
		size_t u = 0;
		for (auto &o : objs)
			u += o.size;
		CHECK(lsregion_used(&r) >= u, "used", "%s: lsregion uses %zu, live are %zu", when, lsregion_used(&r), u);
	}
	bool live() override { return !objs.empty(); }
	bool large() override
	{
		for (auto &o : objs)
			if (o.size > A())
				return true;
		return false;
	}
};

/* Byte streams: byte number i of stream id is pat(id, i). */
struct AIbuf : Alloc {
	struct ibuf b;
	size_t rd = 0, wr = 0, last = 1, start;
	bool got_large = false;
	AIbuf(Src &s, unsigned w) : Alloc(IBUF)
	{
		where = w;
		start = s.nearby(1, 20000, {1, 4096, 16384, 16320});
		memset((void *)&b, 0xa5, sizeof(b));
		ibuf_create(&b, cache(), start);
		TR("ibuf on cache %u start %zu", w, start);
	}
	bool alloc(Src &s, size_t size, size_t &need) override
	{
		last = std::max<size_t>(size, 1);
		if (s.draw(3) == 2 && ibuf_unused(&b) < 2 * A())
			last = ibuf_unused(&b) + 1;
		/* a stream of bounded length */
		if (wr - rd + last > 4 * A()) {
			ibuf_consume(&b, wr - rd);
			rd = wr;
		}
		return again(need);
	}
	bool again(size_t &need) override
	{
		size_t all = wr - rd + last;
		need = std::max(A(), 2 * std::max({all, ibuf_capacity(&b), start}) + 8192);
		struct ibuf o = b;
		size_t c0 = slab_cache_used(cache());
		char *q = (char *)ibuf_alloc(&b, last);
		TR("ibuf %d alloc %zu -> %p", id, last, q);
		if (!q) {
			CHECK(memcmp(&o, &b, sizeof(b)) == 0 && slab_cache_used(cache()) == c0, "refused",
			      "failed ibuf_alloc changed the buffer");
			return false;
		}
		CHECK(sm.owned(b.rpos, ibuf_used(&b)) && ibuf_used(&b) == all && q == b.rpos + (wr - rd), "unowned",
		      "ibuf after alloc: %zu used, expected %zu", ibuf_used(&b), all);
		for (size_t i = 0; i < last; i++)
			q[i] = pat(id + 100, wr + i);
		wr += last;
		if (ibuf_capacity(&b) > A())
			got_large = true;
		check("ibuf_alloc");
		return true;
	}
	void release(Src &s) override
	{
		size_t n = wr - rd;
		if (s.draw(4) == 3) {
			TR("ibuf %d shrink", id);
			ibuf_shrink(&b);
			return check("shrink");
		}
		if (n) {
			n = s.draw(2) ? n : s.draw(n + 1);
			TR("ibuf %d consume %zu", id, n);
			ibuf_consume(&b, n);
			rd += n;
		}
	}
	void empty(Src &s) override
	{
		rd = wr;
		got_large = false;
		if (s.draw(2)) {
			ibuf_reset(&b);
			ibuf_shrink(&b);
		} else {
			ibuf_reinit(&b);
		}
		TR("ibuf %d empty", id);
		CHECK(ibuf_used(&b) == 0, "used", "emptied ibuf uses %zu", ibuf_used(&b));
	}
	void purge() override { ibuf_reinit(&b); }
	void destroy() override { ibuf_destroy(&b); }
	void check(const char *when) override
	{
		CHECK(ibuf_used(&b) == wr - rd, "used", "%s: ibuf uses %zu, expected %zu", when, ibuf_used(&b), wr - rd);
		for_pattern(wr - rd, [&](size_t i) {
			CHECK((unsigned char)b.rpos[i] == pat(id + 100, rd + i), "content", "%s: byte %zu of %zu of "
			      "ibuf changed", when, i, wr - rd);
		});
	}
	bool live() override { return wr > rd; }
	bool large() override { return ibuf_capacity(&b) > A(); }
	size_t max_size() override { return A(); }
};

struct AObuf : Alloc {
	struct obuf b;
	size_t used = 0, last = 1, start, got = 0;
	bool dup = false;
	struct S { struct obuf_svp svp; size_t used; };
	std::vector<S> svps;
	AObuf(Src &s, unsigned w) : Alloc(OBUF)
	{
		where = w;
		start = s.nearby(1, 20000, {64, 4096, 16384, 16320});
		memset((void *)&b, 0xa5, sizeof(b));
		obuf_create(&b, cache(), start);
		TR("obuf on cache %u start %zu", w, start);
	}
	bool alloc(Src &s, size_t size, size_t &need) override
	{
		last = std::max<size_t>(size, 1);
		dup = s.draw(2);
		if (svps.size() < 20 && s.draw(3) == 2) {
			SmPause pause;
			svps.push_back({obuf_create_svp(&b), used});
		}
		return again(need);
	}
	bool again(size_t &need) override
	{
		if (b.n_iov >= SMALL_OBUF_IOV_MAX - 8 || start << (b.pos + 1) > (4 << 20))
			return true;
		size_t next = start << (b.pos + 1);
		need = std::max({A(), 2 * last + 8192, 2 * next + 8192});
		size_t u0 = used;
		if (dup) {
			SmPause pause;
			std::vector<char> v(last);
			for (size_t i = 0; i < last; i++)
				v[i] = pat(id + 200, used + i);
			sm.active = true;
			size_t n = obuf_dup(&b, v.data(), last);
			sm.active = false;
			TR("obuf %d dup %zu -> %zu", id, last, n);
			CHECK(n <= last, "dup", "obuf_dup of %zu returned %zu", last, n);
			used += n;
			last -= n;
			if (last)
				return check("failed dup"), false;
			last = n;
		} else {
			char *q = (char *)obuf_alloc(&b, last);
			TR("obuf %d alloc %zu -> %p", id, last, q);
			if (!q)
				return check("failed obuf_alloc"), false;
			for (size_t i = 0; i < last; i++)
				q[i] = pat(id + 200, used + i);
			used += last;
		}
		CHECK(used >= u0, "used", "used");
		check("obuf alloc");
		return true;
	}
	void release(Src &s) override
	{
		if (svps.empty())
			return empty(s);
		size_t i = s.draw(svps.size());
		S v = svps[i];
		svps.resize(i);
		TR("obuf %d rollback from %zu to %zu", id, used, v.used);
		obuf_rollback_to_svp(&b, &v.svp);
		used = v.used;
		check("rollback");
	}
	void empty(Src &s) override
	{
		svps.clear();
		used = 0;
		TR("obuf %d empty", id);
		obuf_reset(&b);
		if (s.draw(2))
			purge();
	}
	void purge() override
	{
		obuf_destroy(&b);
		obuf_create(&b, cache(), start);
	}
	void destroy() override { obuf_destroy(&b); }
	void check(const char *when) override
	{
		CHECK(obuf_size(&b) == used, "used", "%s: obuf has %zu, expected %zu", when, obuf_size(&b), used);
		size_t at = 0;
		for (int v = 0; v < obuf_iovcnt(&b); v++) {
			char *p = (char *)b.iov[v].iov_base;
			CHECK(sm.owned(p, b.iov[v].iov_len), "unowned", "%s: obuf vector %d is not owned", when, v);
			for_pattern(b.iov[v].iov_len, [&](size_t i) {
				CHECK((unsigned char)p[i] == pat(id + 200, at + i), "content", "%s: byte %zu of %zu of "
				      "obuf changed", when, at + i, used);
			});
			at += b.iov[v].iov_len;
		}
		CHECK(at == used, "used", "%s: obuf vectors have %zu, expected %zu", when, at, used);
	}
	bool live() override { return used; }
	bool large() override
	{
		for (int v = 0; v < obuf_iovcnt(&b); v++)
			if (b.capacity[v] > A())
				return true;
		return false;
	}
	size_t max_size() override { return A(); }
};

static void
faults_on()
{
	sm.mmap_p = base_mmap_p;
	sm.malloc_p = base_malloc_p;
}

static void
faults_off()
{
	sm.mmap_p = sm.malloc_p = 0;
	sm.mmap_nth = sm.malloc_nth = -1;
}

static void
check_quota(const char *when)
{
	CHECK(quota_used(&quota) <= quota_total(&quota), "overdrawn", "%s: quota used %zu of %zu", when,
	      quota_used(&quota), quota_total(&quota));
	/* Every mapping and every heap block is covered by the quota, but for
	 * the preallocated areas. */
	size_t covered = 0;
	for (unsigned i = 0; i < narenas; i++)
		if (arenas[i].created)
			covered += arenas[i].a.prealloc;
	CHECK(sm.map_bytes + sm.heap_bytes <= quota_used(&quota) - ext + covered, "uncharged", "%s: %zu bytes mapped "
	      "and %zu malloced, %zu charged, %zu preallocated", when, sm.map_bytes, sm.heap_bytes,
	      quota_used(&quota) - ext, covered);
}

/* A cache without live allocators. */
static bool
cache_idle(unsigned c)
{
	for (auto &a : as)
		if (a && a->kind != LSREGION && a->where == c)
			return false;
	return true;
}

static bool
arena_idle(unsigned n)
{
	for (unsigned c = 0; c < ncaches; c++)
		if (caches[c].created && caches[c].arena == n)
			return false;
	for (auto &a : as)
		if (a && a->kind == LSREGION && a->where == n)
			return false;
	return true;
}

static void
cache_create(Src &s, unsigned c)
{
	Cache &x = caches[c];
	x.arena = s.draw(narenas);
	if (!arenas[x.arena].created)
		return;
	memset((void *)&x.c, 0xa5, sizeof(x.c));
	slab_cache_create(&x.c, &arenas[x.arena].a);
	x.created = true;
	TR("cache %u on arena %u", c, x.arena);
}

static size_t raw_grown;	/* by slabs taken in cache_destroy() */

static void
cache_destroy(Src &s, unsigned c)
{
	Cache &x = caches[c];
	CHECK(slab_cache_used(&x.c) == 0, "cache-used", "cache %u has %zu used with all its allocators destroyed", c,
	      slab_cache_used(&x.c));
	slab_cache_check(&x.c);
	size_t q0 = quota_used(&quota);
	struct slab_arena &a = arenas[x.arena].a;
	size_t a0 = a.used, heap0 = sm.heap_bytes;
	unsigned raw = 0, rawlarge = 0;
#ifdef DESTROY
	/* Slabs nobody returns are given back, too. */
	if (s.chance(1, 3)) {
		size_t A = arenas[x.arena].A;
		for (unsigned n = 1 + s.draw(5); n-- > 0;) {
			struct slab *slab;
			size_t size = 0;
			if (s.draw(3) == 0) {
				slab = slab_get_with_order(&x.c, s.draw(x.c.order_max + 1));
			} else {
				size = s.draw(2) ? s.logsize(A) : A + s.draw(s.draw(2) ? 5000 : 3 * A);
				slab = slab_get(&x.c, size);
			}
			if (!slab)
				continue;
			if (s.draw(4) == 0) {
				slab_put(&x.c, slab);
				continue;
			}
			memset(slab_data(slab), 0x5c, slab_capacity(slab));
			raw++, rawlarge += size > A;
		}
		CHECK((slab_cache_used(&x.c) != 0) == (raw != 0), "cache-used", "cache %u has %zu used with %u slabs",
		      c, slab_cache_used(&x.c), raw);
		raw_grown += a.used - a0;
		if (raw) COUNT("cache destroyed with slabs in use");
		if (rawlarge) COUNT("cache destroyed with large blocks in use");
	}
#else
	(void)s;
#endif
	TR("cache %u destroy with %u slabs, %u large", c, raw, rawlarge);
	slab_cache_destroy(&x.c);
	/* (slabs new to the arena stay in it, and charged) */
	CHECK(quota_used(&quota) == q0 + (a.used - a0), "quota", "destroying a cache with %u slabs, %u of them large: "
	      "quota used %zu before, %zu after, the arena grew by %zu", raw, rawlarge, q0, quota_used(&quota),
	      a.used - a0);
	CHECK(sm.heap_bytes == heap0, "leak", "destroying a cache with %u slabs, %u of them large: %zu bytes on the heap "
	      "before, %zu after", raw, rawlarge, heap0, sm.heap_bytes);
	x.created = false;
}

static void
arena_create(Src &s, unsigned n)
{
	Arena &x = arenas[n];
	x.A = s.pick<size_t>({65536, 65536, 131072, 262144, 1 << 20});
	size_t prealloc = s.draw(3) == 2 ? x.A * s.range(1, 4) : 0;
	if (prealloc > quota_total(&quota))
		prealloc = 0;
	sm.mmap_p = 0;
	int rc = slab_arena_create(&x.a, &quota, prealloc, x.A, MAP_PRIVATE);
	CHECK(rc == 0, "create", "slab_arena_create failed");
	faults_on();
	x.created = true;
	TR("arena %u: slab %zu prealloc %zu", n, x.A, prealloc);
}

static void
arena_destroy(unsigned n)
{
	Arena &x = arenas[n];
	size_t slabs = x.cached(), q0 = quota_used(&quota), m0 = sm.map_bytes;
	size_t pre = x.a.prealloc / x.A;
	TR("arena %u destroy: %zu slabs", n, slabs);
	faults_off();
	slab_arena_destroy(&x.a);
	faults_on();
	x.created = false;
	CHECK(quota_used(&quota) >= slabs * x.A + ext, "quota", "%zu charged, destroyed arena had %zu slabs", q0, slabs);
	size_t want = pre * x.A + (slabs > pre ? (slabs - pre) * x.A : 0);
	CHECK(m0 - sm.map_bytes == want, "leak", "destroying an arena of %zu slabs (%zu preallocated) of %zu unmapped "
	      "%zu", slabs, pre, x.A, m0 - sm.map_bytes);
	/* its charge belongs to whoever owns the quota */
	if (slabs)
		quota_release(&quota, slabs * x.A);
}

static void
alloc_create(Src &s, size_t i)
{
	Kind k = (Kind)s.draw(NKINDS);
	unsigned w = s.draw(k == LSREGION ? narenas : ncaches);
	if (k == LSREGION ? !arenas[w].created : !caches[w].created)
		return;
	size_t u0 = k == LSREGION ? 0 : slab_cache_used(&caches[w].c), q0 = quota_used(&quota);
	SmPause pause;
	Alloc *a;
	sm.active = true;
	switch (k) {
	case POOL: sm.active = false; a = new APool(s, w); break;
	case SMALL: sm.active = false; a = new ASmall(s, w); break;
	case REGION: sm.active = false; a = new ARegion(s, w); break;
	case LSREGION: sm.active = false; a = new ALs(s, w); break;
	case IBUF: sm.active = false; a = new AIbuf(s, w); break;
	default: sm.active = false; a = new AObuf(s, w); break;
	}
	a->id = i;
	as[i].reset(a);
	TR("allocator %zu is a %s", i, kind_name[k]);
	CHECK(quota_used(&quota) == q0 && (k == LSREGION || slab_cache_used(&caches[w].c) == u0), "create",
	      "creating a %s takes memory", kind_name[k]);
}

static void
alloc_destroy(size_t i)
{
	Alloc *a = as[i].get();
	unsigned c = a->where;
	bool ls = a->kind == LSREGION;
	if (a->live()) {
		kinds_live |= 1 << a->kind;
		if (a->large() && a->kind != SMALL)
			kinds_large |= 1 << a->kind;
	}
	size_t q0 = quota_used(&quota), u0 = ls ? 0 : slab_cache_used(&caches[c].c);
	a->check("before destroy");
	TR("%s %zu destroy", kind_name[a->kind], i);
	a->destroy();
	CHECK(quota_used(&quota) <= q0 && (ls || slab_cache_used(&caches[c].c) <= u0), "destroy", "destroying a %s "
	      "took memory", kind_name[a->kind]);
	SmPause pause;
	as[i].reset();
	if (!ls && cache_idle(c))
		CHECK(slab_cache_used(&caches[c].c) == 0, "cache-used", "cache %u has %zu used with all its "
		      "allocators destroyed", c, slab_cache_used(&caches[c].c));
}

static size_t
left()
{
	return quota_total(&quota) - quota_used(&quota);
}

#ifndef DESTROY
/* Everything freed, memory available again: the refused request succeeds. */
static void
retry(Src &s, size_t i)
{
	Alloc *a = as[i].get();
	for (size_t j = 0; j < as.size(); j++)
		if (as[j] && j != i)
			alloc_destroy(j);
	a->empty(s);
	a->purge();
	faults_off();
	/* the other caches' spare slabs go to the arenas */
	for (unsigned c = 0; c < ncaches; c++)
		if (caches[c].created && cache_idle(c))
			cache_destroy(s, c);
	size_t need = 0;
	size_t A = a->A();
	Arena &ar = arenas[a->kind == LSREGION ? a->where : caches[a->where].arena];
	size_t have = left(), cached = ar.cached();
	size_t total = 0;
	for (unsigned n = 0; n < narenas; n++)
		total += arenas[n].cached() * arenas[n].A;
	/* in the cache and by the allocator itself */
	size_t held = quota_used(&quota) - ext - total;
	bool ok = a->again(need);
	if (ok) {
		COUNT("retry after freeing succeeded");
	} else {
		CHECK(have < need && !(need <= A && a->by_slab() && cached), "retry", "%s refused again after everything was freed: "
		      "%zu left, %zu needed, arena has %zu slabs, %zu held", kind_name[a->kind], have, need, cached,
		      held);
		COUNT("retry after freeing refused");
	}
	if (a->kind != SMALL)
		CHECK(held <= std::max(A * 3, need), "hoard", "%zu held after everything was freed", held);
	faults_on();
}
#endif

static void
op_alloc(Src &s, size_t i)
{
	Alloc *a = as[i].get();
	size_t size, A = a->A();
	switch (s.weighted({5, 3, 3, 1})) {
	case 0: size = s.logsize(2000); break;
	case 1: size = s.logsize(A); break;
	case 2: size = s.nearby(0, a->max_size(), {A, A / 2, A - 64, A - 100, A - 200}); break;
	default: size = s.logsize(a->max_size()); break;
	}
	if (mem.bytes > (24 << 20))
		return;
	bool arm = faulty && s.chance(1, 10);
	if (arm) {
		sm.mmap_nth = sm.malloc_nth = s.draw(4) == 3;
		TR("next call fails");
	}
	size_t need = 0, q0 = quota_used(&quota), had = left();
	sm.faulted = false;
	bool ok = a->alloc(s, size, need);
	bool faulted = sm.faulted;
	sm.mmap_nth = sm.malloc_nth = -1;
	check_quota("alloc");
	if (ok) {
		if (kinds_refused >> a->kind & 1)
			kinds_recovered |= 1 << a->kind;
		return;
	}
	COUNT("refused");
	pbt_count((std::string("refused: ") + kind_name[a->kind]).c_str());
	kinds_refused |= 1 << a->kind;
	CHECK(faulted || had < need, "refused", "%s refused with %zu left, %zu needed", kind_name[a->kind], had, need);
	CHECK(quota_used(&quota) <= q0 || a->kind == OBUF, "refused", "a refused %s request raised quota used from %zu "
	      "to %zu", kind_name[a->kind], q0, quota_used(&quota));
	a->check("refused");
	for (auto &x : as)
		if (x && s.draw(3) == 2)
			x->check("refused other");
#ifndef DESTROY
	if (s.chance(1, 8))
		retry(s, i);
#endif
}

void
run_case(Src &s)
{
	sm.reset();
	mem.clear();
	as.clear();
	kinds_refused = kinds_recovered = kinds_live = kinds_large = 0;
	ext = 0;
	base_mmap_p = base_malloc_p = 0;
	faults_off();
#ifndef DESTROY
	limited = s.draw(4) != 3;
	faulty = s.draw(3) == 2;
#else
	limited = s.draw(4) == 3;
	faulty = s.draw(5) == 4;
#endif
	quota_init(&quota, limited ? s.range(2, 60) * 65536 + s.draw(65536) : 1ULL << 33);
	sm.place = (decltype(sm.place))s.draw(3);
	sm.unaligned_p = s.pick({0, 0, 100});
	sm.tight = s.chance(1, 3);
	sm.far_lb = s.chance(1, 8) ? 32 + 4 * s.draw(4) : 0;
	if (faulty) {
		base_mmap_p = s.pick({0, 8, 32, 128});
		base_malloc_p = s.pick({0, 8, 32, 128});
	}
	TR("limit %zu mmap_p %u malloc_p %u", quota_total(&quota), base_mmap_p, base_malloc_p);
	narenas = 1 + s.draw(2);
	for (unsigned i = 0; i < narenas; i++)
		arenas[i].created = false, arena_create(s, i);
	ncaches = 1 + s.draw(3);
	for (unsigned i = 0; i < ncaches; i++)
		caches[i].created = false, cache_create(s, i);
	as.resize(1 + s.draw(6));
	faults_on();
	unsigned grow = 6;
	uint64_t k = 0;
	while (s.more()) {
		if (k++ % 20 == 0)
			grow = s.pick({10, 10, 4, 6, 14});
		size_t i = s.draw(as.size());
		if (!as[i]) {
			alloc_create(s, i);
			continue;
		}
#ifdef DESTROY
		unsigned op = s.weighted({grow, 3, 1, 3, 1, 1, 0});
#else
		unsigned op = s.weighted({grow, 4, 1, 0, 0, 0, 1});
		if (op == 2 && s.draw(2))
			op = 3;
#endif
		size_t q0 = quota_used(&quota);
		raw_grown = 0;
		switch (op) {
		case 0: {
			unsigned run = s.draw(6) == 5 ? 2 + s.draw(30) : 1;
			while (run-- > 0 && as[i])
				op_alloc(s, i);
			q0 = quota_used(&quota);
			break;
		}
		case 1:
			as[i]->release(s);
			/* a buffer may take a smaller block before giving the bigger back */
			if (as[i]->kind == IBUF)
				q0 = quota_used(&quota);
			break;
		case 2:
			as[i]->empty(s);
			if (as[i]->kind == IBUF)
				q0 = quota_used(&quota);
			break;
		case 3:
			alloc_destroy(i);
			break;
		case 4: { /* a cache comes or goes */
			unsigned c = s.draw(ncaches);
			if (!caches[c].created) {
				cache_create(s, c);
			} else {
				for (size_t j = 0; j < as.size(); j++)
					if (as[j] && as[j]->kind != LSREGION && as[j]->where == c)
						alloc_destroy(j);
				cache_destroy(s, c);
			}
			break;
		}
		case 5: { /* an arena comes or goes */
			unsigned n = s.draw(narenas);
			if (!arenas[n].created) {
				arena_create(s, n);
				q0 = quota_used(&quota);
				break;
			}
			for (size_t j = 0; j < as.size(); j++)
				if (as[j] && (as[j]->kind == LSREGION ? as[j]->where == n :
					      caches[as[j]->where].arena == n))
					alloc_destroy(j);
			for (unsigned c = 0; c < ncaches; c++)
				if (caches[c].created && caches[c].arena == n)
					cache_destroy(s, c);
			arena_destroy(n);
			break;
		}
		default: { /* the limit or its other users change */
			unsigned what = s.draw(3);
			if (what == 0) {
				size_t n = quota_used(&quota) + s.draw(4 << 20);
				quota_set(&quota, n);
				TR("limit %zu", n);
			} else if (what == 1 && !ext) {
				size_t n = (1 + s.draw(1024)) * 1024;
				if (quota_use(&quota, n) >= 0)
					ext = n;
				TR("other use of %zu", ext);
			} else if (ext) {
				quota_release(&quota, ext);
				ext = 0;
				TR("other use ends");
			}
			q0 = quota_used(&quota);
			break;
		}
		}
		q0 += raw_grown;
		CHECK(quota_used(&quota) <= q0, "quota", "freeing raised quota used from %zu to %zu", q0,
		      quota_used(&quota));
		check_quota("step");
		for (unsigned c = 0; c < ncaches; c++)
			if (!caches[c].created && s.draw(2))
				cache_create(s, c);
		if (k % 8 == 0) {
			mem.check_all("step");
			for (auto &a : as)
				if (a)
					a->check("step");
			for (unsigned c = 0; c < ncaches; c++)
				if (caches[c].created)
					slab_cache_check(&caches[c].c);
		}
	}
	mem.check_all("end");
	/* the end: everything is emptied or destroyed, in some order */
	base_mmap_p = base_malloc_p = 0;
	faults_off();
	bool drain = s.draw(2);
	if (drain)
		for (auto &a : as)
			if (a)
				a->empty(s), a->check("emptied");
	while (true) {
		size_t n = 0, pick = 0;
		for (auto &a : as)
			n += a != nullptr;
		if (!n)
			break;
		n = s.draw(n);
		for (size_t j = 0; j < as.size(); j++)
			if (as[j] && n-- == 0) {
				pick = j;
				break;
			}
		alloc_destroy(pick);
		/* caches and arenas go as soon as they can, sometimes */
		for (unsigned c = 0; c < ncaches; c++)
			if (caches[c].created && cache_idle(c) && s.draw(2))
				cache_destroy(s, c);
	}
	for (unsigned c = 0; c < ncaches; c++)
		if (caches[c].created)
			cache_destroy(s, c);
	CHECK(sm.heap.empty(), "leak", "%zu heap blocks (%zu bytes) left after destroying the caches", sm.heap.size(),
	      sm.heap_bytes);
	size_t own = 0;
	for (unsigned n = 0; n < narenas; n++)
		if (arenas[n].created)
			own += arenas[n].cached() * arenas[n].A;
	CHECK(quota_used(&quota) - ext == own, "quota", "%zu charged at the end, the arenas own %zu",
	      quota_used(&quota) - ext, own);
	for (unsigned n = 0; n < narenas; n++) {
		unsigned m = narenas - 1 - n;
		if (arenas[m].created)
			arena_destroy(m);
	}
	sm.audit_empty("leak", "after destroying the arenas");
	CHECK(quota_used(&quota) == ext, "quota", "%zu charged after everything was destroyed", quota_used(&quota));
#ifndef DESTROY
	if (__builtin_popcount(kinds_recovered) >= 2)
		s.nontrivial();
#else
	if (__builtin_popcount(kinds_live) >= 3 && kinds_large)
		s.nontrivial();
#endif
	if (narenas > 1) COUNT("case with two arenas");
	if (ncaches > 1) COUNT("case with several caches");
	if (limited) COUNT("case with low limit");
	if (faulty) COUNT("case with faults");
}
