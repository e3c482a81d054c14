/*
 * C18: matras maps dense ids to stable private blocks.
 * -DVIEWS C19: read views are immutable snapshots.
 * -DFAULTS C20: extents which cannot be allocated.
 */
#include "pbt.h"
#include "sysmem.h"
#include "blocks.h"
#include <set>
#include <map>
#include <sys/mman.h>
#include "matras.h"

#if defined(FAULTS)
#define VIEWS
const char *case_rule = "a case is 1-2 spaces on one extent allocator, some of whose extent allocations fail, "
	"and a sequence of alloc/dealloc/ranges/touch/reserve/views; non-trivial: an allocation which needed at "
	"least 2 extents or a touch which needed at least 2 failed, was repeated with success, with a view open";
#elif defined(VIEWS)
const char *case_rule = "a case is 1-2 spaces on one extent allocator and a sequence of touch+write/alloc/dealloc/"
	"ranges/create view/destroy view; non-trivial: at least 2 views were open at once on contents that "
	"differ, blocks were copied on touch, and a view was destroyed which was not the latest";
#else
const char *case_rule = "a case is 1-2 spaces on one extent allocator and a sequence of alloc/dealloc/ranges/write/"
	"reset; non-trivial: the space used at least 2 second-level extents or was filled up, shrank across an "
	"extent boundary and grew again";
#endif
unsigned case_max_ops = 150;

/* The allocator of extents. */
static std::map<uintptr_t, size_t> extents;	/* live */
static uint64_t n_alloc_ok, n_alloc_failed, n_free;
static int fail_p;			/* p/256 */
static int64_t fail_nth = -1;		/* the n-th from now fails */
static bool fail_all;
static char *bigmem;			/* for cases with extents by the gigabyte */
static size_t bigpos;
enum : size_t { BIGMEM = (size_t)10 << 30 };
static bool big;

static void *
ext_alloc(struct matras_allocator *a)
{
	bool f = fail_all;
	if (fail_nth >= 0 && fail_nth-- == 0)
		f = true;
	if (fail_p && cur_src->draw(256) >= (unsigned)(256 - fail_p))
		f = true;
	if (f) {
		n_alloc_failed++;
		return NULL;
	}
	SmPause p;
	size_t es = a->extent_size;
	void *r;
	if (big) {
		if (bigpos + es > BIGMEM)
			FAIL("runaway", "extents by the gigabyte");
		r = bigmem + bigpos;
		bigpos += es;
	} else {
		if (posix_memalign(&r, std::max<size_t>(es, 16), es) != 0)
			abort();
		memset(r, 0xA5, es);
	}
	extents[(uintptr_t)r] = es;
	n_alloc_ok++;
	return r;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	SmPause pz;
	auto it = extents.find((uintptr_t)p);
	CHECK(it != extents.end(), "bad-free", "released %p, which is not an extent in use", p);
	CHECK(it->second == a->extent_size, "harness", "extent of another allocator");
	extents.erase(it);
	n_free++;
	if (!big) {
		memset(p, 0x5A, a->extent_size);
		free(p);
	}
}

static bool
in_extent(const void *p, size_t size)
{
	auto it = extents.upper_bound((uintptr_t)p);
	if (it == extents.begin())
		return false;
	--it;
	return (uintptr_t)p >= it->first && (uintptr_t)p + size <= it->first + it->second;
}

/* The model: what the main space or a view contains, and which extents it is
 * made of (by identity, so that sharing is known). */
struct Model {
	size_t count = 0;
	uint64_t root = 0;
	std::vector<uint64_t> l2, l3;
	std::vector<char *> base;		/* of the block extents */
	std::map<matras_id_t, uint64_t> tags;	/* written blocks */
};
struct View {
	struct matras_view v;
	Model m;
};
struct M {
	struct matras m;
	Model h;
	std::vector<View *> views;		/* oldest first */
	size_t bs, bpe, ppe, cap;
	bool copied = false;
};
static std::vector<M> ms;
static struct matras_allocator allocator;
static struct matras_stats stats;
static bool use_stats;
static size_t es;
static uint64_t next_node, next_tag;
static bool two_l2, shrank, regrown, differ, copied, not_latest, failed2, retried;

static int
id(M &x)
{
	return &x - &ms[0];
}

static size_t
cdiv(size_t a, size_t b)
{
	return (a + b - 1) / b;
}

static void
write_block(M &x, Model &h, matras_id_t i, void *p)
{
	SmPause pz;
	uint64_t tag = next_tag++;
	h.tags[i] = tag;
	for_pattern(x.bs, [&](size_t k) { ((char *)p)[k] = (char)pat(tag, k); });
}

static void
check_block(M &x, const Model &h, const void *p, matras_id_t i, uint64_t tag, const char *whose, const char *when)
{
	CHECK(p == h.base[i / x.bpe] + (i % x.bpe) * x.bs, "address", "%s: id %u of %s is at %p, was at %p", when, i,
	      whose, p, h.base[i / x.bpe] + (i % x.bpe) * x.bs);
	for_pattern(x.bs, [&](size_t k) {
		CHECK(((unsigned char *)p)[k] == pat(tag, k), "content", "%s: byte %zu of id %u of %s is %#x, should be %#x",
		      when, k, i, whose, ((unsigned char *)p)[k], pat(tag, k));
	});
}

static void
check_space(M &x, const char *when)
{
	for (auto &t : x.h.tags) {
		void *p = matras_get(&x.m, t.first);
		CHECK(in_extent(p, x.bs), "outside", "%s: id %u is at %p, in no extent", when, t.first, p);
		CHECK((uintptr_t)p % x.bs == 0, "align", "%s: id %u is at %p", when, t.first, p);
		check_block(x, x.h, p, t.first, t.second, "the space", when);
	}
	for (auto v : x.views)
		for (auto &t : v->m.tags) {
			void *p = matras_view_get(&x.m, &v->v, t.first);
			CHECK(in_extent(p, x.bs), "outside", "%s: id %u of a view is at %p, in no extent", when, t.first, p);
			check_block(x, v->m, p, t.first, t.second, "a view", when);
		}
	/* distinct extents of blocks for distinct nodes */
	SmPause pz;
	std::map<char *, uint64_t> at;
	auto add = [&](Model &h) {
		for (size_t i = 0; i < h.l3.size(); i++) {
			auto r = at.insert({h.base[i], h.l3[i]});
			CHECK(r.first->second == h.l3[i], "overlap", "%s: extent %zu of blocks is at the address of "
			      "another one, %p", when, i, h.base[i]);
		}
	};
	add(x.h);
	for (auto v : x.views)
		add(v->m);
}

/* The extents the space must hold now. */
static size_t
nodes(M &x, size_t *only_views = nullptr)
{
	SmPause pz;
	std::set<uint64_t> all, head;
	auto add = [&](Model &h, std::set<uint64_t> &s) {
		if (h.count == 0)
			return;
		s.insert(h.root);
		s.insert(h.l2.begin(), h.l2.end());
		s.insert(h.l3.begin(), h.l3.end());
	};
	add(x.h, all);
	size_t n = all.size();
	for (auto v : x.views)
		add(v->m, all);
	if (only_views)
		*only_views = all.size() - n;
	return all.size();
}

static void
check_counts(const char *when)
{
	size_t total = 0, rv = 0;
	for (auto &x : ms) {
		size_t o, n = nodes(x, &o);
		CHECK(matras_extent_count(&x.m) == n, "extents", "%s: matras_extent_count is %u, the space and its %zu "
		      "views need %zu extents", when, matras_extent_count(&x.m), x.views.size(), n);
		CHECK(x.m.head.block_count == x.h.count, "count", "%s: %zu blocks, should be %zu", when,
		      (size_t)x.m.head.block_count, x.h.count);
		total += n;
		rv += o;
	}
	CHECK(extents.size() == total + allocator.num_reserved_extents, "extents", "%s: %zu extents are taken from "
	      "the allocator, %zu are needed, %d in reserve", when, extents.size(), total,
	      allocator.num_reserved_extents);
	if (use_stats) {
		CHECK(stats.extent_count == total, "stats", "%s: extent_count %u in the statistics, %zu are in use", when,
		      stats.extent_count, total);
		CHECK(stats.read_view_extent_count == rv, "stats", "%s: read_view_extent_count %u in the statistics, "
		      "%zu extents are used by views only", when, stats.read_view_extent_count, rv);
	}
}

static Model *
prev_view(M &x)
{
	return x.views.empty() ? nullptr : &x.views.back()->m;
}

/* Which levels a touch of the id must copy: bit 0 root, 1 second, 2 blocks. */
static unsigned
touch_needs(M &x, matras_id_t i)
{
	Model *v = prev_view(x);
	size_t e = i / x.bpe;
	if (!v || e >= v->l3.size())
		return 0;
	unsigned r = 0;
	if (v->root == x.h.root)
		r |= 1;
	if (v->l2[e / x.ppe] == x.h.l2[e / x.ppe])
		r |= 2;
	if (v->l3[e] == x.h.l3[e])
		r |= 4;
	return r;
}

/* Touch the id; the address or NULL. */
static char *
touch(M &x, matras_id_t i, const char *when, bool may_fail)
{
	unsigned need = touch_needs(x, i), n = __builtin_popcount(need);
	uint64_t ok0 = n_alloc_ok, f0 = n_alloc_failed, free0 = n_free;
	int res0 = allocator.num_reserved_extents;
	bool nt = matras_needs_touch(&x.m, i);
	CHECK(nt || !need, "needs-touch", "%s: matras_needs_touch says no for id %u shared with a view", when, i);
	char *old = (char *)matras_get(&x.m, i);
	char *p = nt && cur_src->draw(3) == 0 ? (char *)matras_touch_no_check(&x.m, i) :
		(char *)matras_touch(&x.m, i);
	unsigned got = n_alloc_ok - ok0 + res0 - allocator.num_reserved_extents - (unsigned)(n_free - free0);
	SmPause pz;
	if (p == NULL) {
		CHECK(may_fail && n_alloc_failed != f0, "refused", "%s: touch of id %u failed", when, i);
		CHECK(matras_get(&x.m, i) == old, "address", "%s: failed touch moved id %u", when, i);
		CHECK(got < n, "extents", "%s: failed touch of id %u has taken %u extents of %u", when, i, got, n);
		/* upper levels may be copied already */
		if (got >= 1)
			*((need & 1) ? &x.h.root : &x.h.l2[i / x.bpe / x.ppe]) = next_node++;
		if (got >= 2)
			x.h.l2[i / x.bpe / x.ppe] = next_node++;
		COUNT("touch failed");
		if (n >= 2 && !x.views.empty())
			failed2 = true;
		return NULL;
	}
	CHECK(got == n, "extents", "%s: touch of id %u took %u extents, needs %u", when, i, got, n);
	if (need & 1)
		x.h.root = next_node++;
	if (need & 2)
		x.h.l2[i / x.bpe / x.ppe] = next_node++;
	if (need & 4) {
		x.h.l3[i / x.bpe] = next_node++;
		CHECK(in_extent(p, x.bs), "outside", "%s: touch of id %u returned %p", when, i, p);
		x.h.base[i / x.bpe] = p - (i % x.bpe) * x.bs;
		COUNT("blocks copied");
		copied = true;
		x.copied = true;
	}
	CHECK(p == x.h.base[i / x.bpe] + (i % x.bpe) * x.bs && p == matras_get(&x.m, i), "address", "%s: touch of id "
	      "%u returned %p, the block is at %p", when, i, p, x.h.base[i / x.bpe] + (i % x.bpe) * x.bs);
	auto t = x.h.tags.find(i);
	if (t != x.h.tags.end())
		check_block(x, x.h, p, i, t->second, "the space after touch", when);
	if (failed2 && n >= 1)
		retried = true;
	return p;
}

static bool
alloc(M &x, size_t r, bool may_fail)
{
	Model &h = x.h;
	matras_id_t i = 0xdeadbeef;
	uint64_t f0 = n_alloc_failed, ok0 = n_alloc_ok, free0 = n_free;
	int res0 = allocator.num_reserved_extents;
	void *p = r == 1 && cur_src->draw(4) ? matras_alloc(&x.m, &i) : matras_alloc_range(&x.m, &i, r);
	unsigned got = n_alloc_ok - ok0 + res0 - allocator.num_reserved_extents - (unsigned)(n_free - free0);
	unsigned need = h.count % x.bpe ? 0 : 1 + (h.count % (x.bpe * x.ppe) == 0) + (h.count == 0);
	SmPause pz;
	if (h.count + r > x.cap) {
		CHECK(p == NULL, "capacity", "got %zu blocks with %zu of %zu in use", r, h.count, x.cap);
		CHECK(got == 0, "extents", "allocation beyond the capacity took %u extents", got);
		COUNT("full");
		two_l2 = true;
		return false;
	}
	if (p == NULL) {
		CHECK(may_fail && n_alloc_failed != f0, "refused", "allocation of %zu blocks failed with %zu of %zu in "
		      "use", r, h.count, x.cap);
		CHECK(got == 0, "extents", "failed allocation keeps %u extents", got);
		COUNT("alloc failed");
		if (need >= 2 && !x.views.empty())
			failed2 = true;
		return false;
	}
	if (failed2 && need)
		retried = true;
	CHECK(i == h.count, "id", "allocation of %zu blocks got id %u, %zu are in use", r, i, h.count);
	CHECK(got == need, "extents", "allocation of id %u took %u extents, needs %u", i, got, need);
	if (need) {
		if (need == 3)
			h.root = next_node++;
		if (need >= 2)
			h.l2.push_back(next_node++);
		h.l3.push_back(next_node++);
		h.base.push_back((char *)p);
	}
	h.count += r;
	if (h.l2.size() >= 2)
		two_l2 = true;
	if (shrank && need)
		regrown = true;
	CHECK(in_extent(p, r * x.bs), "outside", "id %u (and %zu more) is at %p, in no extent", i, r - 1, p);
	CHECK(p == h.base[i / x.bpe] + (i % x.bpe) * x.bs && p == matras_get(&x.m, i), "address", "id %u is allocated at "
	      "%p, its extent is at %p", i, p, h.base[i / x.bpe]);
	for (size_t k = 0; k < r; k++) {
		if (big && k > 2 && k + 3 < r)
			continue;
		write_block(x, h, i + k, (char *)p + k * x.bs);
	}
	return true;
}

/* r blocks at the end go away. */
static void
dealloc(M &x, size_t r)
{
	Model &h = x.h;
#ifdef VIEWS
	/* matras_dealloc() touches and cannot report a failure */
	if (!touch(x, h.count - r, "before dealloc", true))
		return;
#endif
	uint64_t ok0 = n_alloc_ok, free0 = n_free;
	matras_id_t i = h.count - r;
	if (r == 1 && cur_src->draw(4))
		matras_dealloc(&x.m);
	else
		matras_dealloc_range(&x.m, r);
	SmPause pz;
	unsigned freed = n_free - free0 - (unsigned)(n_alloc_ok - ok0), want = 0;
	h.count -= r;
	h.tags.erase(h.tags.lower_bound(i), h.tags.end());
	if (h.count % x.bpe == 0) {
		want++;
		h.l3.pop_back();
		h.base.pop_back();
		shrank = true;
		if (h.count % (x.bpe * x.ppe) == 0) {
			want++;
			h.l2.pop_back();
		}
		if (h.count == 0) {
			want++;
			h.root = 0;
		}
	}
	CHECK(freed == want, "extents", "freeing %zu blocks from id %u released %u extents, should be %u", r, i, freed, want);
}

static size_t
range_for(Src &s, M &x, size_t count)
{
	std::vector<size_t> c;
	SmPause pz;
	for (size_t r = 1; r <= x.bpe; r *= 2)
		if (count % r == 0)
			c.push_back(r);
	return c[s.draw(c.size())];
}

static void
view_create(M &x)
{
	View *v;
	{
		SmPause pz;
		v = new View;
		memset(&v->v, 0xA5, sizeof(v->v));
	}
	uint64_t ok0 = n_alloc_ok;
	matras_create_read_view(&x.m, &v->v);
	CHECK(n_alloc_ok == ok0, "extents", "creating a view took extents");
	CHECK(matras_is_read_view_created(&v->v), "view", "view is not created");
	SmPause pz;
	v->m = x.h;
	x.views.push_back(v);
	if (x.copied && x.views.size() >= 2)
		differ = true;
}

static void
view_destroy(M &x, size_t k)
{
	View *v = x.views[k];
	size_t n0 = nodes(x);
	uint64_t free0 = n_free;
	if (k + 1 < x.views.size())
		not_latest = true;
	matras_destroy_read_view(&x.m, &v->v);
	CHECK(!matras_is_read_view_created(&v->v), "view", "destroyed view says it is created");
	SmPause pz;
	x.views.erase(x.views.begin() + k);
	size_t n1 = nodes(x);
	CHECK(n_free - free0 == n0 - n1, "extents", "destroying view %zu of %zu released %zu extents, %zu were used by "
	      "it only", k, x.views.size() + 1, (size_t)(n_free - free0), n0 - n1);
	matras_destroy_read_view(&x.m, &v->v);	/* nothing more */
	CHECK(n_free - free0 == n0 - n1, "extents", "destroying a view twice releases extents");
	delete v;
}

static void
clear_model(M &x)
{
	SmPause pz;
	x.h = Model();
	for (auto v : x.views)
		delete v;
	x.views.clear();
}

static void
create(M &x)
{
	memset((void *)&x.m, 0xA5, sizeof(x.m));
	matras_create(&x.m, x.bs, &allocator, use_stats ? &stats : NULL);
	x.bpe = es / x.bs;
	x.ppe = es / sizeof(void *);
	/* capacity as documented, in blocks */
	unsigned __int128 c = (unsigned __int128)x.ppe * x.ppe * x.bpe;
	x.cap = c > ((size_t)1 << 32) ? (size_t)1 << 32 : (size_t)c;
	CHECK(x.m.capacity == x.cap, "capacity", "capacity of blocks of %zu in extents of %zu is %zu, should be %zu",
	      x.bs, es, x.m.capacity, x.cap);
}

static void
check_all(const char *when, bool deep)
{
	check_counts(when);
	if (deep)
		for (auto &x : ms)
			check_space(x, when);
}

#if defined(__SANITIZE_ADDRESS__) || defined(PBT_GUIDED)
#define SLOW 1
#else
#define SLOW 0
#endif

static void
run_big(Src &s)
{
	/* ids by the million, up to the full 32 bits */
	M &x = ms[0];
	TR("matras block %zu extent %zu (big)", x.bs, es);
	bool full = s.chance(1, SLOW ? 16 : 4);
	size_t limit = std::min<size_t>(x.cap, (BIGMEM / 2) / x.bs);
	if (!full)
		limit = std::min(limit, (size_t)s.range(1, 64) << s.draw(27));
	while (x.h.count + x.bpe <= limit)
		alloc(x, x.bpe, false);
	TR("%zu blocks of %zu", x.h.count, x.cap);
	if (x.h.count == x.cap) {
		alloc(x, 1, false);
		alloc(x, x.bpe, false);
		COUNT("full 32-bit id space");
	}
	check_all("grown", true);
	while (s.more()) {
		size_t k = s.range(1, 5);
		switch (s.draw(4)) {
		case 0:
			while (k-- && x.h.count >= x.bpe)
				dealloc(x, x.bpe);
			break;
		case 1:
			while (k-- && x.h.count + x.bpe <= limit)
				alloc(x, x.bpe, false);
			break;
#ifdef VIEWS
		case 2:
			if (x.views.size() < 3 && bigpos < BIGMEM - (64 << 20))
				view_create(x);
			else if (!x.views.empty())
				view_destroy(x, s.draw(x.views.size()));
			break;
#endif
		default:
			while (k-- && x.h.count && bigpos < BIGMEM - (64 << 20)) {
				matras_id_t i = s.nearby(0, x.h.count - 1, {x.h.count - 1, x.h.count / 2, 1u << 31});
				char *p = touch(x, i, "touch", false);
				write_block(x, x.h, i, p);
			}
		}
		check_counts("big");
	}
	check_all("at the end", true);
	s.nontrivial();
}

void
run_case(Src &s)
{
	sm.reset();
	extents.clear();
	n_alloc_ok = n_alloc_failed = n_free = 0;
	fail_p = 0;
	fail_nth = -1;
	fail_all = false;
	next_node = next_tag = 1;
	two_l2 = shrank = regrown = differ = copied = not_latest = failed2 = retried = false;
	big = s.chance(1, SLOW ? 1500 : 400);
	bigpos = 0;
	if (big) {
		SmPause pz;
		if (!bigmem)
			bigmem = (char *)mmap(NULL, BIGMEM, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS |
					      MAP_NORESERVE, -1, 0);
		if (bigmem == MAP_FAILED)
			FAIL("harness", "mmap");
	}
	unsigned le = big ? s.pick({20, 18, 19, 17, 16, 21}) : s.pick({6, 4, 5, 7, 8, 10, 12, 14});
	es = (size_t)1 << le;
	matras_allocator_create(&allocator, es, ext_alloc, ext_free);
	matras_stats_create(&stats);
	use_stats = s.draw(4) != 3;
	{
		SmPause p;
		ms.clear();
		ms.resize(big ? 1 : 1 + s.chance(1, 4));
	}
	for (auto &x : ms) {
		unsigned lb = big ? s.pick({0, 1, 2, 3, 4, 6, 10}) : le - s.draw(le + 1);
		if (!big && le >= 12 && lb < le - 8)
			lb = le - 8;
		x.bs = (size_t)1 << lb;
		create(x);
		TR("matras %d block %zu extent %zu capacity %zu", id(x), x.bs, es, x.cap);
	}
#ifdef FAULTS
	if (!big)
		fail_p = s.pick({0, 16, 64, 128});
	const bool F = true;
#else
	const bool F = false;
#endif
	if (big)
		run_big(s);
	unsigned n = 0;
	while (!big && s.more()) {
		M &x = ms[s.draw(ms.size())];
		Model &h = x.h;
		const char *what = "";
		size_t maxn = std::min<size_t>(x.cap, 600);
#ifdef FAULTS
		if (s.chance(1, 3))
			fail_nth = s.draw(4);
#endif
#ifdef VIEWS
		unsigned vw = 4;
#else
		unsigned vw = 0;
#endif
		switch (s.weighted({8, 6, 4, 4, 8, 2, 1, vw, vw, vw, 1, 2})) {
		case 0: {
			what = "matras_alloc";
			size_t k = s.chance(1, 3) ? s.range(1, 2 * x.bpe) : 1;
			k = std::min<size_t>(k, 100);
			TR("matras %d: alloc x %zu at %zu", id(x), k, h.count);
			while (k-- && h.count < 700)
				alloc(x, 1, F);
			break;
		}
		case 1: {
			what = "matras_dealloc";
			size_t k = s.chance(1, 3) ? s.range(1, 2 * x.bpe) : 1;
			k = std::min<size_t>(k, 100);
			TR("matras %d: dealloc x %zu at %zu", id(x), k, h.count);
			while (k-- && h.count)
				dealloc(x, 1);
			break;
		}
		case 2: {
			what = "matras_alloc_range";
			size_t r = range_for(s, x, h.count);
			TR("matras %d: alloc_range(%zu) at %zu", id(x), r, h.count);
			if (h.count < 700)
				alloc(x, r, F);
			break;
		}
		case 3: {
			what = "matras_dealloc_range";
			if (!h.count)
				break;
			size_t r = range_for(s, x, h.count);
			TR("matras %d: dealloc_range(%zu) at %zu", id(x), r, h.count);
			dealloc(x, r);
			break;
		}
		case 4: {
			what = "touch and write";
			if (!h.count)
				break;
			matras_id_t i = s.nearby(0, h.count - 1, {0, h.count - 1, h.count / 2});
			TR("matras %d: touch and write %u of %zu", id(x), i, h.count);
			char *p;
			if (x.views.empty() && s.draw(2))
				p = (char *)matras_get(&x.m, i);
			else
				p = touch(x, i, what, F);
			if (p)
				write_block(x, h, i, p);
			break;
		}
		case 5: {
			what = "fill to a boundary";
			size_t k = s.draw(2) ? x.bpe : x.bpe * x.ppe;
			size_t to = std::min(cdiv(h.count + 1, k) * k, maxn);
			if (s.draw(3) == 0)
				to = maxn;
			TR("matras %d: alloc up to %zu", id(x), to);
			while (h.count < to && alloc(x, 1, F))
				;
			if (h.count == x.cap)
				alloc(x, 1, F);
			break;
		}
		case 6:
			what = "matras_reset";
			TR("matras %d: %s", id(x), "reset");
			if (s.draw(2)) {
				matras_reset(&x.m);
				clear_model(x);
			} else {
				matras_destroy(&x.m);
				clear_model(x);
				create(x);
			}
			break;
		case 7:
			what = "matras_create_read_view";
			if (x.views.size() >= 5)
				break;
			TR("matras %d: view %zu of %zu blocks", id(x), x.views.size(), h.count);
			view_create(x);
			break;
		case 8: {
			what = "matras_destroy_read_view";
			if (x.views.empty())
				break;
			size_t k = s.draw(x.views.size());
			TR("matras %d: destroy view %zu of %zu", id(x), k, x.views.size());
			view_destroy(x, k);
			break;
		}
		case 9: {
			what = "matras_touch_reserve";
			if (!h.count)
				break;
			int k = s.range(0, 6);
			TR("matras %d: reserve for %d touches", id(x), k);
			uint64_t f0 = n_alloc_failed;
			int rc = matras_touch_reserve(&x.m, k);
			CHECK(rc == 0 || rc == -1, "reserve", "matras_touch_reserve returned %d", rc);
			if (rc != 0) {
				CHECK(F && n_alloc_failed != f0, "refused", "matras_touch_reserve failed");
				COUNT("reserve failed");
				break;
			}
			/* nothing can fail now */
			fail_all = true;
			uint64_t ok0 = n_alloc_ok;
			while (k--) {
				matras_id_t i = s.nearby(0, h.count - 1, {0, h.count - 1, h.count / 2});
				TR("  touch %u", i);
				char *p = touch(x, i, "reserved touch", false);
				write_block(x, h, i, p);
			}
			CHECK(n_alloc_ok == ok0, "harness", "allocated");
			fail_all = false;
			break;
		}
		case 10: {
			what = "matras_allocator_reserve";
			int k = s.range(0, 8), r0 = allocator.num_reserved_extents;
			TR("reserve %d extents", k);
			uint64_t f0 = n_alloc_failed;
			int rc = matras_allocator_reserve(&allocator, k);
			if (rc == 0) {
				CHECK(allocator.num_reserved_extents == std::max(r0, k), "reserve", "%d extents reserved, "
				      "asked for %d, had %d", allocator.num_reserved_extents, k, r0);
				if (k && s.draw(2)) {
					fail_all = true;
					unsigned used = 0;
					while (used < (unsigned)k && h.count < maxn) {
						unsigned need = h.count % x.bpe ? 0 :
							1 + (h.count % (x.bpe * x.ppe) == 0) + (h.count == 0);
						if (used + need > (unsigned)k)
							break;
						used += need;
						alloc(x, 1, false);
					}
					fail_all = false;
				}
			} else {
				CHECK(F && n_alloc_failed != f0, "refused", "matras_allocator_reserve failed");
				CHECK(allocator.num_reserved_extents >= r0, "reserve", "failed reserve lost extents");
			}
			break;
		}
		case 11: {
			what = "head view";
			struct matras_view v;
			memset(&v, 0xA5, sizeof(v));
			matras_head_read_view(&v);
			CHECK(!matras_is_read_view_created(&v), "view", "the head view says it is created");
			if (h.count) {
				matras_id_t i = s.draw(h.count);
				CHECK(matras_view_get(&x.m, &v, i) == matras_get(&x.m, i), "view", "the head view differs from "
				      "the space at id %u", i);
			}
			matras_destroy_read_view(&x.m, &v);
			break;
		}
		}
		fail_nth = -1;
		check_all(what, ++n % 4 == 0);
	}
	fail_p = 0;
	check_all("at the end", true);
	for (auto &x : ms) {
		TR("matras %d: destroy with %zu views", id(x), x.views.size());
		matras_destroy(&x.m);
		for (auto v : x.views)
			CHECK(!matras_is_read_view_created(&v->v), "view", "view is open after matras_destroy");
		CHECK(matras_extent_count(&x.m) == 0, "extents", "%u extents after matras_destroy",
		      matras_extent_count(&x.m));
		clear_model(x);
	}
	CHECK(extents.size() == (size_t)allocator.num_reserved_extents, "leak", "%zu extents left, %d in reserve",
	      extents.size(), allocator.num_reserved_extents);
	if (use_stats)
		CHECK(stats.extent_count == 0 && stats.read_view_extent_count == 0, "stats", "statistics after "
		      "matras_destroy: %u, %u", stats.extent_count, stats.read_view_extent_count);
	matras_allocator_destroy(&allocator);
	CHECK(extents.empty(), "leak", "%zu extents left after matras_allocator_destroy", extents.size());
	SmPause p;
	if (big && bigpos)
		madvise(bigmem, bigpos, MADV_DONTNEED);
#if defined(FAULTS)
	if (failed2 && retried)
		s.nontrivial();
#elif defined(VIEWS)
	if (differ && copied && not_latest)
		s.nontrivial();
#else
	if (two_l2 && shrank && regrown)
		s.nontrivial();
#endif
	ms.clear();
	ms.shrink_to_fit();
}
