/* C01: slab_arena. */
#include "pbt.h"
#include "sysmem.h"
#include "blocks.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <set>
#include <small_config.h>
#include "quota.h"
#include "slab_arena.h"

const char *case_rule = "a case is 1-2 arenas on one quota with generated prealloc/slab "
	"size/flags and placement, and a sequence of map/unmap/destroy+recreate; "
	"non-trivial: at least 3 slabs live at once, one slab reused, and either a "
	"preallocated area or an unaligned kernel address was involved";
unsigned case_max_ops = 160;

static size_t
up(size_t x, size_t a)
{
	return (x + a - 1) / a * a;
}

struct A {
	struct slab_arena a;
	bool created = false;
	size_t slab, prealloc;
	int flags;
	bool dontdump, shared;
	std::set<char *> cached;
	std::vector<char *> live;
	size_t own = 0;		/* distinct slabs taken so far */
	size_t prealloc_avail = 0;
};

static struct quota quota;
static size_t q_used, q_total;
static Blocks blocks;
static bool reused, had_unaligned, protected_one;

static void
check_quota(const char *when)
{
	CHECK(quota_used(&quota) == q_used, "quota", "%s: quota used %zu, expected %zu",
	      when, quota_used(&quota), q_used);
}

static void
check_advice(std::vector<A> &as, const char *when)
{
#ifdef NOMADVISE
	CHECK(sm.n_madvise == 0, "advice", "%s: madvise used on a system without it", when);
	return;
#endif
	bool any = false, all = true;
	for (auto &x : as) {
		if (!x.created)
			continue;
		any |= x.dontdump;
		all &= x.dontdump;
	}
	if (!any) {
		CHECK(sm.advised.empty(), "advice", "%s: memory excluded from the dump "
		      "although not asked", when);
		return;
	}
	if (!all)
		return;
	for (auto &m : sm.maps) {
		uintptr_t a = m.first, e = a + m.second;
		while (a < e) {
			auto it = sm.advised.upper_bound(a);
			if (it == sm.advised.begin())
				FAIL("advice", "%s: mapping not excluded from dump", when);
			--it;
			if (it->first + it->second <= a)
				FAIL("advice", "%s: part of a mapping is not excluded from dump", when);
			a = it->first + it->second;
		}
	}
}

/* Areas and slabs of gigabytes, of which little is touched. */
static bool huge;

static void
create(Src &s, A &x)
{
	size_t req = s.weighted({3, 3, 2, 1}) ;
	uint32_t slab_size;
	switch (req) {
	case 0: slab_size = s.draw(65537); break;
	case 1: slab_size = 65536u << s.draw(4); break;
	case 2: slab_size = s.nearby(1, 1 << 20, {65536, 131072, 262144, 524288, 1 << 20}); break;
	default: slab_size = s.nearby(1, 1 << 24, {4 << 20, 8 << 20}); break;
	}
	if (huge && s.draw(2))
		slab_size = (1u << (20 + s.draw(12))) - s.draw(2) * s.draw(1000);
	x.slab = 65536;
	while (x.slab < slab_size)
		x.slab <<= 1;
	size_t prealloc;
	switch (s.weighted({2, 3, 2, 1})) {
	case 0: prealloc = 0; break;
	case 1: prealloc = s.draw(huge ? 3 : 6) * x.slab; break;
	case 2: prealloc = s.nearby(0, x.slab * 6, {x.slab, 2 * x.slab, 4096}); break;
	default: prealloc = s.pick<size_t>({q_total, q_total + 1, SIZE_MAX, SIZE_MAX / 2}); break;
	}
	if (huge && s.draw(3))
		prealloc = (4ULL << 30) * (1 + s.draw(2)) + (s.draw(2) ? s.logsize(1ULL << 32) : 0);
	switch (s.draw(6)) {
	case 0: x.flags = MAP_PRIVATE; x.dontdump = false; x.shared = false; break;
	case 1: x.flags = MAP_SHARED; x.dontdump = false; x.shared = true; break;
	case 2: x.flags = SLAB_ARENA_PRIVATE; x.dontdump = false; x.shared = false; break;
	case 3: x.flags = SLAB_ARENA_SHARED; x.dontdump = false; x.shared = true; break;
	case 4: x.flags = SLAB_ARENA_PRIVATE | SLAB_ARENA_DONTDUMP; x.dontdump = true; x.shared = false; break;
	default: x.flags = SLAB_ARENA_SHARED | SLAB_ARENA_DONTDUMP; x.dontdump = true; x.shared = true; break;
	}
	size_t exp = prealloc < q_total ? prealloc : q_total;
	exp = up(exp, x.slab);
	size_t before = sm.map_bytes;
	size_t nfail = sm.n_mmap_failed;
	uint64_t nm = sm.n_mmap;
	int rc = slab_arena_create(&x.a, &quota, prealloc, slab_size, x.flags);
	TR("arena_create(prealloc=%zu, slab_size=%u, flags=%#x) = %d", prealloc, slab_size,
	   x.flags, rc);
	if (rc != 0) {
		CHECK(sm.n_mmap_failed > nfail, "create", "arena creation failed without a mmap failure");
		CHECK(sm.map_bytes == before, "leak", "failed arena creation leaves %zu bytes mapped",
		      sm.map_bytes - before);
		COUNT("create failed");
		return;
	}
	CHECK(x.a.slab_size == x.slab, "slab-size", "requested slab size %u, got %u, expected %zu",
	      slab_size, (unsigned)x.a.slab_size, x.slab);
	x.prealloc = exp;
	CHECK(sm.map_bytes - before == exp, "prealloc", "prealloc %zu: %zu bytes mapped, expected %zu",
	      prealloc, sm.map_bytes - before, exp);
	if (sm.n_mmap != nm)
		CHECK(!!(sm.last_mmap_flags & MAP_SHARED) == x.shared, "flags",
		      "flags %#x: mapped with %#x", x.flags, sm.last_mmap_flags);
	x.prealloc_avail = exp / x.slab;
	x.created = true;
	x.own = 0;
	x.cached.clear();
	x.live.clear();
	check_quota("create");
}

static void
op_map(Src &s, A &x)
{
	(void)s;
	size_t before = sm.map_bytes, nm = sm.n_mmap, nfail = sm.n_mmap_failed;
	size_t una = sm.n_unaligned;
	char *p = (char *)slab_map(&x.a);
	TR("map -> %p", (void *)p);
	if (sm.n_unaligned != una)
		had_unaligned = true;
	if (!x.cached.empty()) {
		CHECK(p != NULL, "reuse", "map failed with %zu slabs cached", x.cached.size());
		CHECK(x.cached.count(p), "reuse", "new memory %p taken although %zu returned slabs "
		      "are cached", (void *)p, x.cached.size());
		CHECK(sm.map_bytes == before && sm.n_mmap == nm, "reuse", "mmap called with slabs cached");
		x.cached.erase(p);
		reused = true;
	} else {
		bool fits = q_total - q_used >= x.slab;
		if (p == NULL) {
			CHECK(!fits || sm.n_mmap_failed > nfail, "map", "map failed although quota has "
			      "%zu bytes left", q_total - q_used);
			CHECK(sm.map_bytes == before, "leak", "failed map changes mapped bytes by %zd",
			      (ssize_t)(sm.map_bytes - before));
			COUNT("map refused");
			check_quota("failed map");
			return;
		}
		CHECK(fits, "quota", "map succeeded beyond the quota: used %zu total %zu slab %zu",
		      q_used, q_total, x.slab);
		q_used += x.slab;
		x.own++;
		if (x.prealloc_avail) {
			x.prealloc_avail--;
			CHECK(sm.n_mmap == nm, "prealloc", "mmap called with preallocated memory left");
		} else {
			CHECK(sm.map_bytes == before + x.slab, "leak", "mapping a slab of %zu changes "
			      "mapped bytes by %zd", x.slab, (ssize_t)(sm.map_bytes - before));
			CHECK(!!(sm.last_mmap_flags & MAP_SHARED) == x.shared, "flags",
			      "flags %#x: mapped with %#x", x.flags, sm.last_mmap_flags);
		}
		for (char *c : x.cached)
			CHECK(c != p, "overlap", "slab twice");
	}
	CHECK(((uintptr_t)p & (x.slab - 1)) == 0, "align", "slab %p not aligned to %zu", (void *)p, x.slab);
	CHECK(sm.in_live_map(p, x.slab), "unmapped", "slab %p+%zu is not inside mapped memory", (void *)p, x.slab);
	blocks.add(p, x.slab, "slab_map");
	x.live.push_back(p);
	check_quota("map");
}

static void
op_unmap(A &x, size_t i)
{
	char *p = x.live[i];
	TR("unmap %p", (void *)p);
	Block *b = blocks.find(p);
	Blocks::check(*b, "before unmap");
	blocks.del(p);
	size_t before = sm.map_bytes;
	slab_unmap(&x.a, p);
	CHECK(sm.map_bytes == before, "unmap", "slab_unmap changed the mapped size");
	x.live[i] = x.live.back();
	x.live.pop_back();
	x.cached.insert(p);
	check_quota("unmap");
}

/* The kernel's opinion, without touching the memory. */
static bool
is_writable(char *p)
{
	static int fd = open("/dev/zero", O_RDONLY);
	char was = *p;
	bool r = read(fd, p, 1) == 1;
	if (r)
		*p = was;
	return r;
}

/* slab_arena_mprotect() makes the preallocated area, all of it and nothing else,
 * read-only, and its contents stay. All slabs were given back. */
static void
check_protect(A &x)
{
	std::vector<std::pair<char *, char>> at;
	auto probe = [&](uintptr_t a) { at.push_back({(char *)a, *(char *)a}); };
	for (auto &m : sm.maps) {
		if (m.second > (64 << 20) && !huge)
			continue;
		uintptr_t a = m.first, e = m.first + m.second;
		for (uintptr_t p : {a, a + 4095, a + 4096, (a + e) / 2, e - 4096, e - 1})
			if (p >= a && p < e)
				probe(p);
	}
	uintptr_t a = (uintptr_t)x.a.arena, e = a + x.prealloc;
	CHECK((x.a.arena != NULL) == (x.prealloc != 0), "prealloc", "arena of %zu is at %p", x.prealloc, x.a.arena);
	slab_arena_mprotect(&x.a);
	TR("mprotect");
	for (auto &y : at) {
		uintptr_t p = (uintptr_t)y.first;
		bool in = p >= a && p < e;
		CHECK(*y.first == y.second, "protect", "slab_arena_mprotect changed a byte");
		CHECK(is_writable(y.first) == !in, "protect", "slab_arena_mprotect: byte at %p is %swritable, the area "
		      "is %p+%zu", y.first, in ? "" : "not ", x.a.arena, x.prealloc);
	}
	protected_one = true;
}

static void
op_destroy(A &x, bool protect = false)
{
	while (!x.live.empty())
		op_unmap(x, x.live.size() - 1);
	if (protect)
		check_protect(x);
	size_t before = sm.map_bytes;
	size_t exp = x.prealloc;
	size_t pre_slabs = x.prealloc / x.slab;
	if (x.own > pre_slabs)
		exp += (x.own - pre_slabs) * x.slab;
	slab_arena_destroy(&x.a);
	TR("destroy");
	CHECK(before - sm.map_bytes == exp, "leak", "destroy unmapped %zu bytes, arena had %zu",
	      before - sm.map_bytes, exp);
	x.created = false;
	for (auto &b : blocks.live)
		CHECK(sm.in_live_map(b.second.ptr, b.second.size), "unmapped",
		      "destroying one arena unmapped a slab of another");
	/* the arena does not give its quota back, do it for it */
	if (x.own)
		quota_release(&quota, x.own * x.slab), q_used -= x.own * x.slab;
	check_quota("destroy");
}

void
run_case(Src &s)
{
	sm.reset();
	blocks.clear();
	reused = had_unaligned = protected_one = false;
	q_used = 0;
	switch (s.draw(3)) {
	case 0: q_total = 64ULL << 30; break;
	case 1: q_total = 65536 * (1 + s.draw(40)); break;
	default: q_total = 1024 * s.range(0, 8192); break;
	}
	huge = s.chance(1, 25);
	/* keep what a generated prealloc can map within reason */
	if (huge)
		q_total = (5ULL << 30) + 1024 * s.logsize(10 << 20);
	else if (q_total > (1ULL << 32))
		q_total = 1ULL << 31;
	if (huge)
		sm.map_limit = 64ULL << 30;
	quota_init(&quota, q_total);
	sm.place = (decltype(sm.place))s.draw(3);
	sm.unaligned_p = s.pick({0, 64, 128, 256});
	sm.tight = s.chance(1, 3);
	sm.far_lb = s.chance(1, 8) ? 32 + 4 * s.draw(4) : 0;
	sm.mmap_p = s.weighted({3, 1}) ? s.pick({20, 60, 128}) : 0;
	sm.madvise_p = s.chance(1, 50) ? s.pick({20, 128, 256}) : 0;
	TR("quota=%zu place=%d unaligned_p=%u mmap_p=%u", q_total, sm.place, sm.unaligned_p, sm.mmap_p);
	std::vector<A> as(1 + s.draw(2));
	size_t max_live = 0, n = 0;
	bool prealloc = false;
	while (s.more()) {
		unsigned mode = s.weighted({10, 6, 2, 1, 1});
		A &x = as[s.draw(as.size())];
		if (!x.created) {
			create(s, x);
		} else if (mode == 0) {
			if (x.live.size() < 24 && blocks.bytes < (48 << 20))
				op_map(s, x);
		} else if (mode == 1) {
			if (!x.live.empty())
				op_unmap(x, s.draw(x.live.size()));
		} else if (mode == 2) {
			blocks.check_all("step");
		} else if (mode == 3) {
			slab_unmap(&x.a, NULL);
			check_quota("unmap NULL");
		} else {
			op_destroy(x, s.draw(4) == 3);
		}
		check_advice(as, "step");
		n = as[0].live.size() + (as.size() > 1 ? as[1].live.size() : 0);
		if (n > max_live)
			max_live = n;
		if (x.created && x.prealloc)
			prealloc = true;
	}
	blocks.check_all("end");
	for (auto &x : as) {
		if (x.created)
			op_destroy(x);
	}
	sm.audit_empty("leak", "after destroying all arenas");
	if (max_live >= 3 && reused && (prealloc || had_unaligned))
		s.nontrivial();
	if (huge) COUNT("case with gigabytes");
	if (protected_one) COUNT("case with slab_arena_mprotect");
	if (had_unaligned) COUNT("case with unaligned kernel address");
	if (prealloc) COUNT("case with preallocated area");
	if (reused) COUNT("case with slab reuse");
	if (as.size() == 2) COUNT("case with two arenas");
}
