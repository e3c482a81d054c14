/* C06: slab arenas shared by threads, under a controlled scheduler. */
#include "pbt.h"
#include "fibers.h"
#include "sysmem.h"
#include "conc_shim.h"
#include "slab_arena.h"
#include <set>
#include <map>
#include <algorithm>
#include <sys/mman.h>

const char *case_rule = "a case is 1-2 arenas on one quota, 2-4 threads with programs of map/"
	"unmap/direct quota use, failing and unaligned mmaps, and a schedule with switches at "
	"single memory accesses; non-trivial: a map or unmap of another thread on the same arena "
	"completed inside a map call";
unsigned case_max_ops = 40;

enum { MAP, UNMAP, QUSE, QREL };
static const char *names[] = {"map", "unmap", "quota_use", "quota_release"};

struct Ar {
	struct slab_arena a;
	size_t slab, prealloc;
	std::set<char *> held;		/* handed out, not yet given back */
	std::set<char *> known;		/* every slab ever handed out */
	std::map<char *, uint64_t> free_since;	/* given back (call returned) */
	std::map<char *, int> handed;	/* times handed out */
	int maps_in_flight = 0;
};

void
run_case(Src &s)
{
	sm.reset();
	static struct quota q;
	unsigned nt = 2 + s.draw(3), na = 1 + s.draw(2);
	size_t total = 65536 * (1 + s.draw(12));
	if (s.draw(4) == 0)
		total = 64 << 20;
	quota_init(&q, total);
	sched_weak_fail_p = s.pick({0, 20, 60});
	sm.unaligned_p = s.pick({0, 128});
	sm.tight = s.chance(1, 3);
	sm.far_lb = s.chance(1, 8) ? 32 + 4 * s.draw(4) : 0;
	std::vector<Ar> ar(na);
	for (auto &x : ar) {
		x.slab = 65536 << s.draw(2);
		x.prealloc = s.draw(4) * x.slab;
		if (x.prealloc > total)
			x.prealloc = total / x.slab * x.slab;
		if (slab_arena_create(&x.a, &q, x.prealloc, x.slab, MAP_PRIVATE) != 0)
			FAIL("create", "arena creation failed");
	}
	sm.mmap_p = s.draw(2) ? s.pick({30, 100, 256}) : 0;
	TR("quota=%zu threads=%u arenas=%u slab=%zu prealloc=%zu mmap_p=%u", total, nt, na,
	   ar[0].slab, ar[0].prealloc, sm.mmap_p);
	struct Op { int kind; unsigned ar; unsigned arg; };
	std::vector<std::vector<Op>> prog(nt);
	while (s.more()) {
		unsigned t = s.draw(nt);
		Op o = {(int)s.weighted({6, 5, 1, 1}), (unsigned)s.draw(na), (unsigned)s.draw(64)};
		prog[t].push_back(o);
	}
	/* quota left, minimum over each running operation */
	std::vector<size_t> min_left(nt);
	std::vector<bool> nested(nt);
	size_t direct = 0;
	uint64_t nontriv = 0, ops_done = 0;
	auto left = [&] {
		size_t t, u;
		quota_get_total_and_used(&q, &t, &u);
		CHECK(u <= t, "overdrawn", "quota usage %zu above the limit %zu", u, t);
		return t - u;
	};
	auto observe = [&] {
		size_t l = left();
		for (auto &m : min_left)
			if (l < m)
				m = l;
	};
	sched_on_step = observe;
	std::vector<std::function<void()>> th;
	std::vector<size_t> own_q(nt);
	std::vector<std::vector<std::pair<unsigned, char *>>> have(nt);
	for (unsigned t = 0; t < nt; t++) {
		th.push_back([&, t] {
			for (Op o : prog[t]) {
				Ar &x = ar[o.ar];
				switch (o.kind) {
				case MAP: {
					uint64_t inv = sched_clock();
					uint64_t others = ops_done;
					min_left[t] = SIZE_MAX;
					observe();
					uint64_t nfail = sm.n_mmap_failed;
					/* the failure of a mapping is this thread's own only if
					 * no one else failed meanwhile; be permissive */
					x.maps_in_flight++;
					char *p = (char *)slab_map(&x.a);
					x.maps_in_flight--;
					observe();
					TR("  t%u map(arena %u) -> %p", t, o.ar, (void *)p);
					if (ops_done != others)
						nontriv++;
					ops_done++;
					if (!p) {
						CHECK(min_left[t] < x.slab || sm.n_mmap_failed > nfail,
						      "refused", "map refused although the quota had room for "
						      "a slab all the time (at least %zu left) and no mmap failed",
						      min_left[t]);
						int idle = 0;
						for (auto &f : x.free_since)
							idle += f.second < inv;
						CHECK(idle <= x.maps_in_flight, "cache-ignored", "map refused "
						      "although %d slabs were cached all the time", idle);
						break;
					}
					CHECK(((uintptr_t)p & (x.slab - 1)) == 0, "align", "slab %p is not "
					      "aligned to %zu", (void *)p, x.slab);
					CHECK(sm.in_live_map(p, x.slab), "unmapped", "slab %p+%zu is not "
					      "inside mapped memory", (void *)p, x.slab);
					for (auto &y : ar)
						for (char *h : y.held)
							CHECK(h + y.slab <= p || p + x.slab <= h, "shared",
							      "thread %u got slab %p overlapping %p which is "
							      "held", t, (void *)p, (void *)h);
					x.held.insert(p);
					x.known.insert(p);
					x.handed[p]++;
					x.free_since.erase(p);
					have[t].push_back({o.ar, p});
					cs_scribble(p, 0x1111111111111111UL * (t + 1));
					break;
				}
				case UNMAP: {
					if (have[t].empty())
						break;
					size_t i = o.arg % have[t].size();
					auto h = have[t][i];
					have[t].erase(have[t].begin() + i);
					Ar &y = ar[h.first];
					CHECK(*(unsigned long *)h.second == 0x1111111111111111UL * (t + 1),
					      "content", "slab %p of thread %u was overwritten",
					      (void *)h.second, t);
					y.held.erase(h.second);
					int gen = y.handed[h.second];
					slab_unmap(&y.a, h.second);
					/* unless somebody already got it again */
					if (y.handed[h.second] == gen)
						y.free_since[h.second] = sched_clock();
					TR("  t%u unmap(arena %u) %p", t, h.first, (void *)h.second);
					ops_done++;
					break;
				}
				case QUSE: {
					ssize_t r = cs_quota_use(&q, 65536);
					TR("  t%u quota_use -> %zd", t, r);
					if (r > 0) {
						own_q[t] += r;
						direct += r;
					}
					break;
				}
				default:
					if (own_q[t]) {
						own_q[t] -= 65536;
						direct -= 65536;
						cs_quota_release(&q, 65536);
						TR("  t%u quota_release", t);
					}
				}
			}
		});
	}
	sched_run(s, th);
	sched_on_step = nullptr;
	sm.mmap_p = 0;
	/* Quiescence. */
	size_t charged = direct;
	for (auto &x : ar)
		charged += x.known.size() * x.slab;
	CHECK(quota_used(&q) == charged, "account", "at rest the quota is charged %zu, the arenas own "
	      "%zu in %zu+%zu slabs and direct users %zu", quota_used(&q), charged - direct,
	      ar[0].known.size(), na > 1 ? ar[1].known.size() : 0, direct);
	for (unsigned i = 0; i < na; i++) {
		Ar &x = ar[i];
		/* all that was given back can be had again, without new memory */
		size_t n = x.known.size() - x.held.size();
		uint64_t nm = sm.n_mmap;
		for (size_t k = 0; k < n; k++) {
			char *p = (char *)slab_map(&x.a);
			CHECK(p && x.known.count(p) && !x.held.count(p), "lost", "slab %zu of %zu given "
			      "back to the arena cannot be had again (got %p)", k, n, (void *)p);
			x.held.insert(p);
		}
		CHECK(sm.n_mmap == nm && quota_used(&q) == charged, "lost", "reuse took new memory");
		for (char *p : x.held)
			slab_unmap(&x.a, p);
		slab_arena_destroy(&x.a);
	}
	sm.audit_empty("leak", "after destroying the arenas");
	if (nontriv) {
		s.nontrivial();
		COUNT("case with an operation inside a map");
	}
	pbt_count("preemptions", sched_switches);
}
