/* C02: quota against an arithmetic model; C04: quota_lessor. */
#include "pbt.h"
#include <vector>
#include <small_config.h>
#include "quota.h"
#include "quota_lessor.h"

typedef unsigned __int128 u128;
static const u128 U = 1024;
static u128 units(u128 x) { return (x + U - 1) / U; }

#ifdef LESSOR
const char *case_rule = "a case is a quota shared by 1-3 lessors and a direct user, and a "
	"sequence of lease/end-lease/destroy/create and limit changes; non-trivial: a lease was "
	"served from the source with less than 1 MB (or less than the request rounded to a power "
	"of two) left, or a lease failed, or a release to the source happened";
#else
const char *case_rule = "a case is a limit and a sequence of use/release/set with sizes over the "
	"whole size_t range; non-trivial: a request was refused and one granted, or the usage came "
	"within 2 units of the limit";
#endif
unsigned case_max_ops = 200;

static struct quota q;
static u128 total, used;	/* in units */

static void
check(const char *when)
{
	CHECK(quota_total(&q) == (size_t)(total * U), "total", "%s: total %zu expected %zu", when,
	      quota_total(&q), (size_t)(total * U));
	CHECK(quota_used(&q) == (size_t)(used * U), "used", "%s: used %zu expected %zu", when,
	      quota_used(&q), (size_t)(used * U));
	size_t t, u;
	quota_get_total_and_used(&q, &t, &u);
	CHECK(t == (size_t)(total * U) && u == (size_t)(used * U), "total-and-used",
	      "%s: %zu/%zu", when, t, u);
}

static size_t
gen_total(Src &s)
{
	switch (s.weighted({3, 3, 2, 2})) {
	case 0: return s.logsize(QUOTA_MAX);
	case 1: return s.nearby(0, 1 << 26, {1024, 1 << 20, 4 << 20, (size_t)(used * U)});
	case 2: return QUOTA_MAX - s.logsize(QUOTA_MAX);
	default: {
		/* around current usage */
		u128 v = used * U;
		int d = (int)s.draw(4097) - 2048;
		if (d < 0 && v < (u128)-d)
			return 0;
		v += d;
		return v > QUOTA_MAX ? (size_t)QUOTA_MAX : (size_t)v;
	}
	}
}

static size_t
gen_size(Src &s)
{
	u128 left = (total - used) * U;
	switch (s.weighted({4, 3, 2, 1})) {
	case 0: return 1 + s.logsize(QUOTA_MAX);
	case 1: {
		u128 v = left + s.draw(2050);
		v = v > 1025 ? v - 1025 : 1;
		return v ? (size_t)v : 1;
	}
	case 2: return (size_t)QUOTA_MAX - s.logsize(QUOTA_MAX - 1);
	default: return 1 + s.logsize(SIZE_MAX - 1);
	}
}

#ifndef LESSOR
void
run_case(Src &s)
{
	total = used = 0;
	size_t t = gen_total(s);
	quota_init(&q, t);
	total = units(t);
	TR("init %zu", t);
	check("init");
	bool refused = false, granted = false, near_limit = false;
	std::vector<size_t> chunks;
	while (s.more()) {
		switch (s.weighted({6, 4, 2})) {
		case 0: {
			size_t sz = gen_size(s);
			u128 n = units(sz);
			bool fits = sz <= QUOTA_MAX && used + n <= total;
			ssize_t r = quota_use(&q, sz);
			TR("use %zu -> %zd", sz, r);
			if (fits) {
				CHECK(r == (ssize_t)(n * U), "use", "use(%zu) with %zu free: returned %zd, "
				      "expected %zu", sz, (size_t)((total - used) * U), r, (size_t)(n * U));
				used += n;
				chunks.push_back(sz);
				granted = true;
			} else {
				CHECK(r == -1, "use", "use(%zu) with only %zu free: returned %zd", sz,
				      (size_t)((total - used) * U), r);
				refused = true;
				if (used + n > UINT32_MAX && sz <= QUOTA_MAX)
					COUNT("request beyond 32 bit of units");
			}
			break;
		}
		case 1: {
			if (used == 0)
				break;
			size_t sz;
			if (!chunks.empty() && s.draw(2)) {
				size_t i = s.draw(chunks.size());
				sz = chunks[i];
				chunks[i] = chunks.back();
				chunks.pop_back();
				if (units(sz) > used)
					break;
			} else {
				sz = 1 + s.logsize((size_t)(used * U) - 1);
			}
			ssize_t r = quota_release(&q, sz);
			TR("release %zu -> %zd", sz, r);
			CHECK(r == (ssize_t)(units(sz) * U), "release", "release(%zu) returned %zd", sz, r);
			used -= units(sz);
			break;
		}
		default: {
			size_t sz = gen_total(s);
			ssize_t r = quota_set(&q, sz);
			TR("set %zu -> %zd", sz, r);
			if (units(sz) < used) {
				CHECK(r == -1, "set", "limit lowered to %zu below usage %zu: %zd", sz,
				      (size_t)(used * U), r);
				refused = true;
			} else {
				CHECK(r == (ssize_t)(units(sz) * U), "set", "set(%zu) with usage %zu "
				      "returned %zd", sz, (size_t)(used * U), r);
				total = units(sz);
			}
			break;
		}
		}
		check("step");
		if (total - used <= 2)
			near_limit = true;
	}
	if ((refused && granted) || (near_limit && granted))
		s.nontrivial();
	if (refused) COUNT("case with refusal");
	if (near_limit) COUNT("case reaching the limit");
}
#else

struct L {
	struct quota_lessor l;
	u128 leased = 0;
	u128 taken = 0;	/* bytes charged to the source by this lessor */
	bool alive = false;
};

void
run_case(Src &s)
{
	used = 0;
	size_t t;
	switch (s.weighted({4, 2, 1})) {
	case 0: t = (1 << 20) + s.draw(6 << 20); break;
	case 1: t = s.nearby(1 << 20, 256 << 20, {1 << 20, 2 << 20, 3 << 20, 4 << 20}); break;
	default: t = QUOTA_MAX - s.logsize(QUOTA_MAX - (1 << 20)); break;
	}
	quota_init(&q, t);
	total = units(t);
	TR("init %zu", t);
	std::vector<L> ls(1 + s.draw(3));
	u128 direct = 0;	/* units used directly */
	bool tight = false, failed = false, released = false;
	auto charge = [&](L &x, const char *when) {
		/* what this lessor holds: leased + available */
		u128 hold = (u128)quota_leased(&x.l) + quota_available(&x.l);
		CHECK(quota_leased(&x.l) == (size_t)x.leased, "leased", "%s: leased %zu expected %zu", when,
		      quota_leased(&x.l), (size_t)x.leased);
		CHECK(hold % U == 0, "granularity", "%s: lessor holds %zu bytes, not whole units", when,
		      (size_t)hold);
		CHECK(hold >= x.leased, "cover", "%s: holds %zu leased %zu", when, (size_t)hold,
		      (size_t)x.leased);
		x.taken = hold;
	};
	auto verify = [&](const char *when) {
		u128 sum = direct * U;
		for (auto &x : ls) {
			if (!x.alive)
				continue;
			charge(x, when);
			sum += x.taken;
		}
		CHECK(sum == quota_used(&q), "source", "%s: source quota charged %zu, lessors and direct "
		      "users hold %zu", when, quota_used(&q), (size_t)sum);
		used = sum / U;
		check(when);
		CHECK(used <= total, "overdrawn", "%s: used above the limit", when);
	};
	while (s.more()) {
		L &x = ls[s.draw(ls.size())];
		if (!x.alive) {
			if (quota_total(&q) < (1 << 20))
				quota_set(&q, 1 << 20), total = units(1 << 20);
			quota_lessor_create(&x.l, &q);
			TR("create");
			x.alive = true;
			x.leased = 0;
			verify("create");
		}
		u128 left = (total - used) * U, avail = quota_available(&x.l);
		switch (s.weighted({8, 5, 1, 2, 2, 2})) {
		case 0: {
			size_t sz;
			switch (s.weighted({3, 3, 3, 1})) {
			case 0: sz = s.logsize(8 << 20); break;
			case 1: sz = s.draw(3 << 20); break;
			case 2: {
				/* around what can be had */
				u128 v = left + avail + s.draw(64);
				sz = v > 40 ? (size_t)v - 40 : 1;
				if (s.draw(2))
					sz = 1 + s.draw(sz);
				break;
			}
			default: sz = (size_t)avail + s.draw(2048); break;
			}
			if (sz > (size_t)(SIZE_MAX / 2) / 4)
				sz = (SIZE_MAX / 2) / 4;
			u128 miss = sz > avail ? sz - avail : 0;
			bool fits = units(miss) <= total - used;
			ssize_t r = quota_lease(&x.l, sz);
			TR("lease %zu -> %zd", sz, r);
			if (r >= 0) {
				CHECK((size_t)r == sz, "lease", "lease(%zu) returned %zd", sz, r);
				CHECK(fits, "lease", "lease(%zu) granted with %zu available and %zu in the "
				      "source", sz, (size_t)avail, (size_t)left);
				x.leased += sz;
				if (miss && (left < (1 << 20) || left < 2 * miss))
					tight = true;
			} else {
				CHECK(r == -1, "lease", "lease returned %zd", r);
				CHECK(!fits, "lease-refused", "lease(%zu) refused although %zu bytes are missing and "
				      "the source has %zu", sz, (size_t)miss, (size_t)left);
				CHECK(quota_available(&x.l) == avail, "failed-lease", "failed lease changed the lessor");
				failed = true;
			}
			break;
		}
		case 1: {
			if (x.leased == 0)
				break;
			size_t sz = s.draw(3) ? s.logsize((size_t)x.leased) : (size_t)x.leased;
			u128 before = x.taken;
			ssize_t r = quota_end_lease(&x.l, sz);
			TR("end_lease %zu -> %zd", sz, r);
			CHECK((size_t)r == sz, "end-lease", "end_lease(%zu) returned %zd", sz, r);
			x.leased -= sz;
			CHECK(quota_available(&x.l) < 2 << 20, "hoard", "lessor keeps %zu unleased "
			      "bytes", quota_available(&x.l));
			charge(x, "end_lease");
			if (x.taken < before)
				released = true;
			break;
		}
		case 2: {
			quota_lessor_destroy(&x.l);
			TR("destroy");
			CHECK(quota_leased(&x.l) == 0 && quota_available(&x.l) == 0, "destroy",
			      "destroyed lessor still holds bytes");
			x.alive = false;
			x.taken = 0;
			break;
		}
		case 3: {
			size_t sz = s.draw(2) ? 1 + s.logsize(4 << 20) :
				left > 0 ? (size_t)left - s.draw(left < (2 << 20) ? left : (2 << 20)) : 1;
			ssize_t r = sz ? quota_use(&q, sz) : -1;
			TR("direct use %zu -> %zd", sz, r);
			if (r > 0)
				direct += units(sz);
			break;
		}
		case 4: {
			if (direct == 0)
				break;
			size_t sz = s.draw(2) ? (size_t)(direct * U) : 1 + s.logsize((size_t)(direct * U) - 1);
			quota_release(&q, sz);
			TR("direct release %zu", sz);
			direct -= units(sz);
			break;
		}
		default: {
			size_t sz = s.draw(2) ? (size_t)(used * U) + s.logsize(4 << 20) : (1 << 20) + s.draw(8 << 20);
			if (sz > QUOTA_MAX)
				sz = QUOTA_MAX;
			ssize_t r = quota_set(&q, sz);
			TR("set %zu -> %zd", sz, r);
			if (r >= 0)
				total = units(sz);
			break;
		}
		}
		verify("step");
	}
	for (auto &x : ls) {
		if (x.alive)
			quota_lessor_destroy(&x.l);
		x.alive = false;
	}
	verify("end");
	CHECK(quota_used(&q) == (size_t)(direct * U), "leak", "destroying lessors left %zu charged",
	      quota_used(&q));
	if (tight || failed || released)
		s.nontrivial();
	if (tight) COUNT("case with a lease served from a nearly used up source");
	if (failed) COUNT("case with refused lease");
	if (released) COUNT("case with release to the source");
}
#endif
