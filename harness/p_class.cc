/* C11: size classes, against a table of classes built by their definition. */
#include "pbt.h"
#include <math.h>
#include "small_class.h"

const char *case_rule = "a case is a granularity, minimal size and factor, and 60-3000 sizes in which class boundaries "
	"and their neighbours prevail; non-trivial: boundaries of both linear and exponential classes were checked "
	"over at least 3 doublings";
unsigned case_max_ops = 300;

static std::vector<uint64_t> table;	/* size of each class */

static void
check_size(struct small_class *sc, uint64_t size)
{
	if (size > table.back())
		return;
	unsigned want = std::lower_bound(table.begin(), table.end(), size) - table.begin();
	unsigned got = small_class_calc_offset_by_size(sc, size);
	CHECK(got == want, "class", "size %llu has class %u, the smallest sufficient class is %u (of size %llu)",
	      (unsigned long long)size, got, want, (unsigned long long)table[want]);
}

void
run_case(Src &s)
{
	unsigned g = 1u << s.draw(13);
	unsigned min_alloc;
	switch (s.draw(4)) {
	case 0: min_alloc = g; break;
	case 1: min_alloc = g * (1 + s.draw(64)); break;
	case 2: min_alloc = g + s.draw(300); break;
	default: min_alloc = g + s.logsize(1 << 20); break;
	}
	/* factors in (1, 2] */
	float f;
	switch (s.draw(5)) {
	case 0: f = s.pick({1.1f, 1.05f, 1.3f, 1.5f, 2.0f, 1.01f}); break;
	case 1: f = 1.0f + (1 + s.draw(1000)) / 1000.0f; break;
	case 2: f = 1.0f + (1 + s.draw(10000)) / 1e6f; break;
	case 3: { /* about the thresholds of the number of bits */
		unsigned b = s.draw(15);
		double t = pow(2, 1 / pow(2, b + .5));
		f = t + (s.range(0, 8) - 4.0) * 1.2e-7 * 16;
		break;
	}
	default: f = nextafterf(2.0f, 0.0f); break;
	}
	if (!(f > 1.0f))
		f = nextafterf(1.0f, 2.0f) + 1e-5f;
	if (f > 2.0f)
		f = 2.0f;
	struct small_class sc;
	memset(&sc, 0xA5, sizeof(sc));
	float actual = -1;
	small_class_create(&sc, g, f, min_alloc, &actual);
	TR("granularity %u min %u factor %.9g: actual %.9g", g, min_alloc, (double)f, (double)actual);
	CHECK(actual > 1.0f && actual <= 2.0f, "factor", "actual factor %g", (double)actual);
	double k = sqrt((double)f) * (1 + 4e-7);
	CHECK(actual >= f / k && actual <= f * k, "factor", "actual factor %.9g is not within a square root of the "
	      "factor %.9g of it", (double)actual, (double)f);
	CHECK(sc.actual_factor == actual, "factor", "reported factor %g, stored %g", (double)actual, (double)sc.actual_factor);
	/* 2^bits classes per doubling */
	double bits = -log2(log2((double)actual));
	unsigned eb = (unsigned)lrint(bits);
	if (eb <= 16)
		CHECK(fabs(bits - eb) < 0.1, "factor", "actual factor %.9g is not a root of two of a power of two degree",
		      (double)actual);
	else
		eb = sc.effective_bits;
	uint64_t eff = 1ULL << eb, limit = 0xffffffffULL;
	table.clear();
	uint64_t size = min_alloc - g, step = g;
	/* 2^eb linear steps, then steps double after each 2^eb classes */
	for (uint64_t i = 0;; i++) {
		if (i >= 2 * eff && i % eff == 0)
			step *= 2;
		if (size + step > limit || table.size() > 70000)
			break;
		size += step;
		table.push_back(size);
	}
	size_t n = table.size();
	CHECK(n > 0 && table[0] == min_alloc, "harness", "table");
	unsigned doublings = n / eff;
	if (doublings >= 4)
		s.nontrivial();
	auto check_class = [&](size_t c) {
		unsigned sz = small_class_calc_size_by_offset(&sc, c);
		CHECK(sz == table[c], "size", "class %zu has size %u, should be %llu", c, sz, (unsigned long long)table[c]);
		if (min_alloc % g == 0)
			CHECK(sz % g == 0, "granularity", "class %zu has size %u, granularity %u", c, sz, g);
		check_size(&sc, table[c]);
		check_size(&sc, table[c] - 1);
		check_size(&sc, table[c] + 1);
	};
	check_size(&sc, 0);
	check_size(&sc, 1);
	for (size_t c = 0; c < std::min<size_t>(n, 64); c++)
		check_class(c);
	check_class(n - 1);
	while (s.more()) {
		switch (s.draw(3)) {
		case 0: check_class(s.draw(n)); break;
		case 1: { /* about a doubling */
			size_t c = s.draw(doublings + 1) * eff + s.draw(3);
			if (c < n)
				check_class(c);
			if (c > 2 && c - 2 < n)
				check_class(c - 2);
			break;
		}
		default:
			check_size(&sc, s.draw(2) ? s.draw(table.back() + 1) : s.logsize(table.back()));
		}
	}
}
