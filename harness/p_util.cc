/* C30: size arithmetic and feature queries. */
#include <unistd.h>
#include <sys/wait.h>
#include <errno.h>
#include <string.h>
#include <assert.h>
#include <limits.h>
#include "pbt.h"
#include "sysmem.h"
extern "C" {
#include "util.h"
}
#include "small_features.h"
#include <unistd.h>

const char *case_rule = "a case is up to 400 evaluations of rounding, logarithm, alignment and feature queries on sizes of "
	"all magnitudes, in which powers of two and their neighbours prevail; non-trivial: inputs above 2^32 and next to a "
	"power of two were among them";
unsigned case_max_ops = 400;

static uint64_t
value(Src &s, uint64_t max)
{
	uint64_t v;
	switch (s.draw(4)) {
	case 0: v = s.draw(70); break;
	case 1: v = (1ULL << s.draw(64)) + s.draw(5) - 2; break;
	case 2: v = s.logsize(~0ULL); break;
	default: v = max - s.draw(1000); break;
	}
	if (v > (1ULL << 32) && ((v & (v - 1)) == 0 || (v & (v + 1)) == 0))
		s.nontrivial();
	return v > max ? max : v;
}

void
run_case(Src &s)
{
	sm.reset();
	typedef unsigned __int128 u128;
	while (s.more()) {
		switch (s.weighted({4, 4, 4, 4, 1, 1})) {
		case 0: {
			uint64_t v = value(s, (uint64_t)1 << 63);
			uint64_t r = small_round(v);
			u128 want = v == 0 ? 0 : 1;
			while (want < v)
				want *= 2;
			CHECK(r == want, "round", "small_round(%#llx) is %#llx", (unsigned long long)v, (unsigned long long)r);
			break;
		}
		case 1: {
			uint64_t v = value(s, ~0ULL);
			if (v == 0)
				v = 1;
			uint64_t l = small_lb(v);
			CHECK(l < 64 && ((u128)1 << l) <= v && ((u128)2 << l) > v, "lb", "small_lb(%#llx) is %llu",
			      (unsigned long long)v, (unsigned long long)l);
			break;
		}
		case 2: {
			uint64_t a = 1ULL << s.draw(63);
			if (s.draw(3) == 0)
				a = 1ULL << s.draw(14);
			uint64_t v = value(s, SIZE_MAX - a);
			uint64_t r = small_align(v, a);
			u128 want = ((u128)v + a - 1) / a * a;
			CHECK(r == want, "align", "small_align(%#llx, %#llx) is %#llx", (unsigned long long)v,
			      (unsigned long long)a, (unsigned long long)r);
			break;
		}
		case 3: {
			uint64_t a = 1ULL << s.draw(64);
			uint64_t v = value(s, ~0ULL);
			uint64_t r = small_align_down(v, a);
			CHECK(r == v / a * a, "align-down", "small_align_down(%#llx, %#llx) is %#llx", (unsigned long long)v,
			      (unsigned long long)a, (unsigned long long)r);
			break;
		}
		case 4: {
			long p = small_getpagesize();
			CHECK(p == sysconf(_SC_PAGESIZE), "page", "small_getpagesize() is %ld", p);
			break;
		}
		case 5: {
			unsigned f = s.draw(2) ? 0 : s.draw(2) ? (unsigned)s.draw(200) : (unsigned)value(s, 0xffffffff);
#ifdef NOMADVISE
			const bool built = false;
#else
			const bool built = true;
#endif
			/* the system may be short of memory, or not know the advice */
			sm.mmap_p = s.draw(4) ? 0 : 128;
			sm.madvise_p = s.draw(4) ? 0 : 128;
			uint64_t nf = sm.n_mmap_failed, na = sm.n_madvise_failed;
			bool r = small_test_feature(f);
			sm.mmap_p = sm.madvise_p = 0;
			bool ok = sm.n_mmap_failed == nf && sm.n_madvise_failed == na;
			TR("feature %u: %d%s", f, r, ok ? "" : " (a system call failed)");
			/* the only feature there is, on a system which supports it */
			bool want = f == SMALL_FEATURE_DONTDUMP && built && ok;
			CHECK(r == want, "feature", "small_test_feature(%u) is %d", f, r);
			sm.audit_empty("leak", "after a feature test");
			break;
		}
		}
	}
	/* xmalloc */
	size_t n = 1 + s.logsize(100000);
	void *p = small_xmalloc(n);
	CHECK(sm.owned(p, n), "xmalloc", "small_xmalloc(%zu)", n);
	memset(p, 1, n);
	free(p);
	if (s.chance(1, 100)) {
		/* out of memory it says so and exits */
		int fd[2];
		SmPause pause;
		if (pipe(fd) == 0) {
			pid_t pid = fork();
			if (pid == 0) {
				dup2(fd[1], 2);
				sm.active = true;
				sm.malloc_p = 256;
				void *volatile q = small_xmalloc(n);
				_exit(q ? 77 : 78);
			}
			close(fd[1]);
			char buf[4096];
			ssize_t len = read(fd[0], buf, sizeof(buf) - 1);
			buf[len > 0 ? len : 0] = 0;
			while (read(fd[0], buf + 2048, 1024) > 0)
				;
			close(fd[0]);
			int st = 0;
			while (pid > 0 && waitpid(pid, &st, 0) < 0 && errno == EINTR)
				;
			char want[32];
			snprintf(want, sizeof(want), "%zu", n);
			CHECK(pid < 0 || (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE), "xmalloc", "small_xmalloc(%zu) "
			      "without memory: the process ends with status %#x", n, st);
			CHECK(pid < 0 || strstr(buf, want), "xmalloc", "small_xmalloc(%zu) without memory says \"%s\"", n, buf);
			COUNT("xmalloc without memory");
		}
	}
}
