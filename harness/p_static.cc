/* C25: the per-thread static buffer. */
#include "pbt.h"
#include "blocks.h"
#include <pthread.h>
#include <semaphore.h>
#include "static.h"

const char *case_rule = "a case is 1-3 threads taking turns in a sequence of static_alloc/reserve/aligned variants/reset of "
	"sizes within and beyond the buffer; non-trivial: a buffer was recycled at least twice with several allocations "
	"surviving, an aligned allocation was padded, and two threads used their buffers";
unsigned case_max_ops = 300;

enum : size_t { SIZE = SMALL_STATIC_SIZE };

struct A {
	char *p;
	size_t size;
	uint64_t tag;
	uint64_t start;		/* in the endless stream of consumed bytes */
};
enum Op { ALLOC, RESERVE, ALIGNED_ALLOC, ALIGNED_RESERVE, RESET, QUIT, ADDR };
struct T {
	pthread_t th;
	sem_t go, done;
	Op op;
	size_t size, align;
	void *res;
	/* model */
	char *buf = nullptr;
	std::vector<A> as;
	uint64_t stream = 0;	/* consumed */
	size_t pos = 0;
	size_t reserved = 0;
	char *rptr = nullptr;
	size_t ralign = 1;
	unsigned wraps = 0;
	bool used = false;
};
static std::vector<T> ts;
static uint64_t next_tag;
static bool padded, survived;

static void *
thread_f(void *arg)
{
	T *t = (T *)arg;
	for (;;) {
		sem_wait(&t->go);
		switch (t->op) {
		case ALLOC: t->res = static_alloc(t->size); break;
		case RESERVE: t->res = static_reserve(t->size); break;
		case ALIGNED_ALLOC: t->res = static_aligned_alloc(t->size, t->align); break;
		case ALIGNED_RESERVE: t->res = static_aligned_reserve(t->size, t->align); break;
		case RESET: static_reset(); t->res = nullptr; break;
		case ADDR: t->res = static_storage_buffer; break;
		case QUIT: sem_post(&t->done); return nullptr;
		}
		sem_post(&t->done);
	}
}

static char *
call(T &t, Op op, size_t size = 0, size_t align = 1)
{
	t.op = op;
	t.size = size;
	t.align = align;
	sem_post(&t.go);
	while (sem_wait(&t.done) != 0)
		;
	return (char *)t.res;
}

static void
check_live(T &t, const char *when)
{
	for (auto &a : t.as)
		for (size_t i = 0; i < a.size; i += (a.size > 256 ? 37 : 1))
			CHECK((unsigned char)a.p[i] == pat(a.tag, i), "content", "%s: byte %zu of allocation %p+%zu, after which "
			      "%llu bytes were consumed, changed", when, i, a.p, a.size,
			      (unsigned long long)(t.stream - a.start - a.size));
}

/* The position moved to p (from t.pos) by a request of size with padding. */
static void
advance(T &t, char *p, size_t size, size_t align, const char *what, bool commit)
{
	CHECK(p >= t.buf && p + size <= t.buf + SIZE, "outside", "%s: got %p+%zu, the buffer is %p", what, p, size, t.buf);
	CHECK((uintptr_t)p % align == 0, "align", "%s(%zu): %p is not aligned to %zu", what, size, p, align);
	size_t off = p - t.buf;
	/* an aligned address may look as if the buffer was not recycled */
	bool recycled = off < t.pos || (t.pos + size + align - 1 > SIZE && off < align && align > 1);
	if (!recycled) {
		CHECK(off - t.pos < align, "skipped", "%s(%zu, align %zu) skipped %zu bytes", what, size, align, off - t.pos);
		if (off > t.pos)
			padded = true;
		t.stream += off - t.pos;
	} else {
		CHECK(t.pos + size + align - 1 > SIZE, "recycled", "%s(%zu, align %zu) recycled the buffer with %zu bytes free",
		      what, size, align, SIZE - t.pos);
		CHECK(off < align, "skipped", "%s(%zu, align %zu) after recycling is at %zu", what, size, align, off);
		t.stream += SIZE - t.pos + off;
		t.wraps++;
	}
	t.pos = off;
	if (commit) {
		t.pos += size;
		t.stream += size;
	}
	/* what may be overwritten now */
	size_t k = 0, n = t.as.size();
	uint64_t end = t.stream + (commit ? 0 : size);
	while (k < t.as.size() && end - t.as[k].start > SIZE)
		k++;
	if (k && n - k >= 2)
		survived = true;
	t.as.erase(t.as.begin(), t.as.begin() + k);
	for (auto &a : t.as)
		CHECK(p + size <= a.p || a.p + a.size <= p, "overlap", "%s: %p+%zu overlaps %p+%zu, after which only %llu bytes "
		      "were consumed", what, p, size, a.p, a.size, (unsigned long long)(end - a.start - a.size));
}

static void
refused(T &t, size_t size, size_t align, const char *what)
{
	CHECK(size > SIZE || size + align - 1 > SIZE, "refused", "%s(%zu, align %zu) failed", what, size, align);
	COUNT("refused");
	/* nothing changed: the next allocation continues at the same place */
	char *p = call(t, ALLOC, 1);
	if (t.pos < SIZE)
		CHECK(p == t.buf + t.pos, "changed", "after a failed %s(%zu) the position moved from %zu to %zd", what, size,
		      t.pos, p - t.buf);
	advance(t, p, 1, 1, "static_alloc", true);
}

void
run_case(Src &s)
{
	next_tag = 1;
	padded = survived = false;
	unsigned n = 1 + s.draw(3);
	ts.clear();
	ts.resize(n);
	for (auto &t : ts) {
		sem_init(&t.go, 0, 0);
		sem_init(&t.done, 0, 0);
		if (pthread_create(&t.th, NULL, thread_f, &t) != 0)
			FAIL("harness", "pthread_create");
	}
	for (auto &t : ts) {
		t.buf = call(t, ADDR);
		for (auto &u : ts)
			if (&u != &t && u.buf)
				CHECK(t.buf + SIZE <= u.buf || u.buf + SIZE <= t.buf, "shared", "two threads share the buffer");
	}
	auto size = [&](T &t) -> size_t {
		size_t left = SIZE - t.pos;
		switch (s.weighted({6, 3, 2, 1, 1})) {
		case 0: return s.logsize(2000);
		case 1: return s.nearby(0, SIZE, {left, left + 1, left - (left > 0)});
		case 2: return s.nearby(0, SIZE + 100, {SIZE, SIZE + 1, SIZE / 2});
		case 3: return SIZE + 1 + s.logsize(1 << 20);
		default: return SIZE_MAX - s.logsize(100000);
		}
	};
	while (s.more()) {
		T &t = ts[s.draw(n)];
		int id = &t - &ts[0];
		size_t res = t.reserved;
		t.reserved = 0;
		t.used = true;
		switch (s.weighted({8, 4, 4, 4, 5, 1})) {
		case 0: {
			size_t sz = size(t);
			TR("thread %d: static_alloc(%zu) at %zu", id, sz, t.pos);
			char *p = call(t, ALLOC, sz);
			if (p == NULL) {
				refused(t, sz, 1, "static_alloc");
				break;
			}
			CHECK(sz <= SIZE, "huge", "static_alloc(%zu) returned %p", sz, p);
			advance(t, p, sz, 1, "static_alloc", true);
			t.as.push_back(A{p, sz, next_tag++, t.stream - sz});
			break;
		}
		case 1: {
			size_t sz = size(t);
			TR("thread %d: static_reserve(%zu) at %zu", id, sz, t.pos);
			char *p = call(t, RESERVE, sz);
			if (p == NULL) {
				refused(t, sz, 1, "static_reserve");
				break;
			}
			CHECK(sz <= SIZE, "huge", "static_reserve(%zu) returned %p", sz, p);
			advance(t, p, sz, 1, "static_reserve", false);
			t.reserved = sz;
			t.rptr = p;
			t.ralign = 1;
			break;
		}
		case 2:
		case 3: {
			size_t sz = size(t), al = (size_t)1 << s.draw(s.chance(1, 8) ? 14 : 7);
			bool alloc = s.draw(2);
			const char *what = alloc ? "static_aligned_alloc" : "static_aligned_reserve";
			TR("thread %d: %s(%zu, %zu) at %zu", id, what, sz, al, t.pos);
			char *p = call(t, alloc ? ALIGNED_ALLOC : ALIGNED_RESERVE, sz, al);
			if (p == NULL) {
				refused(t, sz, al, what);
				break;
			}
			CHECK(sz <= SIZE, "huge", "%s(%zu) returned %p", what, sz, p);
			if (alloc) {
				advance(t, p, sz, al, what, true);
				t.as.push_back(A{p, sz, next_tag++, t.stream - sz});
			} else {
				/* the padding is not consumed by a reservation; an
				 * empty allocation tells the position */
				size_t pos = t.pos;
				uint64_t st = t.stream;
				advance(t, p, sz, al, what, false);
				char *q = call(t, ALLOC, 0);
				if (q == t.buf + pos) {
					t.pos = pos;
					t.stream = st;
				} else {
					CHECK(q == t.buf, "position", "after %s(%zu, align %zu) at %zu the position is %zd", what, sz,
					      al, pos, q - t.buf);
					t.stream = st + SIZE - pos;
					t.pos = 0;
				}
				t.reserved = sz;
				t.rptr = p;
				t.ralign = al;
			}
			break;
		}
		case 4: { /* use the reservation */
			if (!res)
				break;
			size_t sz = s.nearby(0, res, {res});
			TR("thread %d: use %zu of %zu reserved", id, sz, res);
			/* an aligned reservation is used by an aligned allocation */
			char *p = t.ralign > 1 ? call(t, ALIGNED_ALLOC, sz, t.ralign) : call(t, ALLOC, sz);
			CHECK(p == t.rptr, "reserve", "allocation of %zu of %zu reserved at %p returned %p", sz, res, t.rptr, p);
			advance(t, p, sz, t.ralign, "use of a reservation", true);
			t.as.push_back(A{p, sz, next_tag++, t.stream - sz});
			break;
		}
		case 5:
			TR("thread %d: static_reset", id);
			call(t, RESET);
			/* everything may be overwritten from now on */
			t.as.clear();
			t.stream += 2 * SIZE;
			t.pos = 0;
			break;
		}
		if (!t.as.empty() && t.as.back().tag == next_tag - 1) {
			A &a = t.as.back();
			for (size_t i = 0; i < a.size; i++)
				a.p[i] = (char)pat(a.tag, i);
		}
		for (auto &u : ts)
			check_live(u, "after an operation");
	}
	unsigned used = 0, wraps = 0;
	for (auto &t : ts) {
		used += t.used;
		wraps = std::max(wraps, t.wraps);
		call(t, QUIT);
		pthread_join(t.th, NULL);
		sem_destroy(&t.go);
		sem_destroy(&t.done);
	}
	if (used >= 2 && wraps >= 2 && padded && survived)
		s.nontrivial();
	ts.clear();
}
