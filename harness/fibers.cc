#include "fibers.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <stdint.h>

enum { STACK = 256 << 10, MAXT = 8, MAX_STEPS = 200000 };

struct Fiber {
	ucontext_t ctx;
	std::function<void()> fn;
	char *stack;
	bool done;
};

static Fiber fibers[MAXT];
static char stacks[MAXT][STACK] __attribute__((aligned(4096)));
static int nfibers, cur = -1;
static ucontext_t main_ctx;
static Src *src;
static uint64_t run_left;	/* accesses before the next switch; 0 = none */
static uint64_t clock_;
static bool no_yield;
std::function<void()> sched_on_step;
unsigned sched_weak_fail_p;
uint64_t sched_switches, sched_steps;

int sched_self() { return cur; }
uint64_t sched_clock() { return ++clock_; }

static void
new_quantum()
{
	/* 0: run to the end; otherwise 1.. accesses. */
	static const uint64_t q[] = {0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20};
	run_left = q[src->draw(16)];
}

/* Choose the next fiber among those not finished. */
static int
choose()
{
	int alive[MAXT], n = 0;
	for (int i = 0; i < nfibers; i++) {
		if (!fibers[i].done)
			alive[n++] = i;
	}
	if (n == 0)
		return -1;
	int f = alive[src->draw(n)];
	new_quantum();
	return f;
}

static void
switch_to(int f)
{
	int old = cur;
	if (f == old)
		return;
	cur = f;
	if (old >= 0 && f >= 0) {
		sched_switches++;
		TR("    -> thread %d (step %llu)", f, (unsigned long long)clock_);
	}
	swapcontext(old < 0 ? &main_ctx : &fibers[old].ctx,
		    f < 0 ? &main_ctx : &fibers[f].ctx);
}

static void
entry(int i)
{
	fibers[i].fn();
	fibers[i].done = true;
	int f = choose();
	cur = f;
	setcontext(f < 0 ? &main_ctx : &fibers[f].ctx);
}

void
sched_run(Src &s, std::vector<std::function<void()>> threads)
{
	src = &s;
	nfibers = threads.size();
	clock_ = 0;
	sched_switches = 0;
	for (int i = 0; i < nfibers; i++) {
		Fiber &f = fibers[i];
		if (!f.stack)
			f.stack = stacks[i];
		f.fn = threads[i];
		f.done = false;
		getcontext(&f.ctx);
		f.ctx.uc_stack.ss_sp = f.stack;
		f.ctx.uc_stack.ss_size = STACK;
		f.ctx.uc_link = NULL;
		makecontext(&f.ctx, (void (*)())entry, 1, i);
	}
	int f = choose();
	switch_to(f);
	cur = -1;
	sched_steps += clock_;
}

static inline bool
on_stack(const void *p)
{
	return cur >= 0 && (char *)p >= fibers[cur].stack &&
		(char *)p < fibers[cur].stack + STACK;
}

/* Called before each shared access. */
static inline void
step(const void *p)
{
	if (cur < 0 || no_yield || on_stack(p))
		return;
	clock_++;
	if (clock_ > MAX_STEPS)
		FAIL("livelock", "threads make no progress: more than %d memory accesses",
		     (int)MAX_STEPS);
	if (sched_on_step) {
		no_yield = true;
		sched_on_step();
		no_yield = false;
	}
	if (run_left && --run_left == 0) {
		int f = choose();
		if (f >= 0)
			switch_to(f);
	}
}

static inline bool
spurious(const void *p)
{
	return cur >= 0 && !no_yield && !on_stack(p) && sched_weak_fail_p &&
		src->chance(sched_weak_fail_p, 256);
}

extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
void __tsan_read##n(void *a) { step(a); } \
void __tsan_write##n(void *a) { step(a); } \
void __tsan_unaligned_read##n(void *a) { step(a); } \
void __tsan_unaligned_write##n(void *a) { step(a); } \
void __tsan_volatile_read##n(void *a) { step(a); } \
void __tsan_volatile_write##n(void *a) { step(a); } \
void __tsan_unaligned_volatile_read##n(void *a) { step(a); } \
void __tsan_unaligned_volatile_write##n(void *a) { step(a); } \
void __tsan_read_write##n(void *a) { step(a); step(a); } \
void __tsan_unaligned_read_write##n(void *a) { step(a); step(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void *a, void *) { step(a); }
void __tsan_read_range(void *a, unsigned long) { step(a); }
void __tsan_write_range(void *a, unsigned long) { step(a); }
void __tsan_vptr_update(void **a, void *) { step(a); }
void __tsan_vptr_read(void **a) { step(a); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { step(d); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { step(d); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { step(d); return memmove(d, s, n); }

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { step((void *)a); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { step((void *)a); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { step((void *)a); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T d, int, int) \
{ step((void *)a); if (*a == *e) { *a = d; return 1; } *e = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T d, int, int) \
{ step((void *)a); if (*a == *e && !spurious((void *)a)) { *a = d; return 1; } *e = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T d, int, int) \
{ step((void *)a); T o = *a; if (o == e) *a = d; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
} /* extern "C" */
