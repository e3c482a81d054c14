#include "sysmem.h"
#include <sys/mman.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <vector>
#include <algorithm>

SysMem sm;

/* All mappings of the code under test live in this window, so addresses (and
 * anything that depends on their order) are a function of the choices. */
static const uintptr_t WIN_BASE = 0x200000000000ULL;
static const size_t WIN_SIZE = 1ULL << 40;
static uintptr_t up_pos, down_pos, twin_of;
static size_t twin_len;

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_memalign(size_t, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
}

void
SysMem::reset()
{
	active = false;
	/* Leftovers of an earlier case (there should be none). */
	for (auto &m : maps)
		__real_munmap((void *)m.first, m.second);
	heap.clear();
	maps.clear();
	advised.clear();
	heap_bytes = map_bytes = map_peak = 0;
	n_malloc = n_free = n_mmap = n_munmap = n_madvise = 0;
	n_malloc_failed = n_mmap_failed = n_unaligned = 0;
	malloc_p = mmap_p = madvise_p = 0;
	n_madvise_failed = 0;
	malloc_nth = mmap_nth = -1;
	place = PLACE_ALIGNED_UP;
	unaligned_p = 0;
	tight = false;
	far_lb = 0;
	heap_limit = 64ULL << 30;
	absurd = 1ULL << 33;
	map_limit = 6ULL << 30;
	faulted = false;
	up_pos = WIN_BASE;
	twin_of = 0;
	down_pos = WIN_BASE + WIN_SIZE;
	active = true;
}

void
SysMem::audit_empty(const char *sig, const char *when)
{
	if (!heap.empty())
		FAIL(sig, "%s: %zu heap blocks (%zu bytes) leaked, e.g. of %zu bytes",
		     when, heap.size(), heap_bytes, heap.begin()->second);
	if (!maps.empty())
		FAIL(sig, "%s: %zu mappings (%zu bytes) leaked, e.g. %#zx+%zu",
		     when, maps.size(), map_bytes, (size_t)maps.begin()->first,
		     maps.begin()->second);
}

bool
SysMem::in_live_map(const void *p, size_t size) const
{
	uintptr_t a = (uintptr_t)p, e = a + size;
	auto it = maps.upper_bound(a);
	if (it == maps.begin())
		return false;
	--it;
	while (a < e) {
		if (it == maps.end() || it->first > a ||
		    it->first + it->second <= a)
			return false;
		a = it->first + it->second;
		++it;
	}
	return true;
}

bool
SysMem::in_live_heap(const void *p, size_t size) const
{
	uintptr_t a = (uintptr_t)p;
	auto it = heap.upper_bound(a);
	if (it == heap.begin())
		return false;
	--it;
	return a >= it->first && a + size <= it->first + it->second;
}

static bool
inject(unsigned p, int64_t &nth)
{
	if (nth >= 0) {
		if (nth-- == 0) {
			sm.faulted = true;
			return true;
		}
	}
	if (p && cur_src && cur_src->chance(p, 256)) {
		sm.faulted = true;
		return true;
	}
	return false;
}

static void
heap_add(void *p, size_t size)
{
	if (!sm.active || p == NULL)
		return;
	sm.active = false;
	sm.heap[(uintptr_t)p] = size;
	sm.heap_bytes += size;
	sm.n_malloc++;
	sm.active = true;
	if (sm.heap_bytes > sm.heap_limit)
		FAIL("runaway", "code under test holds %zu bytes of heap",
		     sm.heap_bytes);
}

static void
heap_del(void *p)
{
	if (!sm.active || p == NULL)
		return;
	auto it = sm.heap.find((uintptr_t)p);
	if (it == sm.heap.end())
		FAIL("bad-free", "free() of %p which is not a live heap block", p);
	sm.heap_bytes -= it->second;
	sm.active = false;
	sm.heap.erase(it);
	sm.n_free++;
	sm.active = true;
}

/* The machine itself is short of memory. */
static void
really_failed(void *p)
{
	if (sm.active && p == NULL) {
		sm.faulted = true;
		sm.n_malloc_failed++;
	}
}

static bool
malloc_fault(size_t size)
{
	if (!sm.active)
		return false;
	/* Absurd sizes fail as they do in reality. */
	bool absurd = size > sm.absurd;
	if (absurd)
		sm.faulted = true;
	if (absurd || inject(sm.malloc_p, sm.malloc_nth)) {
		sm.n_malloc_failed++;
		errno = ENOMEM;
		return true;
	}
	return false;
}

extern "C" {

void *
__wrap_malloc(size_t size)
{
	if (malloc_fault(size))
		return NULL;
	void *p = __real_malloc(size);
	really_failed(p);
	heap_add(p, size);
	return p;
}

void *
__wrap_calloc(size_t n, size_t size)
{
	if (malloc_fault(n * size))
		return NULL;
	void *p = __real_calloc(n, size);
	really_failed(p);
	heap_add(p, n * size);
	return p;
}

void *
__wrap_realloc(void *old, size_t size)
{
	if (malloc_fault(size))
		return NULL;
	heap_del(old);
	void *p = __real_realloc(old, size);
	heap_add(p, size);
	return p;
}

void
__wrap_free(void *p)
{
	heap_del(p);
	__real_free(p);
}

int
__wrap_posix_memalign(void **out, size_t align, size_t size)
{
	if (malloc_fault(size))
		return ENOMEM;
	int rc = __real_posix_memalign(out, align, size);
	really_failed(rc == 0 ? *out : NULL);
	if (rc == 0)
		heap_add(*out, size);
	return rc;
}

void *
__wrap_aligned_alloc(size_t align, size_t size)
{
	if (malloc_fault(size))
		return NULL;
	void *p = __real_aligned_alloc(align, size);
	really_failed(p);
	heap_add(p, size);
	return p;
}

void *
__wrap_memalign(size_t align, size_t size)
{
	if (malloc_fault(size))
		return NULL;
	void *p = __real_memalign(align, size);
	really_failed(p);
	heap_add(p, size);
	return p;
}

static size_t
pow2_at_least(size_t x)
{
	size_t r = 4096;
	while (r < x)
		r <<= 1;
	return r;
}

void *
__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
	if (!sm.active)
		return __real_mmap(addr, len, prot, flags, fd, off);
	if (len == 0) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	if (len > (1ULL << 36) || inject(sm.mmap_p, sm.mmap_nth)) {
		sm.n_mmap_failed++;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	size_t plen = (len + 4095) & ~(size_t)4095;
	size_t align = pow2_at_least(plen);
	bool down = sm.place == SysMem::PLACE_ALIGNED_DOWN;
	if (sm.place == SysMem::PLACE_CHOOSE && cur_src)
		down = cur_src->draw(2);
	size_t shift = 0;
	if (sm.unaligned_p && cur_src && cur_src->chance(sm.unaligned_p, 256)) {
		/* page aligned but not more, anywhere up to the alignment */
		size_t pages = align / 4096;
		shift = 4096 * (cur_src->draw(4) ? 1 + cur_src->draw(pages) :
				(cur_src->draw(2) ? pages - 1 : pages / 2));
		if (shift % align)
			sm.n_unaligned++;
	}
	/* a tight mapping may touch its neighbour */
	size_t gap = sm.tight ? 0 : 4096 * 2;
	uintptr_t a;
	if (!down) {
		/* a far mapping has the low bits of the previous one */
		size_t dist = sm.far_lb ? (size_t)1 << sm.far_lb : 0;
		if (dist && twin_of && plen == twin_len && !shift && ((twin_of | dist) & (align - 1)) == 0) {
			a = twin_of + dist;
			twin_of = 0;
		} else {
			a = (up_pos + align - 1) & ~(align - 1);
			a += shift;
			if (dist && a < WIN_BASE + 2 * dist && a + plen > WIN_BASE + dist)
				a = ((WIN_BASE + 2 * dist + align - 1) & ~(align - 1)) + shift;
			up_pos = a + plen + gap;
			twin_of = a + plen <= WIN_BASE + dist ? a : 0;
			twin_len = plen;
		}
	} else {
		a = (down_pos - plen - shift - gap) & ~(align - 1);
		a += shift;
		down_pos = a - gap / 2;
	}
	void *p = __real_mmap((void *)a, len, prot, flags | MAP_FIXED, fd, off);
	if (p == MAP_FAILED) {
		sm.n_mmap_failed++;
		sm.faulted = true;
		return p;
	}
	sm.active = false;
	sm.maps[a] = plen;
	sm.map_bytes += plen;
	if (sm.map_bytes > sm.map_peak)
		sm.map_peak = sm.map_bytes;
	sm.n_mmap++;
	sm.last_mmap_flags = flags;
	sm.last_mmap_prot = prot;
	sm.active = true;
	if (sm.map_bytes > sm.map_limit)
		FAIL("runaway", "code under test maps %zu bytes", sm.map_bytes);
	return p;
}

int
__wrap_munmap(void *addr, size_t len)
{
	if (!sm.active)
		return __real_munmap(addr, len);
	uintptr_t a = (uintptr_t)addr;
	if (a & 4095)
		FAIL("bad-munmap", "munmap(%p, %zu): unaligned address", addr, len);
	if (len == 0)
		FAIL("bad-munmap", "munmap(%p, 0)", addr);
	size_t plen = (len + 4095) & ~(size_t)4095;
	if (!sm.in_live_map(addr, plen))
		FAIL("bad-munmap", "munmap(%p, %zu) of memory which is not mapped",
		     addr, len);
	sm.active = false;
	uintptr_t e = a + plen;
	auto it = --sm.maps.upper_bound(a);
	while (it != sm.maps.end() && it->first < e) {
		uintptr_t b = it->first, be = b + it->second;
		it = sm.maps.erase(it);
		if (b < a)
			sm.maps[b] = a - b;
		if (be > e)
			it = sm.maps.emplace(e, be - e).first;
	}
	for (auto i2 = sm.advised.begin(); i2 != sm.advised.end();) {
		uintptr_t b = i2->first, be = b + i2->second;
		if (be <= a || b >= e) {
			++i2;
			continue;
		}
		i2 = sm.advised.erase(i2);
		if (b < a)
			sm.advised[b] = a - b;
		if (be > e)
			sm.advised[e] = be - e;
	}
	sm.map_bytes -= plen;
	sm.n_munmap++;
	sm.active = true;
	return __real_munmap(addr, len);
}

int
__wrap_madvise(void *addr, size_t len, int advice)
{
	if (!sm.active)
		return __real_madvise(addr, len, advice);
	sm.n_madvise++;
	if (!sm.in_live_map(addr, len))
		FAIL("bad-madvise", "madvise(%p, %zu) of memory which is not mapped",
		     addr, len);
	if (advice == MADV_DONTDUMP) {
		sm.active = false;
		size_t &l = sm.advised[(uintptr_t)addr];
		l = std::max(l, (len + 4095) & ~(size_t)4095);
		sm.active = true;
	}
	if (sm.madvise_p && cur_src && cur_src->chance(sm.madvise_p, 256)) {
		sm.n_madvise_failed++;
		errno = EINVAL;
		return -1;
	}
	return __real_madvise(addr, len, advice);
}

/* Gigabytes which were never touched are copied without touching them: pages which
 * are not there read as zeros. (Only for fresh destinations it saves memory.) */
static void
sparse_copy(char *d, const char *src, size_t n)
{
	SmPause pause;
	const size_t PG = 4096;
	uintptr_t s0 = (uintptr_t)src & ~(PG - 1), d0 = (uintptr_t)d & ~(PG - 1);
	size_t ns = ((uintptr_t)src + n - s0 + PG - 1) / PG, nd = ((uintptr_t)d + n - d0 + PG - 1) / PG;
	std::vector<unsigned char> vs(ns), vd(nd);
	if (mincore((void *)s0, ns * PG, &vs[0]) != 0 || mincore((void *)d0, nd * PG, &vd[0]) != 0) {
		__real_memmove(d, src, n);
		return;
	}
	bool back = d > src;
	for (size_t k = 0; k < ns; k++) {
		size_t i = back ? ns - 1 - k : k;
		const char *from = std::max(src, (const char *)s0 + i * PG), *to = std::min(src + n, (const char *)s0 + (i + 1) * PG);
		char *at = d + (from - src);
		size_t len = to - from;
		if (vs[i] & 1) {
			__real_memmove(at, from, len);
			continue;
		}
		size_t a = ((uintptr_t)at - d0) / PG, b = ((uintptr_t)at + len - 1 - d0) / PG;
		if ((vd[a] | vd[b]) & 1)
			memset(at, 0, len);
	}
}

void *
__wrap_memcpy(void *d, const void *s, size_t n)
{
	if (n < (256u << 20))
		return __real_memcpy(d, s, n);
	if ((uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n && d != s)
		FAIL("memcpy", "memcpy(%p, %p, %zu) of overlapping memory", d, s, n);
	sparse_copy((char *)d, (const char *)s, n);
	return d;
}

void *
__wrap_memmove(void *d, const void *s, size_t n)
{
	if (n < (256u << 20))
		return __real_memmove(d, s, n);
	sparse_copy((char *)d, (const char *)s, n);
	return d;
}

} /* extern "C" */
