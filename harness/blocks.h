/* A model of live memory blocks: disjointness and content. */
#pragma once
#ifdef __has_feature
#define __has_feature_asan __has_feature(address_sanitizer)
#else
#define __has_feature_asan 0
#endif
#include "pbt.h"
#include "sysmem.h"
#include <map>
#include <vector>
#include <algorithm>

struct Block {
	char *ptr;
	size_t size;
	uint64_t tag;
	bool live = false;
};

static inline unsigned char
pat(uint64_t tag, size_t i)
{
	return (unsigned char)((tag * 0x9e3779b97f4a7c15ULL >> 24) + i * 7 + (i >> 8) * 13);
}

/* From this size on only few pages of a block are touched. */
static size_t sparse_from = 64 << 20;

/* Positions which are written and compared: everything for small blocks, the
 * ends and a stride for big ones. */
template <class F> static inline void
for_pattern(size_t size, F f)
{
	enum { FULL = 4096, EDGE = 1024 };
	if (size <= FULL) {
		for (size_t i = 0; i < size; i++)
			f(i);
		return;
	}
	for (size_t i = 0; i < EDGE; i++)
		f(i);
	/* (few pages of a huge block) */
	size_t step = size < sparse_from ? 509 : size < (64 << 20) ? size / 32 | 1 : size / 256 | 1;
	for (size_t i = EDGE; i < size - EDGE; i += step)
		f(i);
	for (size_t i = size - EDGE; i < size; i++)
		f(i);
}

/* Blocks of 4 GB and more (sizes which do not fit into 32 bits) are generated
 * where untouched memory costs nothing. */
#if !defined(ENABLE_ASAN) && !defined(__SANITIZE_ADDRESS__) && !__has_feature_asan && defined(NDEBUG)
#define HUGE_BLOCKS 1
#else
#define HUGE_BLOCKS 0
#endif

/* The largest alignment but for 4 GB, a power of two. */
#ifdef PBT_ASAN
#define BIG_ALIGN 14
#else
#define BIG_ALIGN 20
#endif

static inline size_t
gen_huge(Src &s)
{
	const size_t G4 = 1ULL << 32;
	size_t b = s.pick<size_t>({G4, G4, G4 + (1 << 20), G4 + (G4 >> 2)});
	return s.draw(2) ? b + s.logsize(1 << 20) : b - (s.draw(2) ? s.logsize(4096) : 0);
}

/* Sizes no quota can ever grant, up to the largest size_t: requests of them are
 * refused and change nothing. (The ASAN allocators pass them to malloc, which
 * reports them as an error.) */
#if !defined(ENABLE_ASAN) && !defined(__SANITIZE_ADDRESS__) && !__has_feature_asan
#define ABSURD_SIZES 1
#else
#define ABSURD_SIZES 0
#endif

static inline size_t
gen_absurd(Src &s)
{
	switch (s.weighted({4, 2, 1, 1})) {
	case 0: return SIZE_MAX - s.logsize(s.draw(2) ? 1 << 20 : 300);
	case 1: return (size_t)PTRDIFF_MAX + 1 - 4096 + s.draw(8192);
	case 2: return (1ULL << (47 + s.draw(17))) + s.logsize(1 << 20);
	default: return (1ULL << (47 + s.draw(17))) - s.logsize(1 << 20);
	}
}

struct Blocks {
	std::map<uintptr_t, Block> live;	/* by address */
	uint64_t next_tag = 1;
	size_t bytes = 0;	/* of memory which is touched, about */

	static size_t weight(size_t size)
	{
		return size < sparse_from ? size : size < (64 << 20) ? 256 << 10 : 2 << 20;
	}

	/* Check a fresh block against all live ones and register it. */
	Block *add(void *p, size_t size, const char *what, bool fill = true)
	{
		SmPause pause;
		uintptr_t a = (uintptr_t)p;
		auto it = live.lower_bound(a);
		if (it != live.end() && it->first < a + size)
			FAIL("overlap", "%s: new block %p+%zu overlaps live block %p+%zu",
			     what, p, size, it->second.ptr, it->second.size);
		if (it != live.end() && it->first == a)
			FAIL("overlap", "%s: new block %p+%zu at the address of live "
			     "block of size %zu", what, p, size, it->second.size);
		if (it != live.begin()) {
			auto pr = std::prev(it);
			if (pr->first + pr->second.size > a)
				FAIL("overlap", "%s: new block %p+%zu overlaps live block %p+%zu",
				     what, p, size, pr->second.ptr, pr->second.size);
		}
		Block b;
		b.ptr = (char *)p;
		b.size = size;
		b.tag = next_tag++;
		b.live = true;
		if (fill)
			refill(b);
		bytes += weight(size);
		return &(live[a] = b);
	}
	static void refill(Block &b)
	{
		for_pattern(b.size, [&](size_t i) {
			b.ptr[i] = (char)pat(b.tag, i);
		});
	}
	static void check(const Block &b, const char *when)
	{
		for_pattern(b.size, [&](size_t i) {
			if ((unsigned char)b.ptr[i] != pat(b.tag, i))
				FAIL("content", "%s: byte %zu of live block %p+%zu (#%llu) "
				     "changed from %#x to %#x", when, i, b.ptr,
				     b.size, (unsigned long long)b.tag,
				     pat(b.tag, i), (unsigned char)b.ptr[i]);
		});
	}
	void check_all(const char *when)
	{
		for (auto &x : live)
			check(x.second, when);
	}
	void del(void *p)
	{
		SmPause pause;
		auto it = live.find((uintptr_t)p);
		bytes -= weight(it->second.size);
		live.erase(it);
	}
	Block *nth(size_t n)
	{
		auto it = live.begin();
		std::advance(it, n);
		return &it->second;
	}
	Block *find(void *p)
	{
		auto it = live.find((uintptr_t)p);
		return it == live.end() ? nullptr : &it->second;
	}
	void clear()
	{
		SmPause pause;
		live.clear();
		bytes = 0;
	}
};
