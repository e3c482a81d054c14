/*
 * Control over the system memory calls of the code under test (linked with
 * --wrap=malloc,...): failure injection, placement of mappings, and an exact
 * account of what is live.
 */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
#include <map>
#include "pbt.h"

struct SysMem {
	/* live heap blocks and mappings obtained by the code under test */
	std::map<uintptr_t, size_t> heap;
	std::map<uintptr_t, size_t> maps;	/* disjoint, maximal pieces as mapped */
	std::map<uintptr_t, size_t> advised;	/* MADV_DONTDUMP ranges */
	size_t heap_bytes, map_bytes, map_peak;
	uint64_t n_malloc, n_free, n_mmap, n_munmap, n_madvise;
	uint64_t n_malloc_failed, n_mmap_failed, n_unaligned;
	int last_mmap_flags, last_mmap_prot;
	/* fault injection: each call fails with probability p/256 by a draw
	 * from the choice source; or the n-th call from now fails. */
	unsigned malloc_p, mmap_p, madvise_p;
	uint64_t n_madvise_failed;
	int64_t malloc_nth, mmap_nth;	/* <0 disabled, counts down, 0 fails */
	/* placement of mappings */
	enum { PLACE_ALIGNED_UP, PLACE_ALIGNED_DOWN, PLACE_CHOOSE } place;
	bool tight;			/* mappings may be adjacent */
	unsigned far_lb;		/* pairs of mappings 2^far_lb bytes apart, 0: none */
	unsigned unaligned_p;		/* p/256: deliberately unaligned address */
	/* limits of sanity */
	size_t heap_limit, map_limit;
	size_t absurd;	/* sizes above it fail as they do in reality */
	volatile bool active;	/* volatile: gcc knows malloc does not read it */
	/* set when a fault was injected since last cleared */
	bool faulted;

	void reset();			/* start of a case */
	void audit_empty(const char *sig, const char *when);
	bool in_live_map(const void *p, size_t size) const;
	bool in_live_heap(const void *p, size_t size) const;
	bool owned(const void *p, size_t size) const
	{
		return in_live_map(p, size) || in_live_heap(p, size);
	}
};
extern SysMem sm;
/* Suspends accounting and faults (for allocations made by the harness). */
struct SmPause {
	bool was;
	SmPause() : was(sm.active) { sm.active = false; }
	~SmPause() { sm.active = was; }
};
#endif
