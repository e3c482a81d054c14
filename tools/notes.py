"""id -> technique (for the manifest)."""
M = "stateful property-based testing against a reference model: "
C = "property-based testing with generated schedules (threads as fibers switched at single memory accesses): "
TECH = {
 "C01": M + "arena operations with generated kernel placement against exact accounts of mappings, advice and slabs",
 "C02": M + "quota operations over the whole size_t range against 1024-byte unit arithmetic",
 "C03": C + "quota histories decided by exhaustive linearizability search against the sequential quota",
 "C04": M + "lessors sharing a quota against exact byte accounts",
 "C05": C + "lf_lifo histories decided by exhaustive linearizability search against a stack; long sequential histories",
 "C06": C + "arena users with failing and unaligned mmaps against ownership, quota and mapping accounts",
 "C07": M + "buddy allocator histories against disjointness, contents, used sizes and arena ownership",
 "C08": M + "mempool histories against disjointness, contents, slab occupancy and statistics",
 "C09": M + "smalloc/smfree histories against disjointness, alignment, contents and emptiness",
 "C10": M + "smalloc/smfree histories at any memory limit against an independent account of pools, waste and refusals",
 "C11": "property-based testing: class mapping against a table built from the definition, branching and branchless builds",
 "C12": M + "region histories with marks against disjointness, contents and used sizes",
 "C13": M + "region joins, resets and callbacks against the byte sequence and the expected callback calls",
 "C14": M + "log region histories with non-decreasing ids against contents and retention",
 "C15": M + "flushing through savepoints against the byte sequence allocated with its ids",
 "C16": M + "ibuf operations against a byte queue",
 "C17": M + "obuf operations, savepoints and rollbacks against a byte string",
 "C18": M + "matras against an array of blocks and the exact set of extents; spaces up to 2^32 ids",
 "C19": M + "matras read views against copies of the array and the exact sharing of extents",
 "C20": M + "matras with generated extent allocation failures and retries",
 "C21": M + "rb tree variants against an ordered set, with depth and colour-independent balance",
 "C22": M + "rb tree searches, iterators and walks against a sorted array",
 "C23": M + "augmented rb trees against aggregates recomputed from scratch; walks against a recursive reference",
 "C24": M + "rlist operations and traversals against sequences",
 "C25": M + "static buffers of several threads against lifetimes of allocations and contents",
 "C26": M + "all allocators mixed under generated limits and system call failures, against contents, accounts and retries",
 "C27": M + "all allocators mixed, destroyed with objects live, against exact accounts of heap, mappings and quota",
 "C28": "differential property-based testing: the reference models of the regular build run against the ASAN build",
 "C29": M + "ASAN build allocators against a per-byte model of what must be poisoned; generated misuse must be detected",
 "C30": "property-based testing: helpers against exact 128-bit arithmetic; features against the build configuration",
}
