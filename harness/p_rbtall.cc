/*
 * rb trees of many millions of nodes: the paths which iterators and walks
 * keep must be deep enough for every tree that fits into memory.
 * C21: iteration from either end.  -DSEARCH C22: iterators made by a search.
 * -DAUG C23: walks.
 *
 * A tree filled in descending order has its longest way, of 2 log2(n) nodes,
 * when n = 2^k - 2 or n = 3 * 2^k - 2: all of the left edge is alternately
 * red and black. Checks are done there, and at random sizes.
 */
#include "pbt.h"
#include <assert.h>
#include <sys/mman.h>
#include <algorithm>

struct Node;
extern "C" {
#include "rb.h"
}
struct Node {
	rb_node(Node) link;
};
typedef rb_tree(Node) Tree;

const char *case_rule = "a case is a tree of up to 50 (or 100) million nodes inserted in descending order, with iterators, "
	"searches and walks along its longest way; non-trivial: the way is longer than 48 nodes";
unsigned case_max_ops = 1;

static int cmp_nodes(const Node *a, const Node *b) { return a < b ? -1 : a > b; }
rb_gen(static, t_, Tree, Node, link, cmp_nodes)

static Node *base, *lo;		/* lo: the least node */
static size_t n;
static Tree t;

static long
idx(const Node *x)
{
	return x ? x - base : -1;
}

#define EXPECT(got, want, what) do { \
	const Node *g_ = (got), *w_ = (want); \
	CHECK(g_ == w_, "tall", "%s gives node %ld, expected %ld, in a tree of %zu nodes", what, idx(g_), idx(w_), n); \
} while (0)

#ifndef AUG
/* The iterator is at lo + at; some steps around there. */
static void
follow(struct t_iterator *it, size_t at, Src &s, const char *what)
{
	Node *end = lo + n;
	unsigned steps = 8 + s.draw(60);
	size_t p = at;
	for (unsigned i = 0; i < steps; i++) {
		EXPECT(t_iterator_get(it), lo + p, what);
		if (p + 1 == n)
			break;
		EXPECT(t_inext(it), lo + p, what);
		p++;
	}
	while (p > at) {
		EXPECT(t_iterator_get(it), lo + p < end ? lo + p : NULL, what);
		EXPECT(t_iprev(it), lo + p, what);
		p--;
	}
	EXPECT(t_iterator_get(it), lo + at, what);
}
#endif

static void
check_tree(Src &s, bool full)
{
	EXPECT(t_first(&t), lo, "first");
	EXPECT(t_last(&t), lo + n - 1, "last");
#ifdef AUG
	/* along the left edge to its end, then all the way back */
	struct t_walk w;
	memset(&w, 0x5a, sizeof(w));
	t_walk_init(&w, &t);
	Node *l, *r, *x, *prev = NULL, *pl = NULL;
	unsigned depth = 0;
	int dir = RB_WALK_LEFT;
	while ((x = t_walk_next(&w, dir, &l, &r)) != NULL) {
		depth++;
		if (prev) {
			EXPECT(x, pl, "walk to the left");
			CHECK(x < prev, "tall", "the walk to the left goes up");
		}
		CHECK((l == NULL || (l < x && l >= lo)) && (r == NULL || (r > x && r < lo + n)), "tall",
		      "node %ld has children %ld and %ld", idx(x), idx(l), idx(r));
		prev = x;
		pl = l;
		CHECK(depth <= 128, "tall", "the left edge does not end");
	}
	EXPECT(prev, lo, "the end of the left edge");
	if (depth > 48)
		s.nontrivial();
	/* The nodes of the lowest levels, and up again. */
	t_walk_init(&w, &t);
	Node *limit = lo + std::min<size_t>(n, 5000);
	size_t seen = 0;
	dir = 3;
	while ((x = t_walk_next(&w, dir, &l, &r)) != NULL) {
		dir = x >= limit ? RB_WALK_LEFT : RB_WALK_LEFT | RB_WALK_RIGHT;
		if (x < limit)
			seen++;
	}
	CHECK(seen == (size_t)(limit - lo), "tall", "a walk visits %zu of the %zu least nodes", seen, (size_t)(limit - lo));
#else
	struct t_iterator it;
	size_t at = s.draw(std::min<size_t>(n, 40));
	memset(&it, 0x5a, sizeof(it));
#ifdef SEARCH
	CHECK(t_icreate(&t, lo + at, &it), "tall", "icreate does not find node %ld", idx(lo + at));
	follow(&it, at, s, "icreate");
	CHECK(t_isearch(&t, lo + at, &it), "tall", "isearch does not find node %ld", idx(lo + at));
	follow(&it, at, s, "isearch");
	t_isearch_le(&t, lo + at, &it);
	follow(&it, at, s, "isearch_le");
	t_isearch_ge(&t, lo + at, &it);
	follow(&it, at, s, "isearch_ge");
	t_isearch_lt(&t, lo + at + 1, &it);
	follow(&it, at, s, "isearch_lt");
	if (at) {
		t_isearch_gt(&t, lo + at - 1, &it);
		follow(&it, at, s, "isearch_gt");
	}
	t_isearch_ge(&t, lo - 1, &it);
	follow(&it, 0, s, "isearch_ge");
	if (lo > base)
		CHECK(!t_isearch(&t, lo - 1, &it) && t_iterator_get(&it) == NULL, "tall", "isearch finds an absent node");
	EXPECT(t_search(&t, lo + at), lo + at, "search");
	EXPECT(t_next(&t, lo + at), at + 1 < n ? lo + at + 1 : NULL, "next");
	EXPECT(t_prev(&t, lo + at), at ? lo + at - 1 : NULL, "prev");
	if (n > 33554430)
		s.nontrivial();
	(void)full;
#else
	t_ifirst(&t, &it);
	follow(&it, 0, s, "ifirst");
	t_ilast(&t, &it);
	for (size_t i = n; i-- > 0 && i + 100 > n;)
		EXPECT(t_iprev(&it), lo + i, "iprev");
	if (full) {
		t_ifirst(&t, &it);
		for (size_t i = 0; i < n; i++)
			EXPECT(t_inext(&it), lo + i, "inext");
		EXPECT(t_inext(&it), NULL, "inext after the last node");
		t_ilast(&t, &it);
		for (size_t i = n; i-- > 0;)
			EXPECT(t_iprev(&it), lo + i, "iprev");
		EXPECT(t_iprev(&it), NULL, "iprev before the first node");
	}
	if (n > 33554430)
		s.nontrivial();
#endif
#endif
}

void
run_case(Src &s)
{
	size_t total = (pbt_scale > 1 ? 100663294 : 50331646) - s.draw(2) * 16777216;
	size_t extra = s.draw(200);
	size_t cap = total + extra + 1;
	base = (Node *)mmap(NULL, cap * sizeof(Node), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (base == MAP_FAILED)
		return;
	TR("%zu nodes", total);
	memset((void *)&t, 0x5a, sizeof(t));
	t_new(&t);
	n = 0;
	lo = base + cap;
	size_t next_check = 1, tall = 4;
	bool three = false;
	while (n < total + extra) {
		t_insert(&t, --lo);
		n++;
		/* at 2^k - 2 and 3 * 2^k - 2 */
		if (n + 2 == tall || n == total) {
			check_tree(s, n == total);
			COUNT("tree with its longest way");
		}
		if (n + 2 == tall) {
			tall = three ? tall / 3 * 4 : tall / 2 * 3;
			three = !three;
		}
		if (n == next_check) {
			check_tree(s, false);
			next_check += 1 + s.draw(1 + n);
		}
	}
	/* the least nodes go again */
	for (int i = 0; i < 300; i++) {
		t_remove(&t, lo++);
		n--;
		if (i < 10 || i % 50 == 0 || n == total)
			check_tree(s, false);
	}
	munmap(base, cap * sizeof(Node));
}
