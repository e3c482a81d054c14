/*
 * C21: rb trees are balanced ordered sets.
 * -DSEARCH C22: searches, neighbours, iterators.
 * -DAUG C23: augmentation and walks.
 * Builds: RB_COMPACT, RB_CMP_TREE_ARG, EXT_KEY (rb_gen_ext_key).
 */
#include "pbt.h"
#include <assert.h>
#include <limits.h>
#include <algorithm>
#include <set>

struct Node;
static int cmp_nodes(const Node *x, const Node *y, bool reverse);
extern "C" {
#include "rb.h"
}

#if defined(AUG)
const char *case_rule = "a case is 1-2 augmented trees (count, sum, max, ordered hash, height) and a sequence "
	"of inserts, removals, bulk changes and walks; non-trivial: a tree of 30 nodes or more lost at least "
	"a third of them one by one, and a walk skipped subtrees";
#elif defined(SEARCH)
const char *case_rule = "a case is 1-2 trees of keys (a, b), and a sequence of inserts, removals and of exact, "
	"nearest and iterator searches by whole keys and by the first part only; non-trivial: a search by a key "
	"matching several nodes, a search between keys and a partial iteration in a tree of at least 10 nodes "
	"that had removals";
#else
const char *case_rule = "a case is 1-2 trees and a sequence of inserts, removals, bulk inserts and removals in "
	"ordered, reverse, interleaved and random order; non-trivial: a tree of 30 nodes or more lost at least "
	"a third of them";
#endif
unsigned case_max_ops = 150;

struct Agg {
	uint64_t count, sum, max, hash, height;
	bool operator==(const Agg &o) const
	{
		return count == o.count && sum == o.sum && max == o.max && hash == o.hash && height == o.height;
	}
};

struct Node {
	int a, b;
	bool partial;		/* as a key: matches all nodes with this a */
	rb_node(Node) link;
	Agg agg;
	int last;
};
typedef rb_tree(Node, bool reverse;) Tree;

struct Key {
	int a, b;
	bool partial;
};

static int
cmp_ab(int a1, int b1, int a2, int b2, bool partial, bool reverse)
{
	int r = a1 < a2 ? -1 : a1 > a2;
	if (r == 0 && !partial)
		r = b1 < b2 ? -1 : b1 > b2;
	return reverse ? -r : r;
}

/* What the tree is given: only the sign counts, so it is of every magnitude. */
static int
magnify(int r)
{
	static const int m[] = { 1, 2, 127, 128, 256, 32768, 65536, 1 << 24, INT_MAX };
	static unsigned k;
	k = k * 1664525 + 1013904223;
	return r * m[(k >> 16) % 9] - (r < 0 && (k >> 28) == 0 && (k >> 16) % 9 == 8);
}

static int
cmp_nodes(const Node *x, const Node *y, bool reverse)
{
	return cmp_ab(x->a, x->b, y->a, y->b, x->partial, reverse);
}

static Agg
combine(const Node *n, const Node *l, const Node *r)
{
	Agg g;
	uint64_t v = (uint64_t)n->a * 1000003 + n->b;
	g.count = 1 + (l ? l->agg.count : 0) + (r ? r->agg.count : 0);
	g.sum = v + (l ? l->agg.sum : 0) + (r ? r->agg.sum : 0);
	g.max = std::max(v, std::max(l ? l->agg.max : 0, r ? r->agg.max : 0));
	g.hash = (((l ? l->agg.hash : 7) * 31 + v) * 0x9e3779b97f4a7c15ULL) ^ ((r ? r->agg.hash : 11) * 0xbf58476d1ce4e5b9ULL + 3);
	g.height = 1 + std::max(l ? l->agg.height : 0, r ? r->agg.height : 0);
	return g;
}

static void
augment(Node *n, Node *l, Node *r)
{
	n->agg = combine(n, l, r);
}

#ifdef RB_CMP_TREE_ARG
static int node_cmp(Tree *t, const Node *x, const Node *y) { return magnify(cmp_nodes(x, y, t->reverse)); }
static int key_cmp(Tree *t, Key k, const Node *y) { return magnify(cmp_ab(k.a, k.b, y->a, y->b, k.partial, t->reverse)); }
#else
static int node_cmp(const Node *x, const Node *y) { return magnify(cmp_nodes(x, y, false)); }
static int key_cmp(Key k, const Node *y) { return magnify(cmp_ab(k.a, k.b, y->a, y->b, k.partial, false)); }
#endif

#ifdef EXT_KEY
#define A_KEY Key
rb_proto_ext_key(static, t_, Tree, Node, Key)
#ifdef AUG
rb_gen_ext_key_aug(static, t_, Tree, Node, link, node_cmp, Key, key_cmp, augment)
#else
rb_gen_ext_key(static, t_, Tree, Node, link, node_cmp, Key, key_cmp)
#endif
#define KEY(a_, b_, p_) (Key{(a_), (b_), (p_)})
#else
rb_proto(static, t_, Tree, Node)
#ifdef AUG
rb_gen_aug(static, t_, Tree, Node, link, node_cmp, augment)
#else
rb_gen(static, t_, Tree, Node, link, node_cmp)
#endif
static Node key_node;
static const Node *
key_of(int a, int b, bool p)
{
	key_node.a = a;
	key_node.b = b;
	key_node.partial = p;
	return &key_node;
}
#define KEY(a_, b_, p_) key_of((a_), (b_), (p_))
#endif

struct T {
	Tree t;
	bool reverse = false;
	std::vector<Node *> m;		/* in order */
	size_t peak = 0, removed = 0;
};
static std::vector<T> ts;
static bool did_multi, did_between, did_partial, did_skip;
static int A_MAX, B_MAX;

static size_t
lower(T &x, const Node *n)
{
	return std::lower_bound(x.m.begin(), x.m.end(), n, [&](const Node *p, const Node *q) {
		return cmp_nodes(p, q, x.reverse) < 0; }) - x.m.begin();
}

static const char *
str(const Node *n)
{
	static char b[4][32];
	static int i;
	i = (i + 1) & 3;
	if (n)
		snprintf(b[i], sizeof(b[i]), "(%d,%d)", n->a, n->b);
	else
		snprintf(b[i], sizeof(b[i]), "nil");
	return b[i];
}

/* The shape of the tree, through the public walk. */
struct Shape {
	Node *n, *l, *r;
	int li, ri;		/* index in the pre-order, -1 if none */
	unsigned min, max;	/* shortest and longest way to a missing child */
	size_t size;
};
static std::vector<Shape> shape;

static int
build(T &x, struct t_walk *w, Node *expect, unsigned depth)
{
	CHECK(depth <= 64, "deep", "the tree is more than 64 levels deep");
	Node *l = NULL, *r = NULL;
	Node *n = t_walk_next(w, RB_WALK_LEFT | RB_WALK_RIGHT, &l, &r);
	CHECK(n != NULL && (expect == NULL || n == expect), "walk", "the walk gives %s instead of %s", str(n),
	      expect ? str(expect) : "the root");
	CHECK(shape.size() < x.m.size(), "walk", "the walk visits more nodes than there are");
	int me = shape.size();
	shape.push_back({n, l, r, -1, -1, 0, 0, 1});
	int li = l ? build(x, w, l, depth + 1) : -1;
	int ri = r ? build(x, w, r, depth + 1) : -1;
	Shape &h = shape[me];
	h.li = li;
	h.ri = ri;
	unsigned lmin = li < 0 ? 0 : shape[li].min, rmin = ri < 0 ? 0 : shape[ri].min;
	unsigned lmax = li < 0 ? 0 : shape[li].max, rmax = ri < 0 ? 0 : shape[ri].max;
	h.min = 1 + std::min(lmin, rmin);
	h.max = 1 + std::max(lmax, rmax);
	h.size = 1 + (li < 0 ? 0 : shape[li].size) + (ri < 0 ? 0 : shape[ri].size);
	return me;
}

static void
inorder(int i, std::vector<Node *> &out)
{
	if (i < 0)
		return;
	inorder(shape[i].li, out);
	out.push_back(shape[i].n);
	inorder(shape[i].ri, out);
}

static void
check_shape(T &x)
{
	shape.clear();
	struct t_walk w;
	t_walk_init(&w, &x.t);
	Node *l, *r;
	if (x.m.empty()) {
		CHECK(t_walk_next(&w, RB_WALK_LEFT | RB_WALK_RIGHT, &l, &r) == NULL, "walk",
		      "the walk of an empty tree gives a node");
		return;
	}
	build(x, &w, NULL, 1);
	l = t_walk_next(&w, RB_WALK_LEFT | RB_WALK_RIGHT, &l, &r);
	CHECK(l == NULL, "walk", "the walk visits %s again or outside of the tree", str(l));
	std::vector<Node *> in;
	inorder(0, in);
	CHECK(in == x.m, "content", "the tree has %zu nodes in order %s..., expected %zu", in.size(),
	      in.empty() ? "" : str(in[0]), x.m.size());
	for (auto &h : shape) {
		CHECK(h.max <= 2 * h.min, "balance", "below %s one path has %u nodes and another %u", str(h.n),
		      h.max, h.min);
		/* depth <= 2 log2(n + 1) */
		CHECK(h.max / 2 < 63 && (1ULL << (h.max / 2)) <= (h.size + 1) * (h.max % 2 ? 1 : 1), "balance",
		      "depth %u with %zu nodes", h.max, h.size);
#ifdef AUG
		Agg g = combine(h.n, h.l, h.r);
		CHECK(h.n->agg == g, "aggregate", "aggregate of %s is not that of its subtree: count %llu/%llu, "
		      "sum %llu/%llu, max %llu/%llu, height %llu/%llu", str(h.n),
		      (unsigned long long)h.n->agg.count, (unsigned long long)g.count,
		      (unsigned long long)h.n->agg.sum, (unsigned long long)g.sum,
		      (unsigned long long)h.n->agg.max, (unsigned long long)g.max,
		      (unsigned long long)h.n->agg.height, (unsigned long long)g.height);
#endif
	}
}

static void
check_order(T &x)
{
	struct t_iterator it;
	t_ifirst(&x.t, &it);
	for (size_t i = 0; i < x.m.size(); i++) {
		Node *g = t_iterator_get(&it);
		CHECK(g == x.m[i], "order", "iterator at step %zu is at %s, expected %s", i, str(g), str(x.m[i]));
		Node *n = t_inext(&it);
		CHECK(n == x.m[i], "order", "step %zu forward gives %s, expected %s", i, str(n), str(x.m[i]));
	}
	CHECK(t_iterator_get(&it) == NULL && t_inext(&it) == NULL, "order", "forward iteration does not end");
	t_ilast(&x.t, &it);
	for (size_t i = x.m.size(); i-- > 0;) {
		Node *n = t_iprev(&it);
		CHECK(n == x.m[i], "order", "step back gives %s, expected %s", str(n), str(x.m[i]));
	}
	CHECK(t_iterator_get(&it) == NULL && t_iprev(&it) == NULL, "order", "backward iteration does not end");
}

static void
check(T &x, bool deep)
{
	Node *f = t_first(&x.t), *l = t_last(&x.t);
	CHECK(t_empty(&x.t) == x.m.empty(), "empty", "empty() is %d with %zu nodes", t_empty(&x.t), x.m.size());
	CHECK(f == (x.m.empty() ? NULL : x.m.front()), "first", "first is %s", str(f));
	CHECK(l == (x.m.empty() ? NULL : x.m.back()), "last", "last is %s", str(l));
	if (!deep)
		return;
	check_shape(x);
	check_order(x);
}

static Node *
new_node(int a, int b)
{
	Node *n = (Node *)malloc(sizeof(*n));
	memset((void *)n, 0xA5, sizeof(*n));
	n->a = a;
	n->b = b;
	n->partial = false;
	return n;
}

static bool
insert(T &x, int a, int b)
{
	Node probe = {};
	probe.a = a;
	probe.b = b;
	size_t i = lower(x, &probe);
	if (i < x.m.size() && x.m[i]->a == a && x.m[i]->b == b)
		return false;
	Node *n = new_node(a, b);
	t_insert(&x.t, n);
	x.m.insert(x.m.begin() + i, n);
	x.peak = std::max(x.peak, x.m.size());
	return true;
}

static void
remove_at(T &x, size_t i)
{
	Node *n = x.m[i];
	t_remove(&x.t, n);
	x.m.erase(x.m.begin() + i);
	x.removed++;
	memset((void *)n, 0xDD, sizeof(*n));
	free(n);
}

static void
bulk(Src &s, T &x)
{
	unsigned kind = s.draw(6);
	size_t n = 1 + s.logsize(s.draw(12) ? 60 : 1500 * (size_t)pbt_scale);
	bool ins = s.draw(5) < 3 || x.m.empty();
	TR("bulk %s %zu kind %u", ins ? "insert" : "remove", n, kind);
	if (ins) {
		if (x.m.size() + n > 4000)
			return;
		int base = s.draw(A_MAX), b = s.draw(B_MAX);
		for (size_t i = 0; i < n; i++) {
			switch (kind) {
			case 0: insert(x, base + (int)i, b); break;
			case 1: insert(x, base - (int)i, b); break;
			case 2: insert(x, base, (int)i); break;
			case 3: insert(x, i % 2 ? base + (int)i : base - (int)i, b); break;
			case 4: insert(x, (int)((i * 7919 + base) % (n | 1)), b); break;
			default: insert(x, s.draw(A_MAX), s.draw(B_MAX));
			}
		}
	} else {
		for (size_t i = 0; i < n && !x.m.empty(); i++) {
			size_t c = x.m.size(), j;
			switch (kind) {
			case 0: j = 0; break;
			case 1: j = c - 1; break;
			case 2: j = c / 2; break;
			case 3: j = i % 2 ? c - 1 : 0; break;
			case 4: j = i * 7919 % c; break;
			default: j = s.draw(c);
			}
			remove_at(x, j);
		}
	}
}

#ifdef SEARCH
static void
check_iter_from(Src &s, T &x, struct t_iterator *it, long pos, const char *what)
{
	/* the iterator goes on from pos in either direction */
	Node *g = t_iterator_get(it);
	Node *e = pos < 0 || pos >= (long)x.m.size() ? NULL : x.m[pos];
	CHECK(g == e, "search", "%s is at %s, expected %s", what, str(g), str(e));
	if (e == NULL) {
		CHECK(t_inext(it) == NULL && t_iprev(it) == NULL, "search", "%s: goes on from nothing", what);
		return;
	}
	unsigned steps = s.draw(2) ? s.draw(6) : s.draw(4) == 3 ? x.m.size() : 0;
	if (steps)
		did_partial = true;
	for (unsigned i = 0; i < steps; i++) {
		/* there and back: the path of an iterator is used in both ways */
		bool fwd = s.draw(3) != 2;
		if (steps > 20)
			fwd = true;
		Node *n = fwd ? t_inext(it) : t_iprev(it);
		CHECK(n == e, "iterate", "%s: step %u gives %s, expected %s", what, i, str(n), str(e));
		if (fwd)
			pos++;
		else
			pos--;
		e = pos < 0 || pos >= (long)x.m.size() ? NULL : x.m[pos];
		g = t_iterator_get(it);
		CHECK(g == e, "iterate", "%s: after step %u %s the iterator is at %s, expected %s", what, i,
		      fwd ? "forward" : "back", str(g), str(e));
		if (e == NULL)
			break;
	}
}

static void
search(Src &s, T &x)
{
	/* a key: stored, neighbouring, or any */
	int a, b;
	bool partial = s.draw(2);
	if (s.draw(2) && !x.m.empty()) {
		Node *n = x.m[s.draw(x.m.size())];
		a = n->a + (int)s.pick({0, 0, 0, 1, -1});
		b = n->b + (int)s.pick({0, 0, 0, 1, -1});
	} else {
		a = (int)s.range(0, A_MAX + 3) - 2;
		b = (int)s.range(0, B_MAX + 3) - 2;
	}
	size_t n = x.m.size(), lo = 0, hi = n;
	/* [lo, hi) match; before lo less, from hi on greater */
	auto c = [&](size_t i) { return cmp_ab(a, b, x.m[i]->a, x.m[i]->b, partial, x.reverse); };
	while (lo < n && c(lo) > 0)
		lo++;
	hi = lo;
	while (hi < n && c(hi) == 0)
		hi++;
	auto at = [&](long i) -> Node * { return i < 0 || i >= (long)n ? NULL : x.m[i]; };
	TR("search (%d,%s): %zu match after %zu", a, partial ? "*" : std::to_string(b).c_str(), hi - lo, lo);
	if (n >= 10 && hi - lo > 1)
		did_multi = true;
	if (n >= 10 && hi == lo && lo > 0 && hi < n)
		did_between = true;
	Node *r = t_search(&x.t, KEY(a, b, partial));
	CHECK(hi == lo ? r == NULL : r && std::find(x.m.begin() + lo, x.m.begin() + hi, r) != x.m.begin() + hi,
	      "search", "search gives %s, %zu nodes match from %s", str(r), hi - lo, str(at(lo)));
	r = t_nsearch(&x.t, KEY(a, b, partial));
	Node *e = hi > lo ? x.m[hi - 1] : at(hi);
	CHECK(r == e, "nsearch", "nsearch gives %s, expected %s", str(r), str(e));
	r = t_psearch(&x.t, KEY(a, b, partial));
	e = hi > lo ? x.m[lo] : at((long)lo - 1);
	CHECK(r == e, "psearch", "psearch gives %s, expected %s", str(r), str(e));
	struct t_iterator it;
	memset(&it, 0x5a, sizeof(it));
	switch (s.draw(5)) {
	case 0: {
		bool f = t_isearch(&x.t, KEY(a, b, partial), &it);
		CHECK(f == (hi > lo), "isearch", "isearch returns %d, %zu nodes match", f, hi - lo);
		Node *g = t_iterator_get(&it);
		long pos = -1;
		if (f) {
			for (size_t i = lo; i < hi; i++)
				if (x.m[i] == g)
					pos = i;
			CHECK(pos >= 0, "isearch", "isearch is at %s which does not match", str(g));
		}
		check_iter_from(s, x, &it, pos, "isearch");
		break;
	}
	case 1:
		t_isearch_le(&x.t, KEY(a, b, partial), &it);
		check_iter_from(s, x, &it, (long)hi - 1, "isearch_le");
		break;
	case 2:
		t_isearch_ge(&x.t, KEY(a, b, partial), &it);
		check_iter_from(s, x, &it, lo, "isearch_ge");
		break;
	case 3:
		t_isearch_lt(&x.t, KEY(a, b, partial), &it);
		check_iter_from(s, x, &it, (long)lo - 1, "isearch_lt");
		break;
	default:
		t_isearch_gt(&x.t, KEY(a, b, partial), &it);
		check_iter_from(s, x, &it, hi, "isearch_gt");
	}
}

struct IterArg {
	T *x;
	long pos;
	int dir;
	long stop;
	bool remove;
	Node *removed;
	const char *what;
};

static Node *
iter_cb(Tree *t, Node *n, void *arg)
{
	IterArg *a = (IterArg *)arg;
	CHECK(t == &a->x->t, "iter", "%s: the callback is given another tree", a->what);
	CHECK(a->pos >= 0 && a->pos < (long)a->x->m.size() && a->x->m[a->pos] == n, "iter",
	      "%s visits %s, expected %s", a->what, str(n),
	      a->pos >= 0 && a->pos < (long)a->x->m.size() ? str(a->x->m[a->pos]) : "nothing");
	if (a->pos == a->stop) {
		if (a->remove) {
			t_remove(t, n);
			a->removed = n;
		}
		return n;
	}
	a->pos += a->dir;
	return NULL;
}

static void
iterate(Src &s, T &x)
{
	bool rev = s.draw(2);
	long n = x.m.size();
	Node *start = NULL;
	long pos = rev ? n - 1 : 0;
	if (n && s.draw(2)) {
		pos = s.draw(n);
		start = x.m[pos];
	}
	IterArg a = {&x, pos, rev ? -1 : 1, -1, false, NULL, rev ? "reverse_iter" : "iter"};
	if (n && s.draw(2)) {
		long left = rev ? pos + 1 : n - pos;
		a.stop = pos + a.dir * (long)s.draw(left);
		a.remove = s.chance(1, 3);
		did_partial = true;
	}
	TR("%s from %s stop at %ld%s", a.what, str(start), a.stop, a.remove ? " removing it" : "");
	Node *r = rev ? t_reverse_iter(&x.t, start, iter_cb, &a) : t_iter(&x.t, start, iter_cb, &a);
	Node *e = a.stop >= 0 ? a.remove ? a.removed : x.m[a.stop] : NULL;
	CHECK(r == e, "iter", "%s returns %p, expected %p", a.what, (void *)r, (void *)e);
	if (a.stop < 0)
		CHECK(a.pos == (rev ? -1 : n), "iter", "%s ended at %ld of %ld", a.what, a.pos, n);
	if (a.remove) {
		CHECK(a.removed != NULL, "iter", "%s did not get to node %ld", a.what, a.stop);
		x.m.erase(x.m.begin() + a.stop);
		x.removed++;
		free(a.removed);
	}
}

static void
neighbours(Src &s, T &x)
{
	if (x.m.empty())
		return;
	size_t i = s.draw(x.m.size());
	TR("neighbours of %s", str(x.m[i]));
	Node *n = t_next(&x.t, x.m[i]), *p = t_prev(&x.t, x.m[i]);
	CHECK(n == (i + 1 < x.m.size() ? x.m[i + 1] : NULL), "next", "next of %s is %s", str(x.m[i]), str(n));
	CHECK(p == (i ? x.m[i - 1] : NULL), "prev", "prev of %s is %s", str(x.m[i]), str(p));
	struct t_iterator it;
	memset(&it, 0x5a, sizeof(it));
	Node key = {};
	bool absent = s.chance(1, 4);
	key.a = x.m[i]->a;
	key.b = x.m[i]->b + (absent ? 100000 : 0);
	bool f = t_icreate(&x.t, absent ? &key : x.m[i], &it);
	CHECK(f == !absent, "icreate", "icreate returns %d for a node %s the tree", f, absent ? "not in" : "in");
	check_iter_from(s, x, &it, absent ? -1 : (long)i, "icreate");
}
#endif

#ifdef AUG
static void
walk(Src &s, T &x)
{
	check_shape(x);
	uint64_t salt = s.draw(1 << 16);
	unsigned bias = s.draw(4);
	/* choices: a function of the node; visited are those reached by them */
	auto dir = [&](Node *n) -> int {
		uint64_t h = ((uint64_t)n->a * 31 + n->b + salt) * 0x9e3779b97f4a7c15ULL >> 40;
		int d = h & 3;
		if (bias && (h >> 2) % (bias + 1))
			d = RB_WALK_LEFT | RB_WALK_RIGHT;
		return d;
	};
	std::vector<const Shape *> want;
	std::vector<int> st;
	if (!shape.empty())
		st.push_back(0);
	while (!st.empty()) {
		const Shape *h = &shape[st.back()];
		st.pop_back();
		want.push_back(h);
		int d = dir(h->n);
		if ((d & RB_WALK_RIGHT) && h->ri >= 0)
			st.push_back(h->ri);
		if ((d & RB_WALK_LEFT) && h->li >= 0)
			st.push_back(h->li);
	}
	TR("walk of %zu nodes of %zu", want.size(), shape.size());
	if (want.size() < shape.size() && want.size() > 5)
		did_skip = true;
	struct t_walk w;
	memset(&w, 0x5a, sizeof(w));
	t_walk_init(&w, &x.t);
	int d = s.draw(4);		/* ignored at first */
	for (size_t i = 0; i <= want.size(); i++) {
		Node *l = (Node *)1, *r = (Node *)1;
		Node *n = t_walk_next(&w, d, &l, &r);
		if (i == want.size()) {
			CHECK(n == NULL, "walk", "the walk gives %s after the last node", str(n));
			break;
		}
		CHECK(n == want[i]->n, "walk", "the walk gives %s at step %zu, expected %s", str(n), i,
		      str(want[i]->n));
		CHECK(l == want[i]->l && r == want[i]->r, "walk", "children of %s: %s and %s", str(n), str(l), str(r));
		d = dir(n);
	}
}
#endif

void
run_case(Src &s)
{
	did_multi = did_between = did_partial = did_skip = false;
	ts.clear();
	ts.resize(1 + s.draw(2));
	A_MAX = 2 + s.logsize(s.draw(3) ? 30 : 2000);
	B_MAX = 1 + s.logsize(s.draw(3) ? 6 : 60);
	for (auto &x : ts) {
		memset((void *)&x.t, 0x5a, sizeof(x.t));
		t_new(&x.t);
#ifdef RB_CMP_TREE_ARG
		x.reverse = s.draw(2);
		x.t.reverse = x.reverse;
#endif
	}
	TR("%zu trees, a < %d, b < %d", ts.size(), A_MAX, B_MAX);
	while (s.more()) {
		T &x = ts[s.draw(ts.size())];
		unsigned k = s.weighted({10, 7, 2, 10, 3, 3, 1});
		switch (k) {
		case 0: {
			int a = s.draw(A_MAX), b = s.draw(B_MAX);
			bool r = insert(x, a, b);
			TR("insert (%d,%d)%s -> %zu", a, b, r ? "" : " is there", x.m.size());
			break;
		}
		case 1:
			if (!x.m.empty()) {
				size_t i = s.draw(3) ? s.draw(x.m.size()) : s.draw(2) ? x.m.size() - 1 : 0;
				TR("remove %s of %zu", str(x.m[i]), x.m.size());
				remove_at(x, i);
			}
			break;
		case 2:
			bulk(s, x);
			break;
#ifdef SEARCH
		case 3: search(s, x); break;
		case 4: iterate(s, x); break;
		case 5: neighbours(s, x); break;
#endif
#ifdef AUG
		case 3: case 4: case 5:
			if (s.draw(2)) {
				walk(s, x);
				break;
			}
			/* fallthrough */
#endif
		default:
			if (x.m.empty() || s.draw(3)) {
				for (int i = 0; i < 3; i++)
					insert(x, s.draw(A_MAX), s.draw(B_MAX));
			} else if (k == 6 && s.draw(4) == 3) {
				/* rebuilt from nothing */
				TR("new");
				for (Node *n : x.m)
					free(n);
				x.m.clear();
				t_new(&x.t);
			} else {
				for (int i = 0; i < 3 && !x.m.empty(); i++)
					remove_at(x, s.draw(x.m.size()));
			}
		}
		bool small = x.m.size() < 80;
#ifdef SEARCH
		small = x.m.size() < 20;
#endif
		check(x, small || s.nops % 16 == 0);
	}
	bool nt = false;
	for (auto &x : ts) {
		check(x, true);
		if (x.peak >= 30 && x.removed * 3 >= x.peak)
			nt = true;
		for (Node *n : x.m)
			free(n);
		x.m.clear();
	}
#ifdef AUG
	nt = nt && did_skip;
	if (did_skip) COUNT("case with a partial walk");
#endif
#ifdef SEARCH
	nt = did_multi && did_between && did_partial;
	if (did_multi) COUNT("case searching a key matching several nodes");
	if (did_between) COUNT("case searching between keys");
#endif
	if (nt)
		s.nontrivial();
}
