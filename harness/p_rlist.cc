/* C24: rlist operations are those of a sequence. */
#include "pbt.h"
#include <algorithm>
#include "rlist.h"
#include "lifo.h"

const char *case_rule = "a case is 2-4 lists, up to 14 elements each with two links, and a sequence of all list "
	"operations and traversals; non-trivial: a list of 3 elements or more was spliced, cut or swapped, and a "
	"safe traversal removed elements in the middle";
unsigned case_max_ops = 120;

struct Item {
	int id;
	struct rlist link;
	char pad[3];
	struct rlist other;	/* must never change */
} __attribute__((aligned(64)));

enum { NI = 14, NL = 4 };
static Item items[NI];
static struct rlist heads[NL];
static std::vector<int> m[NL];	/* ids in order */
static int where[NI];		/* list or -1 */
static unsigned nl, ni;
static bool big_change, safe_removed;

static int
id_of(struct rlist *l)
{
	for (unsigned i = 0; i < NI; i++)
		if (l == &items[i].link)
			return i;
	return -1;
}

/* lifo.h: a stack of whatever starts with a pointer. */
struct Plate { void *link; int id; } static plates[8];
static struct lifo stacks[2];
static std::vector<int> ms[2];

static void
stack_ops(Src &s)
{
	for (unsigned n = s.draw(30); n-- > 0;) {
		unsigned k = s.draw(2);
		struct lifo *h = &stacks[k];
		switch (s.draw(5)) {
		case 0:
		case 1: {
			int i = s.draw(8);
			bool used = false;
			for (auto &v : ms)
				used |= std::find(v.begin(), v.end(), i) != v.end();
			if (used)
				break;
			TR("lifo %u push %d", k, i);
			lifo_push(h, &plates[i]);
			ms[k].push_back(i);
			break;
		}
		case 2: {
			void *p = lifo_pop(h);
			TR("lifo %u pop", k);
			if (ms[k].empty()) {
				CHECK(p == NULL, "lifo", "pop of an empty stack gives %p", p);
				break;
			}
			CHECK(p == &plates[ms[k].back()], "lifo", "pop gives another element than the last pushed");
			ms[k].pop_back();
			break;
		}
		case 3:
			if (s.draw(20) == 0) {
				TR("lifo %u init", k);
				lifo_init(h);
				ms[k].clear();
			}
			break;
		default:
			break;
		}
		for (unsigned j = 0; j < 2; j++) {
			CHECK(lifo_is_empty(&stacks[j]) == ms[j].empty(), "lifo", "lifo_is_empty with %zu elements", ms[j].size());
			CHECK(lifo_peek(&stacks[j]) == (ms[j].empty() ? NULL : &plates[ms[j].back()]), "lifo",
			      "lifo_peek with %zu elements", ms[j].size());
		}
		for (int i = 0; i < 8; i++)
			CHECK(plates[i].id == i * 77, "lifo", "the payload of an element changed");
	}
}

static void
check(const char *op)
{
	for (unsigned k = 0; k < nl; k++) {
		struct rlist *l;
		size_t i = 0;
		CHECK(!!rlist_empty(&heads[k]) == m[k].empty(), "empty", "%s: rlist_empty of list %u is %d with %zu "
		      "elements", op, k, rlist_empty(&heads[k]), m[k].size());
		rlist_foreach(l, &heads[k]) {
			CHECK(i < m[k].size() && l == &items[m[k][i]].link, "order", "%s: list %u has %d at %zu, "
			      "expected %d", op, k, id_of(l), i, i < m[k].size() ? m[k][i] : -1);
			CHECK(l->next->prev == l && l->prev->next == l, "links", "%s: list %u: links of element %d "
			      "are not mutual", op, k, id_of(l));
			i++;
		}
		CHECK(i == m[k].size(), "order", "%s: list %u has %zu elements, expected %zu", op, k, i, m[k].size());
		rlist_foreach_reverse(l, &heads[k]) {
			CHECK(i > 0 && l == &items[m[k][i - 1]].link, "reverse", "%s: list %u backward has %d", op, k,
			      id_of(l));
			i--;
		}
		CHECK(i == 0, "reverse", "%s: list %u ends early backward", op, k);
		CHECK(heads[k].next->prev == &heads[k] && heads[k].prev->next == &heads[k], "links",
		      "%s: the head of list %u", op, k);
		Item *it, *tmp;
		rlist_foreach_entry(it, &heads[k], link) {
			CHECK(i < m[k].size() && it == &items[m[k][i]], "foreach_entry", "%s: element %zu", op, i);
			i++;
		}
		CHECK(i == m[k].size(), "foreach_entry", "%s: %zu of %zu", op, i, m[k].size());
		rlist_foreach_entry_reverse(it, &heads[k], link) {
			CHECK(i > 0 && it == &items[m[k][i - 1]], "foreach_entry_reverse", "%s: element %zu", op, i);
			i--;
		}
		CHECK(i == 0, "foreach_entry_reverse", "%s: %zu left", op, i);
		if (m[k].empty()) {
			CHECK(rlist_first(&heads[k]) == &heads[k] && rlist_last(&heads[k]) == &heads[k], "first",
			      "%s: first and last of an empty list", op);
			continue;
		}
		CHECK(rlist_first(&heads[k]) == &items[m[k][0]].link &&
		      rlist_first_entry(&heads[k], Item, link) == &items[m[k][0]], "first", "%s: list %u", op, k);
		CHECK(rlist_last(&heads[k]) == &items[m[k].back()].link &&
		      rlist_last_entry(&heads[k], Item, link) == &items[m[k].back()], "last", "%s: list %u", op, k);
		for (size_t j = 0; j < m[k].size(); j++) {
			Item *x = &items[m[k][j]];
			struct rlist *n = j + 1 < m[k].size() ? &items[m[k][j + 1]].link : &heads[k];
			struct rlist *p = j ? &items[m[k][j - 1]].link : &heads[k];
			CHECK(rlist_next(&x->link) == n && rlist_prev(&x->link) == p, "next", "%s: element %zu", op, j);
			if (j + 1 < m[k].size())
				CHECK(rlist_next_entry(x, link) == &items[m[k][j + 1]], "next_entry", "%s", op);
			if (j)
				CHECK(rlist_prev_entry(x, link) == &items[m[k][j - 1]], "prev_entry", "%s", op);
			Item *q = rlist_prev_entry_safe(x, &heads[k], link);
			CHECK(q == (j ? &items[m[k][j - 1]] : NULL), "prev_entry_safe", "%s: element %zu gives %p", op,
			      j, (void *)q);
		}
		(void)tmp;
	}
	for (unsigned i = 0; i < ni; i++) {
		CHECK(items[i].id == (int)i && items[i].other.prev == (struct rlist *)0x1111 &&
		      items[i].other.next == (struct rlist *)0x2222, "outside", "%s: memory beside the link of %u "
		      "changed", op, i);
		if (where[i] < 0)
			CHECK(rlist_empty(&items[i].link), "unlinked", "%s: removed element %u is still linked", op, i);
	}
}

static void
drop(int id)
{
	std::vector<int> &v = m[where[id]];
	v.erase(std::find(v.begin(), v.end(), id));
	where[id] = -1;
}

static size_t
index_of(int id)
{
	std::vector<int> &v = m[where[id]];
	return std::find(v.begin(), v.end(), id) - v.begin();
}

static void
put(int id, int k, size_t at)
{
	m[k].insert(m[k].begin() + at, id);
	where[id] = k;
}

static int
pick_free(Src &s)
{
	std::vector<int> v;
	for (unsigned i = 0; i < ni; i++)
		if (where[i] < 0)
			v.push_back(i);
	return v.empty() ? -1 : v[s.draw(v.size())];
}

static int
pick_used(Src &s)
{
	std::vector<int> v;
	for (unsigned k = 0; k < nl; k++)
		for (int i : m[k])
			v.push_back(i);
	return v.empty() ? -1 : v[s.draw(v.size())];
}

void
run_case(Src &s)
{
	big_change = safe_removed = false;
	if (s.chance(1, 4)) {
		for (unsigned j = 0; j < 2; j++) {
			stacks[j].next = (void *)1;
			lifo_init(&stacks[j]);
			ms[j].clear();
		}
		for (int i = 0; i < 8; i++)
			plates[i] = Plate{(void *)2, i * 77};
		stack_ops(s);
	}
	nl = 2 + s.draw(NL - 1);
	ni = 1 + s.draw(NI);
	for (unsigned k = 0; k < nl; k++) {
		m[k].clear();
		if (s.draw(2)) {
			rlist_create(&heads[k]);
		} else {
			RLIST_HEAD(h);
			CHECK(rlist_empty(&h), "initializer", "RLIST_HEAD is not empty");
			heads[k] = h;
			struct rlist i2 = RLIST_HEAD_INITIALIZER(i2);
			CHECK(rlist_empty(&i2), "initializer", "RLIST_HEAD_INITIALIZER is not empty");
			rlist_create(&heads[k]);
		}
	}
	for (unsigned i = 0; i < ni; i++) {
		items[i].id = i;
		items[i].other.prev = (struct rlist *)0x1111;
		items[i].other.next = (struct rlist *)0x2222;
		rlist_create(&items[i].link);
		where[i] = -1;
	}
	TR("%u lists, %u elements", nl, ni);
	const char *op = "create";
	check(op);
	while (s.more()) {
		unsigned k = s.draw(nl), k2 = s.draw(nl), e = s.draw(2);
		switch (s.weighted({8, 8, 5, 4, 4, 3, 3, 4, 4, 3, 3, 4, 4, 4, 3, 4})) {
		case 0: {
			int i = pick_free(s);
			if (i < 0)
				continue;
			op = "add";
			if (e)
				rlist_add(&heads[k], &items[i].link);
			else
				rlist_add_entry(&heads[k], &items[i], link);
			put(i, k, 0);
			TR("add %d to %u", i, k);
			break;
		}
		case 1: {
			int i = pick_free(s);
			if (i < 0)
				continue;
			op = "add_tail";
			if (e)
				rlist_add_tail(&heads[k], &items[i].link);
			else
				rlist_add_tail_entry(&heads[k], &items[i], link);
			put(i, k, m[k].size());
			TR("add_tail %d to %u", i, k);
			break;
		}
		case 2: {
			int i = pick_used(s);
			if (i < 0)
				continue;
			op = "del";
			if (e)
				rlist_del(&items[i].link);
			else
				rlist_del_entry(&items[i], link);
			drop(i);
			TR("del %d", i);
			if (s.draw(3) == 2)
				rlist_del(&items[i].link);	/* again: harmless */
			break;
		}
		case 3: {
			/* insertion after and before an element */
			int i = pick_free(s), j = pick_used(s);
			if (i < 0 || j < 0)
				continue;
			size_t at = index_of(j);
			bool before = s.draw(2);
			op = before ? "add before an element" : "add after an element";
			if (before)
				rlist_add_tail(&items[j].link, &items[i].link);
			else
				rlist_add(&items[j].link, &items[i].link);
			put(i, where[j], before ? at : at + 1);
			TR("%s: %d by %d", op, i, j);
			break;
		}
		case 4: {
			int i = pick_used(s);
			if (i < 0)
				continue;
			op = "move";
			TR("move %d to %u", i, k);
			if (e)
				rlist_move(&heads[k], &items[i].link);
			else
				rlist_move_entry(&heads[k], &items[i], link);
			drop(i);
			put(i, k, 0);
			break;
		}
		case 5: {
			int i = pick_used(s);
			if (i < 0)
				continue;
			op = "move_tail";
			TR("move_tail %d to %u", i, k);
			if (e)
				rlist_move_tail(&heads[k], &items[i].link);
			else
				rlist_move_tail_entry(&heads[k], &items[i], link);
			drop(i);
			put(i, k, m[k].size());
			break;
		}
		case 6: {
			/* move relative to another element, also of a single unlinked one */
			int i = pick_used(s), j = pick_used(s);
			if (i < 0 || i == j)
				continue;
			bool before = s.draw(2);
			op = before ? "move before an element" : "move after an element";
			TR("%s: %d by %d", op, i, j);
			if (before)
				rlist_move_tail(&items[j].link, &items[i].link);
			else
				rlist_move(&items[j].link, &items[i].link);
			drop(i);
			put(i, where[j], index_of(j) + (before ? 0 : 1));
			break;
		}
		case 7: {
			if (m[k].empty())
				continue;
			op = "shift";
			TR("shift from %u", k);
			int x = m[k][0];
			struct rlist *r = e ? rlist_shift(&heads[k]) :
				&rlist_shift_entry(&heads[k], Item, link)->link;
			CHECK(r == &items[x].link, "shift", "shift gives %d, expected %d", id_of(r), x);
			drop(x);
			break;
		}
		case 8: {
			if (m[k].empty())
				continue;
			op = "shift_tail";
			TR("shift_tail from %u", k);
			int x = m[k].back();
			struct rlist *r = e ? rlist_shift_tail(&heads[k]) :
				&rlist_shift_tail_entry(&heads[k], Item, link)->link;
			CHECK(r == &items[x].link, "shift_tail", "shift_tail gives %d, expected %d", id_of(r), x);
			drop(x);
			break;
		}
		case 9: case 10: {
			bool tail = s.draw(2);
			if (k == k2)
				continue;
			op = tail ? "splice_tail" : "splice";
			TR("%s %u <- %u", op, k, k2);
			if (m[k2].size() >= 3)
				big_change = true;
			if (tail)
				rlist_splice_tail(&heads[k], &heads[k2]);
			else
				rlist_splice(&heads[k], &heads[k2]);
			for (int i : m[k2])
				where[i] = k;
			m[k].insert(tail ? m[k].end() : m[k].begin(), m[k2].begin(), m[k2].end());
			m[k2].clear();
			break;
		}
		case 11: {
			op = "swap";
			TR("swap %u %u", k, k2);
			if (m[k].size() + m[k2].size() >= 3)
				big_change = true;
			rlist_swap(&heads[k], &heads[k2]);
			if (k == k2)
				break;
			std::swap(m[k], m[k2]);
			for (unsigned q = 0; q < nl; q++)
				for (int i : m[q])
					where[i] = q;
			break;
		}
		case 12: {
			/* cut list k2 before an element or its end into list k */
			if (k == k2)
				continue;
			op = "cut_before";
			size_t at = s.draw(m[k2].size() + 1);
			struct rlist *item = at < m[k2].size() ? &items[m[k2][at]].link : &heads[k2];
			TR("cut_before %u <- %u at %zu", k, k2, at);
			/* the old content of k is discarded: its elements go elsewhere */
			struct rlist stale = heads[k];
			bool discard_before = s.draw(2);
			std::vector<int> old = m[k];
			if (discard_before)
				for (int i : old)
					rlist_create(&items[i].link);
			if (discard_before && s.draw(2)) {
				/* and some of them are in the other list meanwhile */
				for (int i : old)
					if (s.draw(2)) {
						rlist_add(&heads[k2], &items[i].link);
						drop(i);
						put(i, k2, 0);
						at++;
						if (s.draw(2)) {
							item = &items[i].link;
							at = 0;
						}
					}
				old = m[k];
				/* what is left of k is only a head to be overwritten */
				heads[k] = stale;
			}
			TR("    at %zu of %zu", at, m[k2].size());
			if (m[k2].size() >= 3)
				big_change = true;
			rlist_cut_before(&heads[k], &heads[k2], item);
			for (int i : old) {
				if (!discard_before)
					rlist_create(&items[i].link);
				where[i] = -1;
			}
			m[k].assign(m[k2].begin(), m[k2].begin() + at);
			m[k2].erase(m[k2].begin(), m[k2].begin() + at);
			for (int i : m[k])
				where[i] = k;
			break;
		}
		case 13: {
			/* safe traversal which removes or moves what it visits */
			bool rev = s.draw(2);
			op = rev ? "foreach_entry_safe_reverse" : "foreach_entry_safe";
			TR("%s of %u", op, k);
			std::vector<int> seen, before = m[k];
			if (rev)
				std::reverse(before.begin(), before.end());
			Item *it, *tmp;
			bool moved = false;
			auto visit = [&](Item *x) {
				CHECK(seen.size() < before.size() && x == &items[before[seen.size()]], op,
				      "step %zu visits %d, expected %d", seen.size(),
				      x >= items && x < items + NI ? (int)(x - items) : -1,
				      seen.size() < before.size() ? before[seen.size()] : -1);
				int id = before[seen.size()];
				seen.push_back(id);
				unsigned what = s.draw(4);
				if (what == 0) {
					rlist_del_entry(x, link);
					drop(id);
					moved = true;
					if (seen.size() > 1 && seen.size() < before.size())
						safe_removed = true;
				} else if (what == 1 && k2 != k) {
					rlist_move_tail_entry(&heads[k2], x, link);
					drop(id);
					put(id, k2, m[k2].size());
					moved = true;
				} else if (what == 2) {
					rlist_move_entry(&heads[k], x, link);
					drop(id);
					put(id, k, 0);
					moved = true;
					/* backwards a head move would be met again */
				}
			};
			if (rev) {
				rlist_foreach_entry_safe_reverse(it, &heads[k], link, tmp) {
					if (seen.size() == before.size())
						break;	/* met again after a move to the head */
					visit(it);
				}
			} else {
				rlist_foreach_entry_safe(it, &heads[k], link, tmp)
					visit(it);
			}
			CHECK(seen.size() == before.size(), op, "visited %zu of %zu%s", seen.size(), before.size(),
			      moved ? " (some were moved)" : "");
			break;
		}
		case 14: {
			/* a traversal started from an element */
			int i = pick_used(s);
			if (i < 0)
				continue;
			op = "traversal from an element";
			size_t at = index_of(i);
			Item *x = &items[i];
			std::vector<int> &v = m[where[i]];
			struct rlist *h = &heads[where[i]];
			for (; !rlist_entry_is_head(x, h, link); x = rlist_next_entry(x, link)) {
				CHECK(at < v.size() && x == &items[v[at]], op, "wrong element");
				at++;
			}
			CHECK(at == v.size(), op, "ends early");
			break;
		}
		case 15: {
			/* a link is a list too: an element moved out with its followers */
			int i = pick_free(s);
			if (i < 0)
				continue;
			op = "add to a single element";
			CHECK(rlist_empty(&items[i].link), op, "removed element is linked");
			rlist_add_tail(&heads[k], &items[i].link);
			put(i, k, m[k].size());
			break;
		}
		}
		check(op);
	}
	if (big_change && safe_removed)
		s.nontrivial();
	if (big_change) COUNT("case with a splice, cut or swap of 3 or more");
	if (safe_removed) COUNT("case removing in the middle of a safe traversal");
}
