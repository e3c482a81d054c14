/* C05: lf_lifo under a controlled scheduler, and long sequential histories. */
#include "pbt.h"
#include "fibers.h"
#include "linear.h"
#include "conc_shim.h"
#include <sys/mman.h>
#include <deque>

const char *case_rule = "a case is 2-4 threads pushing and popping up to 8 elements under a "
	"generated schedule (or, rarely, a sequential history of up to 70000 operations); "
	"non-trivial: a successful push or pop of another thread happened inside a pop (or the "
	"sequential history wrapped the 16-bit counter)";
unsigned case_max_ops = 26;

enum { PUSH, POP, EMPTY };
enum { NELEM = 8, ESIZE = 65536 };

struct LState {
	std::string st;
	std::string key() const { return st; }
	bool apply(const HOp &o)
	{
		switch (o.kind) {
		case PUSH: st.push_back((char)o.a); return true;
		case POP:
			if (st.empty())
				return o.r == 0;
			if (o.r != (uint64_t)(unsigned char)st.back())
				return false;
			st.pop_back();
			return true;
		default: return o.r == (uint64_t)st.empty();
		}
	}
};

static char *elems;

static int
elem_no(void *p)
{
	if (p == NULL)
		return 0;
	uintptr_t o = (char *)p - elems;
	CHECK((char *)p >= elems && o % ESIZE == 0 && o / ESIZE < NELEM, "invented",
	      "pop returned %p which was never pushed", p);
	return 1 + o / ESIZE;
}

static void
sequential(Src &s)
{
	struct lf_lifo h;
	struct lifo l;
	lf_lifo_init(&h);
	lifo_init(&l);
	std::vector<int> m, free_;
	for (int i = 0; i < NELEM; i++)
		free_.push_back(i);
	/* bulk cycles to move the counter, then detailed operations */
	uint64_t bulk = s.draw(4) ? s.draw(200) : s.pick({65530, 65535, 65536, 65540, 131070});
	for (uint64_t i = 0; i < bulk; i++) {
		cs_lf_push(&h, elems + (i % NELEM) * ESIZE);
		void *p = cs_lf_pop(&h);
		CHECK(p == elems + (i % NELEM) * ESIZE, "sequential", "cycle %llu: popped %p",
		      (unsigned long long)i, p);
		if (i % 97 == 0)
			CHECK(cs_lf_empty(&h), "empty", "not empty after cycle %llu of push and pop",
			      (unsigned long long)i);
	}
	TR("bulk %llu", (unsigned long long)bulk);
	/* plain lifo uses its own memory */
	static char lmem[NELEM][64];
	std::vector<int> lm;
	while (s.more()) {
		int k = s.draw(3);
		if (k == 0 && !free_.empty()) {
			int e = free_[s.draw(free_.size())];
			for (size_t i = 0; i < free_.size(); i++)
				if (free_[i] == e) {
					free_.erase(free_.begin() + i);
					break;
				}
			TR("push %d", e);
			cs_lf_push(&h, elems + e * ESIZE);
			lifo_push(&l, lmem[e]);
			m.push_back(e);
		} else if (k == 1) {
			void *p = cs_lf_pop(&h);
			void *peek = lifo_peek(&l);
			void *p2 = lifo_pop(&l);
			TR("pop -> %d", elem_no(p) - 1);
			CHECK(peek == p2, "lifo", "peek %p pop %p", peek, p2);
			if (m.empty()) {
				CHECK(p == NULL && p2 == NULL, "sequential", "pop of an empty stack gives %p %p", p, p2);
			} else {
				CHECK(p == elems + m.back() * ESIZE, "sequential", "pop gives %d, expected %d",
				      elem_no(p) - 1, m.back());
				CHECK(p2 == lmem[m.back()], "lifo", "plain lifo pop wrong");
				free_.push_back(m.back());
				m.pop_back();
			}
		}
		CHECK(!!cs_lf_empty(&h) == m.empty(), "empty", "lf_lifo_is_empty is %d with %zu elements",
		      cs_lf_empty(&h), m.size());
		CHECK(lifo_is_empty(&l) == m.empty(), "lifo", "lifo_is_empty wrong");
	}
	if (bulk > 65000) {
		s.nontrivial();
		COUNT("sequential history wrapping the counter");
	}
}

void
run_case(Src &s)
{
	if (!elems) {
		char *p = (char *)mmap(NULL, ESIZE * (NELEM + 1), PROT_READ | PROT_WRITE,
				       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		elems = (char *)(((uintptr_t)p + ESIZE - 1) & ~(uintptr_t)(ESIZE - 1));
	}
	if (s.chance(1, 80)) {
		sequential(s);
		return;
	}
	static struct lf_lifo head;
	lf_lifo_init(&head);
	unsigned nt = 2 + s.draw(3);
	sched_weak_fail_p = s.pick({0, 20, 80});
	LState init;
	/* move the counter near its wrap sometimes */
	unsigned pre = s.draw(32) ? s.draw(3) : 65534 + s.draw(4);
	for (unsigned i = 0; i < pre; i++) {
		cs_lf_push(&head, elems);
		cs_lf_pop(&head);
	}
	unsigned nelem = 1 + s.draw(NELEM - 1);
	unsigned nstack = s.draw(nelem + 1);
	std::vector<std::deque<int>> own(nt);
	for (unsigned i = 0; i < nelem; i++) {
		if (i < nstack) {
			cs_lf_push(&head, elems + i * ESIZE);
			init.st.push_back((char)(i + 1));
		} else {
			own[s.draw(nt)].push_back(i);
		}
	}
	TR("threads=%u initial stack=%u elements=%u cycles before=%u", nt, nstack, nelem, pre);
	struct Op { int kind; bool fifo; };
	std::vector<std::vector<Op>> prog(nt);
	unsigned n = 0;
	while (s.more() && n < 22) {
		unsigned t = s.draw(nt);
		Op o = {(int)s.weighted({5, 5, 1}), s.draw(2) != 0};
		prog[t].push_back(o);
		n++;
	}
	std::vector<HOp> hist;
	std::vector<int> in_hand(NELEM, 0);
	std::vector<std::function<void()>> th;
	for (unsigned t = 0; t < nt; t++)
		for (int e : own[t])
			in_hand[e] = 1;
	for (unsigned t = 0; t < nt; t++) {
		th.push_back([&, t] {
			for (Op o : prog[t]) {
				HOp h = {};
				h.thread = t;
				h.kind = o.kind;
				if (o.kind == PUSH) {
					if (own[t].empty())
						continue;
					int e;
					if (o.fifo) {
						e = own[t].front();
						own[t].pop_front();
					} else {
						e = own[t].back();
						own[t].pop_back();
					}
					h.a = e + 1;
					in_hand[e] = 0;
					h.inv = sched_clock();
					cs_lf_push(&head, elems + e * ESIZE);
					h.res = sched_clock();
				} else if (o.kind == POP) {
					h.inv = sched_clock();
					void *p = cs_lf_pop(&head);
					h.res = sched_clock();
					h.r = elem_no(p);
					if (p) {
						int e = h.r - 1;
						CHECK(!in_hand[e], "duplicate", "thread %u popped element %d "
						      "which is already popped", t, e);
						in_hand[e] = 1;
						own[t].push_back(e);
						/* the owner uses the memory */
						cs_scribble(p, (t + 1) * 0x0101010101010101UL);
					}
				} else {
					h.inv = sched_clock();
					h.r = !!cs_lf_empty(&head);
					h.res = sched_clock();
				}
				TR("  t%u %s %d -> %d [%llu..%llu]", t,
				   o.kind == PUSH ? "push" : o.kind == POP ? "pop" : "empty",
				   (int)h.a - 1, (int)h.r - 1, (unsigned long long)h.inv,
				   (unsigned long long)h.res);
				hist.push_back(h);
			}
		});
	}
	sched_run(s, th);
	bool overlap = false;
	for (auto &a : hist)
		for (auto &b : hist)
			if (a.thread != b.thread && a.kind == POP && b.kind != EMPTY &&
			    a.inv < b.inv && b.res < a.res && (b.kind == PUSH || b.r))
				overlap = true;
	/* drain: what is left must be exactly what nobody holds */
	uint64_t clk = sched_clock() + 1;
	for (;;) {
		HOp h = {};
		h.kind = POP;
		h.inv = clk++;
		void *p = cs_lf_pop(&head);
		h.res = clk++;
		h.r = elem_no(p);
		hist.push_back(h);
		if (!p)
			break;
		int e = h.r - 1;
		CHECK(!in_hand[e], "duplicate", "element %d is on the stack although a thread has it", e);
		in_hand[e] = 1;
	}
	for (unsigned i = 0; i < nelem; i++)
		CHECK(in_hand[i], "lost", "element %u is neither on the stack nor with a thread", i);
	CHECK(cs_lf_empty(&head), "empty", "drained stack is not empty");
	CHECK(linearizable(hist, init), "linearizability",
	      "no sequential order of the operations explains their results");
	if (overlap) {
		s.nontrivial();
		COUNT("case with an update inside a pop");
	}
	pbt_count("preemptions", sched_switches);
}
