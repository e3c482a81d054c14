/* C03: quota under a controlled scheduler. */
#include "pbt.h"
#include "fibers.h"
#include "linear.h"
#include "conc_shim.h"

const char *case_rule = "a case is a quota, 2-4 threads with short programs of use/release/"
	"set/read, and a schedule with switches at single memory accesses; non-trivial: a thread "
	"was preempted inside an operation that another thread's successful update overlapped";
unsigned case_max_ops = 24;

enum { USE, RELEASE, SET, TOTAL, USED, GET };
static const char *names[] = {"use", "release", "set", "total", "used", "get"};

struct QState {
	uint64_t total, used;
	static uint64_t un(uint64_t x) { return (x + 1023) / 1024; }
	std::string key() const { return std::to_string(total) + "/" + std::to_string(used); }
	bool apply(const HOp &o)
	{
		switch (o.kind) {
		case USE:
			if (used + un(o.a) > total)
				return o.r == (uint64_t)-1;
			if (o.r != un(o.a) * 1024)
				return false;
			used += un(o.a);
			return true;
		case RELEASE:
			if (o.r != un(o.a) * 1024 || used < un(o.a))
				return false;
			used -= un(o.a);
			return true;
		case SET:
			if (un(o.a) < used)
				return o.r == (uint64_t)-1;
			if (o.r != un(o.a) * 1024)
				return false;
			total = un(o.a);
			return true;
		case TOTAL: return o.r == total * 1024;
		case USED: return o.r == used * 1024;
		default: return o.r == total * 1024 && o.r2 == used * 1024;
		}
	}
};

void
run_case(Src &s)
{
	static struct quota q;
	struct Op { int kind; uint64_t a; };
	unsigned nt = 2 + s.draw(3);
	uint64_t total = 1 + s.draw(12), used0 = s.draw(total + 1);
	bool big = s.chance(1, 8);
	uint64_t base = big ? (uint64_t)UINT32_MAX - 12 : 0;
	/* in the big mode everything is near the end of the range */
	quota_init(&q, (base + total) * 1024);
	if (base + used0)
		quota_use(&q, (base + used0) * 1024);
	QState init = {base + total, base + used0};
	sched_weak_fail_p = s.pick({0, 20, 80});
	std::vector<std::vector<Op>> prog(nt);
	unsigned n = 0;
	TR("total=%llu used=%llu threads=%u", (unsigned long long)init.total,
	   (unsigned long long)init.used, nt);
	/* one thread sees values come back: others change them and restore them */
	bool aba = s.chance(1, 4);
	if (aba) {
		nt = 2;
		prog.resize(nt);
	}
	while (s.more() && n < 20) {
		unsigned t = s.draw(nt);
		Op o;
		if (aba) {
			if (n > 8)
				break;
			Op back;
			if (s.draw(2)) {
				o = {SET, (base + total + 1 + s.draw(3)) * 1024};
				if (s.draw(3) == 2 && total > used0)
					o.a = (base + used0 + s.draw(total - used0)) * 1024;
				o.a = std::min<uint64_t>(o.a, QUOTA_MAX);
				back = {SET, (base + total) * 1024};
			} else {
				o = {USE, 1024 * (1 + s.draw(2))};
				back = {RELEASE, o.a};
				if (s.draw(2))
					std::swap(o, back);
			}
			if (n == 0)
				prog[0].push_back(s.draw(2) ? o : Op{s.draw(2) ? USE : RELEASE, 1024});
			prog[1].push_back(o);
			prog[1].push_back(back);
			TR("  %s %llu and back%s", names[o.kind], (unsigned long long)o.a, n ? "" :
			   (std::string("; thread 0: ") + names[prog[0][0].kind]).c_str());
			n += 2;
			continue;
		}
		o.kind = s.weighted({6, 5, 3, 1, 1, 1});
		o.a = 0;
		if (o.kind == USE || o.kind == RELEASE)
			o.a = s.draw(3) ? 1024 * (1 + s.draw(4)) : 1 + s.draw(6000);
		if (o.kind == SET)
			o.a = (base + s.draw(14)) * 1024 + (s.draw(3) ? 0 : s.draw(1024));
		if (o.kind == SET && o.a > QUOTA_MAX)
			o.a = QUOTA_MAX;
		prog[t].push_back(o);
		TR("  thread %u: %s %llu", t, names[o.kind], (unsigned long long)o.a);
		n++;
	}
	std::vector<HOp> hist;
	std::vector<std::function<void()>> th;
	/* amounts each thread may release: split the initial usage */
	std::vector<uint64_t> own(nt, 0);
	for (uint64_t i = 0; i < used0; i++)
		own[i % nt]++;
	for (unsigned t = 0; t < nt; t++) {
		th.push_back([&, t] {
			for (Op o : prog[t]) {
				HOp h;
				h.thread = t;
				h.kind = o.kind;
				h.a = o.a;
				h.r = h.r2 = 0;
				if (o.kind == RELEASE) {
					if (own[t] == 0)
						continue;
					if (QState::un(h.a) > own[t])
						h.a = own[t] * 1024;
					own[t] -= QState::un(h.a);
				}
				h.inv = sched_clock();
				size_t x, y;
				switch (o.kind) {
				case USE: h.r = cs_quota_use(&q, h.a); break;
				case RELEASE: h.r = cs_quota_release(&q, h.a); break;
				case SET: h.r = cs_quota_set(&q, h.a); break;
				case TOTAL: h.r = cs_quota_total(&q); break;
				case USED: h.r = cs_quota_used(&q); break;
				default:
					cs_quota_get(&q, &x, &y);
					h.r = x;
					h.r2 = y;
				}
				h.res = sched_clock();
				if (o.kind == USE && h.r != (uint64_t)-1)
					own[t] += h.r / 1024;
				TR("  t%u %s %llu -> %lld [%llu..%llu]", t, names[o.kind],
				   (unsigned long long)h.a, (long long)h.r,
				   (unsigned long long)h.inv, (unsigned long long)h.res);
				hist.push_back(h);
			}
		});
	}
	sched_on_step = [&] {
		size_t t, u;
		quota_get_total_and_used(&q, &t, &u);
		CHECK(u <= t, "overdrawn", "usage %zu above the limit %zu", u, t);
	};
	sched_run(s, th);
	sched_on_step = nullptr;
	/* final state as one more read */
	HOp f = {};
	f.kind = GET;
	size_t t, u;
	quota_get_total_and_used(&q, &t, &u);
	f.r = t;
	f.r2 = u;
	f.inv = f.res = UINT64_MAX - 1;
	CHECK(u <= t, "overdrawn", "usage %zu above the limit %zu", u, t);
	uint64_t exp = base;
	for (auto x : own)
		exp += x;
	CHECK(u == exp * 1024, "lost-update", "final usage %zu, granted minus released is %llu", u,
	      (unsigned long long)exp * 1024);
	bool overlap = false;
	for (auto &a : hist)
		for (auto &b : hist)
			if (a.thread != b.thread && a.kind <= SET && b.kind <= SET &&
			    a.inv < b.inv && b.res < a.res && b.r != (uint64_t)-1)
				overlap = true;
	hist.push_back(f);
	CHECK(linearizable(hist, init), "linearizability",
	      "no sequential order of the operations explains their results (final %zu/%zu)", u, t);
	if (overlap)
		s.nontrivial();
	if (overlap) COUNT("case with an update inside another operation");
	if (aba && overlap) COUNT("values change and come back inside an operation");
	if (big) COUNT("case at the top of the range");
	pbt_count("preemptions", sched_switches);
}
