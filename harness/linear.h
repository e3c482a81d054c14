/* Linearizability of a small history (Wing & Gong search with memo). */
#pragma once
#include <cstdint>
#include <vector>
#include <set>
#include <string>
#include <functional>

struct HOp {
	int thread;
	int kind;
	uint64_t a, r, r2;	/* argument, results */
	uint64_t inv, res;	/* clock at call and return */
	std::string str;
};

/* State must have: bool apply(const HOp &) (false if op cannot have this
 * result), std::string key() const, copy. */
template <class State>
static bool
linearizable(const std::vector<HOp> &h, const State &init)
{
	std::set<std::pair<uint64_t, std::string>> seen;
	std::function<bool(uint64_t, const State &)> go = [&](uint64_t done, const State &st) -> bool {
		if (done == (h.size() == 64 ? ~0ULL : (1ULL << h.size()) - 1))
			return true;
		if (!seen.insert({done, st.key()}).second)
			return false;
		uint64_t min_res = UINT64_MAX;
		for (size_t i = 0; i < h.size(); i++)
			if (!(done >> i & 1) && h[i].res < min_res)
				min_res = h[i].res;
		for (size_t i = 0; i < h.size(); i++) {
			/* can be next: no pending op returned before it was called */
			if ((done >> i & 1) || h[i].inv > min_res)
				continue;
			State s2 = st;
			if (s2.apply(h[i]) && go(done | 1ULL << i, s2))
				return true;
		}
		return false;
	};
	return go(0, init);
}
