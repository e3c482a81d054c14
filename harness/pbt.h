/*
 * A small property-based testing engine.
 *
 * A property is a function run_case(Src &) which draws all of its random
 * choices from Src and reports a broken property with FAIL(). The engine
 * records the draws ("choice log"), runs cases in forked workers (so a crash,
 * an assertion, a sanitizer report or an endless loop in the code under test
 * is a failure like any other), shrinks a failing choice log by deleting whole
 * operations, chunks and lowering values, replays the result three times and
 * writes it to a replay file.
 */
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <initializer_list>
#include <string>
#include <vector>

struct Src {
	/* Draw an integer in [0, n). 0 is the simplest value. */
	uint64_t draw(uint64_t n);
	/* One more operation? Also marks an operation boundary. */
	bool more();
	/* [lo, hi] */
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
	/* true with probability num/den; 0 (false) is simplest. */
	bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
	/* Log-uniform in [0, max]. */
	uint64_t logsize(uint64_t max);
	/* Index of a weighted alternative. */
	unsigned weighted(std::initializer_list<unsigned> w);
	template <class T> T pick(std::initializer_list<T> l)
	{
		return l.begin()[draw(l.size())];
	}
	/* Size in [lo, hi]: mixes log-uniform, uniform, and values near the
	 * given points of interest. */
	uint64_t nearby(uint64_t lo, uint64_t hi, std::initializer_list<uint64_t> pts);

	/* Mark the current case as non-trivial by the property's rule. */
	void nontrivial() { is_nontrivial = true; }

	/* Number of operations this case is to have (hint for more()). */
	bool is_nontrivial = false;
	bool tracing = false;
	std::string trace;
	uint64_t salt = 0;

	/* engine internals */
	uint64_t rng = 0;
	bool replay = false;
	const uint64_t *in = nullptr;
	size_t n_in = 0, pos = 0;
	uint64_t ops_left = 0;
	uint64_t nops = 0;
	/* guided search: operations of earlier cases, then fresh choices */
	bool hybrid = false;
	const struct Seg_ { uint32_t from, to; } *seg = nullptr;
	size_t nseg = 0, iseg = 0;
	uint64_t next();
};

/* The property. Provided by each harness. */
void run_case(Src &s);
/* Short description of what makes a case non-trivial. */
extern const char *case_rule;
/* Upper bound of operations per case at scale 1. */
extern unsigned case_max_ops;

/* Report a violation; does not return. sig identifies the kind of failure. */
[[noreturn]] void pbt_fail(const char *sig, const char *file, int line,
			   const char *fmt, ...)
	__attribute__((format(printf, 4, 5)));
#define FAIL(sig, ...) pbt_fail(sig, __FILE__, __LINE__, __VA_ARGS__)
#define CHECK(cond, sig, ...) do { if (!(cond)) FAIL(sig, __VA_ARGS__); } while (0)
/* Abandon the current case quietly, counting it under class name. */

/* Count a class of cases/operations for the evidence. */
void pbt_count(const char *name, uint64_t n = 1);
#define COUNT(name) pbt_count(name)

extern Src *cur_src;
void pbt_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define TR(...) do { if (cur_src && cur_src->tracing) pbt_trace(__VA_ARGS__); } while (0)
/* Extra scale: 1 quick, >1 thorough. */
extern unsigned pbt_scale;
