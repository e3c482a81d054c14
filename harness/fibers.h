/*
 * A controlled scheduler. The code under test is compiled with
 * -fsanitize=thread but linked with the runtime of fibers.cc, in which every
 * memory access and atomic operation is a point where the choice source may
 * switch to another thread (fiber). Executions are sequentially consistent
 * interleavings at single-access granularity.
 */
#pragma once
#include <functional>
#include <vector>
#include "pbt.h"

void sched_run(Src &s, std::vector<std::function<void()>> threads);
/* Fiber id of the caller, -1 outside. */
int sched_self();
/* Steps (accesses) so far: the clock of the history. */
uint64_t sched_clock();
/* Called after every step, with yields disabled. */
extern std::function<void()> sched_on_step;
extern unsigned sched_weak_fail_p;	/* p/256 spurious failure of weak CAS */
extern uint64_t sched_switches;		/* preemptions in the last run */
extern uint64_t sched_steps;
/* Record the order of preemption for evidence. */
