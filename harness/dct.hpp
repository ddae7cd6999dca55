// Deterministic controlled threads.
//
// The check's translation units and librf's sources are compiled with -fsanitize=thread, but linked with
// the runtime in dct.cpp instead of ThreadSanitizer's: every atomic operation, every plain memory access,
// every pthread mutex operation, sched_yield and nanosleep becomes a scheduling point. Exactly one thread
// runs at a time; which one runs next is drawn from the choice sequence of the case. A case is therefore
// one program together with one schedule, and it replays exactly.
#pragma once
#include "vp.hpp"
#include <functional>
#include <vector>

namespace dct
{
	struct Options
	{
		bool plain_points = true;				// plain accesses are scheduling points too
		bool races = true;						// report accesses to heap memory that no happens-before edge orders
		uint64_t max_points = 2000000;			// beyond this: no progress
		std::function<bool()> on_quiescent;		// all threads idle: true if it made new work (e.g. moved time)
	};
	// runs the bodies concurrently; returns when all of them returned
	void run(vp::Case& c, std::vector<std::function<void()>> bodies, Options o = {});
	int self();									// index of the body, -1 outside
	void point();
	void yield();
	// loop helper of a thread that waits for work. worked: this round did something.
	// true: every thread has been idle for several whole rounds (nothing will happen any more)
	bool idle(bool worked);
	// memory handed over by the library: unordered accesses to it by two threads are reported
	void watch(const void* p, size_t n);
	void unwatch(const void* p);
	// an access to watched memory (also done by instrumented code itself)
	uint64_t points();
	uint64_t switches();
	// what a thread did before give(p) is ordered before what another does after take(p) (harness bookkeeping that hands objects over)
	void give(const void* p);
	void take(const void* p);
	// run f without scheduling points (harness bookkeeping)
	struct Atomic { Atomic(); ~Atomic(); };
}
// heap of a case: an arena whose freed blocks stay poisoned until the case ends
namespace dct_arena { void begin(); void end(); }
