// Virtual time: std::chrono clocks, sleeping and yielding are replaced at link time in the check's
// executable (no change to librf). Time only moves when the case moves it.
#pragma once
#include <cstdint>
#include <chrono>
namespace vclock
{
	void seed_rand(uint32_t s);			// of rand(), which the library's back-off uses
	void reset();						// back to the base instant
	int64_t now_ns();					// since the base instant
	void advance_ns(int64_t d);
	void set_ns(int64_t t);
	// every read of the clock additionally advances it by this much (models a clock that ticks)
	void set_tick_ns(int64_t d);
	// called by the replaced sched_yield/nanosleep; returns number of calls since reset
	uint64_t spins();
	std::chrono::system_clock::time_point base();
}
