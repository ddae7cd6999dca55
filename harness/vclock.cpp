#include "vclock.hpp"
#include "vp.hpp"
#include <ctime>
#include <cerrno>
#include <sched.h>

namespace vclock
{
	// 2023-11-14, a multiple of one second
	static constexpr int64_t BASE = 1700000000ll * 1000000000ll;
	static int64_t g_now = 0, g_tick = 0;
	static uint64_t g_spins = 0;
	static constexpr uint64_t SPIN_LIMIT = 40000;

	// the random back-off of the library: a function of the case
	static uint32_t g_rand = 0;
	void seed_rand(uint32_t s) { g_rand = s; }
	void reset() { g_now = 0; g_tick = 0; g_spins = 0; g_rand = 0; }
	int64_t now_ns() { return g_now; }
	void advance_ns(int64_t d) { g_now += d; g_spins = 0; }
	void set_ns(int64_t t) { if (t > g_now) g_now = t; g_spins = 0; }
	void set_tick_ns(int64_t d) { g_tick = d; }
	uint64_t spins() { return g_spins; }
	std::chrono::system_clock::time_point base() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(BASE)); }
	static int64_t read() { int64_t v = g_now; g_now += g_tick; return v; }
	static void spin()
	{
		if (++g_spins > SPIN_LIMIT && vp::current)
			vp::current->fail("the only thread waits for ever inside the library (a lock it already holds, or a wait nobody can end)");
	}
}

#ifndef VP_NO_SPIN_HOOKS
extern "C" int sched_yield() noexcept { vclock::spin(); return 0; }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { vclock::spin(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { vclock::spin(); return 0; }
#endif

namespace std
{
	namespace chrono
	{
		inline namespace _V2
		{
			system_clock::time_point system_clock::now() noexcept { return time_point(duration(vclock::BASE + vclock::read())); }
			steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vclock::BASE + vclock::read())); }
		}
	}
}
extern "C" int rand() noexcept { vclock::g_rand = vclock::g_rand * 1664525u + 1013904223u; return (int)(vclock::g_rand >> 8) & 0x7fffff; }
