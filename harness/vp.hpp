// Property-based testing engine used by every check in /verif.
//
// * every random decision of a case (inputs, operation order, virtual time, thread schedule) is one
//   draw() from a recorded choice sequence; a case is a pure function of (code, choice sequence);
// * cases run inside forked workers: an assert, a sanitizer report, a crash, a hang or an explicit
//   fail() ends the worker, and the parent reads the choices of the failing case from shared memory;
// * a failure is confirmed three times in fresh processes, then shrunk (delete / zero / lower choices),
//   then written out as the replay file;
// * new cases are either fresh random sequences or mutations of sequences that reached new
//   (edge, hit count) features of the instrumented code (coverage-guided part).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>

namespace vp
{
	constexpr size_t MAX_CHOICES = 1 << 15;
	constexpr size_t LOG_CAP = 1 << 17;
	constexpr size_t MSG_CAP = 4096;

	struct Case
	{
		// a choice in [0, bound)
		uint64_t draw(uint64_t bound);
		// inclusive range
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
		bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }	// 0 => false: shrinks to "no"
		// weighted choice, shrinks to index 0
		size_t weighted(std::initializer_list<unsigned> w);
		template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
		// small-biased size
		size_t size(size_t lo, size_t hi);
		// raw choice used by the scheduler: geometric(1/mean)
		uint32_t geometric(uint32_t mean);

		// readable trace (hashed: identity of the case for "distinct" counting)
		void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
		// trace that is not part of the identity of the case
		void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
		// the case violates the property: never returns
		[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
		void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
		// classification counters (distribution reported in the evidence)
		void label(const char* name, uint64_t n = 1);
		// the case satisfies the non-triviality rule of the check
		void nontrivial() { nontrivial_ = true; }
		bool overrun() const;

		bool nontrivial_ = false;
		uint64_t hash_ = 0;
	};

	extern Case* current;	// the case being run (one at a time)

	struct Check
	{
		const char* id;
		const char* rule;
		void (*run)(Case&);			// one case
		uint64_t quick_cases;
		uint64_t thorough_cases;
		bool coverage = true;		// coverage-guided mutation
		unsigned max_len = 4096;	// choice budget of a case; beyond it every choice is 0
		void (*warmup)() = nullptr;
		unsigned cpu_limit_s = 20;
	};

	// several sub-checks may decide one property; each is run in turn with its own counts
	void add_check(const Check& c);
	int engine_main(int argc, char** argv);

	struct Reg { Reg(const Check& c) { add_check(c); } };

	// live heap allocations (operator new) of this process
	int64_t live_allocs();
	int64_t live_bytes();
	extern int worker_slot;		// number of this worker process, -1 in others

	inline void expect(bool ok, const char* what) { if (!ok) current->fail("%s", what); }
}

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_CHECK(...) static ::vp::Reg VP_CAT(vp_reg_, __LINE__)(::vp::Check __VA_ARGS__)
