// Shared helpers of the checks that run under controlled threads.
#pragma once
#include "vp.hpp"
#include "dct.hpp"
#include "vclock.hpp"
#include <librf/librf.h>
#include <vector>
#include <memory>
#include <functional>
#include <string>
#include <algorithm>
#include <map>

namespace dx
{
	using vp::Case;

	// data handed from thread to thread: its accesses must be ordered by the library
	struct Payload
	{
		int a = 0, b = 0;
		Payload() = default;
		explicit Payload(int v) { dct::watch(this, sizeof(*this)); a = v; b = ~v; }
		~Payload() { a = b = -77; dct::unwatch(this); }
		int get() const { int x = a, y = b; if (x != ~y) vp::current->fail("a value handed over is torn or dead (%d/%d)", x, y); return x; }
		Payload(const Payload&) = delete;
	};
	using PayloadPtr = std::unique_ptr<Payload>;

	// a value protected by a lock
	struct Guarded
	{
		int v = 0;
		Guarded() { dct::watch(this, sizeof(*this)); }
		~Guarded() { dct::unwatch(this); }
	};

	// one thread with its own scheduler: starts what 'setup' starts, then runs until nothing happens any more
	inline std::function<void()> scheduler_thread(std::function<void(librf::scheduler_t&)> setup, librf::scheduler_t** publish = nullptr)
	{
		return [setup = std::move(setup), publish]
		{
			librf::local_scheduler_t ls;
			librf::scheduler_t* s = librf::this_scheduler();
			if (publish) *publish = s;
			setup(*s);
			for (;;)
			{
				bool w = s->run_one_batch();
				if (dct::idle(w)) break;
			}
		};
	}

	struct Heap
	{	// the heap of one case; everything must be released at the end
		int64_t before;
		Heap() { dct_arena::begin(); before = vp::live_allocs(); }
		void verify(Case& c) { int64_t n = vp::live_allocs() - before; c.check(n == 0, "%lld heap block(s) not released at the end (leaked coroutine, state or value)", (long long)n); }
		~Heap() { dct_arena::end(); }
	};
}
