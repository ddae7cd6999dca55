// Shared helpers of the single-threaded checks.
#pragma once
#include "vp.hpp"
#include "vclock.hpp"
#include <librf/librf.h>
#include <string>
#include <vector>
#include <memory>
#include <deque>
#include <map>
#include <set>
#include <optional>
#include <algorithm>
#include <thread>

namespace hx
{
	using vp::Case;

	inline librf::scheduler_t& sch() { return *librf::this_scheduler(); }

	// a second scheduler, which the case drives itself
	inline librf::scheduler_t& sch2()
	{
		static librf::scheduler_t* other = [] { librf::scheduler_t* p = nullptr; std::thread([&] { new librf::local_scheduler_t; p = librf::this_scheduler(); }).join(); return p; }();
		return *other;
	}

	// a value whose instances are counted; copying can be forbidden
	struct Counted
	{
		static inline int64_t live = 0;
		static inline int64_t made = 0;
		int id = -1;
		uint64_t guard = GOOD;
		static constexpr uint64_t GOOD = 0x600DF00D600DF00Dull, DEAD = 0xDEADDEADDEADDEADull;
		Counted() { ++live; ++made; }
		explicit Counted(int i) : id(i) { ++live; ++made; }
		Counted(const Counted& o) : id(o.id) { o.ok(); ++live; ++made; }
		Counted(Counted&& o) noexcept : id(o.id) { o.ok(); o.id = -2; ++live; ++made; }
		Counted& operator=(const Counted& o) { ok(); o.ok(); id = o.id; return *this; }
		Counted& operator=(Counted&& o) noexcept { ok(); o.ok(); if (this != &o) { id = o.id; o.id = -2; } return *this; }
		~Counted() { ok(); guard = DEAD; --live; }
		void ok() const { if (guard != GOOD && vp::current) vp::current->fail("a value object is used outside of its lifetime (guard %llx)", (unsigned long long)guard); }
	};
	struct MoveOnly : Counted
	{
		MoveOnly() = default;
		explicit MoveOnly(int i) : Counted(i) {}
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly(MoveOnly&&) noexcept = default;
		MoveOnly& operator=(const MoveOnly&) = delete;
		MoveOnly& operator=(MoveOnly&&) noexcept = default;
	};

	template<class T> struct V { static T make(int i) { return T(i); } static int id(const T& t) { return t.id; } static const char* name() { return "counted"; } };
	template<> struct V<int> { static int make(int i) { return i; } static int id(int t) { return t; } static const char* name() { return "int"; } };
	template<> struct V<int64_t> { static int64_t make(int i) { return (int64_t)i * 0x100000001ll; } static int id(int64_t t) { return (t >> 32) == (t & 0xffffffff) ? (int)t : -99; } static const char* name() { return "int64"; } };
	template<> struct V<MoveOnly> { static MoveOnly make(int i) { return MoveOnly(i); } static int id(const MoveOnly& t) { return t.id; } static const char* name() { return "move-only"; } };
	template<> struct V<std::string>
	{	// long enough to live on the heap
		static std::string make(int i) { return "value-number-0000000000000-" + std::to_string(i); }
		static int id(const std::string& t) { if (t.size() < 27 || t.compare(0, 27, "value-number-0000000000000-")) return -99; return atoi(t.c_str() + 27); }
		static const char* name() { return "string"; }
	};
	template<> struct V<std::unique_ptr<int>> { static std::unique_ptr<int> make(int i) { return std::make_unique<int>(i); } static int id(const std::unique_ptr<int>& t) { return t ? *t : -98; } static const char* name() { return "unique_ptr"; } };
	template<> struct V<std::shared_ptr<int>> { static std::shared_ptr<int> make(int i) { return std::make_shared<int>(i); } static int id(const std::shared_ptr<int>& t) { return t ? *t : -98; } static const char* name() { return "shared_ptr"; } };
	struct Pod { int a; int b; };
	template<> struct V<Pod> { static Pod make(int i) { return Pod{ i, ~i }; } static int id(const Pod& t) { return t.a == ~t.b ? t.a : -99; } static const char* name() { return "pod"; } };

	// drops the spare capacity the (empty) timer managers of the process keep
	inline void drop_spare() { sch().timer()->clear(); sch2().timer()->clear(); }

	// resources held before a case / after a case
	struct Balance
	{
		int64_t allocs = vp::live_allocs(), counted = Counted::live;
		void verify(Case& c, const char* when)
		{
			c.check(Counted::live == counted, "%s: %lld value object(s) not destroyed exactly once", when, (long long)(Counted::live - counted));
			int64_t a = vp::live_allocs();
			c.check(a == allocs, "%s: %lld heap block(s) not released (coroutine frame, state or value leaked)", when, (long long)(a - allocs));
		}
	};

	// run until nothing is runnable now (time does not move)
	inline void settle(Case& c, librf::scheduler_t& s, int limit = 20000)
	{
		while (s.run_one_batch())
			if (--limit <= 0) c.fail("the scheduler keeps running tasks without end although every task is blocked or done");
	}
	inline void settle(Case& c) { settle(c, sch()); }

	// grows the containers the process keeps for ever, so that they do not count as leaks
	inline void warm()
	{
		vclock::reset();
		for (int r = 0; r < 4; ++r)
		{
			auto& s = r & 1 ? sch2() : sch();
			for (int i = 0; i < 3000; ++i)
				s + []() -> librf::future_t<> { co_await librf::yield(); }();
			while (s.run_one_batch()) {}
		}
	}
}
