// C06: coroutine mutexes shared by coroutines of several threads and plain threads, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;

namespace
{
	enum { GUARD, OP, MANUAL, TRY, TIMED, NEST, THROW, KINDS };
	const char* kname[] = { "guard", "co_await mutex", "manual", "try", "timed", "in a child", "throwing" };
	struct Sec { int kind = 0, m = 0, yields = 0, again = 0, ms = 0; bool inner = false, child_timed = false; };
	struct Owner { int id, thread; bool plain; std::vector<Sec> secs; };
	struct boom {};

	struct World
	{
		Case& c; mutex_t mtx[2]; int inside[2] = {}; int who[2] = { -1, -1 }; Guarded data[2]; int expected[2] = {}; int unfinished = 0, waits_failed = 0, waits_ok = 0, contended = 0;
		World(Case& c_) : c(c_) {}
		void enter(int m, int id)
		{
			{ bool l = mtx[m].is_locked(); c.check(l, "mutex %d is free although owner %d holds it", m, id); }
			{ dct::Atomic at; c.check(inside[m] == 0, "owner %d is inside mutex %d while owner %d is", id, m, who[m]); ++inside[m]; who[m] = id; ++expected[m]; }
			data[m].v = data[m].v + 1;
		}
		void leave(int m, int id)
		{
			{ bool l = mtx[m].is_locked(); c.check(l, "mutex %d is free although owner %d still holds it", m, id); }
			data[m].v = data[m].v + 1;
			dct::Atomic at; c.check(inside[m] == 1 && who[m] == id, "mutex %d: another owner came in while %d was inside", m, id); --inside[m]; who[m] = -1; ++expected[m];
		}
		void done() { dct::Atomic at; --unfinished; }
		void failed(int64_t before, int ms)
		{
			dct::Atomic at; ++waits_failed; int64_t now = vclock::now_ns();
			c.check(now >= before + ms * 1000000ll, "a timed lock gave up after %lld us, before its %d ms were over", (long long)(now - before) / 1000, ms);
		}
	};

	future_t<> stay(World& w, const Owner& o, const Sec& s);
	future_t<bool> child(World& w, const Owner& o, const Sec& s)
	{
		mutex_t& m = w.mtx[s.m];
		if (s.child_timed)
		{
			int64_t t = vclock::now_ns();
			bool ok = co_await m.try_lock_for(std::chrono::milliseconds(s.ms));
			if (!ok) { w.failed(t, s.ms); co_return false; }
			co_await stay(w, o, s); co_await m.unlock(); co_return true;
		}
		auto g = co_await m.lock(); co_await stay(w, o, s);
		if (s.kind == THROW) throw boom{};
		co_return true;
	}
	// the protected section
	future_t<> stay(World& w, const Owner& o, const Sec& s)
	{
		mutex_t& m = w.mtx[s.m];
		w.enter(s.m, o.id);
		for (int i = 0; i < s.yields; ++i) co_await yield();
		for (int i = 0; i < s.again; ++i)
		{	// recursion
			if (i & 1) { bool ok = co_await m.try_lock(); w.c.check(ok, "the owner %d cannot lock its own mutex again", o.id); co_await m.unlock(); }
			else { auto g = co_await m.lock(); if (s.yields) co_await yield(); }
		}
		if (s.inner && s.m == 0)
		{
			auto g = co_await w.mtx[1].lock(); w.enter(1, o.id); co_await yield(); w.leave(1, o.id);
		}
		w.leave(s.m, o.id);
	}
	future_t<> owner(World& w, const Owner& o)
	{
		for (const Sec& s : o.secs)
		{
			mutex_t& m = w.mtx[s.m];
			switch (s.kind)
			{
			case GUARD: { auto g = co_await m.lock(); co_await stay(w, o, s); if (s.again) g.unlock(); break; }
			case OP: { auto g = co_await m; co_await stay(w, o, s); break; }
			case MANUAL: co_await m.lock(adopt_manual_unlock); co_await stay(w, o, s); if (s.yields & 1) co_await m.unlock(); else m.unlock(librf_root_state()); break;
			case TRY: for (int i = 0; i < 3; ++i) { bool ok = co_await m.try_lock(); if (ok) { co_await stay(w, o, s); co_await m.unlock(); break; } co_await yield(); } break;
			case TIMED:
			{
				int64_t t = vclock::now_ns();
				bool ok = co_await m.try_lock_for(std::chrono::milliseconds(s.ms));
				if (ok) { ++w.waits_ok; co_await stay(w, o, s); co_await m.unlock(); } else w.failed(t, s.ms);
				break;
			}
			case NEST: co_await child(w, o, s); break;
			case THROW: { bool got = false; try { co_await child(w, o, s); } catch (const boom&) { got = true; } w.c.check(got || s.child_timed, "the exception of the child did not arrive"); break; }
			}
		}
		w.done();
	}
	void plain(World& w, const Owner& o)
	{
		char self;
		for (const Sec& s : o.secs)
		{
			mutex_t& m = w.mtx[s.m]; bool ok = true;
			switch (s.kind)
			{
			case TRY: ok = m.try_lock(&self); break;
			case TIMED: { int64_t t = vclock::now_ns(); ok = s.yields & 1 ? m.try_lock_until(vclock::base() + std::chrono::nanoseconds(t) + std::chrono::milliseconds(s.ms), &self) : m.try_lock_for(std::chrono::milliseconds(s.ms), &self); if (!ok) w.failed(t, s.ms); break; }
			default: m.lock(&self); break;
			}
			if (!ok) continue;
			w.enter(s.m, o.id);
			for (int i = 0; i < s.yields; ++i) dct::yield();
			for (int i = 0; i < s.again; ++i) { if (i & 1) w.c.check(m.try_lock(&self), "the plain owner cannot lock again"); else m.lock(&self); m.unlock(&self); }
			w.leave(s.m, o.id);
			m.unlock(&self);
		}
		w.done();
	}

	void run(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(1, 3), no = (int)c.range(2, 5); std::vector<Owner> owners; bool anyplain = nt == 1 || c.chance(1, 3), timed = false;
		for (int i = 0; i < no; ++i)
		{
			Owner o; o.id = i; o.plain = anyplain && (c.chance(1, 2) || (nt == 1 && i == 0)); o.thread = (int)c.draw(nt); int n = (int)c.size(1, 5);
			for (int k = 0; k < n; ++k) { Sec s; s.kind = (int)c.weighted({ 4, 1, 2, 2, 5, 2, 1 }); s.m = c.chance(1, 4); s.yields = (int)c.draw(4); s.again = (int)c.draw(3); s.ms = (int)c.size(1, 12); s.inner = c.chance(1, 4); s.child_timed = c.chance(1, 2); if (s.kind == THROW) s.child_timed = false; if (s.kind == TIMED || (s.kind == NEST && s.child_timed)) timed = true; o.secs.push_back(s); }
			owners.push_back(o);
		}
		int tick = (int)c.draw(4);
		c.log("%d scheduler threads, clock tick %d00us", nt, tick);
		int nplain = 0;
		for (auto& o : owners) { nplain += o.plain; c.log("owner %d on %s %d", o.id, o.plain ? "its own thread" : "scheduler", o.thread); for (auto& s : o.secs) c.log("  %s mutex %d, %d yields, %d again%s, %d ms%s", kname[s.kind], s.m, s.yields, s.again, s.inner ? ", inner mutex 1" : "", s.ms, s.child_timed ? " (child timed)" : ""); }
		Heap heap;
		{
			World w(c); w.unfinished = no;
			// plain waiting for a time needs a clock that runs
			vclock::set_tick_ns(tick || nplain ? std::max(tick, 1) * 100000 : 0);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back(scheduler_thread([&, t](scheduler_t& s) { for (auto& o : owners) if (!o.plain && o.thread == t) s + owner(w, o); }));
			for (auto& o : owners) if (o.plain) bodies.push_back([&w, &o] { plain(w, o); });
			int budget = 40; dct::Options op; op.on_quiescent = [&] { if (w.unfinished <= 0 || budget-- <= 0) return false; vclock::advance_ns(1000000ll * (budget < 20 ? 10 : 1)); return true; };
			dct::run(c, std::move(bodies), op);
			vclock::set_tick_ns(0);
			c.check(w.unfinished == 0, "%d owners stay blocked for ever although everybody unlocks (lost wake-up)", w.unfinished);
			for (int m = 0; m < 2; ++m) { c.check(!w.mtx[m].is_locked(), "mutex %d is still locked although every owner has ended", m); dct::Atomic at; c.check(w.data[m].v == w.expected[m], "data protected by mutex %d is %d instead of %d", m, w.data[m].v, w.expected[m]); }
			if ((nt >= 2 || nplain) && dct::switches() >= 4) c.nontrivial();
			if (nplain) c.label("plain owners", nplain);
			c.label("timed locks obtained", w.waits_ok); c.label("timed locks given up", w.waits_failed);
			(void)timed;
		}
		heap.verify(c);
	}
}
VP_CHECK({ "mutex-mt", "2-5 owners (coroutines of 1-3 scheduler threads and plain threads) with generated sections (guards, manual, try, timed, recursive, nested, throwing) on two mutexes, with a generated schedule and clock; non-trivial = at least 4 thread switches",
	run, 240000, 2000000, true, 6000, nullptr });
