// C07: several coroutine mutexes locked in one operation by coroutines of 1-3 threads and by plain threads.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;


namespace
{
	enum { GUARD, MANUAL, GUARD_UNLOCK, GUARD_MOVE, GUARD_ASSIGN, GUARD_KEEP, SINGLE, TRY, TIMED, IN_CHILD, KINDS };
	const char* kname[] = { "guard", "manual", "guard, unlocked", "guard, moved", "guard, assigned", "guard kept for the next", "single lock", "try one", "timed one", "guard in a child" };
	struct Step { int kind; std::vector<int> set; int yields; int how; };
	struct Owner { int id, thread; bool plain; std::vector<Step> steps; };
	constexpr int NM = 4;
	struct World
	{
		Case& c; mutex_t m[NM]; int held[NM] = {}, who[NM] = { -1, -1, -1, -1 }; Guarded data[NM]; int expected[NM] = {}; int unfinished = 0, sets = 0;
		World(Case& c_) : c(c_) {}
		void enter(int id, const std::vector<int>& set)
		{
			{ dct::Atomic at; if (set.size() > 1) ++sets; for (int k : set) { c.check(held[k] == 0 || who[k] == id, "owner %d holds mutex %d of its set while owner %d does", id, k, who[k]); ++held[k]; who[k] = id; ++expected[k]; } }
			for (int k : set) { w_check(k); data[k].v = data[k].v + 1; }
		}
		void w_check(int k) { bool l = m[k].is_locked(); c.check(l, "mutex %d of a set that was locked is free", k); }
		void leave(int id, const std::vector<int>& set)
		{
			for (int k : set) w_check(k);
			dct::Atomic at; for (int k : set) { c.check(held[k] > 0 && who[k] == id, "mutex %d: another owner came in while %d held its set", k, id); if (--held[k] == 0) who[k] = -1; }
		}
		void done() { dct::Atomic at; --unfinished; }
	};
	// calls f with the mutexes of the set
	template<class F> auto with(World& w, const std::vector<int>& s, F f)
	{
		switch (s.size()) { case 2: return f(w.m[s[0]], w.m[s[1]]); case 3: return f(w.m[s[0]], w.m[s[1]], w.m[s[2]]); default: return f(w.m[s[0]], w.m[s[1]], w.m[s[2]], w.m[s[3]]); }
	}
	future_t<> stay(World& w, const Owner& o, const Step& s) { w.enter(o.id, s.set); for (int i = 0; i < s.yields; ++i) co_await yield(); w.leave(o.id, s.set); }

	// the ways a guard ends before its scope does; each releases the set once
	template<class G> void end_guard(G& g, int how)
	{
		switch (how)
		{
		case 1: g.unlock(); break;
		case 2: { auto h = std::move(g); } break;
		case 3: { auto h = std::move(g); h.unlock(); h.unlock(); } break;
		default: break;
		}
	}
	template<class... M> future_t<> batch(World& w, const Owner& o, const Step& s, M&... m)
	{
		switch (s.kind)
		{
		case GUARD: case IN_CHILD: { auto g = co_await mutex_t::lock(m...); co_await stay(w, o, s); break; }
		case GUARD_UNLOCK: { auto g = co_await mutex_t::lock(m...); co_await stay(w, o, s); g.unlock(); if (s.how & 1) g.unlock(); co_await yield(); break; }
		case GUARD_MOVE: { auto g = co_await mutex_t::lock(m...); auto h = std::move(g); { auto dead = std::move(g); } co_await stay(w, o, s); break; }
		case GUARD_ASSIGN:
		{	// the guard that is assigned over releases its set
			auto g = co_await mutex_t::lock(m...); w.enter(o.id, s.set); w.leave(o.id, s.set);
			g = co_await mutex_t::lock(m...);
			co_await stay(w, o, s); break;
		}
		case GUARD_KEEP: { auto g = co_await mutex_t::lock(m...); w.enter(o.id, s.set); { auto g2 = co_await mutex_t::lock(m...); w.enter(o.id, s.set); if (s.yields) co_await yield(); w.leave(o.id, s.set); end_guard(g2, s.how); } if (s.yields > 1) co_await yield(); w.leave(o.id, s.set); break; }
		case MANUAL:
			co_await mutex_t::lock(adopt_manual_unlock, m...); co_await stay(w, o, s);
			if (s.how & 1) co_await mutex_t::unlock(m...); else mutex_t::unlock(librf_root_state(), m...);
			break;
		}
	}
	future_t<> dispatch(World& w, const Owner& o, const Step& s) { return with(w, s.set, [&](auto&... m) { return batch(w, o, s, m...); }); }

	future_t<> owner(World& w, const Owner& o)
	{
		for (const Step& s : o.steps)
		{
			mutex_t& f = w.m[s.set[0]]; std::vector<int> one{ s.set[0] }; Step t = s; t.set = one;
			switch (s.kind)
			{
			case SINGLE: { auto g = co_await f.lock(); co_await stay(w, o, t); break; }
			case TRY: { bool ok = co_await f.try_lock(); if (ok) { co_await stay(w, o, t); co_await f.unlock(); } break; }
			case TIMED: { bool ok = co_await f.try_lock_for(std::chrono::milliseconds(1 + s.how)); if (ok) { co_await stay(w, o, t); co_await f.unlock(); } break; }
			default: co_await dispatch(w, o, s); break;
			}
		}
		w.done();
	}
	template<class... M> void plain_batch(World& w, const Owner& o, const Step& s, void* self, M&... m)
	{
		auto in = [&] { w.enter(o.id, s.set); for (int i = 0; i < s.yields; ++i) dct::yield(); w.leave(o.id, s.set); };
		switch (s.kind)
		{
		case MANUAL: mutex_t::lock(adopt_manual_unlock, self, m...); in(); mutex_t::unlock(self, m...); break;
		case GUARD_UNLOCK: { auto g = mutex_t::lock(self, m...); in(); g.unlock(); dct::yield(); break; }
		case GUARD_MOVE: { auto g = mutex_t::lock(self, m...); auto h = std::move(g); in(); break; }
		case GUARD_ASSIGN: { auto g = mutex_t::lock(self, m...); in(); g = mutex_t::lock(self, m...); in(); break; }
		case GUARD_KEEP: { auto g = mutex_t::lock(self, m...); w.enter(o.id, s.set); { auto h = mutex_t::lock(self, m...); in(); end_guard(h, s.how); } w.leave(o.id, s.set); break; }
		default: { auto g = mutex_t::lock(self, m...); in(); break; }
		}
	}
	void plain(World& w, const Owner& o)
	{
		char self;
		for (const Step& s : o.steps)
		{
			if (s.kind == SINGLE || s.kind == TRY || s.kind == TIMED)
			{
				mutex_t& f = w.m[s.set[0]]; std::vector<int> one{ s.set[0] }; bool ok = true;
				if (s.kind == SINGLE) f.lock(&self); else ok = f.try_lock(&self);
				if (ok) { w.enter(o.id, one); w.leave(o.id, one); f.unlock(&self); }
			}
			else with(w, s.set, [&](auto&... m) { plain_batch(w, o, s, &self, m...); return 0; });
		}
		w.done();
	}

	void run(Case& c)
	{
		vclock::reset(); vclock::seed_rand((uint32_t)c.draw(1000));
		int nt = (int)c.range(1, 3), no = (int)c.range(2, 5); bool anyplain = c.chance(1, 3); std::vector<Owner> owners; int nm = (int)c.range(2, NM);
		for (int i = 0; i < no; ++i)
		{
			Owner o; o.id = i; o.plain = anyplain && c.chance(1, 2); o.thread = (int)c.draw(nt); int n = (int)c.size(1, 4);
			for (int k = 0; k < n; ++k)
			{
				Step s; s.kind = (int)c.weighted({ 6, 3, 2, 2, 2, 2, 2, 1, 1, 1 }); s.yields = (int)c.draw(3); s.how = (int)c.draw(4); int sz = (int)c.range(2, nm);
				std::vector<int> all; for (int m = 0; m < nm; ++m) all.push_back(m);
				for (int j = 0; j < sz; ++j) { int p = (int)c.draw(all.size()); s.set.push_back(all[p]); if (!(c.chance(1, 12))) all.erase(all.begin() + p); }		// rarely the same mutex twice
				o.steps.push_back(s);
			}
			owners.push_back(o);
		}
		c.log("%d scheduler threads, %d mutexes", nt, nm); int nplain = 0;
		for (auto& o : owners) { nplain += o.plain; c.log("owner %d on %s %d", o.id, o.plain ? "its own thread" : "scheduler", o.thread); for (auto& s : o.steps) { std::string t; for (int k : s.set) t += " " + std::to_string(k); c.log("  %s of%s, %d yields, %d", kname[s.kind], t.c_str(), s.yields, s.how); } }
		Heap heap;
		{
			World w(c); w.unfinished = no;
			vclock::set_tick_ns((int64_t)c.draw(3) * 50000);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back(scheduler_thread([&, t](scheduler_t& s) { for (auto& o : owners) if (!o.plain && o.thread == t) s + owner(w, o); }));
			for (auto& o : owners) if (o.plain) bodies.push_back([&w, &o] { plain(w, o); });
			int budget = 20; dct::Options op; op.on_quiescent = [&] { if (w.unfinished <= 0 || budget-- <= 0) return false; vclock::advance_ns(1000000); return true; };
			dct::run(c, std::move(bodies), op);
			vclock::set_tick_ns(0);
			c.check(w.unfinished == 0, "%d owners never get their set although every set is released", w.unfinished);
			for (int k = 0; k < NM; ++k) { c.check(!w.m[k].is_locked(), "mutex %d is still locked after every guard is gone", k); dct::Atomic at; c.check(w.data[k].v == w.expected[k], "data protected by mutex %d is %d instead of %d", k, w.data[k].v, w.expected[k]); }
			if (w.sets >= 2 && (no >= 2)) c.nontrivial();
			if (nplain) c.label("plain owners", nplain); c.label("sets of two or more obtained", w.sets);
			if (nt == 1 && !nplain) c.label("one thread only");
		}
		heap.verify(c);
	}
}
VP_CHECK({ "batch-lock", "2-5 owners (coroutines of 1-3 scheduler threads, plain threads) locking generated ordered sets of 2-4 mutexes in 7 batch forms, mixed with single locks, with a generated schedule and back-off; non-trivial = at least two sets of two or more mutexes were obtained",
	run, 200000, 2000000, true, 6000, nullptr });
