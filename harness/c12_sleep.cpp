// C12: coroutines sleeping in every form on one or two schedulers under virtual time, against the instants asked for.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono;

namespace
{
	enum Form { FOR, UNTIL, FOR_SCH, UNTIL_SCH, RAW_UNTIL, RAW_FOR, LITERAL, IN_CHILD, YIELD, CLEAR, FORMS };
	const char* fname[] = { "sleep_for", "sleep_until", "sleep_for(scheduler)", "sleep_until(scheduler)", "sleep_until_", "sleep_for_", "co_await duration", "sleep_for in a child", "yield", "clear the timers" };
	enum Unit { NS, US, MS, SEC, DOUBLE_MS, UNITS };
	struct Op { int form = 0, unit = 0; int64_t amount = 0; int on = 0; bool pass_on = false; };	// pass_on: the child lets the error through
	struct Sleep { int actor; int64_t due = 0; int depth = 0; int on = 0; bool active = false, cancelled = false, done = false, unsure = false, fired = false; int seq = 0, armed = 0, home = 0, fired_round = 0; };	// armed: round in which the timer is added
	constexpr int64_t BASE = 100000000;
	inline int64_t unit_ns(int u) { static const int64_t n[] = { 1, 1000, 1000000, 1000000000, 1000000 }; return n[u]; }
	inline auto instant(int64_t ns) { return vclock::base() + nanoseconds(ns); }

	struct World
	{
		Case& c; scheduler_t* sch[2]; std::vector<Sleep> s; int woken = 0, cancelled = 0, at_once = 0, boundary = 0, unfinished = 0; std::vector<int> wakes;
		World(Case& c_) : c(c_), sch{ nullptr, nullptr } {}
		int begin(int actor, const Op& o, int64_t due, int depth, int home)
		{
			Sleep x; x.actor = actor; x.due = due; x.depth = depth; x.on = o.on; x.active = true; x.home = home; x.armed = round + depth; x.seq = (int)s.size(); s.push_back(x);
			if (due <= vclock::now_ns()) ++at_once;
			return x.seq;
		}
		void end(int k, bool cancel)
		{
			Sleep& x = s[k]; int64_t now = vclock::now_ns();
			c.check(x.active && !x.done, "a sleep ended twice");
			x.active = false; x.done = true;
			c.check(!x.fired || round <= x.fired_round + x.depth + 2, "sleep %d of actor %d ended %d passes after the pass that found it due", k, x.actor, round - x.fired_round);
			if (cancel)
			{
				c.check(x.cancelled || x.unsure, "sleep %d of actor %d ended with the cancellation error although its timers were not cleared", k, x.actor);
				++cancelled;
			}
			else
			{
				c.check(!x.cancelled || x.unsure, "sleep %d of actor %d ended normally although its timers were cleared before it was due", k, x.actor);
				c.check(now >= x.due, "sleep %d of actor %d ended %lld ns before its instant", k, x.actor, (long long)(x.due - now));
				++woken; wakes.push_back(k);
			}
		}
		int round = 0;
		// timers of one scheduler are cleared: every sleep on it whose timer exists and has not been found due by a pass is cancelled
		void clear(int on)
		{
			for (auto& x : s) if (x.active && x.on == on && !x.fired)
			{
				if (x.depth == 0 || round > x.armed) x.cancelled = true;
				else x.unsure = true;		// the sleep may or may not have got as far as adding its timer
			}
			sch[on]->timer()->clear();
		}
		// a pass of the scheduler begins now
		void pass(int on)
		{
			for (auto& x : s) if (x.active && x.on == on && !x.cancelled && x.due <= vclock::now_ns())
			{
				if (round > x.armed) { if (!x.fired) x.fired_round = round; x.fired = true; }
				else x.unsure = true;
			}
		}
	};

	template<class F> auto with_unit(const Op& o, F f)
	{
		switch (o.unit)
		{
		case NS: return f(nanoseconds(o.amount)); case US: return f(microseconds(o.amount)); case MS: return f(milliseconds(o.amount)); case SEC: return f(seconds(o.amount));
		default: return f(duration<double, std::milli>((double)o.amount));
		}
	}
	future_t<> nap(const Op& o)
	{
		if (o.unit == NS) co_await sleep_for(nanoseconds(o.amount)); else if (o.unit == US) co_await sleep_for(microseconds(o.amount)); else if (o.unit == MS) co_await sleep_for(milliseconds(o.amount)); else if (o.unit == SEC) co_await sleep_for(seconds(o.amount)); else co_await sleep_for(duration<double, std::milli>((double)o.amount));
	}
	future_t<> actor(World& w, int id, const std::vector<Op>& ops, int home)
	{
		Counted local(id);
		for (const Op& o : ops)
		{
			if (o.form == YIELD) { co_await yield(); continue; }
			if (o.form == CLEAR) { w.clear(o.on); continue; }
			int64_t due = vclock::now_ns() + o.amount * unit_ns(o.unit);
			Op q = o; if (o.form == FOR || o.form == UNTIL || o.form == LITERAL || o.form == IN_CHILD) q.on = home;
			static const int depth[] = { 1, 1, 0, 0, 0, 0, 1, 2 };
			int k = w.begin(id, q, due, depth[o.form], home); bool cancel = false;
			try
			{
				switch (o.form)
				{
				case FOR: { auto f = with_unit(o, [](auto d) { return sleep_for(d); }); co_await f; break; }
				case UNTIL: co_await sleep_until(instant(due)); break;
				case FOR_SCH: { auto f = with_unit(o, [&](auto d) { return sleep_for(d, *w.sch[o.on]); }); co_await f; break; }
				case UNTIL_SCH: co_await sleep_until(instant(due), *w.sch[o.on]); break;
				case RAW_UNTIL: co_await sleep_until_(instant(due), *w.sch[o.on]); break;
				case RAW_FOR: co_await sleep_for_(nanoseconds(o.amount * unit_ns(o.unit)), *w.sch[o.on]); break;
				case LITERAL: { if (o.unit == NS) co_await nanoseconds(o.amount); else if (o.unit == US) co_await microseconds(o.amount); else co_await nanoseconds(o.amount * unit_ns(o.unit)); break; }
				case IN_CHILD: co_await nap(o); break;
				}
			}
			catch (const canceled_exception& e)
			{
				cancel = true; w.c.check(e._error == error_code::timer_canceled, "the cancellation error has another code");
			}
			w.end(k, cancel);
		}
		--w.unfinished;
	}

	void run(Case& c)
	{
		vclock::reset(); vclock::advance_ns(BASE); drop_spare(); Balance bal;
		{
			World w(c); bool two = c.chance(1, 3); w.sch[0] = &sch(); w.sch[1] = &sch2();
			int na = (int)c.size(1, 7); std::vector<std::vector<Op>> prog(na); std::vector<int> home(na);
			for (int i = 0; i < na; ++i)
			{
				home[i] = two && c.chance(1, 3); int n = (int)c.size(1, 7);
				for (int k = 0; k < n; ++k)
				{
					Op o; o.form = c.weighted({ 5, 4, 2, 2, 3, 2, 3, 2, 2, 1 }); o.on = two && c.draw(3) == 2; o.unit = (int)c.draw(UNITS);
					int64_t a = o.unit == SEC ? (int64_t)c.size(0, 4) : o.unit == MS || o.unit == DOUBLE_MS ? (int64_t)c.size(0, 40) : o.unit == US ? (int64_t)c.draw(40) * 500 : (int64_t)c.draw(3) + (int64_t)c.draw(20) * 1000000;
					if (c.chance(1, 8)) a = o.unit == SEC && c.draw(2) ? 3600 * 24 * (int64_t)c.range(1, 400) : -a;
					o.amount = a; prog[i].push_back(o);
				}
			}
			c.log("%d actors, %d schedulers", na, two ? 2 : 1);
			for (int i = 0; i < na; ++i) { c.log("actor %d on scheduler %d", i, home[i]); for (auto& o : prog[i]) { static const char* un[] = { "ns", "us", "ms", "s", "ms (double)" }; if (o.form < YIELD) c.log("  %s %lld %s on %d", fname[o.form], (long long)o.amount, un[o.unit], o.on); else c.log("  %s %d", fname[o.form], o.on); } }
			w.unfinished = na; int started = 0;
			auto start = [&](int i) { *w.sch[home[i]] + actor(w, i, prog[i], home[i]); ++started; };
			int now_start = (int)c.range(1, na); for (int i = 0; i < now_start; ++i) start(i);
			// every scheduler runs until nothing is ready; then nobody whose instant has come sleeps any more
			auto settle = [&]
			{
				for (int r = 0, quiet = 0; quiet < 2; ++r)
				{
					if (r > 20000) c.fail("the schedulers keep running without end although every coroutine sleeps or is done");
					bool any = false; w.wakes.clear(); ++w.round;
					for (int on = 0; on < (two ? 2 : 1); ++on) { w.pass(on); if (w.sch[on]->run_one_batch()) any = true; }
					quiet = any ? 0 : quiet + 1;
					// within one round: sleepers of equal depth in order of their instants, equal ones in the order they began
					if (!two) for (size_t k = 1; k < w.wakes.size(); ++k) for (size_t j = 0; j < k; ++j)
					{
						Sleep& a = w.s[w.wakes[j]]; Sleep& b = w.s[w.wakes[k]];
						if (a.depth == b.depth) c.check(a.due < b.due || (a.due == b.due && a.seq < b.seq), "sleep %d (due %lld) of actor %d ended before sleep %d (due %lld) of actor %d", a.seq, (long long)a.due, a.actor, b.seq, (long long)b.due, b.actor);
					}
				}
				for (auto& x : w.s) if (x.active) c.check(x.due > vclock::now_ns() && !x.cancelled, "actor %d still sleeps at %lld although its instant %lld has come%s", x.actor, (long long)vclock::now_ns(), (long long)x.due, x.cancelled ? " or its timers were cleared" : "");
			};
			settle();
			int steps = (int)c.size(2, 30);
			for (int k = 0; k < steps; ++k)
				switch (c.weighted({ 10, 1, 2, 1 }))
				{
				case 0:
				{	// to (or just before) the next instant, or anywhere
					int64_t best = -1; for (auto& x : w.s) if (x.active && (best < 0 || x.due < best)) best = x.due;
					int64_t d = (int64_t)c.size(0, 60) * 100000;
					if (best >= 0 && c.draw(4)) { d = best - vclock::now_ns() - (int64_t)c.draw(2); ++w.boundary; }
					if (d < 0) d = 0;
					vclock::advance_ns(d); c.log("advance to %lld", (long long)vclock::now_ns()); settle(); break;
				}
				case 1: { int on = two && c.draw(2); c.log("clear the timers of scheduler %d", on); ++w.round; w.clear(on); settle(); break; }
				case 2: if (started < na) { start(started); c.log("start actor %d", started - 1); if (c.draw(2)) settle(); } break;
				case 3: { int64_t d = (int64_t)c.draw(5) * 3000000; vclock::advance_ns(d); break; }	// time passes before the next pass
				}
			while (started < na) start(started);
			for (int k = 0; k < 400 && w.unfinished; ++k)
			{
				settle(); int64_t best = -1; for (auto& x : w.s) if (x.active && (best < 0 || x.due < best)) best = x.due;
				if (best > vclock::now_ns()) vclock::advance_ns(best - vclock::now_ns());
			}
			settle();
			c.check(w.unfinished == 0, "%d coroutines never woke up", w.unfinished);
			for (int on = 0; on < 2; ++on) { c.check(w.sch[on]->timer()->empty(), "a timer is left although nobody sleeps"); c.check(w.sch[on]->empty(), "the scheduler is not empty at the end"); }
			if (w.woken >= 2 && (w.boundary || w.cancelled)) c.nontrivial();
			c.label("sleeps ended at their time", w.woken); c.label("sleeps cancelled", w.cancelled); c.label("instants not in the future", w.at_once); if (two) c.label("two schedulers");
		}
		drop_spare(); bal.verify(c, "after all coroutines ended");
	}
}
VP_CHECK({ "sleep", "1-7 coroutines with generated sleeps in 8 forms and 5 units on 1-2 schedulers, time moved to and just before instants, timers cleared from inside and outside; non-trivial = at least 2 sleeps ended and time was moved to an instant or timers were cleared",
	run, 400000, 10000000, true, 3000, warm });
