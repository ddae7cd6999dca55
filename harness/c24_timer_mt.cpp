// C24: timers and sleeps put on a scheduler by other threads while it runs, under generated schedules.
#include "dx.hpp"
#include <deque>
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;
using sclock = std::chrono::system_clock;

namespace
{
	constexpr int MAXT = 3;
	enum { ADD_AT, ADD_IN, ADD_HANDLE, SLEEP, SLEEP_UNTIL, PAUSE, LOOK, STOP, EMPTY, KINDS };
	struct Op { int kind, to, ms, again; };				// again: the handler adds this many timers itself
	struct Timer { int id, owner, by; int64_t due = 0, exact = 0; int added = -1, add_end = -1, fired = 0; bool cancelled = false; std::vector<int> stops; bool won = false; std::unique_ptr<Payload> data; timer_handler h; bool handle = false; int again = 0; };
	struct Sched { scheduler_t* s = nullptr; timer_manager* m = nullptr; int run = 0; int64_t last_due = INT64_MIN; int last_id = -1, last_pass = -1; std::vector<int> clears; std::vector<int> clear_ends; };

	struct World
	{
		Case& c; int nt, now = 0; Sched sch[MAXT]; std::deque<std::unique_ptr<Timer>> t; std::atomic<int> ready{ 0 }; int remote = 0, sleeping = 0, sleeps = 0, woken_late = 0, cancels = 0, stopped = 0, remote_stops = 0, looks = 0, cancelled_sleeps = 0, fired = 0, again = 0;
		World(Case& c_) : c(c_) {}
		int tick() { return ++now; }
		Timer& make(int owner, int again) { dct::Atomic a; auto p = std::make_unique<Timer>(); p->id = (int)t.size(); p->owner = owner; p->by = dct::self(); p->again = again; t.push_back(std::move(p)); return *t.back(); }
		void on_timer(Timer& x, bool cancelled);
		void add(int owner, int kind, int ms, int again);
	};
	int64_t ms_now() { return vclock::now_ns(); }

	void World::on_timer(Timer& x, bool cancelled)
	{
		int v = x.data->get();						// written by the thread that added it
		int more = 0;
		{
			dct::Atomic at; int me = dct::self(); Sched& s = sch[x.owner];
			c.check(me == x.owner, "the handler of timer %d of scheduler %d runs in thread %d", x.id, x.owner, me);
			c.check(v == x.id, "the handler of timer %d sees %d", x.id, v);
			c.check(++x.fired == 1, "timer %d is reported %d times", x.id, x.fired); x.cancelled = cancelled; ++fired; remote += x.by != me;
			if (cancelled)
			{
				bool ok = !x.stops.empty(); for (size_t i = 0; i < s.clears.size(); ++i) ok = ok || i >= s.clear_ends.size() || s.clear_ends[i] > x.added;
				c.check(ok, "timer %d reports a cancellation although it was not stopped and nothing was cleared since it was added", x.id); ++cancels;
			}
			else
			{
				c.check(!x.won, "timer %d fires although a call of stop had returned true", x.id);
				c.check(ms_now() >= x.due, "timer %d fires %lld ns early", x.id, (long long)(x.due - ms_now()));
				if (s.last_pass == s.run)
				{
					c.check(x.exact == 0 || s.last_due <= x.exact, "timer %d, due earlier, fires after timer %d in one pass", x.id, s.last_id);
					if (x.exact && s.last_due == x.exact) { Timer& l = *t[s.last_id]; c.check(x.add_end >= 0 && x.add_end < l.added ? false : true, "timer %d fires after timer %d, which has the same due time and was added later", x.id, l.id); }
				}
				if (x.exact) { s.last_pass = s.run; s.last_due = x.exact; s.last_id = x.id; }
			}
			more = x.again;
		}
		for (int i = 0; i < more; ++i) { { dct::Atomic at; ++again; } add(x.owner, ADD_AT, i, 0); }
	}
	void World::add(int owner, int kind, int ms, int again)
	{
		Timer& x = make(owner, again); timer_manager* m = sch[owner].m;
		x.data = std::make_unique<Payload>(x.id);
		auto d = std::chrono::milliseconds(ms);
		{ dct::Atomic at; x.added = tick(); x.due = ms_now() + (int64_t)ms * 1000000; if (kind != ADD_IN) x.exact = x.due; }
		auto cb = [this, &x](bool cancelled) { on_timer(x, cancelled); };
		if (kind == ADD_AT) (void)m->add((vclock::base() + std::chrono::nanoseconds(x.due)), cb);
		else if (kind == ADD_IN) (void)m->add(d, cb);
		else { x.h = m->add_handler((vclock::base() + std::chrono::nanoseconds(x.due)), cb); x.handle = true; }
		dct::Atomic at; x.add_end = tick(); dct::give(&x);
	}
	future_t<> sleeper(World& w, int home, std::vector<Op> ops)
	{
		for (auto& o : ops)
		{
			if (o.kind == PAUSE) { co_await yield(); continue; }
			int64_t due; int began; { dct::Atomic at; due = ms_now() + (int64_t)o.ms * 1000000; began = w.tick(); ++w.sleeping; }
			bool cancelled = false; auto t = std::chrono::milliseconds(o.ms);
			try { if (o.kind == SLEEP) co_await sleep_for(t, *w.sch[o.to].s); else co_await sleep_until((vclock::base() + std::chrono::nanoseconds(due)), *w.sch[o.to].s); }
			catch (const canceled_exception& e) { cancelled = true; w.c.check(e._error == error_code::timer_canceled, "a cancelled sleep gives another error"); }
			dct::Atomic at; --w.sleeping; ++w.sleeps; w.remote += o.to != home; Sched& s = w.sch[o.to];
			w.c.check(dct::self() == home, "a coroutine of scheduler %d continues in thread %d after sleeping on scheduler %d", home, dct::self(), o.to);
			if (cancelled) { bool ok = false; for (size_t i = 0; i < s.clears.size(); ++i) ok = ok || i >= s.clear_ends.size() || s.clear_ends[i] > began; w.c.check(ok, "a sleep is cancelled although nothing was cleared"); ++w.cancelled_sleeps; }
			else w.c.check(ms_now() >= due, "a sleep ends %lld ns early", (long long)(due - ms_now()));
		}
	}

	void run(Case& c)
	{
		vclock::reset(); int nt = (int)c.range(2, MAXT); int owners = (int)c.range(1, nt);		// the threads below 'owners' run a scheduler, the others only add
		std::vector<std::vector<Op>> prog(nt), coro(nt); std::vector<std::vector<int>> clears(nt);
		for (int t = 0; t < nt; ++t)
		{
			int n = (int)c.size(t < owners ? 0 : 1, 6);
			for (int i = 0; i < n; ++i) prog[t].push_back({ (int)c.weighted({ 4, 2, 4, 0, 0, 1, 1, 3, 2 }), (int)c.draw(owners), (int)c.size(0, 4), c.chance(1, 6) ? (int)c.range(1, 2) : 0 });
			if (t < owners) { int k = (int)c.size(0, 3); for (int i = 0; i < k; ++i) coro[t].push_back({ (int)c.weighted({ 0, 0, 0, 3, 2, 1 }), (int)c.draw(owners), (int)c.size(0, 4), 0 }); }
			if (t < owners && c.chance(1, 3)) for (int i = 0, k = (int)c.range(1, 3); i < k; ++i) clears[t].push_back((int)c.range(1, 6));
			static const char* kn[] = { "timer at", "timer in", "timer with handle at", "sleep for", "sleep until", "pause", "look at the handles", "stop", "empty" };
			c.log("thread %d%s", t, t < owners ? " runs a scheduler" : ""); for (auto& o : prog[t]) c.log("  %s %d ms on %d, adds %d", kn[o.kind], o.ms, o.to, o.again); for (auto& o : coro[t]) c.log("  coroutine: %s %d ms on %d", kn[o.kind], o.ms, o.to); for (int p : clears[t]) c.log("  clears after pass %d", p);
		}
		Heap heap;
		{
			World w(c); w.nt = nt; int moves = 40, after = 0;
			auto work = [&](int t, size_t& i)
			{
				Op o = prog[t][i++];
				if (o.kind <= ADD_HANDLE) w.add(o.to, o.kind, o.ms, o.again);
				else if (o.kind == LOOK)
				{
					for (size_t k = 0; k < i - 1; ++k) (void)k;
					size_t n; { dct::Atomic at; n = w.t.size(); }
					for (size_t k = 0; k < n; ++k) { Timer* x; { dct::Atomic at; x = w.t[k].get(); if (!x->handle || x->by != t || x->add_end < 0) continue; } bool fired; { dct::Atomic at; fired = x->fired; } bool e = x->h.expired(); if (!fired) { dct::Atomic at; c.check(!e || x->fired, "the handle of timer %d has expired although it has not fired", x->id); } }
				}
				else if (o.kind == EMPTY)
				{	// a scheduler that says it is empty has no timer whose add had ended
					if (t >= owners) { dct::yield(); return; }
					size_t n = 0; std::vector<char> open; { dct::Atomic at; n = w.t.size(); for (auto& x : w.t) open.push_back(x->owner == t && x->add_end >= 0 && !x->fired); }
					bool e = o.ms & 1 ? w.sch[t].m->empty() : w.sch[t].s->empty();
					dct::Atomic at; ++w.looks; for (size_t k = 0; e && k < n; ++k) c.check(!open[k], "scheduler %d says it is empty although timer %d has not fired", t, (int)k);
				}
				else if (o.kind == STOP)
				{	// the timer number o.ms of those with a handle that are not yet known to have ended, counted from the last one; by any thread
					Timer* x = nullptr; bool ended = false;
					{
						dct::Atomic at; int left = o.ms; for (size_t k = w.t.size(); k-- && !x;) { Timer* y = w.t[k].get(); if (y->handle && y->add_end >= 0 && (!y->fired || o.again) && left-- == 0) x = y; }
						if (x) { ended = x->fired; x->stops.push_back(w.tick()); dct::take(x); }
					}
					if (!x) { dct::yield(); return; }
					auto h = x->h; bool won = h.stop();	// a copy: stop() clears the handle it is called on
					dct::Atomic at; if (!won) return;
					c.check(!ended, "timer %d was stopped after it had been reported", x->id); c.check(!x->won, "timer %d was stopped twice", x->id);
					c.check(!x->fired || x->cancelled, "a call of stop returned true, but timer %d was told that it is due", x->id);
					x->won = true; ++w.stopped; w.remote_stops += x->owner != t;
				}
				else dct::yield();
			};
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				size_t i = 0;
				if (t >= owners)
				{
					while (w.ready.load() < owners) dct::yield();
					while (i < prog[t].size()) work(t, i);
					while (dct::idle(false) == false);
					return;
				}
				local_scheduler_t ls; Sched& s = w.sch[t]; s.s = this_scheduler(); s.m = s.s->timer(); w.ready.fetch_add(1);
				while (w.ready.load() < owners) dct::yield();
				if (!coro[t].empty()) *s.s + sleeper(w, t, coro[t]);
				size_t next = 0;
				for (;;)
				{
					bool did = false; if (i < prog[t].size()) { work(t, i); did = true; }
					{ dct::Atomic at; ++s.run; }
					did |= s.s->run_one_batch();
					if (next < clears[t].size() && s.run >= clears[t][next]) { ++next; { dct::Atomic at; s.clears.push_back(w.tick()); } s.m->clear(); { dct::Atomic at; s.clear_ends.push_back(w.tick()); } did = true; }
					if (dct::idle(did)) break;
				}
				c.check(s.m->empty() && s.s->empty(), "scheduler %d is not empty when everything has ended", t);
			});
			dct::Options op; op.on_quiescent = [&]
			{
				bool open = w.sleeping > 0; for (auto& x : w.t) open = open || !x->fired;
				if (!open && after++) return false;
				if (moves-- <= 0) return false;
				vclock::advance_ns(1000000); return true;
			};
			dct::run(c, std::move(bodies), op);
			for (auto& x : w.t) { c.check(x->fired == 1, "timer %d of scheduler %d, added by thread %d, was never reported", x->id, x->owner, x->by); c.check(!x->won || x->cancelled, "a call of stop returned true, but timer %d was told that it is due", x->id); if (x->handle) c.check(x->h.expired(), "the handle of timer %d has not expired", x->id); }
			c.check(w.sleeping == 0, "%d coroutines sleep for ever", w.sleeping);
			if (w.remote >= 1 && w.fired + w.sleeps >= 2 && dct::switches() >= 4) c.nontrivial();
			c.label("timers fired", w.fired); c.label("timers and sleeps from other threads", w.remote); c.label("cancelled", w.cancels); c.label("stopped", w.stopped); c.label("asked whether empty", w.looks); c.label("stopped by another thread", w.remote_stops); c.label("sleeps", w.sleeps); c.label("sleeps cancelled", w.cancelled_sleeps); c.label("timers added by handlers", w.again);
		}
		heap.verify(c);
	}
}
VP_CHECK({ "timer-mt", "timers and sleeps put on the schedulers of 1-3 threads by 2-3 threads while these run and clear their timers, some of them stopped by any thread; non-trivial = something added by another thread, at least 2 ended, at least 4 switches",
	run, 300000, 2000000, true, 3000, nullptr });
