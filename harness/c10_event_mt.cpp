// C10: events signalled and waited for by coroutines of several threads and plain threads, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;

namespace
{
	enum { SIGNAL, WAIT, FOR, UNTIL, ALL, ALL_FOR, CHILD, SIGNAL_ALL, RESET, YIELD, KINDS };
	const char* kname[] = { "signal", "wait", "wait_for", "wait_until", "wait_all", "wait_all_for", "wait in a child", "signal_all", "reset", "yield" };
	struct Op { int kind = 0, e = 0, n = 1, ms = 0; std::vector<int> set; };
	struct Actor { int id, thread; bool plain; std::vector<Op> ops; };
	constexpr int EV = 3;

	// what is waiting, and what happened so far (bookkeeping, done without scheduling points)
	struct Pending { std::vector<int> set; bool all = false, timed = false, active = false; };
	struct World
	{
		Case& c; std::vector<event_t> ev; bool resets = false, alls = false;
		bool want[EV] = {}; int signalling[EV] = {}; int64_t signals_begun[EV] = {}, clean_at[EV] = { -1, -1, -1 }, began_clean[8]; int64_t given[EV] = {}, taken[EV] = {}, maybe[EV] = {}, extra[EV] = {}; bool rescued[EV] = {};
		std::unique_ptr<Payload> slot[EV]; int slot_writer[EV] = { -1, -1, -1 };
		Pending pend[8]; int unfinished = 0, ok = 0, timeouts = 0, all_ok = 0, partial_timeouts = 0, may_swallow = 0, rescues = 0, blocked_seen = 0;
		World(Case& c_) : c(c_) {}
		void begin(int id, const Op& o, bool timed) { dct::Atomic at; Pending& p = pend[id]; p.active = true; p.timed = timed; p.all = o.kind == ALL || o.kind == ALL_FOR; p.set = p.all ? o.set : std::vector<int>{ o.e }; began_clean[id] = !p.all && clean(o.e) ? signals_begun[o.e] : -1; }
		void end(int id, bool r, bool may_fail, int64_t deadline)
		{
			{
				dct::Atomic at; Pending& p = pend[id]; p.active = false;
				c.check(r || may_fail, "a wait without deadline ended without success");
				int64_t now = vclock::now_ns();
				if (!r) { c.check(now >= deadline, "a timed wait gave up %lld us before its deadline", (long long)(deadline - now) / 1000); ++timeouts; if (p.all) { ++partial_timeouts; may_swallow += (int)p.set.size() - 1; if (p.set.size() > 1) for (int e : p.set) ++maybe[e]; } }
				else { ++ok; c.check(p.all || began_clean[id] < 0 || began_clean[id] != signals_begun[p.set[0]], "a wait succeeded although every signal had been reset before it began"); if (p.all) ++all_ok; for (int e : p.set) ++taken[e]; }
				// the waiting party may have been released by every signal_all that ran meanwhile: counted there
			}
			if (r) for (int e : pend[id].set) if (slot[e] && !rescued[e]) c.check(slot[e]->get() == 1000 + e, "what the signalling thread did before its first signal is not visible to the released waiter");
		}
		void signal(int id, const event_t& h, int e)
		{
			{ dct::Atomic at; ++given[e]; ++signals_begun[e]; ++signalling[e]; }	// counted before it can have an effect
			if (slot_writer[e] == id && !slot[e]) slot[e] = std::make_unique<Payload>(1000 + e);
			h.signal();
			dct::Atomic at; --signalling[e];
		}
		void signal_all(const event_t& h, int e)
		{
			// everything active now or becoming active during the call may be released by it without consuming a counted signal
			{ dct::Atomic at; extra[e] += 8; ++signals_begun[e]; }
			h.signal_all();
		}
		void reset(const event_t& h, int e)
		{
			int64_t seen; bool quiet; { dct::Atomic at; seen = signals_begun[e]; quiet = signalling[e] == 0; }
			h.reset();
			dct::Atomic at; if (quiet && seen == signals_begun[e]) clean_at[e] = seen;	// every signal before it is discarded
		}
		bool clean(int e) const { return clean_at[e] == signals_begun[e]; }
		void done() { dct::Atomic at; --unfinished; }
		// nothing runs: is anybody blocked although a signal must be left for it?
		void judge_blocked()
		{
			int k[EV] = {}; for (int e = 0; e < EV; ++e) k[e] = (int)maybe[e];
			for (auto& p : pend) if (p.active && p.all) for (int e : p.set) ++k[e];
			if (resets) return;
			for (auto& p : pend) if (p.active)
			{
				++blocked_seen; bool excuse = false;
				for (int e : p.set) { int64_t left = given[e] - taken[e]; if (left <= k[e] - (p.all ? 1 : 0)) excuse = true; }
				if (!excuse)
				{
					int e = p.set.empty() ? -1 : p.set[0];
					c.fail("a %s%s stays suspended although signals are left: event %d was signalled %lld times, %lld waits succeeded, at most %d signals are held by waits for several events", p.timed ? "timed " : "", p.all ? "wait for all" : "wait", e, e < 0 ? 0ll : (long long)given[e], e < 0 ? 0ll : (long long)taken[e], e < 0 ? 0 : k[e]);
				}
			}
		}
	};

	future_t<bool> child(event_t e, int ms)
	{
		bool r; if (ms > 0) r = co_await e.wait_for(std::chrono::milliseconds(ms)); else r = co_await e;
		co_return r;
	}
	future_t<> actor(World& w, const Actor& a)
	{
		std::vector<event_t> ev = w.ev;		// own handles
		for (const Op& o : a.ops)
		{
			int64_t dl = vclock::now_ns() + o.ms * 1000000ll;
			switch (o.kind)
			{
			case SIGNAL: for (int i = 0; i < o.n; ++i) w.signal(a.id, ev[o.e], o.e); break;
			case SIGNAL_ALL: w.signal_all(ev[o.e], o.e); break;
			case RESET: w.reset(ev[o.e], o.e); break;
			case YIELD: for (int i = 0; i < o.n; ++i) co_await yield(); break;
			case WAIT: { w.begin(a.id, o, false); bool r = o.n & 1 ? co_await ev[o.e].wait() : co_await ev[o.e]; w.end(a.id, r, false, 0); break; }
			case FOR: { w.begin(a.id, o, true); bool r = co_await ev[o.e].wait_for(std::chrono::milliseconds(o.ms)); w.end(a.id, r, true, dl); break; }
			case UNTIL: { w.begin(a.id, o, true); bool r = co_await ev[o.e].wait_until(vclock::base() + std::chrono::nanoseconds(dl)); w.end(a.id, r, true, dl); break; }
			case CHILD: { w.begin(a.id, o, o.ms > 0); bool r = co_await child(ev[o.e], o.ms); w.end(a.id, r, o.ms > 0, dl); break; }
			case ALL: case ALL_FOR:
			{
				std::vector<event_t> s; for (int e : o.set) s.push_back(ev[e]);
				w.begin(a.id, o, o.kind == ALL_FOR); bool r;
				if (o.kind == ALL) { if (o.n & 1) r = co_await event_t::wait_all(s); else r = co_await event_t::wait_all(s.begin(), s.end()); }
				else { if (o.n & 1) r = co_await event_t::wait_all_for(std::chrono::milliseconds(o.ms), s); else r = co_await event_t::wait_all_for(std::chrono::milliseconds(o.ms), s.begin(), s.end()); }
				w.end(a.id, r, o.kind == ALL_FOR, dl);
				break;
			}
			}
		}
		w.done();
	}
	void plain(World& w, const Actor& a)
	{
		std::vector<event_t> ev; { dct::Atomic at; ev = w.ev; }
		for (const Op& o : a.ops)
			switch (o.kind)
			{
			case SIGNAL: for (int i = 0; i < o.n; ++i) w.signal(a.id, ev[o.e], o.e); break;
			case SIGNAL_ALL: w.signal_all(ev[o.e], o.e); break;
			case RESET: w.reset(ev[o.e], o.e); break;
			default: for (int i = 0; i < o.n; ++i) dct::yield(); break;
			}
		w.done();
	}
	// signals left in an event, taken one by one at the end
	future_t<> take_rest(event_t e, int64_t& n)
	{
		while (n < 1000 && co_await e.wait_for(1ms)) ++n;
	}

	void body(Case& c, int nt, int na, int ne, int flavour, std::vector<Actor>& actors);
	void run(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(1, 3), na = (int)c.range(2, 6), ne = (int)c.range(1, EV); std::vector<Actor> actors; int flavour = (int)c.weighted({ 6, 2, 2 });	// signals only / with signal_all / with reset
		for (int i = 0; i < na; ++i)
		{
			Actor a; a.id = i; a.thread = (int)c.draw(nt); a.plain = c.chance(1, 3) || (nt == 1 && i == 1); int n = (int)c.size(1, 6); bool signaller = c.chance(1, 3);
			for (int k = 0; k < n; ++k)
			{
				Op o; o.e = (int)c.draw(ne); o.n = (int)c.size(1, 3); o.ms = (int)c.size(1, 12);
				if (a.plain || signaller) o.kind = c.weighted({ 4, 1, 1, flavour == 2 ? 3u : 1u }) == 0 ? SIGNAL : c.draw(4) == 1 ? YIELD : flavour == 1 ? SIGNAL_ALL : flavour == 2 ? RESET : SIGNAL;
				else { static const int t[] = { WAIT, FOR, UNTIL, ALL, ALL_FOR, CHILD, SIGNAL, YIELD }; o.kind = t[c.weighted({ 4, 4, 2, 3, 4, 2, 2, 1 })]; if (o.kind == CHILD && c.draw(2)) o.ms = 0; }
				if (o.kind == ALL || o.kind == ALL_FOR) { std::vector<int> all; for (int e = 0; e < ne; ++e) all.push_back(e); int sz = (int)c.range(1, ne); if (c.draw(3)) sz = ne; for (int q = 0; q < sz; ++q) { int p = (int)c.draw(all.size()); o.set.push_back(all[p]); all.erase(all.begin() + p); } }
				a.ops.push_back(o);
			}
			actors.push_back(a);
		}
		body(c, nt, na, ne, flavour, actors);
	}
	// few actors: one waits with deadlines, the others reset and signal at any point of it
	void run_reset(Case& c)
	{
		vclock::reset();
		int nr = (int)c.range(1, 3), waits = (int)c.range(1, 4); std::vector<Actor> actors;
		Actor a; a.id = 0; a.thread = 0; a.plain = false; for (int i = 0; i < waits; ++i) { Op o; o.kind = FOR; o.ms = 1; a.ops.push_back(o); } actors.push_back(a);
		for (int i = 0; i < nr; ++i) { Actor r; r.id = i + 1; r.thread = 0; r.plain = true; int n = (int)c.size(1, 12); for (int k = 0; k < n; ++k) { Op o; o.kind = c.draw(4) == 3 ? SIGNAL : RESET; r.ops.push_back(o); } actors.push_back(r); }
		body(c, 1, nr + 1, 1, 2, actors);
	}
	// few actors: one waits for one or all of 1-2 events with deadlines that pass while the others signal
	void run_expiry(Case& c)
	{
		vclock::reset();
		int ne = (int)c.range(1, 2), ns = (int)c.range(1, 2), waits = (int)c.range(1, 3); std::vector<Actor> actors;
		Actor a; a.id = 0; a.thread = 0; a.plain = false;
		for (int i = 0; i < waits; ++i) { Op o; o.kind = c.draw(3) ? ALL_FOR : FOR; o.ms = 1; o.e = (int)c.draw(ne); o.n = (int)c.draw(2); if (o.kind == ALL_FOR) for (int e = 0; e < ne; ++e) o.set.push_back(e); a.ops.push_back(o); }
		actors.push_back(a);
		for (int i = 0; i < ns; ++i) { Actor r; r.id = i + 1; r.thread = 0; r.plain = true; int n = (int)c.size(1, 4); for (int k = 0; k < n; ++k) { Op o; o.kind = SIGNAL; o.e = (int)c.draw(ne); r.ops.push_back(o); } actors.push_back(r); }
		body(c, 1, ns + 1, ne, 0, actors);
	}
	// waits that are suspended already when signal_all is called: every one of them is released
	struct Crowd { Case& c; std::vector<event_t> ev; int ready = 0, left = 0, untimed = 0, ok = 0, late = 0; };
	future_t<> member(Crowd& w, Op o)
	{
		std::vector<event_t> s; for (int e : o.set) s.push_back(w.ev[e]);
		event_t one = s[0]; int64_t dl = vclock::now_ns() + o.ms * 1000000ll; bool r;
		if (o.kind == WAIT) r = co_await one.wait();
		else if (o.kind == FOR) r = co_await one.wait_for(std::chrono::milliseconds(o.ms));
		else if (o.kind == ALL) r = co_await event_t::wait_all(s);
		else r = co_await event_t::wait_all_for(std::chrono::milliseconds(o.ms), s);
		dct::Atomic at; --w.left; bool timed = o.kind == FOR || o.kind == ALL_FOR; if (!timed) --w.untimed;
		w.c.check(r || (timed && vclock::now_ns() >= dl), "a %s ended without success%s", kname[o.kind], timed ? " before its deadline" : ""); if (r) ++w.ok; else ++w.late;
	}
	future_t<> mark(Crowd& w) { { dct::Atomic at; ++w.ready; } co_return; }
	void run_all(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(1, 2), ne = (int)c.range(1, 2), n = (int)c.range(2, 6), tick = (int)c.draw(4), per_event = (int)c.draw(2); std::vector<std::pair<int, Op>> who;
		c.log("%d scheduler threads, %d events, clock tick %d00us", nt, ne, tick);
		for (int i = 0; i < n; ++i)
		{
			Op o; static const int t[] = { WAIT, FOR, ALL, ALL_FOR }; o.kind = t[c.weighted({ 3, 3, 2, 2 })]; o.ms = (int)c.size(1, 4); int th = (int)c.draw(nt);
			if (o.kind >= ALL) for (int e = 0; e < ne; ++e) o.set.push_back(e); else o.set.push_back((int)c.draw(ne));
			c.log("waiter %d on scheduler %d: %s event %d, %d ms", i, th, kname[o.kind], o.set[0], o.ms); who.push_back({ th, o });
		}
		Heap heap;
		{
			Crowd w{ c }; for (int e = 0; e < ne; ++e) w.ev.push_back(event_t());
			w.left = n; for (auto& x : who) if (x.second.kind == WAIT || x.second.kind == ALL) ++w.untimed;
			vclock::set_tick_ns(tick * 100000);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back(scheduler_thread([&, t](scheduler_t& s) { for (auto& x : who) if (x.first == t) s + member(w, x.second); s + mark(w); }));
			for (int k = 0; k < (per_event ? ne : 1); ++k) bodies.push_back([&, k]
			{
				for (;;) { bool go_; { dct::Atomic at; go_ = w.ready == nt; } if (go_) break; dct::yield(); }
				for (int e = 0; e < ne; ++e) if (!per_event || e == k) w.ev[e].signal_all();
			});
			int budget = 20; dct::Options op;
			op.on_quiescent = [&]
			{
				c.check(w.untimed == 0, "%d waits stay suspended although signal_all was called after they had been suspended", w.untimed);
				if (w.left <= 0 || budget-- <= 0) return false;
				vclock::advance_ns(10000000); return true;
			};
			dct::run(c, std::move(bodies), op);
			vclock::set_tick_ns(0);
			c.check(w.left == 0, "%d waits never ended", w.left);
			if (dct::switches() >= 4 && n >= 2) c.nontrivial();
			c.label("waits that succeeded", w.ok); c.label("waits that timed out", w.late);
		}
		heap.verify(c);
	}
	void body(Case& c, int nt, int na, int ne, int flavour, std::vector<Actor>& actors)
	{
		int tick = (int)c.draw(4), initial = (int)c.draw(1 << ne);
		c.log("%d scheduler threads, %d events, clock tick %d00us, signalled at first: %d", nt, ne, tick, initial);
		for (auto& a : actors) { c.log("actor %d on %s %d", a.id, a.plain ? "its own thread" : "scheduler", a.thread); for (auto& o : a.ops) { std::string s; for (int e : o.set) s += " " + std::to_string(e); c.log("  %s %d x%d %dms%s%s", kname[o.kind], o.e, o.n, o.ms, o.set.empty() ? "" : " of", s.c_str()); } }
		Heap heap;
		{
			World w(c); w.unfinished = na; w.alls = flavour == 1; w.resets = flavour == 2;
			for (int e = 0; e < ne; ++e) { bool i = initial >> e & 1; w.ev.push_back(event_t(i)); w.given[e] = i; }
			// an event signalled by one actor only, not signalled at first: what that actor did before is visible to the released
			for (int e = 0; e < ne; ++e)
			{
				int who = -1; bool one = !(initial >> e & 1);
				for (auto& a : actors) for (auto& o : a.ops) if ((o.kind == SIGNAL || o.kind == SIGNAL_ALL) && o.e == e) { if (o.kind == SIGNAL_ALL || (who >= 0 && who != a.id)) one = false; who = a.id; }
				if (one) w.slot_writer[e] = who;
			}
			vclock::set_tick_ns(tick * 100000);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back(scheduler_thread([&, t](scheduler_t& s) { for (auto& a : actors) if (!a.plain && a.thread == t) s + actor(w, a); }));
			for (auto& a : actors) if (a.plain) bodies.push_back([&w, &a] { plain(w, a); });
			bodies.push_back([&]
			{	// signals what is still waited for when nothing else runs any more
				for (;;)
				{
					bool did = false;
					for (int e = 0; e < ne; ++e) if (w.want[e]) { { dct::Atomic at; w.want[e] = false; w.rescued[e] = true; ++w.given[e]; ++w.signals_begun[e]; } w.ev[e].signal(); did = true; }
					if (dct::idle(did)) break;
				}
			});
			int budget = 60; dct::Options op;
			op.on_quiescent = [&]
			{
				if (w.unfinished <= 0 || budget-- <= 0) return false;
				w.judge_blocked();
				std::vector<int> who; bool timed = false; for (int i = 0; i < 8; ++i) if (w.pend[i].active) { if (w.pend[i].timed) timed = true; else who.push_back(i); }
				if (timed || who.empty()) { vclock::advance_ns(1000000ll * (budget < 40 ? 10 : 2)); return true; }
				++w.rescues;
				for (int e = 0; e < ne; ++e) for (int i : who) for (int x : w.pend[i].set) if (x == e) w.want[e] = true;
				return true;
			};
			dct::run(c, std::move(bodies), op);
			vclock::set_tick_ns(0); uint64_t switches = dct::switches();
			c.check(w.unfinished == 0, "%d actors stay blocked for ever although their events are signalled (lost wake-up)", w.unfinished);
			int64_t swallowed = 0;
			// nothing is pending any more: every signal was taken by a wait or is left
			for (int e = 0; e < ne; ++e)
			{
				int64_t left = 0; bool taken = false;
				dct::run(c, { [&]
				{
					local_scheduler_t ls; scheduler_t& s = *this_scheduler(); s + take_rest(w.ev[e], left);
					for (int i = 0; i < 3000 && !s.empty(); ++i) if (!s.run_one_batch()) vclock::advance_ns(1000000);
					taken = s.empty();
				} });
				c.check(taken, "the signals left in event %d cannot be taken", e);
				c.check(w.taken[e] + left <= w.given[e] + w.extra[e], "event %d: %lld waits succeeded and %lld signals are left, but it was signalled only %lld times", e, (long long)w.taken[e], (long long)left, (long long)w.given[e]);
				c.check(!w.clean(e) || left == 0, "%lld signals are left in event %d although it was reset after the last signal", (long long)left, e);
				swallowed += w.given[e] - w.taken[e] - left;
				if (!w.resets) c.check(w.taken[e] + left + w.maybe[e] >= w.given[e], "event %d: %lld signals given, but only %lld waits succeeded and %lld signals are left (a signal was lost)", e, (long long)w.given[e], (long long)w.taken[e], (long long)left);
			}
			// a wait for all that timed out missed at least one of its events
			if (!w.resets && !w.alls) c.check(swallowed <= w.may_swallow, "%lld signals are gone, but the waits for all that timed out can have taken %d at most", (long long)swallowed, w.may_swallow);
			if (switches >= 4 && w.ok + w.timeouts >= 2) c.nontrivial();
			c.label("waits that succeeded", w.ok); c.label("waits that timed out", w.timeouts); c.label("waits for all that succeeded", w.all_ok); c.label("waits for all that timed out", w.partial_timeouts); c.label("blocked waits judged", w.blocked_seen);
			if (w.resets) c.label("with reset"); if (w.alls) c.label("with signal_all");
		}
		heap.verify(c);
	}
}
VP_CHECK({ "event-mt", "2-6 actors (coroutines of 1-3 scheduler threads and plain threads) waiting, waiting with deadlines, waiting for all, signalling, signalling all and resetting 1-3 events, with a generated schedule and clock; non-trivial = at least 4 thread switches and 2 ended waits",
	run, 120000, 2000000, true, 6000, nullptr });
VP_CHECK({ "event-reset", "one coroutine waiting 1-2 times with a deadline on one event that 1-3 threads reset and signal, with a generated schedule; non-trivial = at least 4 thread switches and 2 ended waits",
	run_reset, 200000, 2000000, true, 6000, nullptr });
VP_CHECK({ "event-expiry", "one coroutine waiting 1-3 times for one or all of 1-2 events with deadlines that pass while 1-2 threads signal, with a generated schedule and clock; non-trivial = at least 4 thread switches and 2 ended waits",
	run_expiry, 400000, 2000000, true, 6000, nullptr });
VP_CHECK({ "event-signal-all", "2-6 waits (wait, wait_for, wait_all, wait_all_for) suspended on 1-2 events by 1-2 scheduler threads before other threads call signal_all for every event, with a generated schedule and clock; non-trivial = at least 4 thread switches",
	run_all, 120000, 2000000, true, 6000, nullptr });
