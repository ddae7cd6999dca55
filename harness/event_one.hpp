// Shared by C08 and C09: events used by commanded coroutines of one thread, against a model of counters,
// waiting lines and deadlines, including which command is executed in which pass of the scheduler.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono_literals;

namespace
{
	enum Cmd { WAIT, WAIT_OP, FOR, UNTIL, ALL, ALL_ITER, ALL_FOR, ALL_FOR_ITER, SIGNAL, SIGNAL_ALL, RESET, CHILD, CHILD_FOR, YIELD, END };
	const char* cmd_name[] = { "wait", "co_await event", "wait_for", "wait_until", "wait_all", "wait_all (iterators)", "wait_all_for", "wait_all_for (iterators)", "signal", "signal_all", "reset", "wait in a child", "wait_for in a child", "yield", "end" };
	struct Order { int cmd = 0, e = 0, n = 1; int64_t dl = -1; std::vector<int> set; };
	constexpr int ACTORS = 6;
	inline bool is_timed(int c) { return c == FOR || c == UNTIL || c == ALL_FOR || c == ALL_FOR_ITER || c == CHILD_FOR; }
	inline bool is_all(int c) { return c >= ALL && c <= ALL_FOR_ITER; }

	struct Actor { bool alive = false, idle = false; int result = -1; Order order; awaitable_t<int>* inbox = nullptr; };
	struct World { Case& c; std::vector<event_t> ev; Actor actor[ACTORS]; World(Case& c_) : c(c_) {} };
	inline auto at(int64_t ms) { return vclock::base() + std::chrono::milliseconds(ms); }
	inline int64_t now_ms() { return vclock::now_ns() / 1000000; }

	inline future_t<int> child(World& w, event_t e, int64_t dl)
	{
		bool r; if (dl >= 0) r = co_await e.wait_until(at(dl)); else r = co_await e.wait();
		co_return (int)r;
	}
	inline future_t<> actor(World& w, int id)
	{
		Actor& a = w.actor[id];
		for (;;)
		{
			awaitable_t<int> in; a.inbox = &in; a.idle = true;
			co_await in.get_future();
			a.inbox = nullptr; a.result = -1;
			Order o = a.order; if (o.cmd == END) break;
			event_t e = w.ev[o.e]; int r = 1;
			auto dt = std::chrono::milliseconds(o.dl - now_ms());
			switch (o.cmd)
			{
			case WAIT: r = co_await e.wait(); break;
			case WAIT_OP: r = co_await e; break;
			case FOR: r = co_await e.wait_for(dt); break;
			case UNTIL: r = co_await e.wait_until(at(o.dl)); break;
			case ALL: case ALL_ITER: case ALL_FOR: case ALL_FOR_ITER:
			{
				std::vector<event_t> s; for (int k : o.set) s.push_back(w.ev[k]);
				if (o.cmd == ALL) r = co_await event_t::wait_all(s);
				else if (o.cmd == ALL_ITER) r = co_await event_t::wait_all(s.begin(), s.end());
				else if (o.cmd == ALL_FOR) r = co_await event_t::wait_all_for(dt, s);
				else r = co_await event_t::wait_all_for(dt, s.begin(), s.end());
				break;
			}
			case SIGNAL: for (int i = 0; i < o.n; ++i) e.signal(); break;
			case SIGNAL_ALL: e.signal_all(); break;
			case RESET: e.reset(); break;
			case CHILD: r = co_await child(w, e, -1); break;
			case CHILD_FOR: r = co_await child(w, e, o.dl); break;
			case YIELD: co_await yield(); break;
			}
			a.result = r;
		}
		a.alive = false;
	}

	struct Model
	{
		struct Wait { int who; int64_t dl; int remaining; bool dead = false; bool all = false; };
		struct Ev { int64_t count = 0; std::deque<int> line; };
		std::vector<Ev> ev; std::vector<Wait> waits;
		struct Act { bool alive = false, idle = false; int result = -1; Order o; } act[ACTORS];
		std::vector<std::pair<int, int>> ready;
		int released = 0, timeouts = 0, suspended = 0, counted = 0, all_done = 0, partial = 0;

		void finish(int who, int r) { act[who].result = r; act[who].idle = true; }
		// stages: 0 command begins, 1 child begins, 2 wait ended well, 3 wait ended by its deadline, 4 only the result is left
		void signal(int e)
		{
			Ev& x = ev[e];
			while (!x.line.empty())
			{
				Wait& t = waits[x.line.front()]; x.line.pop_front();
				if (t.dead) continue;
				if (--t.remaining == 0) { t.dead = true; ++released; if (t.all) ++all_done; ready.push_back({ t.who, 2 }); }
				return;
			}
			++x.count; ++counted;
		}
		void signal_all(int e)
		{
			Ev& x = ev[e];
			while (!x.line.empty()) { Wait& t = waits[x.line.front()]; x.line.pop_front(); if (t.dead) continue; if (--t.remaining == 0) { t.dead = true; ++released; if (t.all) ++all_done; ready.push_back({ t.who, 2 }); } }
		}
		bool take(int e) { if (ev[e].count > 0) { --ev[e].count; return true; } return false; }
		void timers(int64_t now)
		{
			std::vector<int> due; for (size_t i = 0; i < waits.size(); ++i) if (!waits[i].dead && waits[i].dl >= 0 && waits[i].dl <= now) due.push_back((int)i);
			std::stable_sort(due.begin(), due.end(), [&](int a, int b) { return waits[a].dl < waits[b].dl; });
			for (int i : due) { waits[i].dead = true; ++timeouts; if (waits[i].all && waits[i].remaining < (int)act[waits[i].who].o.set.size()) ++partial; ready.push_back({ waits[i].who, 3 }); }
		}
		void run(int who, int stage)
		{
			Act& a = act[who]; Order& o = a.o;
			if (stage == 4) { finish(who, a.result); return; }
			if (stage == 0)
				switch (o.cmd)
				{
				case SIGNAL: for (int i = 0; i < o.n; ++i) signal(o.e); finish(who, 1); return;
				case SIGNAL_ALL: signal_all(o.e); finish(who, 1); return;
				case RESET: ev[o.e].count = 0; finish(who, 1); return;
				case CHILD: case CHILD_FOR: ready.push_back({ who, 1 }); return;
				case YIELD: a.result = 1; ready.push_back({ who, 4 }); return;
				case END: a.alive = false; return;
				}
			if (stage <= 1)
			{
				int64_t dl = is_timed(o.cmd) ? o.dl : -1;
				if (is_all(o.cmd))
				{
					Wait t; t.who = who; t.dl = dl; t.remaining = (int)o.set.size(); t.all = true; std::vector<int> q;
					for (int e : o.set) if (take(e)) --t.remaining; else q.push_back(e);
					if (t.remaining == 0) stage = 2;
					else { waits.push_back(t); for (int e : q) ev[e].line.push_back((int)waits.size() - 1); ++suspended; return; }
				}
				else if (take(o.e)) stage = 2;
				else { Wait t; t.who = who; t.dl = dl; t.remaining = 1; waits.push_back(t); ev[o.e].line.push_back((int)waits.size() - 1); ++suspended; return; }
			}
			int r = stage == 2;
			if (o.cmd == CHILD || o.cmd == CHILD_FOR) { a.result = r; ready.push_back({ who, 4 }); } else finish(who, r);
		}
		void settle(int64_t now) { for (;;) { timers(now); if (ready.empty()) return; std::vector<std::pair<int, int>> p; p.swap(ready); for (auto& x : p) run(x.first, x.second); } }
	};

	inline void run_events(Case& c, bool timed)
	{
		vclock::reset(); vclock::advance_ns(100000000);
		int ne = (int)c.range(1, timed ? 4 : 3); std::vector<event_t> events; bool first[4] = {};
		for (int i = 0; i < ne; ++i) { first[i] = c.chance(1, 4); events.push_back(event_t(first[i])); }
		Balance bal;	// the events outlive it: an ended wait leaves nothing in them
		{
			World w(c); Model md; md.ev.resize(ne);
			for (int i = 0; i < ne; ++i) { bool init = first[i]; w.ev.push_back(events[i]); md.ev[i].count = init; if (init) c.log("event %d is signalled at first", i); }
			auto compare = [&]
			{
				for (int i = 0; i < ACTORS; ++i)
				{
					Actor& a = w.actor[i]; auto& m = md.act[i]; if (!m.alive) { c.check(!a.alive, "actor %d has not ended", i); continue; }
					if (m.idle)
					{
						c.check(a.idle, "actor %d is still suspended in '%s' of event %d although it was released or its deadline %lld passed (now %lld)", i, cmd_name[a.order.cmd], a.order.e, (long long)a.order.dl, (long long)now_ms());
						c.check(a.result == m.result, "'%s' of event %d by actor %d gave %d, expected %d (deadline %lld, now %lld)", cmd_name[a.order.cmd], a.order.e, i, a.result, m.result, (long long)a.order.dl, (long long)now_ms());
					}
					else c.check(!a.idle, "'%s' of event %d by actor %d ended with %d although no signal was left for it (deadline %lld, now %lld)", cmd_name[a.order.cmd], a.order.e, i, a.result, (long long)a.order.dl, (long long)now_ms());
				}
			};
			auto settle_all = [&] { hx::settle(c); md.settle(now_ms()); compare(); };
			auto spawn = [&](int i) { Actor& a = w.actor[i]; a.alive = true; a.idle = false; c.log("start actor %d", i); sch() + actor(w, i); auto& m = md.act[i]; m.alive = true; m.idle = true; m.result = -1; hx::settle(c); c.check(a.idle, "an actor does not start"); a.result = -1; };
			auto give = [&](int i, const Order& o)
			{
				Actor& a = w.actor[i]; a.order = o; a.idle = false; md.act[i].o = o; md.act[i].idle = false;
				std::string s; for (int k : o.set) s += " " + std::to_string(k);
				if (is_all(o.cmd)) c.log("actor %d: %s of%s%s", i, cmd_name[o.cmd], s.c_str(), is_timed(o.cmd) ? (" until " + std::to_string(o.dl)).c_str() : "");
				else if (is_timed(o.cmd)) c.log("actor %d: %s %d until %lld (now %lld)", i, cmd_name[o.cmd], o.e, (long long)o.dl, (long long)now_ms());
				else c.log("actor %d: %s %d x%d", i, cmd_name[o.cmd], o.e, o.n);
				md.ready.push_back({ i, 0 }); a.inbox->set_value(1);
			};
			int na = (int)c.range(2, ACTORS); for (int i = 0; i < na; ++i) spawn(i);
			int steps = (int)c.size(6, 90), direct = 0, bursts = 0;
			for (int k = 0; k < steps; ++k)
				switch (c.weighted({ 12, 7, 4, 2, 2 }))
				{
				case 0:
				{
					int n = (int)c.size(1, 4), given = 0; bool alone = false;
					for (int j = 0; j < n && !alone; ++j)
					{
						std::vector<int> idle; for (int i = 0; i < na; ++i) if (md.act[i].alive && md.act[i].idle) idle.push_back(i);
						if (idle.empty()) break;
						int i = c.pick(idle); Order o; o.e = (int)c.draw(ne); o.n = (int)c.size(1, 3);
						if (timed) { static const int t[] = { FOR, UNTIL, ALL, ALL_FOR, SIGNAL, WAIT, ALL_ITER, ALL_FOR_ITER, SIGNAL_ALL, RESET, CHILD_FOR, YIELD, END }; o.cmd = t[c.weighted({ 5, 5, 4, 4, 5, 2, 2, 2, 2, 1, 2, 1, 1 })]; }
						else { static const int t[] = { WAIT, WAIT_OP, SIGNAL, SIGNAL_ALL, RESET, CHILD, YIELD, END }; o.cmd = t[c.weighted({ 8, 3, 7, 2, 2, 3, 1, 1 })]; }
						if (is_all(o.cmd)) { std::vector<int> all; for (int e = 0; e < ne; ++e) all.push_back(e); int sz = (int)c.draw(ne + 1); if (c.draw(8) && sz == 0) sz = ne; for (int q = 0; q < sz; ++q) { int p = (int)c.draw(all.size()); o.set.push_back(all[p]); all.erase(all.begin() + p); } }
						if (is_timed(o.cmd)) { o.dl = now_ms() + c.range(1, 30); if (c.chance(1, 6)) { if (given) break; o.dl = now_ms() - c.range(0, 5); alone = true; } }
						give(i, o); ++given;
					}
					if (given > 1) ++bursts;
					settle_all(); break;
				}
				case 1:
				{	// signalled by plain code, several times, before the scheduler runs again
					int n = (int)c.size(1, 4); ++direct;
					for (int j = 0; j < n; ++j)
					{
						int e = (int)c.draw(ne); event_t copy = w.ev[e]; if (c.draw(4) == 3) { event_t b; b = copy; copy = b; }
						switch (c.weighted({ 8, 2, 2 })) { case 0: c.log("signal %d", e); copy.signal(); md.signal(e); break; case 1: c.log("signal_all %d", e); copy.signal_all(); md.signal_all(e); break; case 2: c.log("reset %d", e); copy.reset(); md.ev[e].count = 0; break; }
					}
					if (c.draw(3)) settle_all(); break;
				}
				case 2:
				{
					hx::settle(c); md.settle(now_ms()); compare();
					int64_t d = (int64_t)c.size(1, 50);
					if (c.draw(2)) { int64_t best = -1; for (auto& t : md.waits) if (!t.dead && t.dl > now_ms() && (best < 0 || t.dl < best)) best = t.dl; if (best >= 0) { d = best - now_ms() - (int64_t)c.draw(2); if (d <= 0) d = 1; } }
					vclock::advance_ns(d * 1000000); c.log("advance to %lld", (long long)now_ms()); settle_all(); break;
				}
				case 3: for (int i = 0; i < na; ++i) if (!md.act[i].alive) { settle_all(); spawn(i); break; } break;
				case 4:
				{	// an event nobody waits on is replaced by another
					settle_all(); int e = (int)c.draw(ne); bool waited = false; for (int i : md.ev[e].line) if (!md.waits[i].dead) waited = true; for (auto& a : md.act) if (a.alive && !a.idle) for (int s : a.o.set) if (s == e) waited = true;
					if (waited) break; c.log("new event %d", e); bool init = c.draw(2); w.ev[e] = event_t(init); md.ev[e] = Model::Ev(); md.ev[e].count = init; break;
				}
				}
			settle_all();
			for (int r = 0; r < 2000; ++r)
			{
				bool any = false;
				for (int e = 0; e < ne; ++e) { bool waiting = false; for (int i : md.ev[e].line) if (!md.waits[i].dead) waiting = true; if (waiting) { any = true; w.ev[e].signal(); md.signal(e); } }
				if (!any) break;
				settle_all();
			}
			for (int i = 0; i < na; ++i) if (md.act[i].alive) { c.check(md.act[i].idle, "internal: actor %d waits at the end", i); Order o; o.cmd = END; give(i, o); }
			settle_all(); vclock::advance_ns(200000000); hx::settle(c);		// a stopped timer stays listed until it would have been due
			c.check(sch().empty(), "the scheduler is not empty at the end");
			if (timed) { if (md.timeouts && md.released) c.nontrivial(); } else if (md.released >= 2 && md.counted) c.nontrivial();
			c.label("waits released", md.released); c.label("waits suspended", md.suspended); c.label("signals counted", md.counted); if (bursts) c.label("several commands in one pass", bursts); c.label("signalled by plain code", direct);
			if (timed) { c.label("waits timed out", md.timeouts); c.label("suspended wait_all completed", md.all_done); c.label("wait_all_for timed out with some signalled", md.partial); }
		}
		bal.verify(c, "after every wait ended (the events still exist)");
	}
}
