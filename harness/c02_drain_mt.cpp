// C02: threads that run their scheduler until no task is left while other threads complete, add and look, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;

namespace
{
	enum Kind { YIELD, CELL, SLEEP, CHILD, START, ASK, TOKEN, STOPALL, STEPS };
	struct Step { int kind, arg; };
	struct Node { int owner = 0, round = 0, depth = 0, form = 0; bool root = false; std::vector<Step> steps; bool started = false, done = false; int runs = 0; };
	struct Cell { int owner = 0, by = 0, delay = 0, node = -1, extra = -1, timer = -1; bool look = false, set = false; };		// what the helper does before it completes the cell
	struct Timer { int owner = 0, ms = 0; bool added = false, fired = false; };
	struct World
	{
		Case& c; std::vector<Node> n; std::vector<Cell> cell; std::vector<Timer> tm; std::vector<std::unique_ptr<awaitable_t<>>> aw; std::vector<std::unique_ptr<future_t<>>> fut;
		scheduler_t* sch[2] = {}; std::atomic<int> ready{ 0 }; std::vector<std::unique_ptr<std::atomic<int>>> waiting; int helped = 0, drains = 0, late_sets = 0, asked = 0, stops = 0, stopped = 0; std::vector<std::pair<int, stop_token>> tok;
		World(Case& c_) : c(c_) {}
	};
	struct Drop { World* w; int i; ~Drop() { if (w) { dct::Atomic at; w->n[i].done = true; } } Drop(World* w_, int i_) : w(w_), i(i_) {} Drop(const Drop&) = delete; };
	future_t<> body(World& w, int i);
	future_t<int> body_int(World& w, int i) { co_await body(w, i); co_return 1000 + i; }
	void start(World& w, int i)
	{
		Node& n = w.n[i]; { dct::Atomic at; n.started = true; } scheduler_t& s = *w.sch[n.owner];
		switch (n.form) { case 0: s + body(w, i); break; case 1: s + [&w, i] { return body(w, i); }; break; case 2: s + body_int(w, i); break; }
	}
	future_t<> body(World& w, int i)
	{
		Node& n = w.n[i];
		{ dct::Atomic at; w.c.check(++n.runs == 1, "task %d was started twice", i); }
		Drop end(&w, i);
		for (auto& s : n.steps)
		{
			w.c.check(dct::self() == n.owner, "task %d runs in thread %d instead of %d", i, dct::self(), n.owner);
			switch (s.kind)
			{
			case YIELD: for (int k = 0; k < s.arg; ++k) co_await yield(); break;
			case CELL: w.waiting[s.arg]->store(1); co_await *w.fut[s.arg]; { dct::Atomic at; w.c.check(w.cell[s.arg].set, "task %d goes on although what it waits for has not been completed", i); } break;
			case SLEEP: { int before; { dct::Atomic at; before = w.stops; } try { co_await sleep_for(std::chrono::milliseconds(s.arg)); } catch (const canceled_exception&) { dct::Atomic at; w.c.check(w.stops > before, "a sleep of task %d is cancelled although nobody asked to stop", i); } break; }
			case CHILD: { dct::Atomic at; w.n[s.arg].started = true; } if (w.n[s.arg].form == 2) { int r = co_await body_int(w, s.arg); w.c.check(r == 1000 + s.arg, "the result of coroutine %d is %d", s.arg, r); } else co_await body(w, s.arg); break;
			case START: start(w, s.arg); break;
			case TOKEN: { task_t* k = co_await get_current_task(); stop_token t = k->get_stop_token(); w.c.check(t.stop_possible(), "the token of task %d can not be stopped", i); dct::Atomic at; w.tok.push_back({ n.owner, std::move(t) }); break; }
			case STOPALL:
			{
				std::vector<stop_token> mine; { dct::Atomic at; ++w.stops; for (auto& t : w.tok) if (t.first == n.owner) mine.push_back(t.second); }
				this_scheduler()->request_stop_all_if_possible();
				for (auto& t : mine) w.c.check(t.stop_requested() || t.stop_possible() == false, "a task of scheduler %d has not been asked to stop", n.owner);
				{ dct::Atomic at; w.stopped += (int)mine.size(); mine.clear(); }
				break;
			}
			case ASK:
			{
				task_t* first = nullptr;
				for (int k = 0; k <= s.arg; ++k)
				{
					scheduler_t* q = co_await get_current_scheduler(); w.c.check(q == w.sch[n.owner], "coroutine %d is told another scheduler than the one it runs on", i);
					task_t* t = co_await get_current_task(); w.c.check(t != nullptr, "the task of coroutine %d is not known to its scheduler", i);
					if (first == nullptr) first = t; w.c.check(t == first, "the task of coroutine %d changes", i); { dct::Atomic at; ++w.asked; }
				}
				break;
			}
			}
		}
		w.c.check(dct::self() == n.owner, "task %d ends in thread %d instead of %d", i, dct::self(), n.owner);
	}
	int make(Case& c, World& w, int owner, int round, int depth, bool root)
	{
		int i = (int)w.n.size(); w.n.emplace_back(); { Node& n = w.n[i]; n.owner = owner; n.round = round; n.depth = depth; n.root = root; n.form = (int)c.draw(3); }
		int k = (int)c.size(0, 3);
		for (int j = 0; j < k; ++j)
		{
			Step s{ (int)c.weighted({ 3, 5, 1, 2, 2, 2, 1, 1 }), 0 };
			switch (s.kind)
			{
			case YIELD: s.arg = (int)c.size(1, 3); break;
			case CELL:
			{
				if (w.cell.size() >= 8) continue;
				s.arg = (int)w.cell.size(); w.cell.emplace_back(); int x = -1, tm = -1;
				if (depth < 2 && c.chance(1, 3)) x = make(c, w, owner, round, 2, true);
				if (c.chance(1, 4)) { tm = (int)w.tm.size(); w.tm.push_back({ owner, (int)c.size(0, 5) }); }
				Cell& e = w.cell[s.arg]; e.owner = owner; e.node = i; e.by = (int)c.draw(2); e.delay = (int)c.size(0, 5); e.extra = x; e.timer = tm; e.look = c.draw(2);
				break;
			}
			case SLEEP: case ASK: s.arg = (int)c.size(0, 4); break;
			case CHILD: case START: if (depth >= 2 || w.n.size() >= 14) continue; s.arg = make(c, w, owner, round, depth + 1, s.kind == START); break;
			}
			w.n[i].steps.push_back(s);
		}
		return i;
	}
	void run(Case& c)
	{
		vclock::reset(); vclock::advance_ns(1000000);
		int nt = (int)c.range(1, 2), np = (int)c.range(1, 2); World w0(c); std::vector<std::vector<std::vector<int>>> plan(nt);
		for (int t = 0; t < nt; ++t) { int rounds = (int)c.range(1, 2); for (int r = 0; r < rounds; ++r) { plan[t].emplace_back(); int k = (int)c.size(0, 3); for (int j = 0; j < k && w0.n.size() < 14; ++j) plan[t][r].push_back(make(c, w0, t, r, 0, true)); } }
		for (auto& e : w0.cell) e.by %= np;
		static const char* kn[] = { "yield", "wait for cell", "sleep", "await", "start", "ask", "token", "stop all" };
		c.log("%d threads run until no task is left, %d threads complete", nt, np);
		for (size_t t = 0; t < plan.size(); ++t) for (size_t r = 0; r < plan[t].size(); ++r) { std::string s; for (int i : plan[t][r]) s += " " + std::to_string(i); c.log("thread %d round %d starts%s", (int)t, (int)r, s.c_str()); }
		for (size_t i = 0; i < w0.n.size(); ++i) { std::string s; for (auto& x : w0.n[i].steps) s += std::string(" ") + kn[x.kind] + " " + std::to_string(x.arg) + ";"; c.log("task %d:%s", (int)i, s.c_str()); }
		for (size_t i = 0; i < w0.cell.size(); ++i) { auto& e = w0.cell[i]; c.log("cell %d: helper %d, after %d yields%s, starts %d, adds timer %d", (int)i, e.by, e.delay, e.look ? ", looks" : "", e.extra, e.timer); }
		Heap heap;
		{
			World w(c); w.n = w0.n; w.cell = w0.cell; w.tm = w0.tm;
			for (size_t i = 0; i < w.cell.size(); ++i) { w.aw.push_back(std::make_unique<awaitable_t<>>()); w.fut.push_back(std::make_unique<future_t<>>(w.aw.back()->get_future())); w.waiting.push_back(std::make_unique<std::atomic<int>>(0)); }
			std::vector<std::function<void()>> bodies; std::atomic<int> out{ 0 };
			vclock::set_tick_ns(50000);
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				local_scheduler_t ls; scheduler_t* s = this_scheduler(); w.sch[t] = s; w.ready.fetch_add(1);
				while (w.ready.load() < nt) dct::yield();
				for (int r = 0; r < (int)plan[t].size(); ++r)
				{
					for (int i : plan[t][r]) start(w, i);
					s->run_until_notask();
					{
						dct::Atomic at; ++w.drains;
						for (size_t i = 0; i < w.n.size(); ++i) if (w.n[i].owner == t && w.n[i].round <= r && w.n[i].started) c.check(w.n[i].done, "run_until_notask() of thread %d returned although task %d has not ended", t, (int)i);
						for (size_t i = 0; i < w.tm.size(); ++i) if (w.tm[i].owner == t && w.tm[i].added) c.check(w.tm[i].fired, "run_until_notask() of thread %d returned although timer %d has not fired", t, (int)i);
					}
					c.check(s->empty(), "run_until_notask() of thread %d returned and its scheduler is not empty", t);
				}
				out.fetch_add(1); while (out.load() < nt + np) dct::yield();
			});
			for (int p = 0; p < np; ++p) bodies.push_back([&, p]
			{
				while (w.ready.load() < nt) dct::yield();
				int left = 0; for (auto& e : w.cell) left += e.by == p;
				while (left)
				{
					bool did = false;
					for (size_t i = 0; i < w.cell.size(); ++i)
					{
						Cell& e = w.cell[i]; if (e.by != p || e.set || !w.waiting[i]->load()) continue;
						// its task waits (or is about to): the scheduler has a task until the cell is completed
						for (int d = 0; d < e.delay; ++d) dct::yield();
						if (e.look) c.check(!w.sch[e.owner]->empty(), "the scheduler of thread %d reports itself empty although task %d has not ended", e.owner, e.node);
						if (e.extra >= 0) start(w, e.extra);
						if (e.timer >= 0)
						{
							int k = e.timer; { dct::Atomic at; w.tm[k].added = true; }
							w.sch[e.owner]->timer()->add(std::chrono::milliseconds(w.tm[k].ms), [&w, &c, k](bool) { dct::Atomic at; c.check(!w.tm[k].fired, "timer %d fired twice", k); w.tm[k].fired = true; });
						}
						{ dct::Atomic at; e.set = true; ++w.helped; if (w.drains == 0) ++w.late_sets; }
						w.aw[i]->set_value(); --left; did = true;
					}
					if (!did) dct::yield();
				}
				out.fetch_add(1);
			});
			dct::run(c, std::move(bodies));
			vclock::set_tick_ns(0);
			for (size_t i = 0; i < w.n.size(); ++i) c.check(w.n[i].runs == 1 && w.n[i].done, "task %d ran %d times and has%s ended", (int)i, w.n[i].runs, w.n[i].done ? "" : " not");
			for (auto& t : w.tm) c.check(t.fired, "a timer never fired");
			if (w.helped) c.label("results set by another thread", w.helped); if (w.tm.size()) c.label("timers added by another thread", w.tm.size());
			for (auto& e : w.cell) { if (e.extra >= 0) c.label("tasks started by another thread"); if (e.look) c.label("looks from another thread"); }
			if (w.stops) c.label("all tasks asked to stop", w.stops); if (w.stopped) c.label("tokens of tasks asked to stop", w.stopped);
			if (w.asked) c.label("current task asked for", w.asked);
			if (w.helped && dct::switches() >= 4) c.nontrivial();
		}
		heap.verify(c);
	}
}
VP_CHECK({ "drain-mt", "1-2 threads each start 0-3 trees of tasks and run until no task is left, 1-2 times, while 1-2 other threads complete what the tasks wait for, start more tasks, add timers and look whether the scheduler is empty; tasks ask for their scheduler, task and stop token and ask all to stop; non-trivial = another thread completed something and 4 thread switches",
	run, 150000, 2000000, true, 4000, nullptr });
