// C02: programs of tasks on one scheduler, compared step by step with a reference scheduler.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono;

namespace
{
	// kinds of steps
	enum { YIELD, CALL, WAIT, SET, START, SLEEP, QUERY, RESULT };
	struct Step { int kind; int arg; int64_t d = 0; };
	struct Node { int form = 0; bool root = false, throws_ = false; std::vector<Step> steps; };	// form: 0 future<>, 1 future<int>, 2 generator<int>, 3 future<> from a function object, 4 generator from a function object, 5 started awaitable future, 6 function object (lvalue)
	struct Prog { std::vector<Node> n; int cells = 0; std::vector<int> initial, later; };
	struct Ev { int pass, node, step; bool operator==(const Ev& o) const { return pass == o.pass && node == o.node && step == o.step; } };

	// ---------------------------------------------------------------- reference scheduler
	struct Ref
	{
		const Prog& p; std::deque<int> ready; std::vector<int> pc, parent; std::vector<char> started, done; std::vector<char> set; std::vector<int> waiter; std::vector<Ev> log; int pass = 0; int unfinished = 0; bool hit_passes = false;
		struct T { int64_t due; int seq; int node; }; std::vector<T> timers; int tseq = 0;	// node < 0: timer -1-node, added by hand
		struct Raw { int kind, arg; }; std::vector<Raw> raw; std::vector<int> rfired;
		explicit Ref(const Prog& p_) : p(p_), pc(p.n.size(), 0), parent(p.n.size(), -1), started(p.n.size(), 0), done(p.n.size(), 0), set(p.cells, 0), waiter(p.cells, -1) {}
		void start(int k) { if (started[k]) return; started[k] = 1; ++unfinished; if (p.n[k].form == 5) { if (done[k]) --unfinished; return; } ready.push_back(k); }
		void give(int cell) { if (set[cell]) return; set[cell] = 1; if (waiter[cell] >= 0) { ready.push_back(waiter[cell]); waiter[cell] = -1; } }
		void finish_awaitable(int k) { if (started[k] && !done[k]) { --unfinished; } done[k] = 1; }
		void seg(int i)
		{
			const Node& n = p.n[i];
			for (;;)
			{
				int s = pc[i]++;
				log.push_back({ pass, i, s });
				if (s >= (int)n.steps.size())
				{
					done[i] = 1; if (n.root) --unfinished;
					if (parent[i] >= 0) ready.push_back(parent[i]);
					return;
				}
				const Step& t = n.steps[s];
				switch (t.kind)
				{
				case YIELD: case RESULT: ready.push_back(i); return;
				case CALL: parent[t.arg] = i; started[t.arg] = 1; ready.push_back(t.arg); return;
				case WAIT: if (set[t.arg]) break; waiter[t.arg] = i; return;
				case SET: give(t.arg); break;
				case START: start(t.arg); break;
				case SLEEP: timers.push_back({ vclock::now_ns() + t.d, tseq++, i }); return;
				default: break;
				}
			}
		}
		void batch()
		{
			++pass; std::vector<T> due;
			for (size_t k = 0; k < timers.size();) if (timers[k].due <= vclock::now_ns()) { due.push_back(timers[k]); timers.erase(timers.begin() + k); } else ++k;
			std::sort(due.begin(), due.end(), [](const T& a, const T& b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; });
			for (auto& d : due) if (d.node >= 0) ready.push_back(d.node); else { const Raw& w = raw[-1 - d.node]; rfired.push_back(-1 - d.node); if (w.kind == 1) give(w.arg); else if (w.kind == 2) start(w.arg); }
			std::deque<int> now; now.swap(ready);
			for (int i : now) seg(i);
		}
	};

	// ---------------------------------------------------------------- the real thing
	struct World
	{
		Case& c; const Prog& p; std::vector<Ev> log; int pass = 0; std::vector<awaitable_t<>> cell; std::vector<future_t<>> cellf; std::vector<char> set, started, fobj_live; std::vector<const void*> called_on; std::set<const void*> alive; std::vector<task_t*> task; std::vector<awaitable_t<int>> aw; std::vector<std::unique_ptr<future_t<int>>> awf; int queries = 0, ends = 0, asked = 0; std::vector<int> rfired;
		World(Case& c_, const Prog& p_) : c(c_), p(p_), set(p.cells, 0), started(p.n.size(), 0), fobj_live(p.n.size(), 0), called_on(p.n.size(), nullptr), task(p.n.size(), nullptr)
		{
			for (int i = 0; i < p.cells; ++i) { cell.emplace_back(); cellf.push_back(cell.back().get_future()); }
			aw.resize(p.n.size()); for (auto& a : aw) awf.push_back(std::make_unique<future_t<int>>(a.get_future()));
		}
		void rec(int i, int s) { log.push_back({ pass, i, s }); }
		void give(int k) { if (set[k]) return; set[k] = 1; cell[k].set_value(); }
		void start(int i);
		void raw(int64_t due, int k, int kind, int arg)
		{
			auto h = sch().timer()->add_handler(vclock::base() + nanoseconds(due), [this, due, k, kind, arg](bool cancelled)
			{
				c.check(!cancelled, "timer %d is reported as cancelled although nobody stopped it", k); c.check(vclock::now_ns() >= due, "timer %d fires early", k);
				rfired.push_back(k); if (kind == 1) give(arg); else if (kind == 2) start(arg);
			});
			(void)h;
		}
	};
	struct Oops { int id; };

	// at the end of a coroutine its locals may still use the function object the task was started with
	struct AtEnd { World& w; int i; ~AtEnd() { int f = w.p.n[i].form; if (w.p.n[i].root && (f == 3 || f == 4 || f >= 7)) { w.c.check(w.fobj_live[i] == 1, "the function object of task %d has %d instances while the locals of its coroutine are destroyed", i, (int)w.fobj_live[i]); w.c.check(w.alive.count(w.called_on[i]), "the function object that the coroutine of task %d was called on does not live while the locals of the coroutine are destroyed", i); ++w.ends; } } };
#define BODY(YIELD_EXPR, RESULT_EXPR) \
		AtEnd at_end{ w, i }; Counted local(i); const Node& n = w.p.n[i]; \
		for (int s = 0;; ++s) \
		{ \
			w.rec(i, s); local.ok(); w.c.check(local.id == i, "a local variable of coroutine %d changed", i); \
			if (s >= (int)n.steps.size()) break; \
			const Step& t = n.steps[s]; \
			switch (t.kind) \
			{ \
			case YIELD: YIELD_EXPR; break; \
			case RESULT: RESULT_EXPR; break; \
			case CALL: try { bool ex = false; try { if (w.p.n[t.arg].form == 1) { int r = co_await child_i(w, t.arg, root); w.c.check(r == t.arg * 3, "wrong result of coroutine %d", t.arg); } else co_await child_v(w, t.arg, root); } catch (Oops& o) { ex = true; w.c.check(o.id == t.arg, "the exception of another coroutine arrived"); } \
				w.c.check(ex == w.p.n[t.arg].throws_, "coroutine %d: exception expected %d, got %d", t.arg, (int)w.p.n[t.arg].throws_, (int)ex); } catch (future_exception& e) { w.c.fail("unexpected %s", e.what()); } break; \
			case WAIT: co_await w.cellf[t.arg]; break; \
			case SET: w.give(t.arg); break; \
			case START: w.start(t.arg); break; \
			case SLEEP: co_await sleep_until(vclock::base() + nanoseconds(vclock::now_ns() + t.d), sch()); break; \
			case QUERY: { ++w.queries; auto* sp = librf_current_scheduler(); w.c.check(sp == &sch(), "coroutine %d sees another scheduler", i); auto* tk = librf_current_task(); w.c.check(tk && tk == w.task[root], "coroutine %d sees a task that is not its own", i); auto* rs = librf_root_state(); w.c.check(rs && sch().find_task(rs) == w.task[root], "coroutine %d sees a root that is not its own", i); break; } \
			} \
		} \
		if (n.throws_) throw Oops{ i };

	future_t<int> child_i(World& w, int i, int root);
	future_t<> child_v(World& w, int i, int root);
	future_t<> child_v(World& w, int i, int root) { BODY(co_await yield(), co_await yield()) }
	future_t<int> child_i(World& w, int i, int root) { BODY(co_await yield(), co_yield i) co_return i * 3; }
	generator_t<int> gen_i(World& w, int i, int root)
	{
		AtEnd at_end{ w, i }; Counted local(i); const Node& n = w.p.n[i]; (void)root;
		for (int s = 0;; ++s)
		{
			w.rec(i, s); local.ok();
			if (s >= (int)n.steps.size()) break;
			const Step& t = n.steps[s];
			switch (t.kind) { case YIELD: case RESULT: co_yield s; break; case SET: w.give(t.arg); break; case START: w.start(t.arg); break; default: break; }
		}
		static const int zero = 0; co_return zero;
	}
	struct FObj
	{
		World* w; int i; std::unique_ptr<Counted> id;
		FObj(World* w_, int i_) : w(w_), i(i_), id(std::make_unique<Counted>(i_)) { w->fobj_live[i]++; w->alive.insert(this); }
		FObj(const FObj& o) : w(o.w), i(o.i), id(std::make_unique<Counted>(o.i)) { w->fobj_live[i]++; w->alive.insert(this); }
		FObj(FObj&& o) : w(o.w), i(o.i), id(std::move(o.id)) { w->fobj_live[i]++; w->alive.insert(this); }
		void here() const { w->called_on[i] = this; }
		~FObj() { w->alive.erase(this); if (--w->fobj_live[i] == 0) { ++w->asked; (void)sch().empty(); (void)sch().find_task(nullptr); } }	// a destructor may use the scheduler
	};
	struct FInt : FObj { using FObj::FObj; future_t<int> operator()() const { here(); return child_i(*w, id->id, id->id); } };
	struct FFut : FObj { using FObj::FObj; future_t<> operator()() const { here(); return child_v(*w, id->id, id->id); } };
	struct FGen : FObj { using FObj::FObj; generator_t<int> operator()() const { here(); return gen_i(*w, id->id, id->id); } };

	void World::start(int i)
	{
		if (started[i]) return; started[i] = 1;
		auto& s = sch();
		switch (p.n[i].form)
		{
		case 0: task[i] = s + child_v(*this, i, i); break;
		case 1: task[i] = s + child_i(*this, i, i); break;
		case 2: task[i] = s + gen_i(*this, i, i); break;
		case 3: task[i] = s + FFut(this, i); break;
		case 4: task[i] = s + FGen(this, i); break;
		case 5: { task[i] = s + *awf[i]; awf[i].reset(); break; }
		case 6: { auto f = child_v(*this, i, i); task[i] = s + f; auto g = std::move(f); break; }
		case 7: { FFut f(this, i); task[i] = s + f; f.id->id = -5; break; }
		case 9: task[i] = s + FInt(this, i); break;
		case 8: { const FGen f(this, i); task[i] = s + f; f.id->id = -5; break; }
		}
		c.check(task[i] != nullptr, "starting a task returns no task");
	}

	int gen_node(Case& c, Prog& p, int depth, bool root, bool timers)
	{
		int i = (int)p.n.size(); p.n.emplace_back(); Node n; n.root = root;
		static const int forms[] = { 0, 1, 3, 2, 4, 6, 5, 7, 8, 9 };
		n.form = root ? forms[c.weighted({ 6, 4, 3, 3, 2, 2, 2, 1, 1, 2 })] : (int)c.draw(2);
		if (n.form == 5) { p.n[i] = n; return i; }
		bool gen = n.form == 2 || n.form == 4 || n.form == 8;
		n.throws_ = !gen && c.chance(1, 6);
		int k = (int)c.size(0, depth > 3 ? 3 : 8);
		for (int s = 0; s < k; ++s)
		{
			Step t{ (int)c.weighted({ 6, 5, 2, 3, 2, 2, 2, 2 }), 0, 0 };
			if (gen && t.kind != YIELD && t.kind != SET && t.kind != START) t.kind = YIELD;
			if ((t.kind == CALL || t.kind == START) && p.n.size() > 60) t.kind = YIELD;
			if (t.kind == CALL && depth > 6) t.kind = YIELD;
			if (t.kind == START && depth > 3) t.kind = YIELD;
			if (t.kind == RESULT && !(n.form == 1 && root)) t.kind = YIELD;
			if (t.kind == SLEEP && !timers) t.kind = YIELD;
			if (t.kind == WAIT) { t.arg = p.cells++; }		// one waiter per cell
			if (t.kind == SET) { if (!p.cells) t.kind = YIELD; else t.arg = (int)c.draw(p.cells); }
			if (t.kind == CALL) t.arg = gen_node(c, p, depth + 1, false, timers);
			if (t.kind == START) t.arg = gen_node(c, p, depth + 1, true, timers);
			if (t.kind == SLEEP) { static const int64_t ds[] = { 1000, 1000000, 1000000, 5000000, 2000000 }; t.d = ds[c.draw(5)]; }
			n.steps.push_back(t);
		}
		p.n[i] = n; return i;
	}
	std::string show(const Prog& p, int i)
	{
		static const char* fn[] = { "future<>", "future<int>", "generator", "function object", "function object (generator)", "awaitable future", "moved future", "named function object", "named function object (generator)", "function object (future<int>)" };
		std::string s = std::to_string(i) + ":" + fn[p.n[i].form] + "{";
		for (auto& t : p.n[i].steps) switch (t.kind)
		{
		case YIELD: s += " yield"; break; case RESULT: s += " co_yield"; break; case CALL: s += " await(" + show(p, t.arg) + ")"; break; case WAIT: s += " wait" + std::to_string(t.arg); break;
		case SET: s += " set" + std::to_string(t.arg); break; case START: s += " start(" + show(p, t.arg) + ")"; break; case SLEEP: s += " sleep" + std::to_string(t.d / 1000) + "us"; break; default: s += " query";
		}
		return s + (p.n[i].throws_ ? " throw}" : " }");
	}

	void compare(World& w, Ref& r)
	{
		Case& c = w.c;
		for (size_t k = 0; k < std::max(w.log.size(), r.log.size()); ++k)
		{
			if (k >= w.log.size()) c.fail("step %d of coroutine %d is due in pass %d but was not run (the scheduler ran %zu steps)", r.log[k].step, r.log[k].node, r.log[k].pass, w.log.size());
			if (k >= r.log.size()) c.fail("step %d of coroutine %d ran in pass %d although it is not due", w.log[k].step, w.log[k].node, w.log[k].pass);
			if (!(w.log[k] == r.log[k])) c.fail("order of resumption: expected step %d of coroutine %d in pass %d, but step %d of coroutine %d ran in pass %d", r.log[k].step, r.log[k].node, r.log[k].pass, w.log[k].step, w.log[k].node, w.log[k].pass);
		}
		if (w.log.size() > 4096) { w.log.clear(); r.log.clear(); }
		if (w.rfired != r.rfired) c.fail("%zu timers added by hand have fired in pass %d, %zu are due (or they fired in another order)", w.rfired.size(), w.pass, r.rfired.size());
	}
	void lifetimes(World& w, Ref& r, bool settled)
	{
		for (size_t i = 0; i < w.p.n.size(); ++i) if (w.p.n[i].form == 3 || w.p.n[i].form == 4 || w.p.n[i].form >= 7)
		{
			bool running = r.started[i] && !r.done[i];
			if (running) w.c.check(w.fobj_live[i] == 1, "the function object of task %zu has %d instances while the task runs", i, (int)w.fobj_live[i]);
			else if (settled || !r.started[i]) w.c.check(w.fobj_live[i] == 0, "the function object of task %zu has %d instances although the task %s", i, (int)w.fobj_live[i], r.started[i] ? "ended" : "has not started");
		}
	}

	void run(Case& c)
	{
		vclock::reset(); bool timers = c.chance(1, 3), raws = c.chance(1, 3);
		Prog p; int roots = (int)c.range(1, 5);
		for (int k = 0; k < roots; ++k) { int i = gen_node(c, p, 0, true, timers); (c.chance(1, 3) && k ? p.later : p.initial).push_back(i); }
		for (int i : p.initial) c.log("task %s", show(p, i).substr(0, 2500).c_str());
		for (int i : p.later) c.log("later task %s", show(p, i).substr(0, 2500).c_str());
		Balance bal;
		{
			World w(c, p); Ref r(p); auto& s = sch();
			std::vector<int> later = p.later;
			c.check(s.empty(), "a fresh scheduler is not empty");
			auto start = [&](int i) { r.start(i); w.start(i); };
			auto finish_aw = [&](int i) { c.log("result of task %d is set", i); r.finish_awaitable(i); w.aw[i].set_value(i); };
			auto pass = [&] { r.batch(); ++w.pass; bool b = s.run_one_batch(); compare(w, r); return b; };
			for (int i : p.initial) start(i);
			bool preset_started = false;
			int ops = (int)c.size(3, 60);
			for (int k = 0; k < ops; ++k)
			{
				switch (c.weighted({ 8, 2, 2, 1, 1, 1 }))
				{
				case 0: pass(); break;
				case 1: if (!later.empty()) { int i = later.back(); later.pop_back(); c.log("start task %d", i); start(i); } break;
				case 2: if (p.cells) { int i = (int)c.draw(p.cells); if (!w.set[i]) { c.log("set %d", i); r.give(i); w.give(i); } } break;
				case 3: { static const int64_t ds[] = { 1000, 999999, 1000000, 10000000 }; vclock::advance_ns(ds[c.draw(4)]); break; }
				case 4: for (size_t i = 0; i < p.n.size(); ++i) if (p.n[i].form == 5 && (bool)w.aw[i] && !r.done[i] && (r.started[i] || c.chance(1, 2))) { if (!r.started[i]) preset_started = true; finish_aw((int)i); break; } break;
				case 5: if (raws && r.raw.size() < 12)
				{
					static const int64_t ds[] = { 1000000, 0, 1000, 2500000, 10000000 }; int64_t due = vclock::now_ns() + ds[c.draw(5)]; int kind = (int)c.draw(3), arg = 0, n = (int)r.raw.size();
					if (kind == 1) { if (!p.cells) kind = 0; else arg = (int)c.draw(p.cells); }
					if (kind == 2) { if (later.empty()) kind = 0; else { arg = later.back(); later.pop_back(); } }
					c.log("timer %d due %lld us (%s %d)", n, (long long)due / 1000, kind == 0 ? "nothing" : kind == 1 ? "sets" : "starts task", arg);
					r.raw.push_back({ kind, arg }); r.timers.push_back({ due, r.tseq++, -1 - n }); w.raw(due, n, kind, arg);
				}
				break;
				}
				c.check(!(r.unfinished > 0 && s.empty()), "the scheduler reports itself empty although %d tasks are unfinished", r.unfinished);
				c.check(!(!r.timers.empty() && s.empty()), "the scheduler reports itself empty although %zu timers are pending", r.timers.size());
				if (r.unfinished == 0 && r.ready.empty() && r.timers.empty()) { settle(c); c.check(s.empty(), "the scheduler is not empty although every task has ended"); lifetimes(w, r, true); }
				else lifetimes(w, r, false);
			}
			for (int i : later) start(i);
			bool clocked = timers || raws, until = c.chance(1, 2);
			int guard = 0;
			for (;;)
			{
				// let everything end
				for (int i = 0; i < p.cells; ++i) if (!w.set[i]) { r.give(i); w.give(i); }
				for (size_t i = 0; i < p.n.size(); ++i) if (p.n[i].form == 5 && !r.done[i] && r.started[i]) finish_aw((int)i);
				if (until) { // everything left can run without help: compare order without pass numbers
					bool more = false; for (size_t i = 0; i < p.n.size(); ++i) if (p.n[i].form == 5 && !r.started[i]) more = true;
					if (!more) break; }
				bool b = pass(); if (clocked) vclock::advance_ns(500000);
				if (!b && r.unfinished == 0 && r.ready.empty() && r.timers.empty()) break;
				if (++guard > 20000) c.fail("the program does not end");
			}
			if (until)
			{
				c.log("run until no task is left");
				compare(w, r); w.log.clear(); r.log.clear();
				int g = 0; const int64_t t0 = vclock::now_ns(); const bool pending = !r.timers.empty(); if (pending) c.label("run_until_notask with timers pending"); if (pending && !r.unfinished) c.label("run_until_notask with timers and no task");
				if (clocked) vclock::set_tick_ns(100000);		// the clock moves on its own
				s.run_until_notask();
				vclock::set_tick_ns(0);
				const int64_t t1 = vclock::now_ns(); vclock::advance_ns(t0 - t1);
				while (r.unfinished || !r.ready.empty() || !r.timers.empty()) { r.batch(); if (clocked) vclock::advance_ns(100000); if (++g > 200000) c.fail("the program does not end"); }
				for (auto& e : r.log) e.pass = 0; for (auto& e : w.log) e.pass = 0;
				if (clocked)
				{	// the order depends on when the clock was read: every step of every coroutine, in its order
					auto by = [](const Ev& a, const Ev& b) { return a.node < b.node; }; std::stable_sort(r.log.begin(), r.log.end(), by); std::stable_sort(w.log.begin(), w.log.end(), by);
					c.check(w.rfired.size() == r.rfired.size(), "run_until_notask() returned with %zu of %zu timers fired", w.rfired.size(), r.rfired.size()); w.rfired = r.rfired;
				}
				compare(w, r);
				c.label("run_until_notask");
			}
			c.check(s.empty(), "the scheduler is not empty although every task has ended");
			lifetimes(w, r, true);
			for (size_t i = 0; i < p.n.size(); ++i) if (p.n[i].root && p.n[i].form != 5) c.check(r.done[i] == r.started[i], "reference");
			if (p.n.size() >= 3 && w.pass >= 3) c.nontrivial();
			if (preset_started) c.label("task started on a finished awaitable"); if (w.queries) c.label("queries of task/root/scheduler", w.queries); if (timers) c.label("with sleeps"); if (r.raw.size()) c.label("timers added by hand", r.raw.size()); if (w.ends) c.label("ends of tasks made from function objects", w.ends); c.label("coroutines", p.n.size());
			for (size_t i = 0; i < p.n.size(); ++i) if (!r.started[i]) { /* never started: no coroutine object exists */ }
		}
		bal.verify(c, "after every task ended");
	}
}
VP_CHECK({ "scheduler", "1-5 task trees of 10 forms with yields, child awaits, waits, timers, tasks started by tasks, driven pass by pass; non-trivial = at least 3 coroutines and 3 passes",
	run, 400000, 8000000, true, 3000, warm });
