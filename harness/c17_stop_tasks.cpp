// C17: tasks with stop callbacks, stop requests for one task and for a whole scheduler from everywhere, against a model of who has been asked to stop.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono;

namespace
{
	constexpr int64_t BASE = 100000000;
	// what a coroutine does / what a stop callback does
	enum Act { REG, AWAIT, SLEEP, NAP, POLL, YIELD, CHILD, VIA, DROP, STOP, STOP_IF, STOP_ALL, COPY, STOP_COPY, SPAWN, SET_VALUE, SET_ERROR, SIGNAL, WAIT_EVENT, THROW, ACTS };
	const char* aname[] = { "register a callback", "await", "sleep", "sleep in a child", "poll its token", "yield", "child", "switch scheduler", "destroy callback", "request_stop of", "request_stop_if_possible of", "stop all on", "copy the source of", "request through a copy of the source of", "start task", "set value of", "set error of", "signal event", "wait for event", "throw" };
	struct Op { Act a; int x = 0; int64_t ns = 0; std::vector<Op> in; bool child = false; };	// in: actions of the callback / steps of the child; x: task, slot, awaitable...
	using Prog = std::vector<Op>;
	struct Cb { int task, slot; bool live = true, registered_after = false; int fired = 0; std::unique_ptr<stop_callback<std::function<void()>>> obj; };
	struct Task { Prog prog, death; int how = 0, home = 0; bool started = false, alive = false, src = false, req = false, may = false, ended = false, touched = false; task_t* ptr = nullptr; std::optional<stop_token> tok; std::vector<stop_source> copies; int stops = 0; };
	struct Sleep { int task; int64_t due; int on, depth, armed; bool active = true, cancelled = false, unsure = false, fired = false; };
	struct Aw { std::optional<awaitable_t<int>> a; std::optional<future_t<int>> f; bool set = false, err = false, awaited = false; };
	struct Oops {};

	struct World
	{
		Case& c; scheduler_t* sch[2]; std::vector<Task> t; std::vector<std::unique_ptr<Cb>> cb; std::vector<Sleep> s; std::vector<Aw> aw; event_t ev; int signals = 0, waited = 0, round = 0, depth = 0, unfinished = 0;
		int fired = 0, stops = 0, alls = 0, cancelled = 0, nested = 0, spawned = 0, immediate = 0, late = 0; bool ending = false;
		World(Case& c_) : c(c_), sch{ &hx::sch(), &hx::sch2() } {}

		// the stop state of task i exists from now on
		void touch(int i) { Task& k = t[i]; k.src = true; if (!k.tok) k.tok = k.ptr->get_stop_token(); }
		void begin_request(int i) { for (auto& q : cb) (void)q; (void)i; }
		void after_request(int i)
		{
			Task& k = t[i]; k.req = true; k.may = false;
			for (auto& q : cb) if (q->task == i && q->live) c.check(q->fired == 1, "stop of task %d was requested, but its callback %d was invoked %d times", i, (int)(&q - &cb[0]), q->fired);
		}
		bool running_request(int i) { return t[i].may; }
		// a request through `f` for task i; expected result by the model
		template<class F> void request(int i, bool possible, F f, const char* what)
		{
			Task& k = t[i]; bool sure = !k.may, want = possible && !k.req; 
			bool outer = k.may; if (possible && !k.req) k.may = true;
			++depth; bool got = f(); --depth;
			if (sure) c.check(got == want, "%s of task %d returned %d, expected %d", what, i, got, want);
			if (possible) { if (outer) k.req = true; else after_request(i); }
			++stops;
		}
		void stop_all(int on)
		{
			std::vector<int> who; for (int i = 0; i < (int)t.size(); ++i) if (t[i].alive && t[i].home == on && t[i].src) who.push_back(i);
			std::vector<int> mine; for (int i : who) if (!t[i].req && !t[i].may) { t[i].may = true; mine.push_back(i); }
			std::vector<size_t> before; if (depth) ++nested;
			++depth; sch[on]->request_stop_all_if_possible(); --depth;
			for (int i : mine) after_request(i);
			for (auto& x : s) if (x.active && x.on == on && !x.fired && !x.cancelled) { if (x.depth == 0 || round > x.armed) x.cancelled = true; else x.unsure = true; }
			++alls;
		}
		void reg(int i, const Op& o)
		{
			Task& k = t[i]; int n = (int)cb.size(); cb.push_back(std::make_unique<Cb>()); Cb* q = cb[n].get(); q->task = i; q->slot = o.x;
			Prog acts = o.in; bool now = k.req; if (k.req || k.may) { q->registered_after = true; ++immediate; }
			q->obj = std::make_unique<stop_callback<std::function<void()>>>(*k.tok, [this, i, n, acts] { fire(i, n, acts); });
			if (now) c.check(q->fired == 1, "a callback registered with task %d after its stop was requested was invoked %d times", i, q->fired);
			else if (!k.req && !k.may) c.check(q->fired == 0, "a callback registered with task %d was invoked although its stop was not requested", i);
		}
		void fire(int i, int n, const Prog& acts)
		{
			Cb& q = *cb[n]; c.check(q.live, "callback %d of task %d is invoked after its destruction", n, i); c.check(++q.fired == 1, "callback %d of task %d is invoked twice", n, i);
			c.check(t[i].req || t[i].may, "callback %d of task %d is invoked although nobody asked that task to stop", n, i); ++fired;
			if (!t[i].alive) ++late;
			Prog a = acts; for (auto& o : a) act(o, i, false);
		}
		// actions possible everywhere
		void act(const Op& o, int self, bool inside)
		{
			int n = (int)t.size();
			switch (o.a)
			{
			case DROP: { std::vector<int> l; for (int k = 0; k < (int)cb.size(); ++k) if (cb[k]->live && cb[k]->obj) l.push_back(k); if (l.empty()) break; int k = l[o.x % l.size()]; cb[k]->live = false; auto p = std::move(cb[k]->obj); c.note("   callback %d destroyed", k); p.reset(); break; }
			case STOP: { int i = o.x % n; if (!t[i].alive) break; if (t[i].may && !t[i].tok) break; touch(i); c.note("   request_stop of task %d", i); request(i, true, [&] { return t[i].ptr->request_stop(); }, "request_stop"); break; }
			case STOP_IF: { int i = o.x % n; if (!t[i].alive) break; c.note("   request_stop_if_possible of task %d", i); request(i, t[i].src, [&] { return t[i].ptr->request_stop_if_possible(); }, "request_stop_if_possible"); break; }
			case STOP_ALL: { if (depth > 6) break; c.note("   stop all on scheduler %d", o.x & 1); stop_all(o.x & 1); break; }
			case COPY: { int i = o.x % n; if (!t[i].alive || t[i].copies.size() > 3) break; touch(i); t[i].copies.push_back(t[i].ptr->get_stop_source()); break; }
			case STOP_COPY: { int i = o.x % n; if (t[i].copies.empty()) break; c.note("   request through a copy for task %d (%s)", i, t[i].alive ? "alive" : "ended"); stop_source sc = t[i].copies.back(); request(i, true, [&] { return sc.request_stop(); }, "request_stop of a copied source"); break; }
			case SPAWN: { for (int i = 0; i < n; ++i) if (!t[i].started) { start(i); ++spawned; break; } break; }
			case SET_VALUE: case SET_ERROR: { int i = o.x % (int)aw.size(); set(i, o.a == SET_ERROR); break; }
			case SIGNAL: ++signals; ev.signal(); break;
			case REG: if (t[self].alive || t[self].tok) { if (!t[self].tok) touch(self); reg(self, o); } break;
			default: break;
			}
			(void)inside;
		}
		void set(int i, bool err)
		{
			Aw& a = aw[i]; if (a.set) return; a.set = true; a.err = err; c.note("   result of awaitable %d: %s", i, err ? "error" : "value");
			if (err) a.a->throw_exception(canceled_exception{ error_code::stop_requested }); else a.a->set_value(1000 + i);
		}
		void start(int i);
		void pass(int on) { for (auto& x : s) if (x.active && x.on == on && !x.cancelled && x.due <= vclock::now_ns()) { if (round > x.armed || x.depth == 0) x.fired = true; else x.unsure = true; } }
	};

	future_t<> steps(World& w, int id, const Prog& p)
	{
		Case& c = w.c; Counted local(id);
		for (const Op& o : p)
		{
			Task& me = w.t[id];
			c.check(librf::this_scheduler() == w.sch[0] && librf_current_scheduler() == w.sch[me.home], "task %d runs on another scheduler", id);
			switch (o.a)
			{
			case REG:
			{
				task_t* k = librf_current_task(); c.check(k == me.ptr, "the current task of task %d is another one", id);
				w.touch(id); w.reg(id, o); break;
			}
			case AWAIT:
			{
				Aw& a = w.aw[o.x % w.aw.size()]; if (a.awaited) break; a.awaited = true; ++w.waited; bool err = false; int v = 0;
				try { auto f = std::move(*a.f); a.f.reset(); v = co_await f; } catch (const canceled_exception& e) { err = true; c.check(e._error == error_code::stop_requested, "the error of an awaitable has another code"); }
				c.check(a.set && a.err == err, "task %d gets %s from an awaitable that was %s", id, err ? "an error" : "a value", !a.set ? "never set" : a.err ? "set to an error" : "set to a value");
				if (!err) c.check(v == 1000 + (int)(&a - &w.aw[0]), "task %d gets the value of another awaitable", id);
				break;
			}
			case SLEEP: case NAP:
			{
				int k = (int)w.s.size(); w.s.push_back({ id, vclock::now_ns() + o.ns, me.home, o.a == NAP, w.round + (o.a == NAP) }); bool cancel = false;
				try
				{
					if (o.a == SLEEP) co_await sleep_until_(vclock::base() + nanoseconds(w.s[k].due), *w.sch[me.home]);
					else co_await sleep_until(vclock::base() + nanoseconds(w.s[k].due));
				}
				catch (const canceled_exception& e) { cancel = true; c.check(e._error == error_code::timer_canceled, "the sleep of task %d ends with another error", id); ++w.cancelled; }
				Sleep& x = w.s[k]; x.active = false;
				if (cancel) c.check(x.cancelled || x.unsure, "the sleep of task %d was cancelled although its scheduler was not stopped", id);
				else c.check((!x.cancelled || x.unsure) && vclock::now_ns() >= x.due, "the sleep of task %d ended normally %s", id, x.cancelled ? "although the timers of its scheduler were cancelled" : "too early");
				break;
			}
			case POLL:
			{
				task_t* k = librf_current_task(); c.check(k == me.ptr, "the current task of task %d is another one", id);
				w.touch(id); stop_token tok = k->get_stop_token();
				for (int r = 0; r < 4; ++r) { if (!w.t[id].may) c.check(tok.stop_requested() == w.t[id].req, "task %d sees stop_requested = %d, expected %d", id, tok.stop_requested(), w.t[id].req); if (tok.stop_requested()) break; co_await yield(); }
				break;
			}
			case YIELD: co_await yield(); break;
			case CHILD: co_await steps(w, id, o.in); break;
			case VIA: w.t[id].home = o.x & 1; co_await via(*w.sch[o.x & 1]); break;
			case WAIT_EVENT: co_await w.ev.wait(); break;
			case THROW: throw Oops{};
			default: w.act(o, id, true); break;
			}
			local.ok(); c.check(local.id == id, "a local variable of task %d changed", id);
		}
	}
	future_t<> body(World& w, int id)
	{
		w.t[id].alive = true;
		try { co_await steps(w, id, w.t[id].prog); } catch (Oops&) {}
		Task& me = w.t[id]; w.c.check(!me.ended, "task %d ends twice", id); me.ended = true; me.alive = false; --w.unfinished; w.c.note("   task %d ends", id);
	}
	generator_t<int> gen(World& w, int id)
	{
		for (int k = 0; k < 3; ++k) { w.act(Op{ STOP_IF, id }, id, true); co_yield k; if (k == 1) { w.touch(id); } }
		Task& me = w.t[id]; me.ended = true; me.alive = false; --w.unfinished; co_return 0;
	}
	void World::start(int i)
	{
		Task& k = t[i]; k.started = k.alive = true; ++unfinished;
		switch (k.how)
		{
		case 0: k.ptr = *sch[k.home] + body(*this, i); break;
		case 1: k.ptr = *sch[k.home] + [this, i, keep = Counted(500 + i), last = t[i].death.empty() ? nullptr : std::shared_ptr<void>((void*)this, [this, i](void*) { c.note("   the function object of task %d is destroyed", i); Prog a = t[i].death; for (auto& o : a) act(o, i, false); })] { return body(*this, i); }; break;
		default: k.ptr = *sch[k.home] + gen(*this, i); break;
		}
		c.check(k.ptr != nullptr, "no task was made");
	}

	Prog callback(Case& c, int n)
	{
		Prog p; int k = (int)c.draw(4);
		while (k-- > 0)
		{
			static const Act a[] = { SET_ERROR, SET_VALUE, SPAWN, STOP, STOP_IF, STOP_ALL, DROP, SIGNAL, STOP_COPY, COPY, REG };
			Op o{ a[c.weighted({ 5, 2, 3, 3, 2, 1, 2, 2, 1, 1, 1 })] }; o.x = (int)c.draw(n * 2); if (o.a == STOP_ALL) o.x &= 1; p.push_back(o);
		}
		return p;
	}
	Prog program(Case& c, int n, int depth, bool two)
	{
		Prog p; int k = (int)c.size(0, depth ? 4 : 7);
		while (k-- > 0)
		{
			Op o{ (Act)c.weighted({ 9, 5, 3, 2, 2, 2, 3, 2, 2, 2, 2, 2, 3, 3, 2, 1, 1, 1, 1, 1 }) };
			if (o.a == CHILD && depth > 2) o.a = YIELD; if (o.a == VIA && !two) o.a = YIELD;
			o.x = (int)c.draw(n * 2);
			if (o.a == REG) o.in = callback(c, n); else if (o.a == CHILD) o.in = program(c, n, depth + 1, two); else if (o.a == SLEEP || o.a == NAP) o.ns = (int64_t)c.size(0, 30) * 1000000; else if (o.a == STOP_ALL && !two) o.x = 0;
			p.push_back(o);
		}
		return p;
	}
	std::string show(const Prog& p) { std::string s; for (auto& o : p) { s += std::string(s.empty() ? "" : "; ") + aname[o.a] + " " + (o.ns ? std::to_string(o.ns) : std::to_string(o.x)); if (o.a == REG || o.a == CHILD) s += " {" + show(o.in) + "}"; } return s; }

	void run(Case& c)
	{
		vclock::reset(); vclock::advance_ns(BASE); drop_spare(); Balance bal;
		{
			World w(c); bool two = c.chance(1, 3); int n = (int)c.size(1, 7), naw = (int)c.range(1, 4);
			w.t.resize(n); w.cb.reserve(4000); w.s.reserve(4000); w.aw.resize(naw);
			for (auto& a : w.aw) { a.a.emplace(); a.f.emplace(a.a->get_future()); }
			for (int i = 0; i < n; ++i) { w.t[i].how = c.weighted({ 4, 3, 1 }); w.t[i].home = two && c.chance(1, 3); if (w.t[i].how < 2) w.t[i].prog = program(c, n, 0, two); if (w.t[i].how == 1 && c.chance(1, 3)) w.t[i].death = callback(c, n); c.log("task %d on scheduler %d%s: %s", i, w.t[i].home, w.t[i].how == 1 ? " (function object)" : w.t[i].how == 2 ? " (generator)" : "", show(w.t[i].prog).c_str()); if (w.t[i].death.size()) c.log("   its function object when destroyed: %s", show(w.t[i].death).c_str()); }
			int first = (int)c.range(1, n); for (int i = 0; i < first; ++i) if (!w.t[i].started) w.start(i);
			auto settle = [&]
			{
				for (int r = 0, quiet = 0; quiet < 2; ++r)
				{
					if (r > 20000) c.fail("the schedulers keep running without end");
					bool any = false; ++w.round;
					for (int on = 0; on < (two ? 2 : 1); ++on) { w.pass(on); if (w.sch[on]->run_one_batch()) any = true; }
					quiet = any ? 0 : quiet + 1;
				}
				for (auto& x : w.s) if (x.active) c.check(x.due > vclock::now_ns() && !x.cancelled, "task %d still sleeps although %s", x.task, x.cancelled ? "the timers of its scheduler were cancelled" : "its time has come");
				for (int i = 0; i < n; ++i) if (w.t[i].tok)
				{
					c.check(w.t[i].tok->stop_requested() == w.t[i].req, "stop_requested of task %d is %d, expected %d", i, w.t[i].tok->stop_requested(), w.t[i].req);
					bool possible = w.t[i].req || w.t[i].alive || !w.t[i].copies.empty();
					c.check(w.t[i].tok->stop_possible() == possible, "stop_possible of task %d (%s) is %d, expected %d", i, w.t[i].alive ? "alive" : "ended", w.t[i].tok->stop_possible(), possible);
				}
				for (size_t k = 0; k < w.cb.size(); ++k) { Cb& q = *w.cb[k]; if (!q.live) continue; c.check(q.fired == (w.t[q.task].req ? 1 : 0), "callback %zu of task %d was invoked %d times although its stop was %srequested", k, q.task, q.fired, w.t[q.task].req ? "" : "not "); }
			};
			int k = (int)c.size(2, 30);
			while (k-- > 0)
			{
				int what = c.weighted({ 5, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1 });
				switch (what)
				{
				case 0: c.log("run"); settle(); break;
				case 1: { ++w.round; bool any; for (int on = 0; on < (two ? 2 : 1); ++on) { w.pass(on); any = w.sch[on]->run_one_batch(); } (void)any; c.log("one pass"); break; }
				case 2: { int64_t best = -1; for (auto& x : w.s) if (x.active && (best < 0 || x.due < best)) best = x.due; int64_t d = best >= 0 && c.draw(2) ? best - vclock::now_ns() : (int64_t)c.draw(20) * 1000000; if (d > 0) vclock::advance_ns(d); c.log("advance to %lld", (long long)vclock::now_ns()); break; }
				case 3: { Op o{ STOP_ALL, (int)(two && c.draw(2)) }; c.log("stop all on scheduler %d", o.x); w.act(o, 0, false); break; }
				default: { static const Act a[] = { STOP, COPY, STOP_IF, DROP, SET_VALUE, STOP_COPY, SPAWN }; Op o{ a[what - 4], (int)c.draw(n * 2) }; c.log("%s %d", aname[o.a], o.x); w.act(o, 0, false); break; }
				}
			}
			for (int i = 0; i < n; ++i) if (!w.t[i].started) w.start(i);
			w.c.log("finish");
			for (int r = 0; r < 300 && w.unfinished; ++r)
			{
				settle(); for (int i = 0; i < naw; ++i) w.set(i, false); settle(); w.ev.signal_all(); w.ev.signal();
				settle(); int64_t best = -1; for (auto& x : w.s) if (x.active && (best < 0 || x.due < best)) best = x.due;
				if (best > vclock::now_ns()) vclock::advance_ns(best - vclock::now_ns());
			}
			settle();
			for (int i = 0; i < n; ++i) c.check(w.t[i].ended, "task %d never ends", i);
			for (int on = 0; on < 2; ++on) c.check(w.sch[on]->empty(), "a scheduler is not empty although every task has ended");
			for (int i = 0; i < naw; ++i) w.set(i, false);
			if (w.fired && w.alls + w.stops >= 2) c.nontrivial();
			c.label("callbacks invoked", w.fired); c.label("requests for one task", w.stops); c.label("requests for a scheduler", w.alls); c.label("requests from inside callbacks", w.nested); c.label("sleeps cancelled", w.cancelled); c.label("tasks started by tasks or callbacks", w.spawned); c.label("callbacks invoked at registration", w.immediate); c.label("callbacks invoked after the end of their task", w.late);
			for (auto& q : w.cb) q->live = false;
		}
		drop_spare(); bal.verify(c, "after all tasks ended");
	}
}
VP_CHECK({ "stop-tasks", "1-7 tasks (coroutines, function objects, generators) on 1-2 schedulers that register stop callbacks, wait, sleep, switch and stop each other; callbacks set results, start tasks, stop others or everything; non-trivial = at least two stop requests and one callback invoked",
	run, 200000, 5000000, true, 3000, warm });
