// C14: where coroutines run (also after switching schedulers) and which scheduler a thread sees, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;

namespace
{
	constexpr int MAXT = 3, MAXA = 5;
	enum { VIA, VIA_SAME, YIELD, CHILD, AWAIT, SLEEP, LOCK, SEND, RECV, EVENT, ASK, WHEN, KINDS };
	const char* kname[] = { "via", "via the current one", "yield", "child", "await a result of a thread", "sleep", "lock", "send", "receive", "event", "ask for the scheduler", "wait for all of two tasks" };
	struct Op { int kind = 0, to = 0, n = 0; bool ptr = false, thrown = false; std::vector<Op> sub; };
	struct Actor { int id, home; std::vector<Op> ops; int cur = 0; int steps = 0; bool ended = false; std::unique_ptr<Guarded> seen; int switches = 0; };
	struct Req { std::function<void()> f; int delay; };

	struct World
	{
		Case& c; int nt; std::vector<Actor> a; scheduler_t* sch[MAXT] = {}; int pass[MAXT] = {}; std::atomic<int> ready{ 0 }; std::vector<Req> req; int left = 0, remote_wakes = 0, sleeps = 0, via_in_child = 0;
		mutex_t mtx; event_t ev{ false }; std::unique_ptr<channel_t<int>> ch; bool rescue_ev = false, rescue_send = false, rescue_recv = false; int sending = 0, receiving = 0;
		World(Case& c_) : c(c_) {}
		// the coroutine of this actor runs right now: is it where it belongs?
		void here(Actor& x, const char* after)
		{
			int me = dct::self(); scheduler_t* s = this_scheduler();
			c.check(me == x.cur, "actor %d runs in thread %d after '%s' although it belongs to the scheduler of thread %d", x.id, me, after, x.cur);
			c.check(s == sch[x.cur], "thread %d does not see its own scheduler", me);
			++x.seen->v;	// handed from thread to thread with the coroutine
		}
	};
	void post(World& w, std::function<void()> f, int delay) { dct::Atomic at; w.req.push_back({ std::move(f), delay }); dct::give(&w.req); }

	struct Oops { int v; };
	future_t<int> child(World& w, Actor& x, const Op& o, int depth);
	future_t<int> quick(World& w, Actor& x, int v) { int at = x.cur; w.c.check(dct::self() == at, "a task of a wait for all runs in thread %d instead of %d", dct::self(), at); co_await yield(); w.c.check(dct::self() == at, "a task of a wait for all continues in thread %d instead of %d", dct::self(), at); co_return v; }
	future_t<> run_ops(World& w, Actor& x, const std::vector<Op>& ops, int depth)
	{
		for (const Op& o : ops)
		{
			switch (o.kind)
			{
			case VIA:
			{
				bool same = o.to == x.cur; int before = x.seen->v, pass = w.pass[x.cur]; { dct::Atomic at; x.cur = o.to; if (!same) { ++x.switches; if (depth) ++w.via_in_child; } }
				if (o.ptr) co_await via(w.sch[o.to]); else co_await via(*w.sch[o.to]);
				w.c.check(before == x.seen->v, "actor %d did something else while it switched", x.id);
				if (same) w.c.check(pass == w.pass[x.cur], "actor %d was suspended when it switched to the scheduler it belongs to", x.id);
				break;
			}
			case VIA_SAME: { int pass = w.pass[x.cur]; co_await via(w.sch[x.cur]); w.c.check(pass == w.pass[x.cur], "actor %d was suspended when it switched to the scheduler it belongs to", x.id); break; }
			case YIELD: for (int i = 0; i <= o.n; ++i) { co_await yield(); w.here(x, "yield"); } break;
			case CHILD:
			{
				bool caught = false; int r = -1;
				try { r = co_await child(w, x, o, depth + 1); } catch (const Oops& e) { caught = true; w.c.check(e.v == x.id, "the exception of another child arrived"); }
				w.c.check(caught == o.thrown && (caught || r == x.id), "a child gave a wrong outcome"); break;
			}
			case AWAIT: { awaitable_t<int> aw; auto f = aw.get_future(); int id = x.id; post(w, [aw, id] { aw.set_value(id); }, o.n); int r = co_await f; w.c.check(r == x.id, "actor %d got the result meant for %d", x.id, r); { dct::Atomic at; ++w.remote_wakes; } break; }
			case SLEEP: { auto t = std::chrono::milliseconds(o.n); if (o.ptr) co_await sleep_for(t, *w.sch[o.to]); else co_await sleep_for(t); dct::Atomic at; ++w.sleeps; break; }
			case LOCK: { { auto g = co_await w.mtx.lock(); w.here(x, "lock"); for (int i = 0; i < o.n; ++i) co_await yield(); } break; }
			case SEND: { { dct::Atomic at; ++w.sending; } co_await w.ch->write(x.id); dct::Atomic at; --w.sending; break; }
			case RECV: { { dct::Atomic at; ++w.receiving; } (void)co_await w.ch->read(); dct::Atomic at; --w.receiving; break; }
			case EVENT: { bool r; if (o.n & 1) r = co_await w.ev.wait(); else r = co_await w.ev.wait_for(std::chrono::milliseconds(o.n + 1)); (void)r; break; }
			case ASK:
			{
				scheduler_t* s = co_await get_current_scheduler(); w.c.check(s == w.sch[x.cur], "the current scheduler of actor %d is not the one it switched to", x.id);
				task_t* t = co_await get_current_task(); w.c.check(t != nullptr, "the task of actor %d is not known to its scheduler", x.id);
				break;
			}
			case WHEN: { auto [a, b] = co_await when_all(quick(w, x, 1), quick(w, x, 2)); w.c.check(a == 1 && b == 2, "a wait for all gave wrong results"); break; }
			}
			w.here(x, kname[o.kind]);
		}
	}
	future_t<int> child(World& w, Actor& x, const Op& o, int depth)
	{
		w.here(x, "start of a child");
		co_await run_ops(w, x, o.sub, depth);
		w.here(x, "what a child awaited");
		if (o.thrown) throw Oops{ x.id };
		co_return x.id;
	}
	future_t<> actor(World& w, Actor& x)
	{
		w.here(x, "start");
		co_await run_ops(w, x, x.ops, 0);
		dct::Atomic at; x.ended = true; --w.left;
	}

	std::vector<Op> gen(Case& c, int nt, int depth, int& budget)
	{
		std::vector<Op> v; int n = (int)c.size(1, depth ? 3 : 7);
		for (int i = 0; i < n && budget > 0; ++i)
		{
			--budget; Op o; o.kind = (int)c.weighted({ 8, 1, 2, depth < 2 ? 4u : 0u, 3, 1, 2, 1, 1, 1, 1, 1 }); o.to = (int)c.draw(nt); o.n = (int)c.size(0, 3); o.ptr = c.draw(2);
			if (o.kind == CHILD) { o.thrown = c.chance(1, 4); o.sub = gen(c, nt, depth + 1, budget); }
			v.push_back(o);
		}
		return v;
	}
	void describe(Case& c, const std::vector<Op>& v, int ind) { for (auto& o : v) { c.log("%*s%s %d%s", ind, "", kname[o.kind], o.kind == VIA ? o.to : o.n, o.thrown ? " (throws)" : ""); if (o.kind == CHILD) describe(c, o.sub, ind + 2); } }

	void run(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(2, MAXT), na = (int)c.range(1, MAXA), np = (int)c.range(1, 2), cap = (int)c.draw(3); std::vector<Actor> as;
		for (int i = 0; i < na; ++i) { Actor x; x.id = i; x.home = x.cur = (int)c.draw(nt); int budget = 14; x.ops = gen(c, nt, 0, budget); as.push_back(std::move(x)); }
		c.log("%d scheduler threads, %d completing threads, channel capacity %d", nt, np, cap); for (auto& x : as) { c.log("actor %d starts on %d", x.id, x.home); describe(c, x.ops, 2); }
		Heap heap;
		{
			World w(c); w.nt = nt; w.a = std::move(as); w.left = na; w.ch = std::make_unique<channel_t<int>>(cap); for (auto& x : w.a) x.seen = std::make_unique<Guarded>();
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				c.check(this_scheduler() == &scheduler_t::g_scheduler, "a new thread does not see the global scheduler");
				{
					local_scheduler_t ls; scheduler_t* s = this_scheduler(); w.sch[t] = s; w.ready.fetch_add(1);
					while (w.ready.load() < nt) dct::yield();
					for (auto& x : w.a) if (x.home == t) *s + actor(w, x);
					for (;;) { ++w.pass[t]; bool did = s->run_one_batch(); if (dct::idle(did)) break; }
					c.check(s->empty(), "the scheduler of thread %d is not empty when nothing runs any more", t);
				}
				c.check(this_scheduler() == &scheduler_t::g_scheduler, "a thread still sees its local scheduler after the end of the guard");
			});
			for (int p = 0; p < np; ++p) bodies.push_back([&, p]
			{
				for (;;)
				{
					Req r; bool did = false; { dct::Atomic at; if (!w.req.empty()) { dct::take(&w.req); r = std::move(w.req.front()); w.req.erase(w.req.begin()); did = true; } }
					if (did) { for (int i = 0; i < r.delay; ++i) dct::yield(); r.f(); }
					bool e = false, s = false, v = false; { dct::Atomic at; if (p == 0) { std::swap(e, w.rescue_ev); std::swap(s, w.rescue_send); std::swap(v, w.rescue_recv); } }
					if (e) { w.ev.signal(); did = true; }
					if (s) { w.ch->write(99); did = true; }
					if (v) { w.ch->read(); did = true; }	// outside of a coroutine: reads at once
					if (dct::idle(did)) break;
				}
			});
			int budget = 80, drained = 0; dct::Options op;
			op.on_quiescent = [&]
			{
				if (w.left <= 0) { if (drained++) return false; vclock::advance_ns(500000000); return true; }	// stopped timers stay listed until they are due
				if (budget-- <= 0) return false;
				// one thing at a time: nobody else is to take what the rescuer waits for
				if (w.sending > 0) w.rescue_recv = true; else if (w.receiving > 0) w.rescue_send = true; else { vclock::advance_ns(5000000); w.rescue_ev = true; }
				return true;
			};
			dct::run(c, std::move(bodies), op);
			uint64_t switches = dct::switches();
			for (auto& x : w.a) c.check(x.ended, "actor %d never ended (it belongs to the scheduler of thread %d)", x.id, x.cur);
			int vias = 0; for (auto& x : w.a) vias += x.switches;
			if (vias >= 1 && switches >= 4) c.nontrivial();
			c.label("switches of scheduler", vias); c.label("switches inside children", w.via_in_child); c.label("wake-ups by other threads", w.remote_wakes); c.label("sleeps", w.sleeps);
			as = std::move(w.a); for (auto& x : as) x.seen = nullptr;
		}
		heap.verify(c);
	}

	// which scheduler a thread sees, with generated nesting of guards
	struct Node { int kind = 0, target = 0; std::vector<Node> in; };	// 0 local guard, 1 guard for a given scheduler, 2 a task on the visible scheduler, 3 a scheduler object of the thread's own
	std::vector<Node> gen_guards(Case& c, int depth, int& budget)
	{
		std::vector<Node> v; int n = (int)c.size(0, 3);
		for (int i = 0; i < n && budget > 0; ++i) { --budget; Node x; x.kind = (int)c.weighted({ 5, 1, 2, 2 }); x.target = (int)c.draw(2); if (depth < 3 && x.kind != 2) x.in = gen_guards(c, depth + 1, budget); v.push_back(x); }
		return v;
	}
	void describe(Case& c, const std::vector<Node>& v, int ind) { for (auto& n : v) { c.log("%*s%s", ind, "", n.kind == 0 ? "local guard" : n.kind == 1 ? "guard for a given scheduler" : n.kind == 2 ? "task" : "scheduler object"); describe(c, n.in, ind + 2); } }
	struct G { Case& c; scheduler_t* given[2]; int ran = 0, expected = 0, made = 0, nested = 0; };
	struct OwnScheduler : scheduler_t {};
	future_t<> tick(int& n) { co_await yield(); ++n; }
	void play(G& g, const std::vector<Node>& v, scheduler_t*& bound)
	{
		auto look = [&](const char* when) { scheduler_t* s = this_scheduler(); g.c.check(s == (bound ? bound : &scheduler_t::g_scheduler), "thread %d sees another scheduler than %s, %s", dct::self(), bound ? "the one bound to it" : "the global one", when); };
		for (auto& n : v)
		{
			if (n.kind == 0)
			{
				bool creates = !bound;
				{
					local_scheduler_t ls; if (creates) { bound = this_scheduler(); ++g.made; for (auto* s : g.given) g.c.check(bound != s, "a new local scheduler is an existing one"); g.c.check(bound != &scheduler_t::g_scheduler, "a local guard made no scheduler"); } else ++g.nested;
					look("inside a local guard"); play(g, n.in, bound); look("at the end of a local guard");
				}
				if (creates) bound = nullptr;
				look("after a local guard");
			}
			else if (n.kind == 1)
			{
				{ local_scheduler_t ls(*g.given[n.target]); if (!bound) bound = g.given[n.target]; else ++g.nested; look("inside a guard for a given scheduler"); play(g, n.in, bound); look("at the end of a guard for a given scheduler"); }
				look("after a guard for a given scheduler");	// as documented the thread stays bound to it
			}
			else if (n.kind == 3)
			{
				bool binds = !bound;
				{
					OwnScheduler own; if (binds) { bound = &own; ++g.made; } else ++g.nested;
					look("after making a scheduler"); play(g, n.in, bound); look("before a scheduler is destroyed");
				}
				if (binds) bound = nullptr;
				look("after a scheduler was destroyed");
			}
			else if (bound && bound != g.given[0] && bound != g.given[1])
			{	// what 'go' starts, runs on the scheduler the thread sees
				int ran = 0; go tick(ran); for (int i = 0; i < 10 && !bound->empty(); ++i) bound->run_one_batch(); g.c.check(ran == 1 && bound->empty(), "a task started in the thread did not run on the scheduler the thread sees");
			}
		}
	}
	void run_guards(Case& c)
	{
		vclock::reset(); int nt = (int)c.range(1, 3); std::vector<std::vector<Node>> prog(nt); for (auto& p : prog) { int budget = 10; p = gen_guards(c, 0, budget); }
		for (int t = 0; t < nt; ++t) { c.log("thread %d", t); describe(c, prog[t], 2); }
		Heap heap; int made = 0, nested = 0;
		{
			scheduler_t* given[2] = {}; std::atomic<int> ready{ 0 }, done{ 0 };
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				while (ready.load() < 2) dct::yield();
				G g{ c, { given[0], given[1] } }; scheduler_t* bound = nullptr;
				c.check(this_scheduler() == &scheduler_t::g_scheduler, "a new thread does not see the global scheduler");
				play(g, prog[t], bound);
				{ dct::Atomic at; made += g.made; nested += g.nested; }
				done.fetch_add(1); while (!dct::idle(false));
			});
			for (int i = 0; i < 2; ++i) bodies.push_back([&, i] { local_scheduler_t ls; given[i] = this_scheduler(); ready.fetch_add(1); while (done.load() < nt) dct::yield(); c.check(this_scheduler() == given[i], "the scheduler of another thread changed"); while (!dct::idle(false)); });
			dct::run(c, std::move(bodies));
		}
		if (made >= 1 && nested >= 1) c.nontrivial();
		c.label("schedulers made", made); c.label("guards inside guards", nested);
		heap.verify(c);
	}
}
VP_CHECK({ "affinity", "1-5 coroutines on the schedulers of 2-3 threads that switch, await children, results of other threads, sleeps, locks, channels and events, with a generated schedule; non-trivial = at least one switch to another scheduler and 4 thread switches",
	run, 200000, 2000000, true, 6000, nullptr });
VP_CHECK({ "guards", "1-3 threads with generated nestings of local scheduler guards and tasks; non-trivial = a scheduler made and a guard inside another one",
	run_guards, 60000, 300000, true, 3000, nullptr });
