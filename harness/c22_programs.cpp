// C22: generated programs over all primitives on one or two schedulers driven by the case.
#include "hx.hpp"
#define PROG_VAL hx::MoveOnly
#define PROG_MAKE(i) hx::MoveOnly(i)
#define PROG_ID(v) (v).id
#define PROG_ATOM (void)0
#define PROG_FAIL(...) vp::current->fail(__VA_ARGS__)
#include "prog_run.hpp"
using namespace librf;
using namespace hx;

namespace
{
	int running = 0;
	int64_t now() { return vclock::now_ns() / 1000000; }
	void run(Case& c)
	{
		vclock::reset(); drop_spare();
		prog::Program p; prog::Gen g{ c, p, 60, false }; g.program(2, 6); prog::describe(c, p);
		Balance bal; bool done = false;
		{
			prog::World w(p); w.running = [] { return running; }; w.now_ms = now; w.sch = { &sch(), &sch2() };
			prog::begin(w);
			bool busy[2] = { true, true }; int batches = 0, quiet = 0, over = 0;
			for (;;)
			{
				int s = p.ns > 1 ? (int)c.draw(2) : 0;
				if (!busy[s]) s = !s;
				if (busy[s])
				{
					running = s; bool did = w.sch[s]->run_one_batch(); busy[s] = false; if (did) busy[0] = busy[1] = true; if (p.ns == 1) busy[1] = false;
					if (++batches > 60000) c.fail("the schedulers keep running tasks without end");
					if (did && c.chance(1, 24)) { vclock::advance_ns((int64_t)c.range(1, 5) * 1000000); busy[0] = true; busy[1] = p.ns > 1; }	// time passes while there is work
					continue;
				}
				++quiet; running = -1;
				auto need = prog::quiescent(w);
				if (!w.left && need.empty()) { if (over++ == 3) break; vclock::advance_ns(50000000); busy[0] = true; busy[1] = p.ns > 1; continue; }	// stopped timers stay listed until due
				auto n = need[c.draw(need.size())];
				if (n.what == 3 || c.chance(1, 4)) { int64_t d = c.range(1, 12); vclock::advance_ns(d * 1000000); if (n.what == 3) c.note("%d ms pass", (int)d); }
				if (n.what != 3) { c.note("from outside: %s %d", n.what == 0 ? "signal" : n.what == 1 ? "write" : "read", n.which); prog::satisfy(w, n, p.ns > 1 ? (int)c.draw(2) : 0); }
				busy[0] = true; busy[1] = p.ns > 1;
			}
			prog::finished(w);
			c.check(sch().empty(), "the first scheduler is not empty at the end"); c.check(sch2().empty(), "the second scheduler is not empty at the end");
			int kinds = __builtin_popcount(w.kinds);
			if (kinds >= 5 && w.ended >= 2) c.nontrivial();
			c.label("tasks", w.ended); c.label("kinds of steps", kinds); c.label("switches", w.vias); c.label("exceptions", w.booms); c.label("exceptions while holding locks", w.booms_locked); c.label("lock waits", w.blocked_locks); c.label("time-outs", w.timeouts); c.label("waits satisfied from outside", w.janitor); c.label("values through channels", w.values);
			done = true;
		}
		drop_spare(); if (done) bal.verify(c, "at the end");
	}
}
VP_CHECK({ "programs", "1-6 tasks with up to 60 steps over all primitives, nested, on 1-2 schedulers driven in a generated order with generated time; non-trivial = at least 5 kinds of steps executed and 2 tasks ended",
	run, 150000, 5000000, true, 8000, warm });
