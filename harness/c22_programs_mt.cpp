// C22: generated programs over all primitives on the schedulers of several threads, under generated schedules.
#include "dx.hpp"
#define PROG_VAL dx::PayloadPtr
#define PROG_MAKE(i) std::make_unique<dx::Payload>(i)
#define PROG_ID(v) (v)->get()
#define PROG_ATOM dct::Atomic prog_atom_
#define PROG_FAIL(...) vp::current->fail(__VA_ARGS__)
#include "prog_run.hpp"
using namespace librf;
using namespace dx;

namespace
{
	int64_t now() { return vclock::now_ns() / 1000000; }
	void run(Case& c)
	{
		vclock::reset();
		prog::Program p; prog::Gen g{ c, p, 24, true }; g.program(3, 5); prog::describe(c, p);
		Heap heap;
		{
			prog::World w(p); w.running = dct::self; w.now_ms = now; w.sch.resize(p.ns);
			std::atomic<int> ready{ 0 }, done{ 0 }; std::vector<std::pair<prog::Need, int>> orders; orders.reserve(64);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < p.ns; ++t) bodies.push_back([&, t]
			{
				local_scheduler_t ls; scheduler_t* s = this_scheduler(); w.sch[t] = s;
				ready.fetch_add(1); while (ready.load() < p.ns) dct::yield();
				for (size_t i = 0; i < p.task.size(); ++i) if (p.home[i] == t) { int id = prog::new_task(w); *s + prog::task(w, p.task[i], t, id); }
				for (;;)
				{
					bool did = s->run_one_batch(); prog::Need n; bool have = false;
					{ dct::Atomic at; for (size_t i = 0; i < orders.size(); ++i) if (orders[i].second == t) { n = orders[i].first; orders.erase(orders.begin() + i); have = true; break; } }
					if (have) { prog::satisfy(w, n, t); did = true; }
					if (dct::idle(did)) break;
				}
				c.check(s->empty(), "the scheduler of thread %d is not empty at the end", t);
			});
			int over = 0; dct::Options op;
			op.on_quiescent = [&]
			{
				auto need = prog::quiescent(w);
				if (!w.left && need.empty()) { if (over++) return false; vclock::advance_ns(500000000); return true; }
				// one or several things at once from outside
				size_t k = 1 + c.draw(2);
				for (size_t i = 0; i < k; ++i)
				{
					auto n = need[c.draw(need.size())];
					if (n.what == 3) vclock::advance_ns(c.range(1, 12) * 1000000); else orders.push_back({ n, (int)c.draw(p.ns) });
				}
				return true;
			};
			dct::run(c, std::move(bodies), op);
			uint64_t switches = dct::switches();
			prog::finished(w);
			int kinds = __builtin_popcount(w.kinds);
			if (p.ns >= 2 && kinds >= 4 && w.ended >= 2 && switches >= 4) c.nontrivial();
			c.label("tasks", w.ended); c.label("kinds of steps", kinds); c.label("switches of scheduler", w.vias); c.label("exceptions", w.booms); c.label("exceptions while holding locks", w.booms_locked); c.label("lock waits", w.blocked_locks); c.label("time-outs", w.timeouts); c.label("waits satisfied from outside", w.janitor); c.label("values through channels", w.values);
		}
		heap.verify(c);
	}
}
VP_CHECK({ "programs-mt", "1-5 tasks with up to 24 steps over all primitives, nested, on the schedulers of 1-3 threads, with a generated schedule; non-trivial = at least 2 threads, 4 kinds of steps executed, 2 tasks ended and 4 thread switches",
	run, 150000, 2000000, true, 8000, nullptr });
