// C23: runs a program on librf built with the options of this plug-in, writing down every step.
#include <cstdarg>
#include <cstdio>
#include <thread>
#include <algorithm>
#include "c23_host.hpp"
namespace { const Host* host; void fail(const char* f, ...) { char b[600]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); host->fail(b); } }
#define PROG_VAL std::unique_ptr<int>
#define PROG_MAKE(i) std::make_unique<int>(i)
#define PROG_ID(v) *(v)
#define PROG_ATOM (void)0
#define PROG_FAIL(...) fail(__VA_ARGS__)
#include "prog_run.hpp"
#include <iostream>
using namespace librf;

namespace
{
	int running = 0;
	void trace(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); host->line(b); }
	scheduler_t* first() { return this_scheduler(); }
	scheduler_t* second()
	{
		static scheduler_t* other = [] { scheduler_t* p = nullptr; std::thread([&] { new local_scheduler_t; p = this_scheduler(); }).join(); return p; }();
		return other;
	}
	void warm()
	{
		std::cout.rdbuf(nullptr);
		for (auto* s : { first(), second() }) for (int r = 0; r < 2; ++r) { for (int i = 0; i < 3000; ++i) *s + []() -> future_t<> { co_await yield(); }(); while (s->run_one_batch()) {} }
	}
}

extern "C" __attribute__((visibility("default"))) void plugin_run(const prog::Program* pp, const Host* h, Result* out)
{
	host = h; static bool once = (warm(), true); (void)once;
	const prog::Program& p = *pp; scheduler_t* sch[2] = { first(), second() }; size_t at = 0; auto draw = [&](int n) { return p.drive[at++ % p.drive.size()] % n; };
	for (auto* s : sch) s->timer()->clear();
	int64_t before = h->live_allocs();
#if RESUMEF_DEBUG_COUNTER
	intptr_t states = g_resumef_state_count.load(), tasks = g_resumef_task_count.load();
#endif
	{
		prog::World w(p); w.running = [] { return running; }; w.now_ms = h->now_ms; w.trace = trace; w.sch = { sch[0], sch[1] };
		prog::begin(w);
		bool busy[2] = { true, true }; int batches = 0, over = 0;
		for (;;)
		{
			int s = p.ns > 1 ? draw(2) : 0;
			if (!busy[s]) s = !s;
			if (busy[s])
			{
				running = s; bool did = sch[s]->run_one_batch(); busy[s] = false; if (did) busy[0] = busy[1] = true; if (p.ns == 1) busy[1] = false;
				if (++batches > 60000) fail("the schedulers keep running tasks without end");
				if (did && draw(24) == 1) { h->advance_ms(1 + draw(5)); busy[0] = true; busy[1] = p.ns > 1; }
				continue;
			}
			running = -1; auto need = prog::quiescent(w);
			if (!w.left && need.empty()) { if (over++ == 3) break; h->advance_ms(50); busy[0] = true; busy[1] = p.ns > 1; continue; }
			auto n = need[draw((int)need.size())]; trace("nothing runs: need %d %d of %d, after %d passes", n.what, n.which, (int)need.size(), batches);
			if (n.what == 3 || draw(4) == 1) h->advance_ms(1 + draw(12));
			if (n.what != 3) prog::satisfy(w, n, p.ns > 1 ? draw(2) : 0);
			busy[0] = true; busy[1] = p.ns > 1;
		}
		prog::finished(w); trace("end after %d passes", batches);
		if (!sch[0]->empty() || !sch[1]->empty()) fail("a scheduler is not empty at the end");
		*out = { __builtin_popcount(w.kinds), w.ended, w.waits, w.janitor, w.timeouts, w.booms };
	}
	for (auto* s : sch) s->timer()->clear();
#if RESUMEF_DEBUG_COUNTER
	if (g_resumef_state_count.load() != states) fail("the counter of states is off by %d at the end", (int)(g_resumef_state_count.load() - states));
	if (g_resumef_task_count.load() != tasks) fail("the counter of tasks is off by %d at the end", (int)(g_resumef_task_count.load() - tasks));
#endif
	int64_t leaked = h->live_allocs() - before;
	if (leaked) fail("%d heap block(s) not released at the end", (int)leaked);
}
