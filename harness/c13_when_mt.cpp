// C13: waits for all/any of tasks that run and end on other threads, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;
using namespace std::chrono_literals;

namespace
{
	struct Task { int id, owner, pos, form = 0, yields = 0, by = 0, via = -1; int runs = 0; bool done = false; };	// form 0: coroutine; 1: coroutine waiting for an awaitable; 2: awaitable
	enum Shape { L1, L2, L3, R_PTR, R_VOID, R_BOOL, F_INT, L0, SHAPES };
	const char* sname[] = { "(shared)", "(void, shared)", "(int, shared, void)", "range of shared", "range of voids", "range of bools", "range of functions", "()" };
	struct Wait { bool all = true; int shape = 0, home = 0, on = 0, late = 0; bool own = false; std::vector<int> t; bool ended = false, begun = false; };
	using Shared = std::shared_ptr<Payload>;

	struct Trigger { std::function<void()> set; int by; int delay; bool armed = false, fired = false; };
	struct World
	{
		Case& c; std::vector<Task> task; std::vector<Wait> wt; std::vector<Trigger> trig; scheduler_t* sch[3] = {}; std::atomic<int> ready{ 0 }; int left = 0, remote = 0, nt;
		World(Case& c_) : c(c_) {}
		void finished(int id) { dct::Atomic at; Task& t = task[id]; c.check(!t.done, "task %d ended twice", id); t.done = true; }
	};
	void add_trigger(World& w, int id, std::function<void()> f) { dct::Atomic at; w.trig[id].set = std::move(f); w.trig[id].armed = true; dct::give(&w.trig[id]); }

	template<class T> T make(int id)
	{
		if constexpr (std::is_same_v<T, Shared>) return std::make_shared<Payload>(1000 + id);
		else if constexpr (std::is_same_v<T, bool>) return id & 1;
		else return T(1000 + id);
	}
	template<class T> void same(World& w, int id, const T& v)
	{
		if constexpr (std::is_same_v<T, Shared>) { w.c.check((bool)v, "the result of task %d is missing", id); w.c.check(v->get() == 1000 + id, "the result of another task is at the position of task %d", id); }
		else if constexpr (std::is_same_v<T, bool>) w.c.check(v == bool(id & 1), "a wrong result (bool) is at the position of task %d", id);
		else if constexpr (std::is_same_v<T, int>) w.c.check(v == 1000 + id, "the result of another task is at the position of task %d", id);
	}
	template<class T> future_t<T> coro(World& w, int id)
	{
		Task& t = w.task[id]; int on = w.wt[t.owner].on;
		{ dct::Atomic at; w.c.check(++t.runs == 1, "task %d was started twice", id); }
		w.c.check(dct::self() == on, "task %d runs in thread %d instead of the thread of its scheduler, %d", id, dct::self(), on);
		for (int i = 0; i < t.yields; ++i) co_await yield();
		if (t.form == 1) { awaitable_t<> aw; auto f = aw.get_future(); add_trigger(w, id, [aw] { aw.set_value(); }); co_await f; }
		if (t.via >= 0) { co_await via(*w.sch[t.via]); on = t.via; for (int i = 0; i < t.yields; ++i) co_await yield(); }
		w.c.check(dct::self() == on, "task %d continues in thread %d instead of the thread of its scheduler, %d", id, dct::self(), on);
		w.finished(id);
		if constexpr (!std::is_void_v<T>) co_return make<T>(id);
	}
	template<class T> future_t<T> fut(World& w, int id)
	{
		if (w.task[id].form == 2)
		{
			awaitable_t<T> aw; auto f = aw.get_future();
			add_trigger(w, id, [&w, aw, id] { ++w.task[id].runs; w.finished(id); if constexpr (std::is_void_v<T>) aw.set_value(); else aw.set_value(make<T>(id)); });
			return f;
		}
		return coro<T>(w, id);
	}
	template<class T> std::function<future_t<T>()> fun(World& w, int id) { return [&w, id] { return fut<T>(w, id); }; }

	void ended(World& w, int k)
	{
		dct::Atomic at; Wait& t = w.wt[k]; w.c.check(!t.ended, "wait %d ended twice", k); t.ended = true; --w.left;
		w.c.check(dct::self() == t.home, "wait %d ended in thread %d instead of %d, the one of its scheduler", k, dct::self(), t.home);
		if (t.all) for (int i : t.t) w.c.check(w.task[i].done, "wait %d for all ended although task %d has not", k, i);
	}
	template<class Tup> void check_all(World& w, int k, const Tup& r)
	{
		ended(w, k); Wait& t = w.wt[k];
		if constexpr (requires { r.size(); })
		{
			w.c.check(r.size() == t.t.size(), "when_all of %d tasks gave %d results", (int)t.t.size(), (int)r.size());
			for (size_t i = 0; i < r.size(); ++i) same<typename Tup::value_type>(w, t.t[i], r[i]);
		}
		else [&]<size_t... I>(std::index_sequence<I...>) { (same(w, t.t[I], std::get<I>(r)), ...); }(std::make_index_sequence<std::tuple_size_v<Tup>>());
	}
	void check_any(World& w, int k, when_any_pair& r, std::vector<int> type)	// 0 void 1 shared 2 int 3 bool
	{
		ended(w, k); Wait& t = w.wt[k];
		if (t.t.empty()) { w.c.check(r.first == -1 && !r.second.has_value(), "when_any of nothing chose something"); return; }
		w.c.check(r.first >= 0 && r.first < (intptr_t)t.t.size(), "when_any gave the index %lld", (long long)r.first);
		int id = t.t[r.first]; w.c.check(w.task[id].done, "when_any chose task %d, which has not ended", id);
		switch (type[type.size() == 1 ? 0 : r.first])
		{
		case 0: w.c.check(!r.second.has_value(), "when_any of a task without result gave a result"); break;
		case 1: { auto* p = std::any_cast<Shared>(&r.second); w.c.check(p, "when_any gave no result, or of a wrong type"); same(w, id, *p); break; }
		case 2: { auto* p = std::any_cast<int>(&r.second); w.c.check(p, "when_any gave no result, or of a wrong type"); same(w, id, *p); break; }
		case 3: { auto* p = std::any_cast<bool>(&r.second); w.c.check(p, "when_any gave no result, or of a wrong type"); same(w, id, *p); break; }
		}
	}
	future_t<> pause(int n) { for (int i = 0; i < n; ++i) co_await yield(); }
#define ALL(TYPES, ...) \
	if (t.all) { if (t.own) { auto r = co_await when_all(__VA_ARGS__); check_all(w, k, r); } else { auto aw = when_all(s __VA_OPT__(,) __VA_ARGS__); if (t.late) co_await pause(t.late); auto r = co_await aw; check_all(w, k, r); } } \
	else { if (t.own) { auto r = co_await when_any(__VA_ARGS__); check_any(w, k, r, TYPES); } else { auto aw = when_any(s __VA_OPT__(,) __VA_ARGS__); if (t.late) co_await pause(t.late); auto r = co_await aw; check_any(w, k, r, TYPES); } }
	using VI = std::vector<int>;
	template<class M> future_t<> range(World& w, int k, M make, VI type)
	{
		Wait& t = w.wt[k]; scheduler_t& s = *w.sch[t.on]; std::vector<decltype(make(0))> v; for (int i : t.t) v.push_back(make(i));
		ALL(type, v)
	}
	future_t<> waiter(World& w, int k)
	{
		Wait& t = w.wt[k]; t.begun = true; scheduler_t& s = *w.sch[t.on]; const auto& L = t.t;
		switch (t.shape)
		{
		case L0: ALL(VI{}) break;
		case L1: ALL(VI{ 1 }, fut<Shared>(w, L[0])) break;
		case L2: ALL((VI{ 0, 1 }), fut<void>(w, L[0]), fut<Shared>(w, L[1])) break;
		case L3: ALL((VI{ 2, 1, 0 }), fut<int>(w, L[0]), fun<Shared>(w, L[1]), fut<void>(w, L[2])) break;
		case R_PTR: co_await range(w, k, [&](int i) { return fut<Shared>(w, i); }, { 1 }); break;
		case R_VOID: co_await range(w, k, [&](int i) { return fut<void>(w, i); }, { 0 }); break;
		case R_BOOL: co_await range(w, k, [&](int i) { return fut<bool>(w, i); }, { 3 }); break;
		case F_INT: co_await range(w, k, [&](int i) { return fun<int>(w, i); }, { 2 }); break;
		}
	}

	void run(Case& c)
	{
		vclock::reset();
		World* pw = nullptr; int nt = (int)c.range(1, 3), np = (int)c.range(1, 2), nw = (int)c.range(1, 2);
		std::vector<Wait> wt; std::vector<Task> task; std::vector<Trigger> trig;
		for (int k = 0; k < nw; ++k)
		{
			Wait t; t.all = !c.draw(2); t.shape = c.chance(1, 8) ? (int)R_BOOL : (int)c.draw(SHAPES); t.home = (int)c.draw(nt); t.own = c.chance(1, 4); t.on = t.own ? t.home : (int)c.draw(nt); t.late = c.draw(2) ? 0 : (int)c.size(1, 4);
			int n = t.shape == L0 ? 0 : t.shape == L1 ? 1 : t.shape == L2 ? 2 : t.shape == L3 ? 3 : (int)c.size(0, 4);
			for (int i = 0; i < n; ++i)
			{
				Task x; x.id = (int)task.size(); x.owner = k; x.pos = i; x.form = (int)c.weighted({ 2, 2, 3 }); x.yields = (int)c.size(0, 3); x.by = (int)c.draw(np); if (x.form != 2 && nt > 1 && c.chance(t.shape == R_BOOL ? 2 : 1, 3)) x.via = (int)c.draw(nt);
				Trigger g; g.by = x.by; g.delay = (int)c.size(0, 4); if (x.form == 0) g.fired = true; trig.push_back(g);
				t.t.push_back(x.id); task.push_back(x);
			}
			wt.push_back(t);
		}
		c.log("%d scheduler threads, %d completing threads", nt, np);
		for (int k = 0; k < nw; ++k) { auto& t = wt[k]; c.log("wait %d of thread %d: %s of %s on the scheduler of thread %d%s, awaited after %d yields", k, t.home, t.all ? "all" : "any", sname[t.shape], t.on, t.own ? " (implicit)" : "", t.late); for (int i : t.t) { auto& x = task[i]; c.log("  task %d: %s, %d yields, completing thread %d after %d yields, switches to %d", i, x.form == 0 ? "coroutine" : x.form == 1 ? "coroutine waiting for an awaitable" : "awaitable", x.yields, x.by, trig[i].delay, x.via); } }
		Heap heap;
		{
			World w(c); pw = &w; w.wt = wt; w.task = task; w.trig = trig; w.left = nw; w.nt = nt;
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				local_scheduler_t ls; scheduler_t* s = this_scheduler(); w.sch[t] = s; w.ready.fetch_add(1);
				while (w.ready.load() < nt) dct::yield();
				for (int k = 0; k < nw; ++k) if (w.wt[k].home == t) *s + waiter(w, k);
				for (;;) { bool did = s->run_one_batch(); if (dct::idle(did)) break; }
				c.check(s->empty(), "the scheduler of thread %d is not empty when nothing runs any more", t);
			});
			for (int p = 0; p < np; ++p) bodies.push_back([&, p]
			{
				for (;;)
				{
					bool did = false;
					for (size_t i = 0; i < w.trig.size(); ++i)
					{
						std::function<void()> f; { dct::Atomic at; Trigger& g = w.trig[i]; if (g.by == p && g.armed && !g.fired) { g.fired = true; f = std::move(g.set); g.set = nullptr; dct::take(&g); } }
						if (f) { for (int d = 0; d < w.trig[i].delay; ++d) dct::yield(); f(); did = true; }
					}
					if (dct::idle(did)) break;
				}
			});
			dct::run(c, std::move(bodies));
			uint64_t switches = dct::switches();
			for (int k = 0; k < nw; ++k) c.check(w.wt[k].ended, "wait %d never ended although all its tasks can end", k);
			for (auto& t : w.task) c.check(t.done && t.runs == 1, "task %d ran %d times and has%s ended", t.id, t.runs, t.done ? "" : " not");
			int n = 0, rem = 0, late = 0; for (auto& t : w.wt) { n += (int)t.t.size(); rem += t.on != t.home; late += t.late && !t.own; c.label(t.all ? "waits for all" : "waits for any"); }
			for (auto& t : w.task) if (t.form) c.label("tasks completed by another thread"); for (auto& t : w.task) if (t.via >= 0) c.label("tasks that switch to another scheduler");
			if (rem) c.label("tasks on another thread's scheduler"); if (late) c.label("awaited later than started");
			if (switches >= 4 && n >= 1) c.nontrivial();
		}
		heap.verify(c);
	}
}
VP_CHECK({ "when-mt", "1-2 waits for all/any of 0-4 tasks in 8 shapes running on the schedulers of 1-3 threads and completed by 1-2 other threads, with a generated schedule; non-trivial = at least one task and 4 thread switches",
	run, 150000, 2000000, true, 4000, nullptr });
