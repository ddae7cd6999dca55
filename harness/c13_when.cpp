// C13: coroutines waiting for all or any of generated sets of tasks, on one or two schedulers driven by the case.
#include "hx.hpp"
#include <functional>
using namespace librf;
using namespace hx;
using namespace std::chrono_literals;

namespace
{
	struct Leaf
	{
		int id, form = 0;			// 0 coroutine, 1 function object, 2 awaitable completed by the case
		int yields = 0, cell = -1, ms = 0, nested = 0;	// what the coroutine does before it ends
		int runs = 0, done_pass = -1; bool done = false; int owner = -1, pos = -1;
	};
	enum Shape { S0, S1, S2, S3, S4, R_INT, R_BOOL, R_VOID, R_STR, R_COUNTED, F_INT, F_VOID, S5, R_REF, SHAPES };
	const char* sname[] = { "()", "(int)", "(void, string)", "(int, counted, void, bool)", "(unique_ptr, int, string, void, int)", "ints", "bools", "voids", "strings", "counted", "functions returning int", "functions returning nothing", "(string&, int, string&)", "string&s" };
	struct Waiter { bool all = true, started = false, done = false, late = false, settled = false; int shape = 0, sch = 0, how = 0, home = 0, late_yields = 0; std::vector<int> leaf; int first_pass = 1 << 30; int got = -1; };

	struct World
	{
		Case& c; std::vector<Leaf> leaf; std::vector<Waiter> wt; std::vector<std::unique_ptr<awaitable_t<>>> cell; std::vector<future_t<>> cell_future; std::vector<char> cell_set; std::vector<std::function<void()>> setter; std::vector<std::string> store; std::vector<char> isset; scheduler_t* sch[2]; int pass = 0, nested_done = 0, running = -1;
		World(Case& c_) : c(c_), sch{ &hx::sch(), &sch2() } {}
		void finished(int id)
		{
			Leaf& l = leaf[id]; c.check(!l.done, "task %d ended twice", id); l.done = true; l.done_pass = pass;
			Waiter& w = wt[l.owner]; if (l.form == 2 ? w.settled : w.started) w.first_pass = std::min(w.first_pass, pass); else w.first_pass = -1;	// an end before the wait looks at the task has no order
		}
		// the tasks run on the scheduler given to the wait, or else on the waiter's own
		void where(int id, scheduler_t* s) { Waiter& t = wt[leaf[id].owner]; c.check(s == sch[t.how == 0 ? t.sch : t.home], "task %d of wait %d does not run on the scheduler %s", id, leaf[id].owner, t.how == 0 ? "that was given" : "of the waiter"); }
		bool all_done(const Waiter& w) const { for (int i : w.leaf) if (!leaf[i].done) return false; return true; }
		bool any_done(const Waiter& w) const { for (int i : w.leaf) if (leaf[i].done) return true; return w.leaf.empty(); }
	};

	future_t<int> inner(int v, int y) { for (int i = 0; i < y; ++i) co_await yield(); co_return v; }
	template<class T> future_t<T> task(World& w, int id)
	{
		Counted local(id); Leaf& l = w.leaf[id];
		w.c.check(++l.runs == 1, "task %d was started twice", id);
		w.where(id, librf_current_scheduler());
		for (int i = 0; i < l.yields; ++i) co_await yield();
		if (l.nested == 1)
		{
			auto [a, b] = co_await when_all(inner(id + 1, 1), inner(id + 2, l.yields));
			w.c.check(a == id + 1 && b == id + 2, "nested wait for all of task %d gave (%d,%d)", id, a, b); ++w.nested_done;
		}
		else if (l.nested == 2)
		{
			std::vector<future_t<int>> v; v.push_back(inner(id + 1, 3)); v.push_back(inner(id + 2, 0));
			auto r = co_await when_any(v);
			w.c.check(r.first == 1 && any_cast<int>(r.second) == id + 2, "nested wait for any of task %d chose %d", id, (int)r.first); ++w.nested_done;
		}
		if (l.cell >= 0) co_await w.cell_future[l.cell];
		if (l.ms) co_await sleep_for(std::chrono::milliseconds(l.ms));
		w.where(id, librf_current_scheduler());
		w.finished(id);
		if constexpr (std::is_reference_v<T>) co_return w.store[id]; else if constexpr (!std::is_void_v<T>) co_return V<T>::make(id);
	}
	template<class T> future_t<T> as_future(World& w, int id)
	{
		Leaf& l = w.leaf[id];
		if (l.form == 2)
		{
			auto aw = std::make_shared<awaitable_t<T>>();
			w.setter[id] = [&w, aw, id] { if constexpr (std::is_void_v<T>) aw->set_value(); else if constexpr (std::is_reference_v<T>) aw->set_value(w.store[id]); else aw->set_value(V<T>::make(id)); ++w.leaf[id].runs; w.finished(id); };
			return aw->get_future();
		}
		return task<T>(w, id);
	}
	template<class T> std::function<future_t<T>()> as_function(World& w, int id)
	{
		if (w.leaf[id].form == 2) { future_t<T> f = as_future<T>(w, id); return [f]() { return f; }; }
		Counted keep(id); return [&w, id, keep]() { keep.ok(); return task<T>(w, id); };
	}
}
template<> struct hx::V<bool> { static bool make(int i) { return i & 1; } static int id(bool b) { return b; } };
namespace
{
	template<class T> void same(World& w, const char* what, int pos, int id, const T& v)
	{
		if constexpr (std::is_same_v<T, bool>) w.c.check(v == bool(id & 1), "%s: the result at position %d is wrong (bool)", what, pos);
		else if constexpr (!std::is_same_v<T, detail::ignore_type>) { int g = V<T>::id(v); w.c.check(g == id, "%s: the result at position %d is that of task %d instead of task %d", what, pos, g, id); }
	}
	void ended(World& w, int k)
	{
		Waiter& t = w.wt[k]; w.c.check(!t.done, "wait %d ended twice", k); t.done = true; w.c.check(w.running == t.home, "wait %d ended in a pass of scheduler %d instead of %d, the one of the waiter", k, w.running, t.home);
		if (t.all) for (int i : t.leaf) w.c.check(w.leaf[i].done, "wait %d for all ended although task %d has not", k, i);
	}
	template<class Tup> void check_tuple(World& w, int k, Tup& r)
	{
		Waiter& t = w.wt[k]; ended(w, k);
		[&]<size_t... I>(std::index_sequence<I...>) { (same(w, "when_all", (int)I, t.leaf[I], std::get<I>(r)), ...); }(std::make_index_sequence<std::tuple_size_v<Tup>>());
	}
	template<class Vec> void check_vec(World& w, int k, Vec& r)
	{
		Waiter& t = w.wt[k]; ended(w, k); w.c.check(r.size() == t.leaf.size(), "when_all of %d tasks gave %d results", (int)t.leaf.size(), (int)r.size());
		using T = typename Vec::value_type;
		for (size_t i = 0; i < r.size(); ++i) if constexpr (!std::is_same_v<T, detail::ignore_type>) { const T v = r[i]; same<T>(w, "when_all of a range", (int)i, t.leaf[i], v); }
	}
	void check_any(World& w, int k, when_any_pair& r, const std::vector<int>& type)	// type: 0 void 1 int 2 string 3 counted 4 bool
	{
		Waiter& t = w.wt[k]; ended(w, k);
		if (t.leaf.empty()) { w.c.check(r.first == -1 && !r.second.has_value(), "when_any of nothing chose something"); return; }
		w.c.check(r.first >= 0 && r.first < (intptr_t)t.leaf.size(), "when_any gave the index %lld", (long long)r.first);
		int id = t.leaf[r.first]; t.got = id; const Leaf& l = w.leaf[id];
		w.c.check(l.done, "when_any chose task %d, which has not ended", id);
		int best = 1 << 30; for (int i : t.leaf) if (w.leaf[i].done) best = std::min(best, w.leaf[i].done_pass);
		if (t.first_pass >= 0) w.c.check(l.done_pass == best, "when_any chose task %d, which ended in pass %d, although another one ended in pass %d", id, l.done_pass, best);
		try
		{
			switch (type[r.first])
			{
			case 0: w.c.check(!r.second.has_value(), "when_any of a task without result gave a result"); break;
			case 1: { int v = any_cast<int>(r.second); w.c.check(v == id, "when_any gave the result of task %d with the index of task %d", v, id); break; }
			case 2: { int v = V<std::string>::id(any_cast<std::string>(r.second)); w.c.check(v == id, "when_any gave the result of task %d with the index of task %d", v, id); break; }
			case 3: { int v = any_cast<Counted&>(r.second).id; w.c.check(v == id, "when_any gave the result of task %d with the index of task %d", v, id); break; }
			case 4: { bool v = any_cast<bool>(r.second); w.c.check(v == bool(id & 1), "when_any gave a wrong result (bool)"); break; }
			}
		}
		catch (const std::bad_any_cast&) { w.c.fail("when_any gave a result of another type than task %d returns", id); }
	}

	future_t<> pause(int n) { for (int i = 0; i < n; ++i) co_await yield(); }
#define AWAIT_WITH(CALL_SCH, CALL_OWN, CHECK) \
	if (t.how == 0) { auto aw = CALL_SCH; w.wt[k].started = true; if (t.late) co_await pause(t.late_yields); auto r = co_await aw; CHECK; } \
	else { w.wt[k].started = true; auto r = co_await CALL_OWN; CHECK; }

	template<class T, class M> future_t<> range_waiter(World& w, int k, M make, int type)
	{
		Waiter& t = w.wt[k]; scheduler_t& s = *w.sch[t.sch]; using E = decltype(make(0));
		std::vector<E> v; for (int i : t.leaf) v.push_back(make(i));
		bool iter = t.leaf.size() & 1; std::vector<int> types(t.leaf.size(), type);
		if (t.all)
		{
			if (iter) { AWAIT_WITH(when_all(s, v.begin(), v.end()), when_all(v.begin(), v.end()), check_vec(w, k, r)) }
			else { AWAIT_WITH(when_all(s, v), when_all(v), check_vec(w, k, r)) }
		}
		else
		{
			if (iter) { AWAIT_WITH(when_any(s, v.begin(), v.end()), when_any(v.begin(), v.end()), check_any(w, k, r, types)) }
			else { AWAIT_WITH(when_any(s, v), when_any(v), check_any(w, k, r, types)) }
		}
	}
	future_t<> waiter(World& w, int k)
	{
		Waiter& t = w.wt[k]; scheduler_t& s = *w.sch[t.sch]; const auto& L = t.leaf; Counted local(k);
		switch (t.shape)
		{
		case S0: if (t.all) { AWAIT_WITH(when_all(s), when_all(), check_tuple(w, k, r)) } else { AWAIT_WITH(when_any(s), when_any(), check_any(w, k, r, {})) } break;
		case S1: if (t.all) { AWAIT_WITH(when_all(s, as_future<int>(w, L[0])), when_all(as_future<int>(w, L[0])), check_tuple(w, k, r)) } else { AWAIT_WITH(when_any(s, as_future<int>(w, L[0])), when_any(as_future<int>(w, L[0])), check_any(w, k, r, { 1 })) } break;
		case S2: if (t.all) { AWAIT_WITH(when_all(s, as_future<void>(w, L[0]), as_future<std::string>(w, L[1])), when_all(as_future<void>(w, L[0]), as_future<std::string>(w, L[1])), check_tuple(w, k, r)) } else { AWAIT_WITH(when_any(s, as_future<void>(w, L[0]), as_future<std::string>(w, L[1])), when_any(as_future<void>(w, L[0]), as_future<std::string>(w, L[1])), check_any(w, k, r, { 0, 2 })) } break;
		case S3:
		{
			auto f = as_function<Counted>(w, L[1]);
			if (t.all) { AWAIT_WITH(when_all(s, as_future<int>(w, L[0]), f, as_function<void>(w, L[2]), as_future<bool>(w, L[3])), when_all(as_future<int>(w, L[0]), f, as_function<void>(w, L[2]), as_future<bool>(w, L[3])), check_tuple(w, k, r)) }
			else { AWAIT_WITH(when_any(s, as_future<int>(w, L[0]), f, as_function<void>(w, L[2]), as_future<bool>(w, L[3])), when_any(as_future<int>(w, L[0]), f, as_function<void>(w, L[2]), as_future<bool>(w, L[3])), check_any(w, k, r, { 1, 3, 0, 4 })) }
			break;
		}
		case S4:
		{
			if (t.all) { AWAIT_WITH(when_all(s, as_future<std::unique_ptr<int>>(w, L[0]), as_future<int>(w, L[1]), as_function<std::string>(w, L[2]), as_future<void>(w, L[3]), as_future<int>(w, L[4])), when_all(as_future<std::unique_ptr<int>>(w, L[0]), as_future<int>(w, L[1]), as_function<std::string>(w, L[2]), as_future<void>(w, L[3]), as_future<int>(w, L[4])), check_tuple(w, k, r)) }
			else { AWAIT_WITH(when_any(s, as_future<bool>(w, L[0]), as_future<int>(w, L[1]), as_function<std::string>(w, L[2]), as_future<void>(w, L[3]), as_future<int>(w, L[4])), when_any(as_future<bool>(w, L[0]), as_future<int>(w, L[1]), as_function<std::string>(w, L[2]), as_future<void>(w, L[3]), as_future<int>(w, L[4])), check_any(w, k, r, { 4, 1, 2, 0, 1 })) }
			break;
		}
		case S5:
		{
			using R = std::string&;
			if (t.all) { AWAIT_WITH(when_all(s, as_future<R>(w, L[0]), as_future<int>(w, L[1]), as_future<R>(w, L[2])), when_all(as_future<R>(w, L[0]), as_future<int>(w, L[1]), as_future<R>(w, L[2])), check_tuple(w, k, r)) }
			else { AWAIT_WITH(when_any(s, as_future<R>(w, L[0]), as_future<int>(w, L[1]), as_future<R>(w, L[2])), when_any(as_future<R>(w, L[0]), as_future<int>(w, L[1]), as_future<R>(w, L[2])), check_any(w, k, r, { 2, 1, 2 })) }
			break;
		}
		case R_REF: co_await range_waiter<std::string&>(w, k, [&](int i) { return as_future<std::string&>(w, i); }, 2); break;
		case R_INT: co_await range_waiter<int>(w, k, [&](int i) { return as_future<int>(w, i); }, 1); break;
		case R_BOOL: co_await range_waiter<bool>(w, k, [&](int i) { return as_future<bool>(w, i); }, 4); break;
		case R_VOID: co_await range_waiter<void>(w, k, [&](int i) { return as_future<void>(w, i); }, 0); break;
		case R_STR: co_await range_waiter<std::string>(w, k, [&](int i) { return as_future<std::string>(w, i); }, 2); break;
		case R_COUNTED: co_await range_waiter<Counted>(w, k, [&](int i) { return as_future<Counted>(w, i); }, 3); break;
		case F_INT: co_await range_waiter<int>(w, k, [&](int i) { return as_function<int>(w, i); }, 1); break;
		case F_VOID: co_await range_waiter<void>(w, k, [&](int i) { return as_function<void>(w, i); }, 0); break;
		}
	}

	void run(Case& c)
	{
		vclock::reset(); vclock::advance_ns(100000000); drop_spare(); Balance bal;
		{
			World w(c); bool two = c.chance(1, 3); int nw = (int)c.size(1, 3), ncell = (int)c.range(1, 4);
			for (int i = 0; i < ncell; ++i) { w.cell.push_back(std::make_unique<awaitable_t<>>()); w.cell_future.push_back(w.cell.back()->get_future()); w.cell_set.push_back(0); }
			std::vector<int> cell_used(ncell, 0);
			for (int k = 0; k < nw; ++k)
			{
				Waiter t; t.all = !c.draw(2); t.shape = (int)c.draw(SHAPES); t.how = (int)c.draw(3) == 0; t.home = two && c.draw(2); t.sch = two ? (int)c.draw(2) : 0; t.late = c.chance(1, 3); t.late_yields = (int)c.size(0, 5);
				static const int fixed[] = { 0, 1, 2, 4, 5 }; int n = t.shape <= S4 ? fixed[t.shape] : t.shape == S5 ? 3 : (int)c.size(0, 7);
				for (int i = 0; i < n; ++i)
				{
					Leaf l; l.id = (int)w.leaf.size(); l.owner = k; l.pos = i; l.form = c.weighted({ 5, 2 }) ? 2 : 0; l.yields = (int)c.size(0, 4); l.nested = c.chance(1, 8) ? (int)c.range(1, 2) : 0;
					if (c.chance(1, 3)) { int e = (int)c.draw(ncell); if (!cell_used[e]) { cell_used[e] = 1; l.cell = e; } }	// a future has one awaiter
					if (c.chance(1, 5)) l.ms = (int)c.size(1, 20);
					t.leaf.push_back(l.id); w.leaf.push_back(l);
				}
				w.wt.push_back(t);
			}
			w.setter.resize(w.leaf.size()); w.isset.resize(w.leaf.size(), 0); for (auto& l : w.leaf) w.store.push_back(V<std::string>::make(l.id));
			for (int k = 0; k < nw; ++k) { auto& t = w.wt[k]; c.log("wait %d: %s %s, %s scheduler %d, from scheduler %d%s", k, t.all ? "all of" : "any of", sname[t.shape], t.how == 0 ? "on" : "on its own, not", t.sch, t.home, t.late && t.how == 0 ? ", awaited later" : ""); for (int i : t.leaf) { auto& l = w.leaf[i]; if (l.form == 2) c.log("  task %d: completed by the case", i); else c.log("  task %d: %d yields, cell %d, %d ms%s", i, l.yields, l.cell, l.ms, l.nested == 1 ? ", waits for all of two" : l.nested ? ", waits for any of two" : ""); } }
			auto settle = [&]
			{
				for (int r = 0, quiet = 0; quiet < 2; ++r)
				{
					if (r > 20000) c.fail("the schedulers keep running without end");
					bool any = false; ++w.pass; for (int i = 0; i < (two ? 2 : 1); ++i) { w.running = i; if (w.sch[i]->run_one_batch()) any = true; } w.running = -1;
					quiet = any ? 0 : quiet + 1;
				}
				for (int k = 0; k < nw; ++k)
				{
					auto& t = w.wt[k]; if (!t.started) continue; t.settled = true; bool should = t.all ? w.all_done(t) : w.any_done(t);
					c.check(!should || t.done, "wait %d for %s has not ended although %s", k, t.all ? "all" : "any", t.all ? "all its tasks have" : "one of its tasks has");
					c.check(should || !t.done, "wait %d ended too early", k);
				}
			};
			int started = 0; auto start = [&] { *w.sch[w.wt[started].home] + waiter(w, started); c.log("start wait %d", started); ++started; };
			start();
			int steps = (int)c.size(1, 25), mixed = 0;
			auto open_cells = [&] { std::vector<int> v; for (int i = 0; i < ncell; ++i) if (!w.cell_set[i]) v.push_back(i); return v; };
			auto open_leaves = [&] { std::vector<int> v; for (auto& l : w.leaf) if (l.form == 2 && w.setter[l.id] && !w.isset[l.id]) v.push_back(l.id); return v; };
			auto set_leaf = [&](int i) { w.isset[i] = 1; c.log("complete task %d", i); w.setter[i](); };
			for (int s = 0; s < steps; ++s)
			{
				switch (c.weighted({ 4, 3, 2, 2, 3 }))
				{
				case 0: { auto v = open_leaves(); if (!v.empty()) { int n = (int)c.size(1, 3); for (int j = 0; j < n && !v.empty(); ++j) { int p = (int)c.draw(v.size()); set_leaf(v[p]); v.erase(v.begin() + p); ++mixed; } } break; }
				case 1: { auto v = open_cells(); if (!v.empty()) { int i = c.pick(v); w.cell_set[i] = 1; c.log("set cell %d", i); w.cell[i]->set_value(); ++mixed; } break; }
				case 2: vclock::advance_ns((int64_t)c.size(1, 25) * 1000000); c.log("advance to %lld", (long long)vclock::now_ns() / 1000000); break;
				case 3: if (started < nw) start(); break;
				case 4: { ++w.pass; int n = (int)c.range(1, 3); c.log("%d passes", n); for (int j = 0; j < n; ++j) { ++w.pass; w.running = two && c.draw(2); w.sch[w.running]->run_one_batch(); w.running = -1; } break; }
				}
				if (c.draw(3)) settle();
			}
			while (started < nw) start();
			for (int i : open_cells()) { w.cell_set[i] = 1; w.cell[i]->set_value(); }
			for (int r = 0; r < 60; ++r) { settle(); auto v = open_leaves(); if (!v.empty()) set_leaf(c.pick(v)); else vclock::advance_ns(10000000); }
			settle();
			for (int k = 0; k < nw; ++k) c.check(w.wt[k].done, "wait %d never ended", k);
			for (auto& l : w.leaf) c.check(l.runs == 1 && l.done, "task %d ran %d times and has%s ended", l.id, l.runs, l.done ? "" : " not");
			for (auto& l : w.leaf) c.check(V<std::string>::make(l.id) == w.store[l.id], "the object that task %d refers to was changed by the wait for it", l.id);
			for (int i = 0; i < 2; ++i) c.check(w.sch[i]->empty(), "scheduler %d is not empty at the end", i);
			int big = 0; for (auto& t : w.wt) { big += t.leaf.size() >= 2; c.label(t.all ? "waits for all" : "waits for any"); c.label(sname[t.shape]); if (t.late && t.how == 0) c.label("awaited later than started"); if (t.sch != t.home && t.how == 0) c.label("tasks on the other scheduler"); }
			if (big && (mixed || w.leaf.size() >= 4)) c.nontrivial();
			c.label("nested waits", w.nested_done);
		}
		drop_spare(); bal.verify(c, "after all waits ended");
	}
}
VP_CHECK({ "when", "1-3 waits for all/any of 0-7 tasks in 14 shapes (lists of mixed types, ranges, functions, references, empty sets) on 1-2 schedulers, tasks ended in a generated order; non-trivial = a wait for at least 2 tasks whose ends were ordered by the case, or at least 4 tasks",
	run, 300000, 8000000, true, 3000, warm });
