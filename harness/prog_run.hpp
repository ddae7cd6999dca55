// Interpreter of generated programs (prog.hpp) over librf, with the invariants of every primitive.
// The including file defines PROG_VAL (value sent through channels), PROG_MAKE(int), PROG_ID(value), PROG_ATOM (a block
// of bookkeeping which is not interrupted) and PROG_FAIL(fmt, ...).
#pragma once
#include "prog.hpp"
#include <librf/librf.h>
#include <memory>
#include <map>
#include <set>
#include <functional>

namespace prog
{
	using namespace librf;
	struct Boom { int id; };

	struct World
	{
		const Program& p; int (*running)();			// index of the scheduler that runs the calling coroutine
		int64_t (*now_ms)(); void (*trace)(const char*, ...) = nullptr;
		std::vector<scheduler_t*> sch; std::vector<mutex_t> mtx; std::vector<event_t> ev; std::vector<std::unique_ptr<channel_t<PROG_VAL>>> ch;
		struct Mx { int owner = -1, count = 0, waiting = 0; int64_t shared = 0; }; std::vector<Mx> mx;
		struct Ev { int signals = 0, taken = 0, waiting = 0; }; std::vector<Ev> es;
		struct Ch { int begun_w = 0, done_w = 0, begun_r = 0, done_r = 0; std::map<int, int> state; std::map<std::pair<int, int>, int> last; }; std::vector<Ch> cs;
		int next_value = 1, next_task = 0, next_boom = 1, left = 0, started = 0, ended = 0, frames = 0;
		struct Timed { int64_t from, ms, settled = -1; int task; const char* what; bool overdue_ok = false; }; std::map<int, Timed> timed; int next_timed = 0;
		// what happened
		int waits = 0, timeouts = 0, vias = 0, booms = 0, booms_locked = 0, blocked_locks = 0, janitor = 0, values = 0, kinds = 0;
		int64_t busy[2] = {};
		World(const Program& p_) : p(p_), mtx(p_.nm), mx(p_.nm), es(p_.ne), cs(p_.nc) { for (int i = 0; i < p.ne; ++i) ev.emplace_back(false); for (int i = 0; i < p.nc; ++i) ch.push_back(std::make_unique<channel_t<PROG_VAL>>((size_t)p.cap[i])); }
	};
	struct Ctx { World& w; int id, cur; int expect = 0, locks = 0; };		// one per task: shared by its children

	struct Frame { World& w; Frame(World& w_) : w(w_) { PROG_ATOM; ++w.frames; } ~Frame() { PROG_ATOM; --w.frames; } };
	// the mutex is ours while this lives (destroyed before the guard)
	struct Own
	{
		Ctx& x; int m;
		Own(Ctx& x_, int m_) : x(x_), m(m_)
		{
			PROG_ATOM; auto& o = x.w.mx[m];
			if (o.count && o.owner != x.id) PROG_FAIL("task %d got mutex %d, which task %d holds", x.id, m, o.owner);
			o.owner = x.id; ++o.count; ++x.locks;
		}
		~Own() { PROG_ATOM; auto& o = x.w.mx[m]; if (!o.count || o.owner != x.id) PROG_FAIL("mutex %d does not belong to task %d any more although its guard lives", m, x.id); --o.count; --x.locks; }
	};
	struct InTime
	{
		World& w; int id;
		InTime(Ctx& x, int64_t ms, const char* what) : w(x.w) { PROG_ATOM; id = w.next_timed++; w.timed[id] = { w.now_ms(), ms, -1, x.id, what }; }
		~InTime() { PROG_ATOM; w.timed.erase(id); }
		void late_enough() { PROG_ATOM; auto& t = w.timed[id]; if (w.now_ms() < t.from + t.ms) PROG_FAIL("%s of task %d, for %lld ms, ended %lld ms too early", t.what, t.task, (long long)t.ms, (long long)(t.from + t.ms - w.now_ms())); }
	};
	inline void here(Ctx& x, const char* after)
	{
		PROG_ATOM; int r = x.w.running();
		if (r != x.cur) PROG_FAIL("task %d runs on scheduler %d after '%s' although it belongs to scheduler %d", x.id, r, after, x.cur);
	}
	#define PROG_TRACE(...) do { if (w.trace) w.trace(__VA_ARGS__); } while (0)

	future_t<> exec(Ctx& x, const Ops& v);
	inline generator_t<int> count(World& w, int n) { Frame f(w); for (int i = 0; i < n; ++i) co_yield i; co_return n; }

	inline future_t<int> child(Ctx& x, const Ops& v, int token)
	{
		World& w = x.w; Frame f(w);
		here(x, "start of a child"); co_await exec(x, v); here(x, "what a child awaited");
		co_return token;
	}
	inline int new_task(World& w) { PROG_ATOM; ++w.left; return ++w.next_task; }
	inline int p_cap(World& w, int c) { return w.p.cap[c]; }
	inline void got_value(World& w, int c, int reader, int id)
	{
		PROG_ATOM; auto& ch = w.cs[c]; ++ch.done_r; auto it = ch.state.find(id);
		if (it == ch.state.end()) PROG_FAIL("channel %d gave %d, which nobody wrote or which was read already", c, id);
		int writer = it->second; ch.state.erase(it); int& last = ch.last[{ writer, reader }];
		if (last > id) PROG_FAIL("channel %d gave value %d after value %d of the same writer", c, id, last);
		last = id;
	}
	inline void taken(World& w, Ctx& x, int e, bool r)
	{
		PROG_ATOM; auto& s = w.es[e]; if (!r) return;
		++w.waits; if (++s.taken > s.signals) PROG_FAIL("event %d released %d waits although it was signalled %d times", e, s.taken, s.signals);
	}
	// a task of its own
	inline future_t<int> task(World& w, const Ops& v, int at, int id)
	{
		Frame f(w); Ctx x{ w, id, at };
		{ PROG_ATOM; ++w.started; } PROG_TRACE("%lld: task %d starts", (long long)w.now_ms(), id);
		here(x, "start"); co_await exec(x, v); here(x, "the last step");
		if (x.locks) PROG_FAIL("task %d ends with locks held", id);
		{ PROG_ATOM; ++w.ended; --w.left; } PROG_TRACE("%lld: task %d ends", (long long)w.now_ms(), id);
		co_return id;
	}
	inline future_t<> setter(World& w, const Op& o, int at, int id, int boom, awaitable_t<int> aw)
	{
		co_await task(w, o.body, at, id);
		if (o.flip) aw.throw_exception(Boom{ boom }); else aw.set_value(id);
	}
	inline void lock_begin(World& w, int m) { PROG_ATOM; ++w.mx[m].waiting; if (w.mx[m].count) ++w.blocked_locks; }
	inline void lock_end(World& w, int m) { PROG_ATOM; --w.mx[m].waiting; }

	inline future_t<> exec(Ctx& x, const Ops& v)
	{
		World& w = x.w; Frame frame(w); int step = 0;
		for (const Op& o : v)
		{
			PROG_TRACE("%lld: %d.%d %s %d,%d,%d", (long long)w.now_ms(), x.id, step, kname[o.k], o.a, o.b, o.n);
			switch (o.k)
			{
			case YIELD: for (int i = 0; i <= o.n; ++i) { co_await yield(); here(x, "yield"); } break;
			case SLEEP: { InTime t(x, o.n, "a sleep"); co_await sleep_for(std::chrono::milliseconds(o.n)); t.late_enough(); break; }
			case VIA: { if (o.a != x.cur) { PROG_ATOM; ++w.vias; } x.cur = o.a; co_await via(*w.sch[o.a]); break; }
			case LOCK:
				lock_begin(w, o.a);
				if (o.flip) { auto g = co_await w.mtx[o.a].lock(); lock_end(w, o.a); here(x, "lock"); Own own(x, o.a); co_await exec(x, o.body); }
				else { auto g = co_await w.mtx[o.a]; lock_end(w, o.a); here(x, "lock"); Own own(x, o.a); co_await exec(x, o.body); }
				break;
			case LOCK_FOR: case TRY:
			{
				bool got; lock_begin(w, o.a);
				if (o.k == TRY) got = co_await w.mtx[o.a].try_lock();
				else { InTime t(x, o.n, "a timed lock"); got = co_await w.mtx[o.a].try_lock_for(std::chrono::milliseconds(o.n)); if (!got) { t.late_enough(); PROG_ATOM; ++w.timeouts; } }
				lock_end(w, o.a); here(x, kname[o.k]);
				PROG_TRACE("%d.%d got %d", x.id, step, got);
				if (got) { batch_unlock_t<mutex_t> g(std::adopt_lock, librf_root_state(), w.mtx[o.a]); Own own(x, o.a); co_await exec(x, o.body); }
				break;
			}
			case LOCK2:
			{
				auto g = co_await mutex_t::lock(w.mtx[o.a], w.mtx[o.b]); here(x, "lock of several"); Own own(x, o.a), own2(x, o.b); co_await exec(x, o.body); break;
			}
			case CHILD:
			{
				int token, locks = x.locks; bool caught = false; { PROG_ATOM; token = w.next_value++; } x.expect = 0; int r = -1;
				try { r = co_await child(x, o.body, token); } catch (const Boom& b) { caught = true; if (b.id != x.expect) PROG_FAIL("task %d catches exception %d instead of %d", x.id, b.id, x.expect); x.expect = 0; PROG_ATOM; ++w.booms; }
				if (!caught && (r != token || x.expect)) PROG_FAIL(x.expect ? "an exception of a child of task %d is lost" : "a child of task %d gave another result", x.id);
				if (x.locks != locks) PROG_FAIL("a child of task %d left locks", x.id);
				PROG_TRACE("%d.%d caught %d", x.id, step, caught);
				break;
			}
			case THROW: { { PROG_ATOM; x.expect = w.next_boom++; if (x.locks) ++w.booms_locked; } throw Boom{ x.expect }; }
			case WRITE:
			{
				auto& ch = w.cs[o.a]; int value; { PROG_ATOM; value = w.next_value++; ++ch.begun_w; ch.state[value] = x.id; ++w.values; }
				co_await w.ch[o.a]->write(PROG_MAKE(value));
				{ PROG_ATOM; ++ch.done_w; if (ch.done_w > p_cap(w, o.a) + ch.begun_r) PROG_FAIL("channel %d of capacity %d took %d values although only %d were asked for", o.a, w.p.cap[o.a], ch.done_w, ch.begun_r); }
				break;
			}
			case READ:
			{
				auto& ch = w.cs[o.a]; { PROG_ATOM; ++ch.begun_r; }
				PROG_VAL val = co_await w.ch[o.a]->read(); int id = PROG_ID(val);
				got_value(w, o.a, x.id, id); PROG_TRACE("%d.%d read %d", x.id, step, id);
				break;
			}
			case WAIT:
			{
				{ PROG_ATOM; ++w.es[o.a].waiting; }
				bool r = co_await w.ev[o.a].wait(); { PROG_ATOM; --w.es[o.a].waiting; } taken(w, x, o.a, r);
				if (!r) PROG_FAIL("a wait of task %d for event %d ended without a signal", x.id, o.a);
				break;
			}
			case WAIT_FOR:
			{
				InTime t(x, o.n, "a timed wait"); bool r = co_await w.ev[o.a].wait_for(std::chrono::milliseconds(o.n)); taken(w, x, o.a, r);
				if (!r) { t.late_enough(); PROG_ATOM; ++w.timeouts; }
				PROG_TRACE("%d.%d signalled %d", x.id, step, r);
				break;
			}
			case SIGNAL: { PROG_ATOM; ++w.es[o.a].signals; } w.ev[o.a].signal(); break;
			case SPAWN: { int id = new_task(w); *w.sch[o.a] + task(w, o.body, o.a, id); break; }
			case ALL:
			{
				std::vector<future_t<int>> fs; std::vector<int> ids;
				for (auto& s : o.sub) { int id = new_task(w); ids.push_back(id); fs.push_back(task(w, s, x.cur, id)); }
				std::vector<int> r; if (o.flip) r = co_await when_all(fs); else r = co_await when_all(*w.sch[x.cur], fs);
				if (r != ids) PROG_FAIL("a wait for all of task %d gave wrong results", x.id);
				break;
			}
			case ANY:
			{
				std::vector<future_t<int>> fs; std::vector<int> ids;
				for (auto& s : o.sub) { int id = new_task(w); ids.push_back(id); fs.push_back(task(w, s, x.cur, id)); }
				auto r = co_await when_any(*w.sch[x.cur], fs); fs.clear();
				if (r.first < 0 || r.first >= (int)ids.size() || any_cast<int>(r.second) != ids[r.first]) PROG_FAIL("a wait for any of task %d gave wrong results", x.id);
				PROG_TRACE("%d.%d first is %d", x.id, step, (int)r.first);
				break;
			}
			case AWAIT:
			{
				awaitable_t<int> aw; auto f = aw.get_future(); int id = new_task(w), boom; { PROG_ATOM; boom = w.next_boom++; } bool thrown = false; int r = -1;
				*w.sch[o.a] + setter(w, o, o.a, id, boom, aw);
				for (int i = 0; i < o.b; ++i) co_await yield();
				try { r = co_await f; } catch (const Boom& b) { thrown = true; if (b.id != boom) PROG_FAIL("task %d catches exception %d instead of %d", x.id, b.id, boom); }
				if (thrown != o.flip || (!thrown && r != id)) PROG_FAIL("task %d awaited %s and got %d", x.id, o.flip ? "an exception" : "a result", r);
				break;
			}
			case GEN: { int n = 0; for (auto& i : count(w, o.n)) { if (i != n) PROG_FAIL("a generator gave %d instead of %d", i, n); ++n; } if (n != (o.n ? o.n + 1 : 0)) PROG_FAIL("a generator gave %d values and returned one after %d", n, o.n); break; }
			}
			here(x, kname[o.k]); ++step; { PROG_ATOM; w.kinds |= 1 << o.k; }
		}
	}

	// ---- what the world around the program does
	inline future_t<> jan_write(World& w, int c)
	{
		int value; { PROG_ATOM; value = w.next_value++; w.cs[c].state[value] = -value; ++w.cs[c].begun_w; }
		co_await w.ch[c]->write(PROG_MAKE(value)); PROG_ATOM; ++w.cs[c].done_w;
	}
	inline future_t<> jan_read(World& w, int c)
	{
		int id; { PROG_ATOM; id = -w.next_value++; ++w.cs[c].begun_r; }
		PROG_VAL v = co_await w.ch[c]->read(); got_value(w, c, id, PROG_ID(v));
	}
	struct Need { int what, which; };	// 0 signal, 1 write, 2 read, 3 time
	// nothing can run any more without a change from outside: is everything consistent, and what is missing?
	inline std::vector<Need> quiescent(World& w)
	{
		std::vector<Need> need; int64_t now = w.now_ms();
		for (auto& t : w.timed)
		{
			if (t.second.settled < 0) t.second.settled = now;
			else if (now >= t.second.settled + t.second.ms) PROG_FAIL("%s of task %d, for %lld ms, has not ended %lld ms after its time", t.second.what, t.second.task, (long long)t.second.ms, (long long)(now - t.second.settled - t.second.ms));
		}
		for (int m = 0; m < w.p.nm; ++m)
		{
			if (w.mtx[m].is_locked() != (w.mx[m].count > 0)) PROG_FAIL(w.mx[m].count ? "mutex %d is free although a task holds it" : "mutex %d is locked although nobody holds it", m);
			if (w.mx[m].waiting && !w.mx[m].count) PROG_FAIL("%d task(s) wait for mutex %d although it is free", w.mx[m].waiting, m);
		}
		for (int e = 0; e < w.p.ne; ++e) if (w.es[e].waiting)
		{
			if (w.es[e].signals != w.es[e].taken) PROG_FAIL("%d task(s) wait for event %d although %d signal(s) were not used", w.es[e].waiting, e, w.es[e].signals - w.es[e].taken);
			need.push_back({ 0, e });
		}
		for (int c = 0; c < w.p.nc; ++c)
		{
			auto& k = w.cs[c]; int rd = k.begun_r - k.done_r, wr = k.begun_w - k.done_w, held = k.done_w - k.done_r;
			if (rd && (wr || held)) PROG_FAIL("%d task(s) wait to read from channel %d although it has values (%d inside, %d waiting to be written)", rd, c, held, wr);
			if (wr && held != w.p.cap[c]) PROG_FAIL("%d task(s) wait to write to channel %d of capacity %d, which holds %d", wr, c, w.p.cap[c], held);
			if (rd) need.push_back({ 1, c }); if (wr) need.push_back({ 2, c });
		}
		if (!w.timed.empty()) need.push_back({ 3, 0 });
		if (w.left && need.empty()) PROG_FAIL("%d task(s) can never go on: they wait for each other or a wake-up was lost", w.left);
		return need;
	}
	inline void satisfy(World& w, Need n, int s)
	{
		{ PROG_ATOM; ++w.janitor; }
		if (n.what == 0) { { PROG_ATOM; ++w.es[n.which].signals; } w.ev[n.which].signal(); }
		else if (n.what == 1) *w.sch[s] + jan_write(w, n.which);
		else if (n.what == 2) *w.sch[s] + jan_read(w, n.which);
	}
	inline void begin(World& w) { for (size_t i = 0; i < w.p.task.size(); ++i) { int id = new_task(w); *w.sch[w.p.home[i]] + task(w, w.p.task[i], w.p.home[i], id); } }
	inline void finished(World& w)
	{
		if (w.started != w.next_task || w.ended != w.next_task) PROG_FAIL("%d tasks were made, %d started and %d ended", w.next_task, w.started, w.ended);
		if (w.frames) PROG_FAIL("%d coroutine(s) never ended", w.frames);
	}
}
