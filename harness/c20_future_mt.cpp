// C20: results set by other threads, futures held and dropped by several threads, tasks started from other threads, under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;

namespace
{
	constexpr int MAXT = 4;
	enum { T_INT, T_PTR, T_REF, T_VOID, NT };
	const char* tname[] = { "int", "unique_ptr", "reference", "void" };
	template<class T> struct Kind; template<> struct Kind<int> { static constexpr int k = T_INT; }; template<> struct Kind<PayloadPtr> { static constexpr int k = T_PTR; }; template<> struct Kind<Payload&> { static constexpr int k = T_REF; }; template<> struct Kind<void> { static constexpr int k = T_VOID; };
	struct Err { int id, inv; };

	enum { COMPLETE, DROP_FUTURE, COPY_FUTURE, DROP_AWAITABLE, START_ACTOR, START_FUTURE, READY, PAUSE };
	const char* oname[] = { "set the result of", "drop its future of", "copy its future of", "drop its awaitable of", "start actor", "run as a task the future of", "look at the future of", "pause" };
	struct Op { int kind, arg, n; };
	struct Step { int kind, aw, n; };		// 0 await a shared future, 1 call an asynchronous function, 2 yield, 3 do both in a child, 4 switch
	struct AwDef { int type, completer; bool err; int used_by = -1; bool as_task = false; int via_post = 0; };
	struct ActorDef { int home; std::vector<Step> steps; };

	struct Slots { std::vector<std::unique_ptr<future_t<int>>> fi; std::vector<std::unique_ptr<future_t<PayloadPtr>>> fp; std::vector<std::unique_ptr<future_t<Payload&>>> fr; std::vector<std::unique_ptr<future_t<>>> fv;
		std::vector<std::unique_ptr<awaitable_t<int>>> ai; std::vector<std::unique_ptr<awaitable_t<PayloadPtr>>> ap; std::vector<std::unique_ptr<awaitable_t<Payload&>>> ar; std::vector<std::unique_ptr<awaitable_t<>>> av;
		explicit Slots(int n) : fi(n), fp(n), fr(n), fv(n), ai(n), ap(n), ar(n), av(n) {}
		template<class T> auto& f() { if constexpr (std::is_same_v<T, int>) return fi; else if constexpr (std::is_same_v<T, PayloadPtr>) return fp; else if constexpr (std::is_same_v<T, Payload&>) return fr; else return fv; }
		template<class T> auto& a() { if constexpr (std::is_same_v<T, int>) return ai; else if constexpr (std::is_same_v<T, PayloadPtr>) return ap; else if constexpr (std::is_same_v<T, Payload&>) return ar; else return av; }
		void clear(int k) { fi[k] = nullptr; fp[k] = nullptr; fr[k] = nullptr; fv[k] = nullptr; ai[k] = nullptr; ap[k] = nullptr; ar[k] = nullptr; av[k] = nullptr; }
	};
	struct World
	{
		Case& c; const std::vector<AwDef>& d; const std::vector<ActorDef>& ad; int ns, nt; scheduler_t* sch[MAXT] = {}; std::atomic<int> ready{ 0 };
		std::vector<std::unique_ptr<Slots>> slots; std::vector<std::unique_ptr<Guarded>> side; std::vector<std::unique_ptr<Payload>> cells; std::vector<char> set, got; std::vector<int> started, ended;
		std::vector<std::vector<std::function<void()>>> post; int awaited = 0, before = 0, after = 0, errors = 0, racing = 0, tasks = 0, away = 0;
		World(Case& c_, const std::vector<AwDef>& d_, const std::vector<ActorDef>& a_) : c(c_), d(d_), ad(a_) {}
	};
	template<class F> void with_type(int t, F f) { switch (t) { case T_INT: f((int*)nullptr); break; case T_PTR: f((PayloadPtr*)nullptr); break; case T_REF: f((std::remove_reference_t<Payload>*)nullptr); break; default: f((void*)nullptr); } }
#define TYPED(k, BODY) switch (w.d[k].type) { case T_INT: { using T = int; BODY; break; } case T_PTR: { using T = PayloadPtr; BODY; break; } case T_REF: { using T = Payload&; BODY; break; } default: { using T = void; BODY; break; } }

	template<class T> void complete(World& w, int k, awaitable_t<T>& a)
	{
		w.side[k]->v = 500 + k;			// whoever gets the result sees this
		{ dct::Atomic at; w.set[k] = 1; }
		if (w.d[k].err) { Err e{ k, ~k }; if (k & 1) a.set_exception(std::make_exception_ptr(e)); else a.throw_exception(e); }
		else if constexpr (std::is_void_v<T>) a.set_value();
		else if constexpr (std::is_reference_v<T>) { w.cells[k]->a = 700 + k; w.cells[k]->b = ~(700 + k); a.set_value(*w.cells[k]); }
		else if constexpr (std::is_same_v<T, int>) a.set_value(700 + k);
		else a.set_value(std::make_unique<Payload>(700 + k));
		w.c.check(!(bool)a, "an awaitable that has delivered its result still holds the state");
	}
	// awaits 'f', which belongs to awaitable k
	template<class T> future_t<int> get(World& w, int actor, int k, future_t<T> f)
	{
		(void)actor; int r = -1; bool err = false;
		{ dct::Atomic at; ++w.awaited; if (w.set[k]) ++w.before; else ++w.after; }
		try
		{
			if constexpr (std::is_void_v<T>) { co_await f; r = 700 + k; }
			else if constexpr (std::is_reference_v<T>) { Payload& p = co_await f; r = p.get(); w.c.check(&p == w.cells[k].get(), "the reference of another result arrived"); }
			else if constexpr (std::is_same_v<T, int>) r = co_await f;
			else { PayloadPtr p = co_await f; w.c.check((bool)p, "the result of awaitable %d arrived empty", k); r = p->get(); }
		}
		catch (const Err& e) { err = true; w.c.check(e.id == k && e.inv == ~k, "the exception of another awaitable arrived"); r = 700 + k; }
		{ dct::Atomic at; w.c.check(w.set[k], "a result of awaitable %d arrives before it was set", k); w.c.check(++w.got[k] == 1, "the result of awaitable %d is delivered twice", k); if (err) ++w.errors; }
		w.c.check(err == w.d[k].err, "awaitable %d gave %s instead of %s", k, err ? "an exception" : "a value", err ? "a value" : "an exception");
		w.c.check(w.side[k]->v == 500 + k, "what the other thread wrote before setting result %d is not visible", k);
		co_return r;
	}
	template<class T> future_t<T> async(World& w, int k)
	{
		auto a = std::make_shared<awaitable_t<T>>(); future_t<T> f = a->get_future(); World* wp = &w;
		dct::Atomic at; w.post[w.d[k].completer].push_back([wp, k, a] { complete<T>(*wp, k, *a); }); dct::give(&w.post[w.d[k].completer]);
		return f;
	}
	future_t<int> child(World& w, int id, int k, bool posted)
	{
		int r = -1;
		if (posted) { TYPED(k, r = co_await get<T>(w, id, k, async<T>(w, k))) }
		else { TYPED(k, { auto& p = w.slots[w.nt]->template f<T>()[k]; future_t<T> f(std::move(*p)); p = nullptr; r = co_await get<T>(w, id, k, std::move(f)); }) }
		co_return r;
	}
	future_t<> actor(World& w, int id)
	{
		{ dct::Atomic at; w.c.check(++w.started[id] == 1, "actor %d starts twice", id); }
		int home = w.ad[id].home;
		auto here = [&](const char* what) { w.c.check(dct::self() == home, "actor %d runs in thread %d after %s although it belongs to the scheduler of thread %d", id, dct::self(), what, home); };
		here("its start");
		for (const Step& s : w.ad[id].steps)
		{
			if (s.kind == 2) { for (int i = 0; i < s.n; ++i) co_await yield(); here("a yield"); continue; }
			if (s.kind == 4) { home = s.n % w.ns; co_await via(*w.sch[home]); here("a switch"); continue; }
			bool posted = w.d[s.aw].via_post; int r = -1; 
			if (s.kind == 3) r = co_await child(w, id, s.aw, posted);
			else if (posted) { TYPED(s.aw, r = co_await get<T>(w, id, s.aw, async<T>(w, s.aw))) }
			else { TYPED(s.aw, { auto& p = w.slots[w.nt]->template f<T>()[s.aw]; future_t<T> f(std::move(*p)); p = nullptr; r = co_await get<T>(w, id, s.aw, std::move(f)); }) }
			here("an await"); w.c.check(r == 700 + s.aw, "actor %d gets %d from awaitable %d, expected %d", id, r, s.aw, 700 + s.aw);
		}
		dct::Atomic at; ++w.ended[id];
	}
	void run(Case& c)
	{
		vclock::reset();
		int ns = (int)c.range(1, 2), np = (int)c.range(1, 2), nt = ns + np, na = (int)c.range(1, 3), nw = (int)c.range(1, 5);
		std::vector<AwDef> d(nw); std::vector<ActorDef> ad(na); std::vector<std::vector<Op>> prog(nt);
		auto put = [&](int t, Op o) { auto& p = prog[t]; p.insert(p.begin() + c.draw(p.size() + 1), o); };
		for (auto& a : ad) a.home = (int)c.draw(ns);
		for (int k = 0; k < nw; ++k)
		{
			d[k].type = (int)c.draw(NT); d[k].completer = (int)(c.chance(1, 5) ? c.draw(nt) : ns + c.draw(np)); d[k].err = c.chance(1, 4);
			switch (c.weighted({ 6, 1, 3 }))
			{
			case 0: d[k].used_by = (int)c.draw(na); break;
			case 1: break;				// nobody takes the result
			case 2: d[k].as_task = true; break;
			}
			if (d[k].used_by >= 0 && c.chance(1, 3)) d[k].via_post = 1;
			if (d[k].used_by >= 0) { auto& st = ad[d[k].used_by].steps; if (c.chance(1, 3)) st.push_back({ 2, -1, (int)c.range(1, 3) }); if (ns > 1 && c.chance(1, 6)) st.push_back({ 4, -1, (int)c.draw(ns) }); st.push_back({ c.chance(1, 3) ? 3 : d[k].via_post, k, 0 }); }
			if (!d[k].via_post) put(d[k].completer, { COMPLETE, k, 0 });
			if (d[k].as_task) put((int)c.draw(nt), { START_FUTURE, k, (int)c.draw(ns) });
			int extra = (int)c.draw(4); while (extra-- > 0) { static const int kinds[] = { DROP_FUTURE, COPY_FUTURE, DROP_AWAITABLE, READY, PAUSE }; put((int)c.draw(nt), { kinds[c.draw(5)], k, (int)c.draw(6) }); }
		}
		for (int i = 0; i < na; ++i) put((int)c.draw(nt), { START_ACTOR, i, 0 });
		c.log("%d scheduler threads, %d other threads", ns, np);
		for (int k = 0; k < nw; ++k) c.log("awaitable %d: %s, %s, %s, completed by thread %d%s", k, tname[d[k].type], d[k].err ? "an exception" : "a value", d[k].used_by >= 0 ? "awaited by an actor" : d[k].as_task ? "run as a task" : "taken by nobody", d[k].completer, d[k].via_post ? " when called" : "");
		for (int i = 0; i < na; ++i) { std::string s; for (auto& st : ad[i].steps) s += st.kind == 2 ? "; yield x " + std::to_string(st.n) : st.kind == 4 ? "; switch to " + std::to_string(st.n) : "; await " + std::to_string(st.aw) + (st.kind == 3 ? " in a child" : ""); c.log("actor %d of the scheduler of thread %d%s", i, ad[i].home, s.c_str()); }
		for (int t = 0; t < nt; ++t) for (auto& o : prog[t]) c.log("thread %d: %s %d", t, oname[o.kind], o.arg);
		Heap heap;
		{
			World w(c, d, ad); w.ns = ns; w.nt = nt; w.set.resize(nw); w.got.resize(nw); w.started.resize(na); w.ended.resize(na); w.post.resize(nt); for (auto& p : w.post) p.reserve(8);
			for (int k = 0; k < nw; ++k) { w.side.push_back(std::make_unique<Guarded>()); w.cells.push_back(std::make_unique<Payload>(1)); }
			for (int t = 0; t <= nt; ++t) w.slots.push_back(std::make_unique<Slots>(nw));
			for (int k = 0; k < nw; ++k) if (!d[k].via_post)
			{
				TYPED(k, { awaitable_t<T> a; future_t<T> f = a.get_future(); for (int t = 0; t <= nt; ++t) { w.slots[t]->template f<T>()[k] = std::make_unique<future_t<T>>(f); if (t < nt) w.slots[t]->template a<T>()[k] = std::make_unique<awaitable_t<T>>(a); } })
			}
			auto op = [&](int t, const Op& o)
			{
				Slots& s = *w.slots[t]; int k = o.arg;
				switch (o.kind)
				{
				case COMPLETE: TYPED(k, { complete<T>(w, k, *s.template a<T>()[k]); }) break;
				case DROP_FUTURE: { bool needed = d[k].as_task; if (!needed && !d[k].via_post) TYPED(k, s.template f<T>()[k] = nullptr) break; }
				case COPY_FUTURE: if (!d[k].via_post) TYPED(k, if (s.template f<T>()[k]) { future_t<T> f(*s.template f<T>()[k]); for (int i = 0; i < o.n; ++i) dct::point(); future_t<T> g(std::move(f)); }) break;
				case DROP_AWAITABLE: if (d[k].completer != t && !d[k].via_post) TYPED(k, s.template a<T>()[k] = nullptr) break;
				case READY: if (!d[k].via_post) TYPED(k, if (s.template f<T>()[k]) { bool r = s.template f<T>()[k]->await_ready(); if (r) { dct::Atomic at; c.check(w.set[k], "future %d is ready although its result was not set", k); } }) break;
				case START_ACTOR: { int h = ad[k].home; if (h != t) { dct::Atomic at; ++w.away; } *w.sch[h] + actor(w, k); break; }
				case START_FUTURE: if (!d[k].via_post) { { dct::Atomic at; ++w.tasks; } TYPED(k, { future_t<T> f(std::move(*s.template f<T>()[k])); s.template f<T>()[k] = nullptr; *w.sch[o.n] + f; }) } break;
				case PAUSE: for (int i = 0; i < o.n * 4; ++i) dct::point(); break;
				}
			};
			std::vector<std::function<void()>> bodies;
			auto mail = [&](int t) { std::function<void()> f; { dct::Atomic at; if (!w.post[t].empty()) { dct::take(&w.post[t]); f = std::move(w.post[t].front()); w.post[t].erase(w.post[t].begin()); } } if (!f) return false; f(); return true; };
			for (int t = 0; t < ns; ++t) bodies.push_back([&, t]
			{
				local_scheduler_t ls; scheduler_t* s = this_scheduler(); w.sch[t] = s; w.ready.fetch_add(1);
				while (w.ready.load() < ns) dct::yield();
				size_t at = 0;
				for (;;) { bool did = false; if (at < prog[t].size()) { op(t, prog[t][at++]); did = true; } if (mail(t)) did = true; if (s->run_one_batch()) did = true; if (dct::idle(did)) break; }
				c.check(s->empty(), "the scheduler of thread %d is not empty when nothing runs any more", t);
				for (int k = 0; k < nw; ++k) w.slots[t]->clear(k);
			});
			for (int t = ns; t < nt; ++t) bodies.push_back([&, t]
			{
				while (w.ready.load() < ns) dct::yield();
				for (auto& o : prog[t]) op(t, o);
				if (t & 1) for (int k = 0; k < nw; ++k) w.slots[t]->clear(k);
				for (;;) { bool did = mail(t); if (dct::idle(did)) break; }
				for (int k = 0; k < nw; ++k) w.slots[t]->clear(k);
			});
			dct::run(c, std::move(bodies), { .max_points = 400000 });
			for (int i = 0; i < na; ++i) c.check(w.started[i] == 1 && w.ended[i] == 1, "actor %d started %d times and ended %d times", i, w.started[i], w.ended[i]);
			for (int k = 0; k < nw; ++k) c.check(w.got[k] == (d[k].used_by >= 0 ? 1 : 0), "the result of awaitable %d was delivered %d times", k, w.got[k]);
			if (dct::switches() >= 3 && (w.after || w.tasks)) c.nontrivial();
			if (w.after) c.label("awaited before the result was set", w.after); if (w.before) c.label("awaited after the result was set", w.before); if (w.errors) c.label("exceptions from another thread", w.errors); if (w.tasks) c.label("futures run as tasks", w.tasks); if (w.away) c.label("actors started by another thread", w.away);
		}
		heap.verify(c);
	}
}
VP_CHECK({ "future-mt", "1-2 scheduler threads and 1-2 other threads, 1-5 awaitables of 4 result types completed, copied, dropped, awaited or run as tasks by any of them, 1-3 actors started from any thread, with a generated schedule; non-trivial = at least 3 thread switches and an await before the result was set or a future run as a task",
	run, 400000, 4000000, true, 6000, nullptr });
