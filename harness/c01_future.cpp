// C01: trees of coroutines and awaitables with known outcomes, on one scheduler.
#include "hx.hpp"
using namespace librf;
using namespace hx;

namespace
{
	enum { T_INT, T_COUNTED, T_MOVE, T_STR, T_REF, T_VOID, T_PTR, T_FRAG, NT };
	int cells[1024];
	struct Err { int id; Counted probe; };
	// a result whose construction or whose move to the awaiter may throw
	struct Recipe { int id, fails; };
	struct Fragile
	{
		Counted v; int fails;
		Fragile(Recipe r) : v(r.id), fails(r.fails) { if (fails == 1) throw Err{ r.id, Counted(r.id) }; }
		Fragile(Fragile&& o) : v((o.v.ok(), o.v.id)), fails(o.fails) { if (fails == 2) throw Err{ v.id, Counted(v.id) }; }
		Fragile& operator=(Fragile&& o) { v.ok(); o.v.ok(); v.id = o.v.id; fails = o.fails; return *this; }
	};
	int fails_of[1024];
	template<class T> struct K;
	template<> struct K<int> { static constexpr int k = T_INT; static int make(int i) { return i * 7 + 3; } static int id(int v) { return (v - 3) % 7 ? -99 : (v - 3) / 7; } };
	template<> struct K<Counted> { static constexpr int k = T_COUNTED; static Counted make(int i) { return Counted(i); } static int id(const Counted& v) { v.ok(); return v.id; } };
	template<> struct K<MoveOnly> { static constexpr int k = T_MOVE; static MoveOnly make(int i) { return MoveOnly(i); } static int id(const MoveOnly& v) { v.ok(); return v.id; } };
	template<> struct K<std::string> { static constexpr int k = T_STR; static std::string make(int i) { return V<std::string>::make(i); } static int id(const std::string& v) { return V<std::string>::id(v); } };
	template<> struct K<int&> { static constexpr int k = T_REF; static int& make(int i) { return cells[i]; } static int id(int& v) { return (int)(&v - cells); } };
	template<> struct K<void> { static constexpr int k = T_VOID; };
	template<> struct K<std::unique_ptr<Counted>> { static constexpr int k = T_PTR; static std::unique_ptr<Counted> make(int i) { return std::make_unique<Counted>(i); } static int id(const std::unique_ptr<Counted>& v) { return v ? v->id : -98; } };
	template<> struct K<Fragile> { static constexpr int k = T_FRAG; static Recipe make(int i) { return { i, fails_of[i] }; } static int id(const Fragile& v) { v.v.ok(); return v.v.id; } };
	static const char* tname[] = { "int", "counted", "move-only", "string", "int&", "void", "unique_ptr", "fragile" };

	struct Step { int kind; int child; int style; int yields; bool catches; bool peek = false; };	// 0 yield, 1 await child, 2 yield a value (a task nobody awaits)
	struct Node
	{
		int kind = 0, type = 0; std::vector<Step> steps; bool throws_ = false; int id = 0;
		bool out_exc = false; int out_id = 0;			// outcome
		int set_when = 0, setter_yields = 0, handles = 1, set_style = 0; bool exc_style = false;
		// run time
		bool created = false, set = false; int started = 0, ended = 0, waiting = -1; int resumed = 0;
	};
	struct World
	{
		Case& c; std::vector<Node> n; std::vector<std::function<void()>> setters; std::vector<int> pending;
		int set_before = 0, set_after = 0, exceptions = 0, depth = 0, waited = 0, yields = 0, refused = 0;
		World(Case& c_) : c(c_) {}
	};

	template<class T> void set_result(World& w, int i, awaitable_t<T>& a)
	{
		Node& m = w.n[i]; w.c.check((bool)a, "an unset awaitable has no state");
		m.set = true;
		if (m.throws_)
		{
			if (m.exc_style) a.throw_exception(Err{ m.id, Counted(m.id) }); else a.set_exception(std::make_exception_ptr(Err{ m.id, Counted(m.id) }));
		}
		else if constexpr (std::is_void_v<T>) a.set_value();
		else if constexpr (std::is_reference_v<T>) a.set_value(K<T>::make(m.id));
		else if (m.set_style == 0 || !std::is_copy_constructible_v<T>) a.set_value(K<T>::make(m.id));
		else if constexpr (std::is_copy_constructible_v<T>) { const T v = K<T>::make(m.id); a.set_value(v); w.c.check(K<T>::id(v) == m.id, "setting a result changed the caller's value"); }
		w.c.check(!(bool)a, "an awaitable that has delivered its result still holds the state");
	}
	future_t<> setter(World& w, int i, std::function<void()> f)
	{
		int y = w.n[i].setter_yields;
		while (y-- > 0) co_await yield();
		f();
	}
	// an "awaitable function"
	template<class T> future_t<T> async(World& w, int i)
	{
		Node& m = w.n[i]; m.created = true;
		awaitable_t<T> a;
		if (m.set_when == 0) { future_t<T> f = a.get_future(); set_result(w, i, a); ++w.set_before; return f; }
		if (m.set_when == 1) { awaitable_t<T> b(a); set_result(w, i, a); ++w.set_before; return b.get_future(); }
		auto h = std::make_shared<std::vector<awaitable_t<T>>>();
		future_t<T> f = a.get_future();
		for (int k = 1; k < m.handles; ++k) h->push_back(a);
		h->push_back(std::move(a));
		size_t use = (size_t)m.id % h->size();
		std::function<void()> fn = [&w, i, h, use] { w.c.note("   result of node %d is set", i); set_result(w, i, (*h)[use]); h->clear(); };
		if (m.set_when == 2) { w.pending.push_back(i); w.setters[i] = std::move(fn); }
		else sch() + setter(w, i, std::move(fn));
		return f;
	}
	template<class T> future_t<T> coro(World& w, int i);
	template<class T> future_t<T> make(World& w, int i) { return w.n[i].kind == 0 ? coro<T>(w, i) : async<T>(w, i); }

	void before(World& w, int i, int child) { Node& m = w.n[i]; m.waiting = child; if (!w.n[child].set && w.n[child].kind) ++w.waited; }
	void after(World& w, int i, int child, bool exc, int got)
	{
		Case& c = w.c; Node& m = w.n[i]; Node& ch = w.n[child];
		c.check(m.waiting == child, "node %d is resumed although it does not wait for node %d", i, child);
		m.waiting = -1; ++m.resumed;
		c.check(ch.kind == 0 ? ch.ended == 1 : ch.set, "node %d got a result of node %d before it was set", i, child);
		c.check(exc == ch.out_exc, "node %d gets %s from node %d, expected %s", i, exc ? "an exception" : "a value", child, ch.out_exc ? "an exception" : "a value");
		c.check(got == ch.out_id, "node %d gets result %d from node %d, expected %d", i, got, child, ch.out_id);
		c.check(librf::this_scheduler() == &sch(), "wrong scheduler");
		if (exc) ++w.exceptions;
	}
	struct Scope { World& w; int i; bool& done; Scope(World& w_, int i_, bool& d) : w(w_), i(i_), done(d) {} ~Scope() { w.n[i].ended++; } };

	template<class T> struct Id { static int of(T&& v) { return K<T>::id(v); } };
	template<> struct Id<int&> { static int of(int& v) { return K<int&>::id(v); } };

	// ways of holding a future before it is awaited
	template<class T> std::vector<future_t<T>> hold(future_t<T> f, int style)
	{
		std::vector<future_t<T>> v;
		switch (style)
		{
		case 1: v.push_back(f); break;
		case 2: v.push_back(f); v.push_back(f); break;
		case 3: v.push_back(std::move(f)); break;
		default: { auto g = std::make_unique<future_t<T>>(f); v.push_back(f); v[0] = *g; v.push_back(std::move(*g)); v.erase(v.begin()); } break;
		}
		return v;
	}
	// a future whose result has not been set says so, refuses to hand it out and stays as it is
	template<class T> void peek(World& w, int child, future_t<T>& f)
	{
		Node& ch = w.n[child]; bool ready = ch.kind && ch.set, refused = false;
		w.c.check(f.await_ready() == ready, "the future of node %d says that it is%s ready", child, ready ? " not" : ""); if (ready) return;
		try { (void)f.await_resume(); } catch (const future_exception& e) { refused = e._error == error_code::not_ready; }
		w.c.check(refused, "taking the result of node %d, which has not been set, does not end with not_ready", child); ++w.refused;
	}
#define AWAIT_T(T) case K<T>::k: \
	if (s.style == 0) { before(w, i, s.child); got = Id<T>::of(co_await make<T>(w, s.child)); } \
	else { auto f = hold(make<T>(w, s.child), s.style); for (int y = 0; y < s.yields; ++y) co_await yield(); if (s.peek) peek(w, s.child, f[0]); before(w, i, s.child); got = Id<T>::of(co_await f[0]); } \
	break;
#define AWAIT_V() case T_VOID: got = w.n[s.child].out_id; \
	if (s.style == 0) { before(w, i, s.child); co_await make<void>(w, s.child); } \
	else { auto f = hold(make<void>(w, s.child), s.style); for (int y = 0; y < s.yields; ++y) co_await yield(); if (s.peek) peek(w, s.child, f[0]); before(w, i, s.child); co_await f[0]; } \
	break;
	using UPtr = std::unique_ptr<Counted>;
	using IRef = int&;

	template<class T> future_t<T> coro(World& w, int i)
	{
		Counted local(i); bool done = false;
		Scope scope(w, i, done);
		w.c.check(++w.n[i].started == 1, "node %d starts a second time", i);
		w.n[i].created = true;
		for (size_t k = 0; k < w.n[i].steps.size(); ++k)
		{
			Step s = w.n[i].steps[k];
			if (s.kind == 0) { co_await yield(); local.ok(); continue; }
			if (s.kind == 2) { ++w.yields; if constexpr (std::is_void_v<T>) co_await yield(); else co_yield K<T>::make(600 + i); local.ok(); continue; }
			bool exc = false; int got = -1; bool rethrow = false;
			try
			{
				switch (w.n[s.child].type)
				{
				AWAIT_T(int) AWAIT_T(Counted) AWAIT_T(MoveOnly) AWAIT_T(std::string) AWAIT_T(IRef) AWAIT_T(UPtr) AWAIT_T(Fragile) AWAIT_V()
				}
			}
			catch (Err& e) { exc = true; got = e.id; e.probe.ok(); after(w, i, s.child, exc, got); rethrow = !s.catches; if (rethrow) throw; }
			catch (future_exception& e) { w.c.fail("node %d gets a future_exception (%s) from node %d", i, e.what(), s.child); }
			if (!exc) after(w, i, s.child, exc, got);
			local.ok(); w.c.check(local.id == i, "a local variable of node %d changed", i);
		}
		if (w.n[i].throws_) throw Err{ w.n[i].id, Counted(w.n[i].id) };
		int id = w.n[i].id;
		if constexpr (std::is_void_v<T>) co_return;
		else co_return K<T>::make(id);
	}

	int gen(World& w, int depth, bool chain)
	{
		Case& c = w.c; int i = (int)w.n.size(); w.n.emplace_back(); w.depth = std::max(w.depth, depth);
		int kind = depth == 0 ? 0 : (chain && depth < 60 ? 0 : c.chance(1, 2));
		if (w.n.size() > 200) kind = 1;
		w.n[i].kind = kind; w.n[i].type = (int)c.draw(NT); w.n[i].id = i; w.n[i].throws_ = c.chance(1, 4);
		fails_of[i] = w.n[i].type == T_FRAG && !w.n[i].throws_ ? (int)c.draw(kind ? 2 : 3) : 0; if (kind && fails_of[i]) fails_of[i] = 2;
		w.n[i].out_exc = w.n[i].throws_ || fails_of[i]; w.n[i].out_id = i;
		if (kind == 1)
		{
			w.n[i].set_when = (int)c.draw(4); w.n[i].setter_yields = (int)c.draw(4); w.n[i].handles = (int)c.range(1, 3); w.n[i].set_style = (int)c.draw(2); w.n[i].exc_style = c.draw(2);
			return i;
		}
		int ns = chain ? 1 : (int)c.draw(depth < 4 ? 5 : 2);
		for (int k = 0; k < ns; ++k)
		{
			if (!chain && c.draw(3) == 0) { w.n[i].steps.push_back({ depth == 0 && c.chance(1, 3) ? 2 : 0, -1, 0, 0, false }); continue; }
			int ch = gen(w, depth + 1, chain && !c.chance(1, 16));
			Step s{ 1, ch, (int)c.draw(5), (int)c.draw(3), c.chance(1, 2), c.chance(1, 4) };
			w.n[i].steps.push_back(s);
			if (w.n[ch].out_exc && !s.catches) { w.n[i].out_exc = true; w.n[i].out_id = w.n[ch].out_id; break; }	// ends here
		}
		return i;
	}
	std::string show(World& w, int i)
	{
		Node& m = w.n[i]; std::string s = std::to_string(i) + ":" + tname[m.type];
		if (m.kind) { static const char* when[] = { "set before get_future", "set before await", "set from outside", "set by a coroutine" }; return s + " awaitable " + when[m.set_when] + (m.throws_ ? " to an exception" : fails_of[i] ? " to a value that throws when it is moved" : ""); }
		s += " coroutine {"; for (auto& st : m.steps) { if (st.kind == 0) s += " yield;"; else if (st.kind == 2) s += " yield a value;"; else s += " await#" + std::to_string(st.style) + (st.catches ? " catching (" : " (") + show(w, st.child) + ");"; }
		return s + (m.throws_ ? " throw}" : fails_of[i] == 1 ? " return a value whose constructor throws}" : fails_of[i] ? " return a value that throws when it is moved}" : " return}");
	}
	template<class T> void launch(World& w, int i, int how)
	{
		if (how == 0) sch() + coro<T>(w, i);
		else if (how == 1) { auto f = coro<T>(w, i); sch() + f; }
		else sch() + [&w, i, keep = Counted(1000 + i)]() -> future_t<T> { return coro<T>(w, i); };
	}
	void launch_any(World& w, int i, int how)
	{
		switch (w.n[i].type) { case T_INT: launch<int>(w, i, how); break; case T_COUNTED: launch<Counted>(w, i, how); break; case T_MOVE: launch<MoveOnly>(w, i, how); break; case T_STR: launch<std::string>(w, i, how); break; case T_REF: launch<int&>(w, i, how); break; case T_VOID: launch<void>(w, i, how); break; case T_FRAG: launch<Fragile>(w, i, how); break; default: launch<UPtr>(w, i, how); }
	}
	void blocked_ok(World& w)
	{
		for (size_t i = 0; i < w.n.size(); ++i)
		{
			Node& m = w.n[i]; if (m.waiting < 0) continue; Node& ch = w.n[m.waiting];
			if (ch.kind) w.c.check(!ch.set, "node %zu stays suspended although the result of node %d has been set", i, m.waiting);
			else w.c.check(!ch.ended, "node %zu stays suspended although node %d has ended", i, m.waiting);
		}
	}
	void fire(World& w) { if (w.pending.empty()) return; size_t k = w.c.draw(w.pending.size()); int i = w.pending[k]; w.pending.erase(w.pending.begin() + k); w.c.log("set the result of node %d", i); auto f = std::move(w.setters[i]); w.setters[i] = nullptr; ++w.set_after; f(); }

	void run(Case& c)
	{
		vclock::reset(); Balance bal;
		{
			World w(c); w.n.reserve(1000); w.setters.resize(1000);
			int roots = (int)c.range(1, 3); std::vector<int> r, how;
			for (int k = 0; k < roots && w.n.size() < 200; ++k) { bool chain = c.chance(1, 12); r.push_back(gen(w, 0, chain)); how.push_back((int)c.draw(3)); }
			for (size_t k = 0; k < r.size(); ++k) c.log("task %s", show(w, r[k]).substr(0, 3000).c_str());
			c.check(w.n.size() < 400, "generator");
			for (size_t k = 0; k < r.size(); ++k) { launch_any(w, r[k], how[k]); if (c.chance(1, 3)) sch().run_one_batch(); }
			int steps = (int)c.draw(40);
			for (int k = 0; k < steps; ++k)
			{
				if (c.draw(3) < 2) { sch().run_one_batch(); }
				else fire(w);
			}
			for (;;) { settle(c); blocked_ok(w); if (w.pending.empty()) break; fire(w); if (c.chance(1, 4)) fire(w); }
			for (int k : r) { c.check(w.n[k].started == 1 && w.n[k].ended == 1, "task of node %d did not run to its end", k); }
			c.check(sch().empty(), "the scheduler is not empty after every task ended");
			for (auto& m : w.n) if (m.kind == 0) c.check(m.started == m.ended && m.started <= 1, "a coroutine started %d times and ended %d times", m.started, m.ended);
			int awaits = 0; for (auto& m : w.n) awaits += m.resumed;
			if (awaits >= 2 && (w.waited || w.exceptions)) c.nontrivial();
			c.label("awaits completed", awaits); if (w.refused) c.label("a result asked for before it was set", w.refused); if (w.exceptions) c.label("exceptions passed through an await"); if (w.set_after) c.label("result set from outside"); if (w.set_before) c.label("result set before the await"); int fr = 0; for (auto& m : w.n) if (m.type == T_FRAG && fails_of[m.id]) fr = 1; if (fr) c.label("a result whose construction or move throws"); if (w.yields) c.label("a task yields values nobody takes"); if (w.depth >= 8) c.label("nesting depth >= 8"); if (w.waited) c.label("awaited before the result was set");
		}
		bal.verify(c, "after every task ended");
	}
}
VP_CHECK({ "future", "1-3 trees of coroutines and awaitables of 8 result types (one of which may throw while it is constructed or moved) with generated outcomes, orders of setting and ways of holding the futures; non-trivial = at least two awaits completed and one of them waited for an unset result or received an exception",
	run, 200000, 6000000, true, 3000, warm });
