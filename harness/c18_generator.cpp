// C18: generators iterated, moved, abandoned, nested and run by a scheduler.
#include "hx.hpp"
using namespace librf;
using namespace hx;

namespace
{
	struct Spec { std::vector<int> values; int ret = 0; int retstyle = 0; int locals = 1; int nested = -1; };
	struct World { Case& c; std::vector<Spec> specs; std::vector<int> progress; std::vector<int> live; int started = 0; World(Case& c_) : c(c_) {} };

	struct Live { World& w; int g; Live(World& w_, int g_) : w(w_), g(g_) { ++w.live[g]; } ~Live() { --w.live[g]; } };

	// a stateless allocator that knows what it handed out
	std::map<void*, size_t> g_frames; int g_bad = 0, g_total = 0;
	template<class T> struct Tracked
	{
		using value_type = T; using is_always_equal = std::true_type;
		Tracked() = default; template<class U> Tracked(const Tracked<U>&) noexcept {}
		T* allocate(size_t n) { T* p = std::allocator<T>().allocate(n); g_frames[p] = n * sizeof(T); ++g_total; return p; }
		void deallocate(T* p, size_t n) { auto i = g_frames.find(p); if (i == g_frames.end() || i->second != n * sizeof(T)) ++g_bad; else g_frames.erase(i); std::allocator<T>().deallocate(p, n); }
		template<class U> bool operator==(const Tracked<U>&) const noexcept { return true; }
	};
	template<class T, class A> using Gen = generator_t<T, A>;

	// value number k of the sequence, deliberately in several storage forms
	template<class T, class A> Gen<T, A> gen(World& w, int g)
	{
		Live live(w, g); Counted keep(g);
		std::vector<Counted> more(w.specs[g].locals);
		for (size_t k = 0; k < w.specs[g].values.size(); ++k)
		{
			w.progress[g] = (int)k + 1;
			int v = w.specs[g].values[k];
			switch (k % 3)
			{
			case 0: co_yield V<T>::make(v); break;
			case 1: { T x = V<T>::make(v); co_yield x; break; }
			default: { auto p = std::make_unique<T>(V<T>::make(v)); co_yield *p; break; }
			}
			keep.ok(); w.c.check(keep.id == g, "a local of generator %d changed", g);
		}
		w.progress[g] = (int)w.specs[g].values.size() + 1;
		int r = w.specs[g].ret;
		if (w.specs[g].retstyle == 0) co_return V<T>::make(r);
		T last = V<T>::make(r);
		co_return last;
	}
	// passes on the values of another generator
	template<class T, class A> Gen<T, A> relay(World& w, int g, int inner)
	{
		Live live(w, g); Counted keep(g);
		size_t n = 0; w.progress[g] = 1;
		for (auto& v : w.specs[inner].nested >= 0 ? relay<T, A>(w, inner, w.specs[inner].nested) : gen<T, A>(w, inner))
		{
			w.c.check(w.progress[inner] == (int)++n, "the inner generator has run ahead");
			co_yield v;
			w.progress[g]++;
		}
		w.progress[g] = (int)n + 1;
		co_return V<T>::make(w.specs[g].ret);
	}
	// the sequence an iteration delivers: the yielded values, then the returned one (a generator that never yields is empty)
	std::vector<int> expected(World& w, int g)
	{
		const Spec& s = w.specs[g]; std::vector<int> v;
		if (s.nested >= 0) v = expected(w, s.nested); else v = s.values;
		if (v.empty()) return v;
		v.push_back(s.ret); return v;
	}

	template<class T, class A> struct Slot { std::unique_ptr<Gen<T, A>> g; int id = -1; bool begun = false, ended = false; std::optional<typename Gen<T, A>::iterator> it; size_t pos = 0; std::vector<int> exp; };

	template<class T, class A> void look(World& w, Slot<T, A>& s)
	{
		if (!s.begun) return;
		Case& c = w.c;
		bool end = *s.it == s.g->end();
		c.check(end == (s.pos >= s.exp.size()), "generator %d: the iteration %s at position %zu of %zu", s.id, end ? "ends" : "does not end", s.pos, s.exp.size());
		c.check((*s.it != s.g->end()) == !end, "generator %d: != contradicts ==", s.id);
		c.check((s.g->end() == *s.it) == end && (s.g->end() != *s.it) == !end, "generator %d: the end compares otherwise from the other side", s.id);
		{ auto same = *s.it; c.check(same == *s.it && !(same != *s.it), "generator %d: an iterator and its copy differ", s.id); }
		if (end) { s.ended = true; return; }
		int got = V<T>::id(**s.it);
		c.check(got == s.exp[s.pos], "generator %d: value %d at position %zu, expected %d", s.id, got, s.pos, s.exp[s.pos]);
		c.check(V<T>::id(*s.it->operator->()) == got, "generator %d: -> disagrees with *", s.id);
		if (w.specs[s.id].nested < 0) c.check(w.progress[s.id] == (int)s.pos + 1, "generator %d has run to step %d while position %zu is looked at", s.id, w.progress[s.id], s.pos);
	}
	int fresh(World& w, int nest)
	{
		Case& c = w.c; int id = (int)w.specs.size(); Spec s; int n = (int)c.size(0, 12);
		for (int i = 0; i < n; ++i) s.values.push_back((int)c.draw(1000)); s.ret = (int)c.draw(1000); s.retstyle = (int)c.draw(2); s.locals = (int)c.draw(3);
		w.specs.push_back(s); w.progress.push_back(0); w.live.push_back(0);
		if (nest > 0 && c.chance(nest == 3 ? 1 : 2, 4)) { int in = fresh(w, nest - 1); w.specs[id].nested = in; w.specs[id].values.clear(); }
		return id;
	}
	template<class T, class A> Gen<T, A> build(World& w, int id) { return w.specs[id].nested >= 0 ? relay<T, A>(w, id, w.specs[id].nested) : gen<T, A>(w, id); }

	template<class T, class A = std::allocator<char>> void run(Case& c)
	{
		vclock::reset(); Balance bal;
		{
			World w(c); w.specs.reserve(200); w.progress.reserve(200); w.live.reserve(200);
			std::vector<Slot<T, A>> slots(4); int steps = (int)c.size(4, 60); int values = 0, abandoned = 0, assigned = 0, scheduled = 0;
			auto dead = [&](int id) { if (id < 0) return; c.check(w.live[id] == 0, "generator %d is gone but its coroutine is not", id); for (int in = w.specs[id].nested; in >= 0; in = w.specs[in].nested) c.check(w.live[in] == 0, "generator %d is gone but the coroutine of its inner generator is not", id); };
			for (int k = 0; k < steps; ++k)
			{
				Slot<T, A>& s = slots[c.draw(slots.size())];
				switch (c.weighted({ 4, 8, 3, 2, 2, 2, 2, 1 }))
				{
				case 0: if (!s.g && w.specs.size() < 150) { int id = fresh(w, 3); s = Slot<T, A>(); s.id = id; s.exp = expected(w, id); c.log("new generator %d: %zu values%s", id, s.exp.size(), w.specs[id].nested >= 0 ? ", relayed" : ""); s.g = std::make_unique<Gen<T, A>>(build<T, A>(w, id)); ++w.started; c.check(w.progress[id] == 0, "generator %d runs before it is iterated", id); } break;
				case 1: if (s.g && s.id >= 0 && !s.ended)
				{
					int reps = (int)c.range(1, 4);
					for (int r = 0; r < reps && !s.ended; ++r)
					{
						if (!s.begun) { c.log("begin %d", s.id); s.begun = true; s.it.emplace(s.g->begin()); }
						else { bool post = c.draw(4) == 3; if (post) (*s.it)++; else { auto& ref = ++*s.it; c.check(&ref == &*s.it, "++ returns something else"); } ++s.pos; c.log("advance %d to %zu", s.id, s.pos); }
						look(w, s); ++values;
					}
				} break;
				case 2: if (s.g) { c.log("destroy generator %d at %zu of %zu", s.id, s.pos, s.exp.size()); if (s.begun && !s.ended) ++abandoned; int id = s.id; s.it.reset(); s.g.reset(); dead(id); s = Slot<T, A>(); } break;
				case 3: if (s.g) { c.log("move generator %d to a new object", s.id); auto n = std::make_unique<Gen<T, A>>(std::move(*s.g)); c.check(s.id < 0 || s.g->end() == s.g->begin() , "a moved-from generator is not empty"); s.g = std::move(n); look(w, s); } break;
				case 4:
				{
					Slot<T, A>& d = slots[c.draw(slots.size())]; if (&d == &s && s.g) { c.log("move-assign generator %d over itself", s.id); Gen<T, A>& self = *s.g; *s.g = std::move(self); if (s.id >= 0) { c.check(w.live[s.id] == (s.begun && s.pos + 1 < s.exp.size()), "generator %d: %d coroutines after a move over itself", s.id, w.live[s.id]); look(w, s); } break; }
					if (&d == &s || !s.g || !d.g) break;
					c.log("move-assign generator %d over generator %d (at %zu of %zu)", s.id, d.id, d.pos, d.exp.size());
					int old = d.id; d.it.reset(); *d.g = std::move(*s.g); dead(old); ++assigned;
					d.id = s.id; d.begun = s.begun; d.ended = s.ended; d.it = s.it; d.pos = s.pos; d.exp = s.exp; s.it.reset(); s.g.reset(); s = Slot<T, A>();
					look(w, d); break;
				}
				case 5: if (!s.g) { c.log("empty generator"); s = Slot<T, A>(); s.g = std::make_unique<Gen<T, A>>(); s.begun = true; s.ended = true; s.it.emplace(s.g->begin()); c.check(*s.it == s.g->end(), "an empty generator yields"); } break;
				case 7: if (s.g && s.id >= 0 && !s.begun)
				{	// all of it (or up to a value) by an algorithm of the standard library, or by a range-for
					int how = (int)c.draw(3); size_t stop = c.draw(s.exp.size() + 1), n = 0; c.log("consume generator %d by an algorithm (%d, %zu)", s.id, how, stop);
					auto same = [&](const T& v) { c.check(n < s.exp.size() && V<T>::id(v) == s.exp[n], "generator %d: an algorithm sees value %d at position %zu", s.id, V<T>::id(v), n); ++n; };
					if (how == 0) std::for_each(s.g->begin(), s.g->end(), same);
					else if (how == 1) { auto e = s.g->end(); auto it = std::find_if(s.g->begin(), e, [&](const T& v) { same(v); return n == stop + 1; }); c.check((it == e) == (stop >= s.exp.size()), "generator %d: a search ends elsewhere", s.id); if (it != e) { s.begun = true; s.pos = stop; s.it.emplace(it); look(w, s); break; } }
					else for (const T& v : *s.g) same(v);
					c.check(n == s.exp.size(), "generator %d: an algorithm saw %zu of %zu values", s.id, n, s.exp.size());
					s.begun = s.ended = true; s.pos = n; s.it.emplace(s.g->end()); look(w, s);
				} break;
				case 6: if constexpr (std::is_same_v<A, std::allocator<char>>) if (s.g && s.id >= 0 && !s.begun)
				{	// the scheduler runs it: one resume per pass
					int id = s.id; size_t total = s.exp.empty() ? 1 : s.exp.size();		// relayed values include the inner return value
					c.log("run generator %d by the scheduler (%zu steps)", id, total);
					sch() + std::move(*s.g);
					s.g.reset(); ++scheduled;
					for (size_t p = 0; p < total; ++p)
					{
						c.check(!sch().empty(), "the scheduler is empty although generator %d has not ended", id);
						c.check(sch().run_one_batch(), "the scheduler had nothing to run although generator %d has not ended", id);
						if (w.specs[id].nested < 0) c.check(w.progress[id] == (int)p + 1, "generator %d is at step %d after %zu passes", id, w.progress[id], p + 1);
						if (p + 1 < total) c.check(w.live[id] == 1, "generator %d ended after %zu of %zu passes", id, p + 1, total);
					}
					settle(c); dead(id); c.check(sch().empty(), "the scheduler is not empty after generator %d ended", id);
					s = Slot<T, A>();
				} break;
				}
			}
			for (auto& s : slots) { int id = s.id; s.it.reset(); s.g.reset(); dead(id); }
			c.check(g_bad == 0, "%d frame(s) returned to the allocator of a generator were not obtained from it with that size", g_bad);
			if constexpr (!std::is_same_v<A, std::allocator<char>>) { c.check(g_frames.empty(), "%zu frame(s) never returned to the allocator of their generator", g_frames.size()); c.check(g_total >= w.started, "%d frames obtained from the allocator for %d generators", g_total, w.started); g_total = 0; }
			if (values >= 3) c.nontrivial();
			c.label("values looked at", values); if (abandoned) c.label("abandoned in the middle"); if (assigned) c.label("move-assigned over another generator"); if (scheduled) c.label("run by the scheduler");
		}
		bal.verify(c, "after the generators were destroyed");
	}
	// generator_t<>: no values, only steps
	generator_t<> steps(World& w, int g, int n) { Live l(w, g); for (int i = 0; i < n; ++i) { w.progress[g] = i + 1; co_yield_void; } w.progress[g] = n + 1; co_return_void; }
	void run_void(Case& c)
	{
		Balance bal;
		{
			World w(c); int n = (int)c.draw(8), stop = (int)c.draw(10); w.progress.resize(1); w.live.resize(1); c.log("generator<> of %d steps, stopped after %d", n, stop);
			{ auto g = steps(w, 0, n); int k = 0; for (auto it = g.begin(); it != g.end() && k < stop; ++it) { ++k; c.check(w.progress[0] == k, "step %d while looking at %d", w.progress[0], k); } if (stop > n) c.check(k == (n ? n + 1 : 0), "%d iterations instead of %d", k, n + 1); }
			c.check(w.live[0] == 0, "the coroutine is not destroyed"); if (n >= 2) c.nontrivial();
		}
		bal.verify(c, "after the generator was destroyed");
	}
	void any(Case& c)
	{
		switch (c.draw(8)) { case 0: run<int>(c); break; case 1: run<std::string>(c); break; case 2: run<Counted>(c); break; case 5: run<int, Tracked<char>>(c); break; case 6: run<std::string, Tracked<std::string>>(c); break; case 3: run<std::unique_ptr<int>>(c); break; case 4: run<std::shared_ptr<int>>(c); break; default: run_void(c); }
	}
}
VP_CHECK({ "generator", "history of creating, advancing, moving, assigning over, abandoning, nesting and scheduling generators of 6 element types; non-trivial = at least three values were looked at",
	any, 500000, 10000000, true, 2500, warm });
