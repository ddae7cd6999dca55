// C21: the ring queue, the intrusive queue and the counted pointer, against plain containers.
#include "hx.hpp"
using namespace librf;
using namespace hx;

namespace
{
	struct Bad {};
	// copying or moving into it can be made to fail
	struct Throwing : Counted
	{
		static inline int fail_in = 0;
		static void tick() { if (fail_in > 0 && --fail_in == 0) throw Bad{}; }
		Throwing() = default; explicit Throwing(int i) : Counted(i) {}
		Throwing(const Throwing& o) : Counted((tick(), o)) {}
		Throwing(Throwing&& o) : Counted((tick(), o.id)) { o.id = -2; }
		Throwing& operator=(const Throwing& o) { tick(); Counted::operator=(o); return *this; }
		Throwing& operator=(Throwing&& o) { tick(); Counted::operator=((Counted&&)o); return *this; }
	};

	// ---------------------------------------------------------------- ring queue
	template<class T, bool O, class S> void ring(Case& c, const char* sty)
	{
		using Q = ring_queue<T, O, S>; constexpr bool throwing = std::is_same_v<T, Throwing>;
		Balance bal; uint64_t pushed = 0, popped = 0, wraps = 0; bool was_full = false, was_empty_again = false;
		{
			uint64_t most = std::min<uint64_t>((uint64_t)std::numeric_limits<S>::max() - 1, 70000);
			size_t cap = c.chance(1, 4) ? c.draw(3) : c.chance(1, 8) && sizeof(S) == 1 ? 250 + c.draw(5) : c.chance(1, 300) && sizeof(S) == 2 && std::is_same_v<T, int> ? 65530 + c.draw(5) : c.size(0, 12); if (cap > most) cap = most;
			c.log("ring_queue<%s, %s, %s> of capacity %zu", V<T>::name(), O ? "true" : "false", sty, cap);
			auto q = std::make_unique<Q>(cap); std::deque<int> m; int next = 0; int64_t budget = cap > 1000 ? 200000 : 3000;
			auto look = [&]
			{
				c.check(q->size() == m.size(), "size() is %llu, %zu values are inside", (unsigned long long)q->size(), m.size());
				c.check(q->empty() == m.empty(), "empty() is %d with %zu values inside", q->empty(), m.size());
				c.check(q->full() == (m.size() == cap), "full() is %d with %zu of %zu values inside", q->full(), m.size(), cap);
				c.check(q->capacity() == cap, "capacity() is %llu, expected %zu", (unsigned long long)q->capacity(), cap);
				if (m.size() == cap && cap) was_full = true;
			};
			auto push = [&](bool fail)
			{
				if (--budget < 0) return false; int id = next++; bool got = false, thrown = false;
				if constexpr (throwing) { Throwing v(id); Throwing::fail_in = fail ? 1 : 0; try { got = q->try_push(std::move(v)); } catch (Bad&) { thrown = true; } Throwing::fail_in = 0; if (!got) c.check(v.id == id, "a value that was not accepted changed"); }
				else if constexpr (std::is_copy_constructible_v<T>) { if (id % 3) got = q->try_push(V<T>::make(id)); else { const T v = V<T>::make(id); got = q->try_push(v); c.check(V<T>::id(v) == id, "pushing a constant changed it"); } }
				else { T v = V<T>::make(id); got = q->try_push(std::move(v)); if (!got) c.check(V<T>::id(v) == id, "a value that was not accepted is gone"); }
				bool want = m.size() < cap; if (thrown) { c.check(want, "a full queue tried to take a value"); }
				else c.check(got == want, "try_push returned %d with %zu of %zu values inside", got, m.size(), cap);
				if (got) { m.push_back(id); ++pushed; if (cap && pushed % (cap + 1) == 0) ++wraps; }
				look(); return got;
			};
			auto pop = [&](bool fail)
			{
				T v{}; bool got = false, thrown = false; int64_t live = Counted::live;
				if constexpr (throwing) { Throwing::fail_in = fail ? 1 : 0; try { got = q->try_pop(v); } catch (Bad&) { thrown = true; } Throwing::fail_in = 0; } else got = q->try_pop(v);
				if (thrown) { c.check(!m.empty(), "an empty queue moved a value"); look(); return false; }
				c.check(got == !m.empty(), "try_pop returned %d with %zu values inside", got, m.size());
				if (got)
				{
					c.check(V<T>::id(v) == m.front(), "try_pop gave value %d, the oldest one is %d", V<T>::id(v), m.front()); m.pop_front(); ++popped; if (m.empty()) was_empty_again = true;
					if constexpr (O && std::is_base_of_v<Counted, T>) c.check(Counted::live == live - 1, "the queue keeps an object of a value it has given back");
				}
				look(); return got;
			};
			look(); int n = (int)c.size(2, 60);
			while (n-- > 0)
			{
				int k = 1; switch (c.draw(4)) { case 0: k = (int)c.draw(4) + 1; break; case 1: k = (int)std::min<size_t>(cap + 1, 1 + c.draw(cap + 2)); break; default: break; }
				switch (c.weighted({ 5, 5, 1, 1, 1, 1 }))
				{
				case 0: c.log("push x %d", k); while (k-- > 0) if (!push(throwing && c.chance(1, 8))) break; break;
				case 1: c.log("pop x %d", k); while (k-- > 0) if (!pop(throwing && c.chance(1, 8))) break; break;
				case 2: c.log("fill"); for (size_t g = 0; g < cap + 2 && push(false); ++g) ; break;
				case 3: c.log("drain"); for (size_t g = 0; g < cap + 2 && pop(false); ++g) ; break;
				case 4: c.log("push and pop x %d", k * 3); for (int g = 0; g < k * 3 && budget > 0; ++g) { push(false); pop(false); } break;
				case 5:
#ifndef _QUEUE_REAL_SIZE
					c.log("move the queue");
					if (c.draw(2)) { auto r = std::make_unique<Q>(std::move(*q)); q = std::move(r); }
					else { auto r = std::make_unique<Q>((size_t)c.draw(5)); if constexpr (!throwing) r->try_push(V<T>::make(900)); *r = std::move(*q); q = std::move(r); }
					look();
#endif
					break;
				}
			}
			c.label("values pushed", pushed); c.label("values left inside at the end", m.size()); if (was_full) c.label("was full"); if (wraps) c.label("wrapped around", wraps); if (cap == 0) c.label("capacity 0"); if (cap >= 250) c.label("capacity at the limit of the index type");
		}
		if (popped >= 2 && (wraps || was_full || was_empty_again)) c.nontrivial();
		bal.verify(c, "after the queue is destroyed");
	}
	template<class T, bool O> void ring_s(Case& c)
	{
		switch (c.draw(4)) { case 0: ring<T, O, uint8_t>(c, "uint8_t"); break; case 1: ring<T, O, uint16_t>(c, "uint16_t"); break; case 2: ring<T, O, uint32_t>(c, "uint32_t"); break; default: ring<T, O, size_t>(c, "size_t"); }
	}
	void run_ring(Case& c)
	{
		switch (c.draw(9))
		{
		case 0: ring_s<int, false>(c); break; case 1: ring_s<int, true>(c); break; case 2: ring_s<Counted, false>(c); break; case 3: ring_s<Counted, true>(c); break;
		case 4: ring_s<MoveOnly, true>(c); break; case 5: ring_s<MoveOnly, false>(c); break; case 6: ring_s<std::string, true>(c); break; case 7: ring_s<std::unique_ptr<int>, false>(c); break; default: ring_s<Throwing, true>(c); break;
		}
	}

	// ---------------------------------------------------------------- intrusive queue
	struct Raw : intrusive_link_node<Raw>, Counted { explicit Raw(int i) : Counted(i) {} };
	struct Node;
	using NodePtr = counted_ptr<Node>;
	struct Node : intrusive_link_node<Node, NodePtr>, Counted
	{
		explicit Node(int i) : Counted(i) {} int refs = 0;
		void lock() { ++refs; } void unlock() { if (--refs == 0) delete this; }
	};
	template<class N> struct Own;
	template<> struct Own<Raw> { using P = Raw*; using Q = intrusive_link_queue<Raw>; static P make(int i) { return new Raw(i); } static void drop(P& p) { delete p; p = nullptr; } static Raw* get(P p) { return p; } };
	template<> struct Own<Node> { using P = NodePtr; using Q = intrusive_link_queue<Node, NodePtr>; static P make(int i) { return P(new Node(i)); } static void drop(P& p) { p = nullptr; } static Node* get(const P& p) { return p.get(); } };

	template<class N> void link(Case& c)
	{
		using O = Own<N>; Balance bal; int popped = 0, erased = 0, moved = 0, middle = 0, fronts = 0;
		{
			int nq = (int)c.range(1, 3); std::vector<std::unique_ptr<typename O::Q>> q; std::vector<std::deque<N*>> m(nq); for (int i = 0; i < nq; ++i) q.push_back(std::make_unique<typename O::Q>());
			int next = 0; std::vector<typename O::P> spare; bool counted = !std::is_same_v<N, Raw>;
			auto look = [&] { for (int i = 0; i < nq; ++i) { c.check(q[i]->size() == m[i].size(), "queue %d: size() is %zu, %zu nodes are inside", i, q[i]->size(), m[i].size()); c.check(q[i]->empty() == m[i].empty(), "queue %d: empty() is %d with %zu nodes inside", i, q[i]->empty(), m[i].size()); } };
			auto take = [&] { if (!spare.empty() && c.draw(3)) { size_t k = c.draw(spare.size()); auto p = spare[k]; spare.erase(spare.begin() + k); ++moved; return p; } return O::make(next++); };
			auto give = [&](typename O::P p) { if (c.draw(3)) spare.push_back(p); else O::drop(p); };
			c.log("%d intrusive queue(s) of %s nodes", nq, counted ? "counted" : "plain");
			look(); int n = (int)c.size(2, 120);
			while (n-- > 0)
			{
				int i = (int)c.draw(nq);
				switch (c.weighted({ 5, 2, 4, 4 }))
				{
				case 0: { auto p = take(); N* r = O::get(p); c.log("push node %d at the end of queue %d", r->id, i); q[i]->push_back(p); m[i].push_back(r); break; }
				case 1: { auto p = take(); N* r = O::get(p); c.log("push node %d at the front of queue %d", r->id, i); q[i]->push_front(p); m[i].push_front(r); ++fronts; break; }
				case 2:
				{
					typename O::P p = q[i]->try_pop(); N* r = O::get(p); c.log("pop from queue %d", i);
					c.check((r != nullptr) == !m[i].empty(), "queue %d gives %s with %zu nodes inside", i, r ? "a node" : "nothing", m[i].size());
					if (r) { c.check(r == m[i].front(), "queue %d gives node %d, the first one is %d", i, r->id, m[i].front()->id); m[i].pop_front(); ++popped; give(p); }
					break;
				}
				case 3:
				{
					if (m[i].empty()) break; size_t k = c.draw(m[i].size()); N* r = m[i][k]; c.log("erase node %d, number %zu of %zu, from queue %d", r->id, k, m[i].size(), i); if (k && k + 1 < m[i].size()) ++middle;
					typename O::P p(r); q[i]->erase(p); m[i].erase(m[i].begin() + k); ++erased; give(p); break;
				}
				}
				look();
			}
			if constexpr (!std::is_same_v<N, Raw>)
			{
				for (int i = 0; i < nq; ++i) for (N* r : m[i]) c.check(r->refs >= 1, "a node inside a queue is not referenced");
				// nodes left inside are released by the queue
				if (c.draw(2)) for (int i = 0; i < nq; ++i) while (q[i]->try_pop()) ;
			}
			else for (int i = 0; i < nq; ++i) { std::deque<N*> rest; while (N* r = q[i]->try_pop()) { rest.push_back(r); if (rest.size() > m[i].size()) break; } c.check(rest == m[i], "queue %d does not give back its remaining %zu nodes in order", i, m[i].size()); for (N* r : rest) delete r; }
			for (auto& p : spare) O::drop(p);
		}
		if (popped >= 2 && erased) c.nontrivial();
		c.label("nodes popped", popped); c.label("nodes erased", erased); if (middle) c.label("erased in the middle", middle); if (moved) c.label("nodes used again", moved); if (fronts) c.label("pushed at the front", fronts);
		bal.verify(c, "after the queues are destroyed");
	}
	void run_link(Case& c) { if (c.draw(2)) link<Node>(c); else link<Raw>(c); }

	// ---------------------------------------------------------------- counted pointer
	struct Obj : Counted { explicit Obj(int i) : Counted(i) {} int refs = 0; void lock() { ++refs; } void unlock() { if (--refs == 0) delete this; } };
	void run_ptr(Case& c)
	{
		using P = counted_ptr<Obj>; Balance bal; int ops = 0, deaths = 0;
		{
			int ns = (int)c.range(2, 6); std::vector<std::unique_ptr<P>> s(ns); std::vector<int> m(ns, -1); std::vector<Obj*> raw; int next = 0;
			for (auto& p : s) p = std::make_unique<P>();
			auto look = [&](const char* what)
			{
				for (int i = 0; i < ns; ++i)
				{
					c.check((bool)*s[i] == (m[i] >= 0), "%s: handle %d is %s, expected %s", what, i, *s[i] ? "set" : "empty", m[i] >= 0 ? "set" : "empty");
					if (m[i] < 0) { c.check(s[i]->get() == nullptr, "%s: an empty handle gives an object", what); continue; }
					(*s[i])->ok(); int refs = 0; for (int x : m) refs += x == m[i];
					c.check(s[i]->get()->id == m[i], "%s: handle %d refers to object %d, expected %d", what, i, s[i]->get()->id, m[i]);
					c.check(s[i]->get()->refs == refs, "%s: object %d has count %d, %d handles refer to it", what, m[i], s[i]->get()->refs, refs);
				}
				std::set<int> alive(m.begin(), m.end()); alive.erase(-1);
				c.check(Counted::live - bal.counted == (int64_t)alive.size(), "%s: %lld objects exist, %zu are referred to", what, (long long)(Counted::live - bal.counted), alive.size());
			};
			int n = (int)c.size(2, 60);
			while (n-- > 0)
			{
				int i = (int)c.draw(ns), j = (int)c.draw(ns); ++ops; const char* what = "";
				switch (c.draw(10))
				{
				case 0: what = "from a raw pointer"; *s[i] = P(new Obj(next)); m[i] = next++; break;
				case 1: what = "copy assignment"; *s[i] = *s[j]; m[i] = m[j]; break;
				case 2: what = "move assignment"; *s[i] = std::move(*s[j]); if (i != j) { m[i] = m[j]; m[j] = -1; } break;
				case 3: what = "reset"; s[i]->reset(); m[i] = -1; break;
				case 4: what = "swap"; if (m[i] != m[j]) ++deaths; s[i]->swap(*s[j]); std::swap(m[i], m[j]); break;
				case 5: what = "copy construction"; { auto p = std::make_unique<P>(*s[j]); s[i] = std::move(p); m[i] = m[j]; } break;
				case 6: what = "move construction"; if (i != j) { auto p = std::make_unique<P>(std::move(*s[j])); s[i] = std::move(p); m[i] = m[j]; m[j] = -1; } break;
				case 7: what = "from the raw pointer of another"; if (m[j] >= 0) { *s[i] = P(s[j]->get()); m[i] = m[j]; } break;
				case 8: what = "comparison"; c.check((*s[i] == *s[j]) == (m[i] == m[j]), "handles %d and %d compare %d", i, j, *s[i] == *s[j]); break;
				case 9: what = "assignment of nothing"; *s[i] = nullptr; m[i] = -1; break;
				}
				c.log("%s, handles %d and %d", what, i, j); look(what);
			}
		}
		if (ops >= 5) c.nontrivial(); c.label("operations", ops);
		bal.verify(c, "after all handles are gone");
	}
}
VP_CHECK({ "ring", "a ring queue of one of 9 element/option types and 4 index types, capacities 0-12, 250-254 (uint8_t) and 65530-65534 (uint16_t), bursts of pushes and pops, moves of the queue, throwing assignments; non-trivial = at least 2 values popped and the queue was full, wrapped or emptied again",
	run_ring, 150000, 4000000, true, 3000, warm });
VP_CHECK({ "link", "1-3 intrusive queues of plain or counted nodes: push at both ends, pop, erase anywhere, nodes used again in other queues; non-trivial = at least 2 pops and one erase",
	run_link, 200000, 4000000, true, 3000, warm });
VP_CHECK({ "handles", "2-6 counted handles: construction, copy, move, swap, reset, comparison; non-trivial = at least 5 operations",
	run_ptr, 200000, 4000000, true, 3000, warm });
