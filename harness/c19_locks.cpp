// C19: the spin lock and batch locks over run-time collections under controlled threads.
#include "dx.hpp"
#include <deque>
#include <array>
using namespace librf;
using namespace dx;

namespace
{
	struct Refused {};
	struct World;
	// a lockable made of a spin lock; attempts can be made to refuse or to throw
	struct Lock
	{
		spinlock l; World* w = nullptr; int k = 0;
		void lock(); bool try_lock(); void unlock();
	};
	struct Info { int holder = -1, busy = 0, version = 0; std::unique_ptr<Guarded> data; int expect = 0; int entered = 0; };
	struct World
	{
		Case* c; std::deque<Info> in; std::vector<std::vector<int>> plan; std::vector<size_t> at; int thrown = 0, refused = 0, contended = 0, sections = 0, batches = 0, failed_batches = 0, tries = 0, tries_failed = 0;
		// what happens to the next attempt of this thread: 0 normal, 1 refuse (try only), 2 throw
		int next() { int t = dct::self(); if (t < 0 || at[t] >= plan[t].size()) return 0; return plan[t][at[t]++]; }
		void got(int k) { dct::Atomic a; Info& i = in[k]; if (i.holder >= 0) c->fail("lock %d is acquired by thread %d while thread %d holds it", k, dct::self(), i.holder); i.holder = dct::self(); ++i.version; }
		void enter(int k) { Info& i = in[k]; int v = i.data->v; if (v != i.expect) c->fail("the data under lock %d is %d, expected %d", k, v, i.expect); i.data->v = v + 1; i.expect = v + 1; ++i.entered; }
	};
	void Lock::lock()
	{
		{ dct::Atomic a; Info& i = w->in[k]; if (i.holder == dct::self()) w->c->fail("thread %d locks lock %d, which it holds already", dct::self(), k); if (i.holder >= 0) ++w->contended; ++i.busy; ++i.version; if (w->next() == 2) { ++w->thrown; --i.busy; throw Refused{}; } }
		l.lock(); w->got(k);
	}
	bool Lock::try_lock()
	{
		int v, b;
		{ dct::Atomic a; Info& i = w->in[k]; ++w->tries; if (i.holder == dct::self()) w->c->fail("thread %d tries lock %d, which it holds already", dct::self(), k); int n = w->next(); if (n == 2) { ++w->thrown; throw Refused{}; } if (n == 1) { ++w->refused; return false; } b = i.busy++; v = ++i.version; }
		bool r = l.try_lock();
		if (r) w->got(k);
		else { dct::Atomic a; Info& i = w->in[k]; ++w->tries_failed; if (b == 0 && i.version == v) w->c->fail("try_lock of lock %d fails although nobody holds it or tries to", k); --i.busy; }
		return r;
	}
	void Lock::unlock()
	{
		{ dct::Atomic a; Info& i = w->in[k]; if (i.holder != dct::self()) w->c->fail("thread %d releases lock %d, which %s", dct::self(), k, i.holder < 0 ? "nobody holds" : "another thread holds"); i.holder = -1; }
		l.unlock();
		dct::Atomic a; --w->in[k].busy; ++w->in[k].version;
	}

	struct Op { int kind; std::vector<int> set; int len; };		// 0 lock, 1 try_lock, 2 batch of references, 3 batch over the shared collection, 4 batch adopting held locks, 5 std::scoped_lock of two
	const char* kname[] = { "lock", "try_lock", "batch lock", "batch lock of the whole collection", "adopting batch lock", "scoped_lock of two" };

	void section(World& w, const std::vector<int>& set, int len)
	{
		for (int k : set) w.enter(k);
		for (int i = 0; i < len; ++i) dct::point();
		for (int k : set) w.enter(k);
		dct::Atomic a; ++w.sections;
	}
	template<class Cont> void threads(Case& c, World& w, Cont& locks, const std::vector<std::vector<Op>>& prog)
	{
		int nl = (int)locks.size(); std::vector<int> all; for (int i = 0; i < nl; ++i) all.push_back(i);
		std::vector<std::function<void()>> bodies; using Ref = std::reference_wrapper<Lock>;
		for (size_t t = 0; t < prog.size(); ++t) bodies.push_back([&, t]
		{
			for (auto& o : prog[t])
			{
				auto none = [&] { dct::Atomic a; for (int k = 0; k < nl; ++k) if (w.in[k].holder == (int)t) c.fail("thread %zu still holds lock %d after %s ended%s", t, k, kname[o.kind], ""); };
				try
				{
					switch (o.kind)
					{
					case 0: locks[o.set[0]].lock(); section(w, { o.set[0] }, o.len); locks[o.set[0]].unlock(); break;
					case 1: if (locks[o.set[0]].try_lock()) { section(w, { o.set[0] }, o.len); locks[o.set[0]].unlock(); } break;
					case 2: case 4:
					{
						std::vector<Ref> refs; for (int k : o.set) refs.push_back(std::ref(locks[k]));
						if (o.kind == 4) { std::sort(refs.begin(), refs.end(), [](Ref a, Ref b) { return a.get().k < b.get().k; }); size_t n = 0; try { for (; n < refs.size(); ++n) refs[n].get().lock(); } catch (Refused&) { while (n--) refs[n].get().unlock(); throw; } }
						auto work = [&](auto& guard)
						{
							{ dct::Atomic a; for (int k : o.set) if (w.in[k].holder != (int)t) c.fail("the batch lock of thread %zu does not hold lock %d", t, k); ++w.batches; }
							section(w, o.set, o.len);
							if (o.len % 3 == 1) { guard.unlock(); none(); guard.unlock(); }
							else if (o.len % 3 == 2) { auto g2(std::move(guard)); section(w, o.set, 0); }
						};
						if (o.kind == 2) { batch_lock_t<Ref> guard(refs); work(guard); } else { batch_lock_t<Ref> guard(std::adopt_lock, refs); work(guard); }
						break;
					}
					case 3: { batch_lock_t<Lock, Cont> guard(locks); { dct::Atomic a; for (int k : all) if (w.in[k].holder != (int)t) c.fail("the batch lock of thread %zu does not hold lock %d", t, k); ++w.batches; } section(w, all, o.len); break; }
					case 5: { scoped_lock<Lock, Lock> guard(locks[o.set[0]], locks[o.set[1]]); section(w, { o.set[0], o.set[1] }, o.len); break; }
					}
				}
				catch (Refused&) { dct::Atomic a; ++w.failed_batches; }
				none();
			}
		});
		dct::run(c, std::move(bodies), { .max_points = 400000 });
		int held = 0; for (int k = 0; k < nl; ++k) { c.check(w.in[k].holder < 0, "lock %d is held at the end", k); if (!locks[k].l.try_lock()) ++held; else locks[k].l.unlock(); c.check(w.in[k].data->v == w.in[k].entered, "the data under lock %d was changed %d times, expected %d", k, w.in[k].data->v, w.in[k].entered); }
		c.check(held == 0, "%d lock(s) cannot be acquired although nobody holds them", held);
	}
	void run(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(2, 4), nl = (int)c.range(1, 5); bool bad = c.chance(1, 3); int cont = (int)c.draw(3);
		std::vector<std::vector<Op>> prog(nt); std::vector<std::vector<int>> plan(nt);
		for (int t = 0; t < nt; ++t)
		{
			int n = (int)c.range(1, 3);
			while (n-- > 0)
			{
				Op o; o.kind = c.weighted({ 3, 2, 6, 2, 1, 1 }); o.len = (int)c.draw(6); int k = o.kind < 2 ? 1 : o.kind == 5 ? 2 : (int)c.range(1, nl); if (o.kind == 5 && nl < 2) { o.kind = 0; k = 1; } if (o.kind == 2 && c.chance(1, 12)) k = 0;
				std::vector<int> all; for (int i = 0; i < nl; ++i) all.push_back(i);
				while (k-- > 0) { size_t j = c.draw(all.size()); o.set.push_back(all[j]); all.erase(all.begin() + j); }
				prog[t].push_back(o);
			}
			if (bad) { int m = (int)c.draw(8); while (m-- > 0) plan[t].push_back(c.weighted({ 4, 3, 1 })); }
		}
		c.log("%d locks in %s", nl, cont == 0 ? "a vector" : cont == 1 ? "a deque" : "an array");
		for (int t = 0; t < nt; ++t) { for (auto& o : prog[t]) { std::string s; if (o.kind != 3) for (int k : o.set) s += " " + std::to_string(k); c.log("thread %d: %s%s, %d points long", t, kname[o.kind], s.c_str(), o.len); } if (plan[t].size()) { std::string s; for (int x : plan[t]) s += x == 0 ? " ok" : x == 1 ? " refuse" : " throw"; c.log("thread %d: its attempts:%s", t, s.c_str()); } }
		Heap heap;
		{
			World w; w.c = &c; w.plan = plan; w.at.resize(nt, 0); for (int k = 0; k < nl; ++k) { w.in.emplace_back(); w.in.back().data = std::make_unique<Guarded>(); }
			auto init = [&](auto& l) { for (int k = 0; k < nl; ++k) { l[k].w = &w; l[k].k = k; } };
			switch (cont)
			{
			case 0: { std::vector<Lock> l(nl); init(l); threads(c, w, l, prog); break; }
			case 1: { std::deque<Lock> l(nl); init(l); threads(c, w, l, prog); break; }
			default: { auto with = [&]<size_t N>() { std::array<Lock, N> l; init(l); threads(c, w, l, prog); }; switch (nl) { case 1: with.template operator()<1>(); break; case 2: with.template operator()<2>(); break; case 3: with.template operator()<3>(); break; case 4: with.template operator()<4>(); break; default: with.template operator()<5>(); } break; }
			}
			if (dct::switches() >= 3 && (w.contended || w.tries_failed || w.refused || w.thrown)) c.nontrivial();
			c.label("sections", w.sections); c.label("batches held", w.batches); if (w.contended) c.label("waits for a held lock", w.contended); if (w.failed_batches) c.label("attempts that threw", w.failed_batches); if (w.tries_failed) c.label("tries that failed", w.tries_failed); if (w.refused) c.label("tries refused", w.refused);
		}
		heap.verify(c);
	}
}
VP_CHECK({ "locks", "2-4 threads with 1-3 generated uses of 1-5 spin locks each (lock, try-lock, batch locks over references or the whole collection in any order, adopting, moved and unlocked guards), attempts that refuse or throw, with a generated schedule; non-trivial = at least 3 thread switches and an attempt met a held, refusing or throwing lock",
	run, 1000000, 8000000, true, 4096, nullptr });
