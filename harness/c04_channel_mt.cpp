// C04: one channel used by several threads (schedulers and plain threads), under generated schedules.
#include "dx.hpp"
using namespace librf;
using namespace dx;

namespace
{
	struct Op { int wb = 0, we = 0, rb = 0, re = 0, rcount = 0, consumer = -1, rpos = 0; };
	struct World
	{
		Case* c; int clock = 0; std::vector<Op> ops; int unfinished = 0; std::vector<int> consumer_pos;
		int tick() { dct::Atomic a; return ++clock; }
		void finish() { dct::Atomic a; --unfinished; }
	};

	template<class T> struct P;
	template<> struct P<PayloadPtr> { static PayloadPtr make(int v) { return std::make_unique<Payload>(v); } static int get(const PayloadPtr& p) { if (!p) vp::current->fail("an empty value was delivered"); return p->get(); } static const char* name() { return "unique_ptr"; } };
	template<> struct P<int> { static int make(int v) { return v; } static int get(int v) { return v; } static const char* name() { return "int"; } };
	template<> struct P<std::string> { static std::string make(int v) { return "value-long-enough-for-the-heap-" + std::to_string(v); } static int get(const std::string& s) { if (s.size() < 31) vp::current->fail("a string value was damaged"); return atoi(s.c_str() + 31); } static const char* name() { return "string"; } };

	void got(World& w, int id, int rb, int re, int consumer)
	{
		dct::Atomic at;
		Case& c = *w.c;
		c.check(id >= 0 && id < (int)w.ops.size(), "a reader received the value %d that nobody wrote", id);
		Op& o = w.ops[id];
		c.check(++o.rcount == 1, "value %d was delivered %d times", id, o.rcount);
		c.check(o.wb != 0, "value %d was delivered before its write began", id);
		o.rb = rb; o.re = re; o.consumer = consumer; o.rpos = w.consumer_pos[consumer]++;
	}

	template<class T, class Ch>
	future_t<> producer(Ch ch, World& w, int from, int n, int yields)
	{
		for (int i = 0; i < n; ++i)
		{
			int id = from + i;
			w.ops[id].wb = w.tick();
			if (yields & 2) co_await(ch << P<T>::make(id)); else co_await ch.write(P<T>::make(id));
			w.ops[id].we = w.tick();
			if (yields & 1) co_await yield();
		}
		w.finish();
	}
	template<class T, class Ch>
	future_t<> consumer(Ch ch, World& w, int n, int who, int yields)
	{
		for (int i = 0; i < n; ++i)
		{
			int rb = w.tick();
			T v = co_await ch.read();
			int re = w.tick();
			got(w, P<T>::get(v), rb, re, who);
			if (yields & 1) co_await yield();
		}
		w.finish();
	}

	template<class T, bool Opt, bool MT>
	void run(Case& c)
	{
		using Ch = channel_t<T, Opt, MT>;
		vclock::reset();
		size_t cap = c.draw(5); if (cap == 4) cap = c.range(4, 9);
		int nthreads = (int)c.range(2, 3);
		int np = (int)c.range(1, 3), nc = (int)c.range(1, 3);
		struct A { int thread; bool prod; int from, n, yields; bool plain; int who; };
		std::vector<A> actors; int total = 0;
		bool use_plain = c.chance(1, 3);
		int nplain = 0;
		for (int i = 0; i < np; ++i) { A a{}; a.prod = true; a.from = total; a.n = (int)c.size(1, 6); a.yields = (int)c.draw(4); a.plain = use_plain && c.chance(1, 2); a.thread = (int)c.draw(nthreads); total += a.n; actors.push_back(a); }
		int leftover = (int)c.draw(std::min<size_t>(cap, total) + 1); if (!c.chance(1, 2)) leftover = 0;
		int toread = total - leftover, drops = 0;
		if (use_plain && (cap > 0 || std::none_of(actors.begin(), actors.end(), [](const A& a) { return a.plain; })) && c.chance(1, 2))
		{	// a plain thread that reads drops the value
			A a{}; a.prod = false; a.plain = true; a.n = drops = (int)c.draw(toread + 1); toread -= drops; a.yields = (int)c.draw(2); actors.push_back(a);
		}
		for (int i = 0; i < nc; ++i)
		{
			A a{}; a.prod = false; a.n = i == nc - 1 ? toread : (int)c.draw(toread + 1); toread -= a.n; a.yields = (int)c.draw(2); a.thread = (int)c.draw(nthreads); a.who = i; actors.push_back(a);
		}
		c.log("channel<%s%s> capacity %zu, %d scheduler threads", P<T>::name(), MT ? ",mt" : "", cap, nthreads);
		for (auto& a : actors) { if (a.plain) ++nplain; c.log("%s %s: %d values (from %d) on %s %d", a.plain ? "plain" : "coroutine", a.prod ? "producer" : "consumer", a.n, a.from, a.plain ? "own thread" : "thread", a.thread); }
		Heap heap;
		{
			World w; w.c = &c; w.ops.resize(total); w.consumer_pos.resize(nc); w.unfinished = (int)actors.size();
			Ch ch(cap);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nthreads; ++t)
				bodies.push_back(scheduler_thread([&, t](scheduler_t& s)
				{
					for (auto& a : actors) if (!a.plain && a.thread == t)
					{
						if (a.prod) s + producer<T>(ch, w, a.from, a.n, a.yields);
						else s + consumer<T>(ch, w, a.n, a.who, a.yields);
					}
				}));
			for (auto& a : actors) if (a.plain)
				bodies.push_back([&]
				{
					if (!a.prod) { for (int i = 0; i < a.n; ++i) { (void)ch.read(); if (a.yields) dct::yield(); } w.finish(); return; }
					for (int i = 0; i < a.n; ++i)
					{
						int id = a.from + i; w.ops[id].wb = w.tick();
						if (a.yields & 1) (void)(ch << P<T>::make(id)); else (void)ch.write(P<T>::make(id));
						w.ops[id].we = w.tick();
					}
					w.finish();
				});
			dct::run(c, std::move(bodies));
			c.check(w.unfinished == 0, "%d of the producers/consumers stay blocked for ever although every value can be delivered (lost wake-up)", w.unfinished);
			int delivered = 0; for (auto& o : w.ops) delivered += o.rcount;
			c.check(delivered == total - leftover - drops, "%d values were delivered instead of %d", delivered, total - leftover - drops);
			int missing = 0;		// passed by, so a plain reader must have dropped it
			for (auto& x : w.ops) if (!x.rcount) for (auto& y : w.ops) if (y.rcount && x.we < y.wb) { ++missing; break; }
			c.check(missing <= drops, "%d values were passed by although only %d were dropped", missing, drops);
			// FIFO: no read of a later value may end before the read of an earlier one begins
			for (int i = 0; i < total; ++i) for (int j = 0; j < total; ++j)
			{
				Op &a = w.ops[i], &b = w.ops[j];
				if (i == j || a.we >= b.wb) continue;			// a written strictly before b
				if (!b.rcount) continue;
				if (!a.rcount) continue;
				c.check(b.re >= a.rb, "value %d was written before value %d but was received after it", i, j);
				if (a.consumer == b.consumer) c.check(a.rpos < b.rpos, "the same reader received value %d after value %d although it was written before", i, j);
			}
			if (nthreads >= 2 && dct::switches() >= 4) c.nontrivial();
			if (nplain) c.label("plain writer or reader thread"); if (drops) c.label("values dropped by a plain reader", drops);
			if (cap == 0) c.label("capacity 0");
			if (leftover) c.label("values left inside");
		}
		heap.verify(c);
	}

	// a channel used as a semaphore: never more than 'tokens' holders
	template<class Ch>
	future_t<> holder(Ch ch, World& w, int rounds, int& inside, int tokens, Guarded* g, int yields)
	{
		for (int i = 0; i < rounds; ++i)
		{
			co_await ch.read();
			{ dct::Atomic at; ++inside; }
			w.c->check(inside <= tokens, "%d coroutines hold one of %d tokens", inside, tokens);
			if (tokens == 1) g->v = g->v + 1;
			for (int y = 0; y < yields; ++y) co_await yield();
			{ dct::Atomic at; --inside; }
			co_await ch.write(true);
		}
		w.finish();
	}
	void sema(Case& c)
	{
		vclock::reset();
		int tokens = (int)c.range(1, 2), nthreads = (int)c.range(2, 3), n = (int)c.range(2, 5);
		struct H { int t, r, y; }; std::vector<H> hs;
		for (int i = 0; i < n; ++i) hs.push_back({ (int)c.draw(nthreads), (int)c.range(1, 4), (int)c.draw(3) });
		int cap = tokens + (int)c.draw(2);
		c.log("semaphore of %d tokens (capacity %d), %d holders on %d threads", tokens, cap, n, nthreads);
		for (auto& h : hs) c.log("holder on thread %d: %d rounds, %d yields inside", h.t, h.r, h.y);
		Heap heap;
		{
			World w; w.c = &c; w.unfinished = n; int inside = 0; Guarded g; int total = 0; for (auto& h : hs) total += h.r;
			semaphore_t ch(cap);
			for (int i = 0; i < tokens; ++i) (void)(ch << true);
			std::vector<std::function<void()>> bodies;
			for (int t = 0; t < nthreads; ++t)
				bodies.push_back(scheduler_thread([&, t](scheduler_t& s) { for (auto& h : hs) if (h.t == t) s + holder(ch, w, h.r, inside, tokens, &g, h.y); }));
			dct::run(c, std::move(bodies));
			c.check(w.unfinished == 0, "%d holders stay blocked although a token is free", w.unfinished);
			if (tokens == 1) { dct::Atomic at; c.check(g.v == total, "protected counter is %d instead of %d", g.v, total); }
			if (dct::switches() >= 4) c.nontrivial();
			c.label("semaphore");
		}
		heap.verify(c);
	}

	void any(Case& c)
	{
		switch (c.draw(7))
		{
		case 0: run<PayloadPtr, true, false>(c); break;
		case 1: run<PayloadPtr, true, true>(c); break;
		case 2: run<int, false, false>(c); break;
		case 3: run<std::string, true, false>(c); break;
		case 4: run<int, true, true>(c); break;
		case 5: run<std::string, false, true>(c); break;
		case 6: sema(c); break;
		}
	}
	void warm() { Case c; (void)c; }
}

VP_CHECK({ "channel-mt", "a producer/consumer or semaphore program over 2-3 scheduler threads and plain writer and reader threads on one channel, together with one generated schedule; non-trivial = at least 4 thread switches happened",
	any, 200000, 2000000, true, 6000, nullptr });
