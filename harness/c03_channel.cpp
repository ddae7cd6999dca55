// C03: one channel, histories of reads and writes issued by coroutines and by plain code of one thread.
// Oracle: with W writes and R reads begun, the k-th read to begin gets exactly the value of the k-th
// write to begin; read k has completed iff k <= W; write k has completed iff k <= R + capacity.
#include "hx.hpp"
using namespace librf;
using namespace hx;

namespace
{
	struct World
	{
		size_t cap = 0;
		std::vector<char> wdone, rdone;
		std::vector<int> rgot;
		int next_id = 0;
		std::vector<int> wid;
		int actors_live = 0;
		bool blocked_seen = false, wrapped = false;
		int begin_write(int id) { wid.push_back(id); wdone.push_back(0); return (int)wdone.size() - 1; }
		int begin_read() { rdone.push_back(0); rgot.push_back(-1000); return (int)rdone.size() - 1; }
		bool write_would_block() const { return wdone.size() + 1 > rdone.size() + cap; }
		bool read_would_block() const { return rdone.size() + 1 > wdone.size(); }
	};

	template<class T, class Ch>
	future_t<> child_write(Case& c, Ch ch, World& w, int who)
	{	// begins to write when it is started: its own scheduling step
		int id = w.next_id++; bool blk = w.write_would_block(); int k = w.begin_write(id);
		c.log("actor %d: child write #%d value %d%s", who, k, id, blk ? " blocks" : "");
		if (blk) w.blocked_seen = true;
		co_await ch.write(V<T>::make(id));
		w.wdone[k] = 1;
	}

	template<class T, class Ch>
	future_t<> one_write(Case& c, Ch& ch, World& w, int who)
	{
		size_t style = c.draw(4);
		if (style == 3) { c.log("actor %d: write through a child coroutine", who); co_await child_write<T>(c, ch, w, who); co_return; }
		int id = w.next_id++;
		bool blk = w.write_would_block();
		int k = w.begin_write(id);
		c.log("actor %d: write #%d value %d (%s)%s", who, k, id, style == 0 ? "write" : style == 1 ? "<<" : "<< lvalue", blk ? " blocks" : "");
		if (blk) w.blocked_seen = true;
		if (style == 1) co_await(ch << V<T>::make(id));
		else if (style == 2)
		{
			if constexpr (std::is_copy_constructible_v<T>)
			{
				T lv = V<T>::make(id); co_await(ch << lv);
				c.check(V<T>::id(lv) == id, "writing an lvalue changed it (value %d became %d)", id, V<T>::id(lv));
			}
			else { T lv = V<T>::make(id); co_await(ch << std::move(lv)); }
		}
		else co_await ch.write(V<T>::make(id));
		w.wdone[k] = 1;
	}

	template<class T, class Ch>
	future_t<> one_read(Case& c, Ch& ch, World& w, int who)
	{
		bool blk = w.read_would_block();
		size_t style = c.draw(3);
		if (style == 2)
		{	// the child begins to read when it is started: its own scheduling step
			c.log("actor %d: read through a child coroutine", who);
			auto f = [](Case& c, Ch ch, World& w, int who) -> future_t<T>
			{
				bool blk = w.read_would_block(); int k = w.begin_read();
				c.log("actor %d: child read #%d%s", who, k, blk ? " blocks" : "");
				if (blk) w.blocked_seen = true;
				T v = co_await ch.read();
				w.rgot[k] = V<T>::id(v); w.rdone[k] = 1;
				co_return std::move(v);
			};
			T v = co_await f(c, ch, w, who);
			(void)v;
			co_return;
		}
		int k = w.begin_read();
		c.log("actor %d: read #%d%s", who, k, blk ? " blocks" : "");
		if (blk) w.blocked_seen = true;
		if (style == 1) { T v = co_await ch; w.rgot[k] = V<T>::id(v); }
		else { T v = co_await ch.read(); w.rgot[k] = V<T>::id(v); }
		w.rdone[k] = 1;
	}

	// A channel of its own whose last handle is the awaiter of the operation: the awaiter is made, the
	// handle dropped, and only then is the operation awaited (with a writer that waits, or not).
	template<class T, class Ch>
	future_t<> last_handle(Case& c, int who)
	{
		size_t cap = c.draw(4), n = c.draw(cap + 1);
		bool blocked = n == cap && c.chance(1, 2);
		Ch p(cap), empty(std::adopt_lock);
		c.log("actor %d: last handle: private channel of capacity %zu with %zu values%s", who, cap, n, blocked ? " and a writer waiting" : "");
		c.label("awaiter is the last handle");
		for (size_t i = 0; i < n; ++i) co_await p.write(V<T>::make(500 + (int)i));
		int ended = 0;
		if (blocked)
		{
			go [](Ch p, int id, int& ended) -> future_t<>
			{
				auto a = p.write(V<T>::make(id)); p = Ch(std::adopt_lock);
				co_await a; ++ended;
			}(p, 500 + (int)n, ended);
			co_await yield(); co_await yield();
			c.check(ended == 0, "a write to a full channel did not wait");
		}
		bool rd = n + blocked > 0 && (n == cap || c.chance(1, 2));
		if (rd)
		{
			auto a = p.read(); p = empty;
			if (c.chance(1, 4)) co_await yield();
			auto b = std::move(a);
			T v = co_await b;
			c.check(V<T>::id(v) == 500, "a read through the last handle received value %d, written was 500", V<T>::id(v));
			co_await yield(); co_await yield();
			c.check(ended == (int)blocked, "the writer waiting ended %d times after the read", ended);
		}
		else if (n < cap)
		{
			auto a = p.write(V<T>::make(700)); p = empty;
			if (c.chance(1, 4)) co_await yield();
			auto b = std::move(a);
			co_await b;
		}
	}

	template<class T, class Ch>
	future_t<> actor(Case& c, Ch ch, World& w, int who, int ops, unsigned wbias)
	{
		for (int i = 0; i < ops; ++i)
		{
			size_t k = c.draw(10);
			if (k == 9) { if (c.chance(2, 5)) co_await last_handle<T, Ch>(c, who); else { c.log("actor %d: yield", who); co_await yield(); } }
			else if (k < wbias)
			{
				bool inl = c.chance(1, 2);
				if (inl)
				{
					int id = w.next_id++;
					auto a = ch.write(V<T>::make(id));		// the write begins when it is awaited
					if (c.chance(1, 6)) { c.log("actor %d: yield with a write of %d prepared", who, id); co_await yield(); }
					bool blk = w.write_would_block(); int wk = w.begin_write(id);
					c.log("actor %d: write #%d value %d%s", who, wk, id, blk ? " blocks" : "");
					if (blk) w.blocked_seen = true;
					co_await a;
					w.wdone[wk] = 1;
				}
				else co_await one_write<T>(c, ch, w, who);
			}
			else
			{
				bool inl = c.chance(1, 2);
				if (inl)
				{
					auto a = ch.read();
					if (c.chance(1, 6)) { c.log("actor %d: yield with a read prepared", who); co_await yield(); }
					bool blk = w.read_would_block(); int rk = w.begin_read();
					c.log("actor %d: read #%d%s", who, rk, blk ? " blocks" : "");
					if (blk) w.blocked_seen = true;
					T v = co_await a;
					w.rgot[rk] = V<T>::id(v); w.rdone[rk] = 1;
				}
				else co_await one_read<T>(c, ch, w, who);
			}
		}
		--w.actors_live;
	}

	void verify(Case& c, World& w, const char* when)
	{
		size_t W = w.wdone.size(), R = w.rdone.size();
		for (size_t k = 0; k < R; ++k)
		{
			bool want = k < W;
			c.check(!!w.rdone[k] == want, "%s: read #%zu %s (reads begun %zu, writes begun %zu, capacity %zu)", when, k, want ? "is still blocked although its value was written" : "completed although nothing was written for it", R, W, w.cap);
			if (want) c.check(w.rgot[k] == w.wid[k], "%s: read #%zu received value %d, the value written as number %zu is %d (order, loss or duplication)", when, k, w.rgot[k], k, w.wid[k]);
		}
		for (size_t k = 0; k < W; ++k)
		{
			bool want = k < R + w.cap;
			c.check(!!w.wdone[k] == want, "%s: write #%zu %s (reads begun %zu, writes begun %zu, capacity %zu)", when, k, want ? "is still blocked although there is room" : "completed although the channel is full", R, W, w.cap);
		}
	}

	template<class T, bool Opt, bool MT>
	void run(Case& c)
	{
		using Ch = channel_t<T, Opt, MT>;
		vclock::reset();
		Balance bal;
		{
			World w;
			size_t capk = c.draw(6);
			w.cap = capk == 5 ? c.range(5, 33) : capk;
			c.log("channel<%s%s%s> capacity %zu", V<T>::name(), Opt ? ",optional" : "", MT ? ",mt" : "", w.cap);
			c.label(V<T>::name()); if (w.cap == 0) c.label("capacity 0");
			Ch ch(w.cap);
			c.check(ch.capacity() == w.cap, "capacity() is %zu, constructed with %zu", ch.capacity(), w.cap);
			Ch other = ch;		// shares the channel
			int steps = (int)c.size(3, 40), actors = 0;
			unsigned wbias = (unsigned)c.range(2, 7);
			for (int i = 0; i < steps; ++i)
			{
				switch (c.weighted({ 4, 4, 1, 1, 2 }))
				{
				case 0: { int ops = (int)c.size(1, 12); unsigned b = c.chance(1, 3) ? 9 : c.chance(1, 3) ? 0 : wbias; c.log("start actor %d", actors); ++w.actors_live; go actor<T>(c, c.chance(1, 2) ? ch : other, w, actors++, ops, b); break; }
				case 1: c.log("run one batch"); sch().run_one_batch(); break;
				case 2: if (!w.write_would_block()) { int id = w.next_id++; int k = w.begin_write(id); c.log("plain write #%d value %d", k, id); (void)(ch << V<T>::make(id)); w.wdone[k] = 1; c.label("plain write"); } break;
				case 3: if (!w.read_would_block()) { int k = w.begin_read(); c.log("plain read #%d (value dropped)", k); { (void)ch.read(); } w.rgot[k] = w.wid[k]; w.rdone[k] = 1; c.label("plain read"); } break;
				case 4: c.log("settle"); settle(c); verify(c, w, "after settling"); break;
				}
			}
			settle(c); verify(c, w, "after settling");
			// let everything finish
			for (int guard = 0; w.actors_live > 0; ++guard)
			{
				c.check(guard < 4000, "the actors never finish");
				if (w.rdone.size() > w.wdone.size()) { int id = w.next_id++; int k = w.begin_write(id); (void)(ch << V<T>::make(id)); w.wdone[k] = 1; }
				else { T got{}; bool done = false; int k = w.begin_read();
					go [](Ch ch, World& w, int k, bool& done) -> future_t<> { T v = co_await ch.read(); w.rgot[k] = V<T>::id(v); w.rdone[k] = 1; done = true; }(ch, w, k, done);
					settle(c); if (!done && w.rdone.size() > w.wdone.size()) continue; c.check(done, "a read of a non-empty channel did not complete"); (void)got; }
				settle(c);
			}
			verify(c, w, "at the end");
			if (w.rdone.size() > w.wdone.size())
			{
				while (w.rdone.size() > w.wdone.size()) { int id = w.next_id++; int k = w.begin_write(id); (void)(ch << V<T>::make(id)); w.wdone[k] = 1; }
				settle(c);
			}
			while (w.wdone.size() > w.rdone.size() + w.cap) { int k = w.begin_read(); { (void)ch.read(); } w.rgot[k] = w.wid[k]; w.rdone[k] = 1; }
			settle(c); verify(c, w, "at the end");
			c.check(sch().empty(), "scheduler not empty although every coroutine ended");
			if (w.wdone.size() > w.rdone.size()) c.label("destroyed with values inside");
			if (w.wdone.size() > w.cap + 1 && w.cap > 0) w.wrapped = true;
			if (w.blocked_seen && w.rdone.size() >= 2) c.nontrivial();
			if (w.blocked_seen) c.label("some operation blocked");
			if (w.wrapped) c.label("queue wrapped around");
		}
		bal.verify(c, "after the channel was destroyed");
	}

	void any(Case& c)
	{
		switch (c.draw(9))
		{
		case 0: run<int, false, false>(c); break;
		case 1: run<std::string, true, false>(c); break;
		case 2: run<std::string, true, true>(c); break;
		case 3: run<MoveOnly, true, false>(c); break;
		case 4: run<std::string, false, false>(c); break;
		case 5: run<int, false, true>(c); break;
		case 6: run<std::unique_ptr<int>, true, false>(c); break;
		case 7: run<Pod, true, false>(c); break;
		case 8: run<std::shared_ptr<int>, false, true>(c); break;
		}
	}
}

VP_CHECK({ "channel", "one history of reads/writes by several coroutines, child coroutines and plain code on one channel (9 element/option combinations, capacity 0-33); non-trivial = at least one operation blocked and two reads were begun",
	any, 1000000, 20000000, true, 2048, hx::warm });
