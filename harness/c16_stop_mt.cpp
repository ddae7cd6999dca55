// C16: concurrent use of one stop state.
#include "dx.hpp"
#include <deque>
using namespace librf;
using namespace dx;

namespace
{
	struct World;
	struct Fn;
	using CB = stop_callback<Fn>;
	struct Slot
	{
		std::atomic<CB*> cb{ nullptr }; int reg_b = -1, reg_e = -1, des_b = -1, des_e = -1, calls = 0, exec_thread = -1, call_at = -1; bool executing = false, claimed = false, made = false, at_once = false; int action = 0, len = 0;
		bool self = false;
	};
	struct World
	{
		Case* c; int clock = 0; std::deque<Slot> slots; int winners = 0, requests = 0, win_b = -1, win_e = -1, invoked = 0, waited = 0;
		int tick() { dct::Atomic a; return ++clock; }
	};
	void destroy(World& w, int k, bool self);
	struct Fn
	{
		World* w; int k; PayloadPtr p;
		void operator()()
		{
			World* wp = w; int id = k;
			{
				dct::Atomic a; Slot& s = wp->slots[id];
				if (s.des_e >= 0) wp->c->fail("callback %d is invoked after its destructor returned", id);
				if (++s.calls > 1) wp->c->fail("callback %d is invoked twice", id);
				s.executing = true; s.exec_thread = dct::self(); s.call_at = ++wp->clock; ++wp->invoked;
			}
			if (p->get() != 100 + id) wp->c->fail("callback %d sees a wrong value", id);
			p->a = 200 + id; p->b = ~p->a;
			for (int i = 0; i < wp->slots[id].len; ++i) dct::point();
			if (p->get() != 200 + id) wp->c->fail("callback %d is destroyed while it executes", id);
			int action = wp->slots[id].action;
			{ dct::Atomic a; wp->slots[id].executing = false; }
			if (action == 1) { bool mine; Slot& s = wp->slots[id]; CB* have = s.cb.load(std::memory_order_acquire); { dct::Atomic a; mine = have && !s.claimed; if (mine) { s.claimed = true; s.self = true; } } if (mine) destroy(*wp, id, true); }
		}
	};
	void destroy(World& w, int k, bool self)
	{
		Slot& s = w.slots[k]; CB* cb = s.cb.load(std::memory_order_acquire);
		{ dct::Atomic a; s.des_b = ++w.clock; if (s.executing && s.exec_thread != dct::self()) ++w.waited; }
		delete cb;
		{ dct::Atomic a; if (s.executing && !self) w.c->fail("the destructor of callback %d returned while another thread executes it", k); s.des_e = ++w.clock; s.cb = nullptr; }
	}
	struct Op { int kind, arg, len; };

	void run(Case& c)
	{
		vclock::reset();
		int nt = (int)c.range(2, 3), nslots = (int)c.range(1, 4);
		std::vector<std::vector<Op>> prog(nt); std::vector<std::array<int, 2>> cfg;
		for (int i = 0; i < nslots; ++i) { int t = (int)c.draw(nt); prog[t].push_back({ 0, i, (int)c.draw(2) }); cfg.push_back({ (int)c.draw(3) == 2, (int)c.draw(4) * 3 }); }
		int extra = (int)c.range(1, 8);
		for (int i = 0; i < extra; ++i)
		{
			int t = (int)c.draw(nt); Op o{ 1 + (int)c.weighted({ 4, 4, 1, 1, 1 }), (int)c.draw(nslots), 0 };
			prog[t].insert(prog[t].begin() + c.draw(prog[t].size() + 1), o);
		}
		static const char* names[] = { "register callback", "request stop", "destroy callback", "drop source", "drop token", "query token" };
		for (int t = 0; t < nt; ++t) for (auto& o : prog[t]) c.log("thread %d: %s %d", t, names[o.kind], o.kind == 0 || o.kind == 2 ? o.arg : t);
		for (int i = 0; i < nslots; ++i) c.log("callback %d: %s, %d points long", i, cfg[i][0] ? "destroys itself" : "passive", cfg[i][1]);
		bool prereq = c.chance(1, 2);	// some callbacks are registered before the threads start
		c.log("%s", prereq ? "registrations happen before the threads start" : "registrations race");
		Heap heap;
		{
			World w; w.c = &c; w.slots.resize(nslots);
			for (int i = 0; i < nslots; ++i) { w.slots[i].action = cfg[i][0]; w.slots[i].len = cfg[i][1]; }
			std::vector<stop_source> src; std::vector<stop_token> tok;
			auto reg = [&](int t, int k, bool rv)
			{
				Slot& s = w.slots[k]; { dct::Atomic a; s.reg_b = ++w.clock; s.made = true; }
				auto p = std::make_unique<Payload>(100 + k);
				CB* cb;
				if (rv) { stop_token tk = tok[t]; cb = new CB(std::move(tk), Fn{ &w, k, std::move(p) }); }
				else cb = new CB(tok[t], Fn{ &w, k, std::move(p) });
				{ dct::Atomic a; s.reg_e = ++w.clock; s.at_once = s.calls > 0; }
				s.cb.store(cb, std::memory_order_release);
				// a callback that wanted to destroy itself during registration cannot: the object is not complete
			};
			{
				stop_source s0; for (int t = 0; t < nt; ++t) { src.push_back(s0); tok.push_back(s0.get_token()); }
			}
			if (prereq) for (int t = 0; t < nt; ++t) for (auto& o : prog[t]) if (o.kind == 0) reg(t, o.arg, o.len);
			std::vector<std::function<void()>> bodies; std::vector<char> had_source(nt, 1), had_token(nt, 1);
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				for (auto& o : prog[t]) switch (o.kind)
				{
				case 0: if (!prereq) reg(t, o.arg, o.len); break;
				case 1: { if (!had_source[t]) break; int b = w.tick(); { dct::Atomic a; ++w.requests; }
					bool r = src[t].request_stop();
					if (!src[t].stop_requested()) c.fail("a source does not report the stop it requested");
					if (had_token[t] && !tok[t].stop_requested()) c.fail("a token does not report the stop requested before");
					dct::Atomic a; int e = ++w.clock; if (r) { ++w.winners; w.win_b = b; w.win_e = e; } break; }
				case 2: { bool mine; Slot& s = w.slots[o.arg]; CB* have = s.cb.load(std::memory_order_acquire); { dct::Atomic a; mine = have && !s.claimed; if (mine) s.claimed = true; } if (mine) destroy(w, o.arg, false); break; }
				case 3: if (had_source[t]) { had_source[t] = 0; src[t] = stop_source(nostopstate); } break;
				case 4: { bool needed = false; for (auto& p : prog[t]) needed |= p.kind == 0; if (needed) break; had_token[t] = 0; tok[t] = stop_token(); break; }
				case 5: if (had_token[t]) { bool r = tok[t].stop_requested(); bool p = tok[t].stop_possible(); if (r && !p) c.fail("stop requested but not possible"); if (had_source[t] && !tok[t].stop_possible()) c.fail("stop is not possible although a source exists"); } break;
				}
				// the last users of the state are the threads themselves
				if (t & 1) { src[t] = stop_source(nostopstate); tok[t] = stop_token(); } else { tok[t] = stop_token(); src[t] = stop_source(nostopstate); }
			});
			dct::run(c, std::move(bodies), { .max_points = 60000 });
			c.check(w.winners == (w.requests ? 1 : 0), "%d of %d stop requests returned true", w.winners, w.requests);
			for (int i = 0; i < nslots; ++i)
			{
				Slot& s = w.slots[i]; if (!s.made) continue;
				c.check(s.reg_e >= 0, "registration of callback %d did not end", i);
				if (!w.winners) { c.check(!s.calls, "callback %d was invoked without a request", i); }
				else
				{
					bool before = s.reg_e < w.win_b, after = s.reg_b > w.win_e, gone = s.des_e >= 0 && s.des_e < w.win_b, alive = s.des_b < 0 || s.des_b > w.win_e || s.self;
					if (after) c.check(s.calls == 1 && s.at_once, "callback %d registered after the request was invoked %d times", i, s.calls);
					if (gone) c.check(s.calls == 0, "callback %d destroyed before the request was invoked", i);
					if (before && alive) c.check(s.calls == 1 && s.call_at < w.win_e, "callback %d registered before the request was invoked %d times by it", i, s.calls);
					if (alive && prereq) c.check(s.calls == 1, "callback %d was invoked %d times", i, s.calls);
					if (s.des_b < 0) { bool all_sources = true; (void)all_sources; }
				}
			}
			for (int i = 0; i < nslots; ++i) if (w.slots[i].cb) { w.slots[i].claimed = true; destroy(w, i, false); }
			if (dct::switches() >= 3 && (w.invoked || w.requests)) c.nontrivial();
			if (w.waited) c.label("destructor meets the callback executing in another thread"); if (w.requests > 1) c.label("competing requests"); c.label("callbacks invoked", w.invoked);
		}
		heap.verify(c);
	}

	// the stop source of a task is made on first use, by whichever thread comes first (its pointer is published by a CAS but read plainly: no race check)
	void lazy(Case& c)
	{
		vclock::reset(); int nt = (int)c.range(2, 3);
		std::vector<int> what; for (int t = 0; t < nt; ++t) what.push_back((int)c.draw(3));
		c.log("%d threads ask one task for its stop source", nt); for (int t = 0; t < nt; ++t) c.log("thread %d: %s", t, what[t] == 0 ? "token" : what[t] == 1 ? "request stop" : "callback");
		Heap heap;
		{
			auto task = std::make_unique<task_t>(); std::vector<stop_token> tok(nt); int wins = 0, calls = 0, reqs = 0, cbs = 0;
			std::vector<std::function<void()>> bodies;
			struct Inc { int* n; void operator()() { dct::Atomic a; ++*n; } };
			std::vector<std::unique_ptr<stop_callback<Inc>>> keep(nt);
			for (int t = 0; t < nt; ++t) bodies.push_back([&, t]
			{
				if (what[t] == 1) { bool r = task->request_stop(); dct::Atomic a; ++reqs; wins += r; }
				tok[t] = task->get_stop_token();
				if (what[t] == 2) { keep[t] = std::make_unique<stop_callback<Inc>>(tok[t], Inc{ &calls }); dct::Atomic a; ++cbs; }
			});
			dct::run(c, std::move(bodies), { .races = false, .max_points = 60000 });
			for (int t = 0; t < nt; ++t) c.check(tok[t].stop_possible() && tok[t] == tok[0], "two threads got different stop states of one task");
			c.check(wins == (reqs ? 1 : 0), "%d requests succeeded", wins);
			c.check(tok[0].stop_requested() == (reqs > 0), "the stop request of the task got lost");
			c.check(calls == (reqs ? cbs : 0), "%d callbacks of %d were invoked", calls, cbs);
			if (dct::switches() >= 2) c.nontrivial();
			c.label("stop source made on first use");
		}
		heap.verify(c);
	}
	void any(Case& c) { if (c.draw(8) == 7) lazy(c); else run(c); }
}
VP_CHECK({ "stop-mt", "2-3 threads registering, requesting, destroying and dropping on one stop state, with a generated schedule; non-trivial = at least 3 thread switches and a request was made",
	any, 1600000, 8000000, true, 4096, nullptr });
