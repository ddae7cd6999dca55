// C15: histories over stop sources, tokens and callbacks against a reference model (one thread).
#include "hx.hpp"
using namespace librf;
using namespace hx;

namespace
{
	struct World;
	void invoked(World& w, int cb, const Counted& probe);
	struct Fn { World* w; int cb; Counted probe; void operator()() { invoked(*w, cb, probe); } };
	using CB = stop_callback<Fn>;

	struct MState { int sources = 0; bool requested = false; int callbacks = 0; bool running = false; };
	struct MCb { int st; bool registered = false, destroyed = false; int calls = 0; int action = 0; bool constructing = false, in_call = false; };

	struct World
	{
		Case& c; std::vector<MState> st; std::vector<MCb> mcb;
		std::vector<std::pair<int, stop_source>> src; std::vector<std::pair<int, stop_token>> tok; std::vector<std::pair<int, std::unique_ptr<CB>>> cbs;
		int depth = 0; int pinned = -1; bool reentrant = false, outlived = false, teardown = false; int invoked_n = 0, self_destroyed = 0;
		std::vector<int> graveyard;
		World(Case& c_) : c(c_) {}
		int add_state() { st.push_back({}); return (int)st.size() - 1; }
		void src_inc(int s, int d)
		{
			if (s < 0) return;
			st[s].sources += d;
			if (st[s].sources || teardown) return;
			for (auto& t : tok) outlived |= t.first == s;
			for (auto& k : cbs) outlived |= mcb[k.first].st == s && mcb[k.first].registered;
		}
	};

	void put_src(World& w, int s, stop_source&& v) { w.src.emplace_back(s, std::move(v)); }

	void drop_cb(World& w, size_t k)
	{
		int id = w.cbs[k].first; auto p = std::move(w.cbs[k].second); w.cbs.erase(w.cbs.begin() + k);
		w.mcb[id].destroyed = true;
		p.reset();
	}
	void request(World& w, int which, const char* where)
	{
		Case& c = w.c; if (w.src.empty()) return;
		size_t k = which >= 0 ? (size_t)which : c.draw(w.src.size()); int s = w.src[k].first;
		c.log("%srequest stop through source %zu (state %d)", where, k, s);
		bool want = s >= 0 && !w.st[s].requested;
		std::vector<int> pending; if (want) for (size_t i = 0; i < w.mcb.size(); ++i) if (w.mcb[i].st == s && w.mcb[i].registered && !w.mcb[i].destroyed) pending.push_back((int)i);
		if (want) w.st[s].requested = true;
		bool r;
		{
			// the source used for the request must outlive the request
			if (c.chance(1, 2)) { stop_source pin(w.src[k].second); w.src_inc(s, 1); r = pin.request_stop(); w.src_inc(s, -1); }
			else { int old = w.pinned; stop_source held(std::move(w.src[k].second)); w.src[k].first = -1; r = held.request_stop(); w.pinned = old; w.src_inc(s, -1); }
		}
		c.check(r == want, "request_stop() on state %d returned %d, expected %d", s, (int)r, (int)want);
		for (int i : pending) c.check(w.mcb[i].calls == 1 || (w.mcb[i].destroyed && w.mcb[i].calls == 0), "callback %d registered before the request was invoked %d times", i, w.mcb[i].calls);
	}
	void register_cb(World& w, const char* where)
	{
		Case& c = w.c; if (w.tok.empty()) return;
		size_t k = c.draw(w.tok.size()); int s = w.tok[k].first; bool rv = c.chance(1, 3); int id = (int)w.mcb.size();
		MCb m; m.st = s; m.action = w.depth < 2 && c.chance(1, 2) ? 1 + (int)c.draw(7) : 0; m.constructing = true;
		w.mcb.push_back(m);
		bool can = s >= 0 && !w.st[s].requested && w.st[s].sources > 0, at_once = s >= 0 && w.st[s].requested;
		w.mcb[id].registered = can;
		c.log("%sregister callback %d on state %d (%s token)%s", where, id, s, rv ? "moved" : "copied", m.action ? ", it acts" : "");
		std::unique_ptr<CB> p;
		if (rv)
		{
			stop_token t(std::move(w.tok[k].second)); w.tok[k].first = -1;
			p = std::make_unique<CB>(std::move(t), Fn{ &w, id, Counted(id) });
		}
		else if (c.chance(1, 2)) p = make_stop_callback(w.tok[k].second, Fn{ &w, id, Counted(id) });
		else { stop_token t(w.tok[k].second); p = std::make_unique<CB>(t, Fn{ &w, id, Counted(id) }); }
		w.mcb[id].constructing = false;
		c.check(w.mcb[id].calls == (at_once ? 1 : 0), "callback %d registered %s was invoked %d times at registration", id, at_once ? "after the request" : "without a request", w.mcb[id].calls);
		w.cbs.emplace_back(id, std::move(p));
	}
	void act(World& w, int self, int action)
	{
		Case& c = w.c; ++w.depth; w.reentrant = true;
		switch (action)
		{
		case 1: for (size_t k = 0; k < w.cbs.size(); ++k) if (w.cbs[k].first == self) { c.log("   callback %d destroys itself", self); ++w.self_destroyed; drop_cb(w, k); break; } break;
		case 2: { std::vector<size_t> o; for (size_t k = 0; k < w.cbs.size(); ++k) if (w.cbs[k].first != self) o.push_back(k); if (!o.empty()) { size_t k = c.pick(o); c.log("   callback %d destroys callback %d", self, w.cbs[k].first); drop_cb(w, k); } break; }
		case 3: request(w, -1, "   in callback: "); break;
		case 4: register_cb(w, "   in callback: "); break;
		case 5: if (!w.tok.empty()) { size_t k = c.draw(w.tok.size()); c.log("   callback %d drops a token of state %d", self, w.tok[k].first); w.tok.erase(w.tok.begin() + k); } break;
		case 6: if (!w.src.empty()) { size_t k = c.draw(w.src.size()); c.log("   callback %d drops a source of state %d", self, w.src[k].first); w.src_inc(w.src[k].first, -1); w.src.erase(w.src.begin() + k); } break;
		case 7: for (int guard = 0; guard < 2; ++guard) { std::vector<size_t> o; for (size_t k = 0; k < w.cbs.size(); ++k) o.push_back(k); if (o.empty()) break; size_t k = c.pick(o); c.log("   callback %d destroys callback %d", self, w.cbs[k].first); drop_cb(w, k); } break;
		}
		--w.depth;
	}
	void invoked(World& w, int id, const Counted& probe)
	{
		probe.ok(); w.c.check(probe.id == id, "a callback object is damaged");
		int st; bool destroyed, registered, constructing, requested; int calls, action;
		{ MCb& m = w.mcb[id]; st = m.st; destroyed = m.destroyed; registered = m.registered; constructing = m.constructing; calls = ++m.calls; action = m.action; requested = st >= 0 && w.st[st].requested; m.in_call = true; }
		w.c.note("   callback %d runs", id);
		++w.invoked_n;
		w.c.check(calls == 1, "callback %d is invoked a second time", id);
		w.c.check(requested, "callback %d is invoked although no stop was requested", id);
		w.c.check(!destroyed, "callback %d is invoked after its destruction", id);
		w.c.check(registered || constructing, "callback %d is invoked although it was never registered", id);
		if (action && !(action == 1 && constructing)) act(w, id, action);
		w.mcb[id].in_call = false;
	}

	void verify(World& w)
	{
		Case& c = w.c;
		for (size_t i = 0; i < w.src.size(); ++i)
		{
			int s = w.src[i].first; auto& v = w.src[i].second;
			c.check(v.stop_possible() == (s >= 0), "source %zu: stop_possible() is %d", i, (int)v.stop_possible());
			c.check(v.stop_requested() == (s >= 0 && w.st[s].requested), "source %zu of state %d: stop_requested() is %d", i, s, (int)v.stop_requested());
			size_t j = (i + 1) % w.src.size(); c.check((v == w.src[j].second) == (s == w.src[j].first) && (v != w.src[j].second) == (s != w.src[j].first), "equality of sources %zu and %zu is wrong", i, j);
		}
		for (size_t i = 0; i < w.tok.size(); ++i)
		{
			int s = w.tok[i].first; auto& v = w.tok[i].second;
			bool poss = s >= 0 && (w.st[s].requested || w.st[s].sources > 0);
			c.check(v.stop_possible() == poss, "token %zu of state %d (%d sources): stop_possible() is %d", i, s, s >= 0 ? w.st[s].sources : 0, (int)v.stop_possible());
			c.check(v.stop_requested() == (s >= 0 && w.st[s].requested), "token %zu of state %d: stop_requested() is %d", i, s, (int)v.stop_requested());
			size_t j = (i + 1) % w.tok.size(); c.check((v == w.tok[j].second) == (s == w.tok[j].first) && (v != w.tok[j].second) == (s != w.tok[j].first), "equality of tokens %zu and %zu is wrong", i, j);
		}
	}

	void step(World& w)
	{
		Case& c = w.c;
		switch (c.weighted({ 2, 4, 5, 2, 3, 2, 3, 3, 2, 2, 1 }))
		{
		case 0: { if (w.st.size() >= 4) break; int s = w.add_state(); w.src_inc(s, 1); c.log("new source: state %d", s); put_src(w, s, stop_source()); break; }
		case 1: if (!w.src.empty()) { size_t k = c.draw(w.src.size()); if (w.tok.size() > 12) break; c.log("token of source %zu (state %d)", k, w.src[k].first); w.tok.emplace_back(w.src[k].first, w.src[k].second.get_token()); } break;
		case 2: if (w.cbs.size() < 12) register_cb(w, ""); break;
		case 3: request(w, -1, ""); break;
		case 4: if (!w.cbs.empty()) { size_t k = c.draw(w.cbs.size()); c.log("destroy callback %d", w.cbs[k].first); drop_cb(w, k); } break;
		case 5: if (!w.src.empty()) { size_t k = c.draw(w.src.size()); c.log("drop source %zu (state %d)", k, w.src[k].first); w.src_inc(w.src[k].first, -1); w.src.erase(w.src.begin() + k); } break;
		case 6: if (!w.tok.empty()) { size_t k = c.draw(w.tok.size()); c.log("drop token %zu (state %d)", k, w.tok[k].first); w.tok.erase(w.tok.begin() + k); } break;
		case 7: if (!w.tok.empty())
		{
			size_t k = c.draw(w.tok.size()), j = c.draw(w.tok.size()), op = c.draw(5);
			c.log("token op %zu on %zu and %zu", op, k, j);
			if (op == 0 && w.tok.size() < 12) { auto t = w.tok[k]; w.tok.push_back(t); }
			else if (op == 1) { stop_token t(std::move(w.tok[k].second)); int s = w.tok[k].first; w.tok[k].first = -1; w.tok.emplace_back(s, std::move(t)); }
			else if (op == 2) { w.tok[k].second = w.tok[j].second; w.tok[k].first = w.tok[j].first; }
			else if (op == 3) { int s = w.tok[j].first; w.tok[k].second = std::move(w.tok[j].second); if (k != j) w.tok[j].first = -1; w.tok[k].first = s; }
			else if (op == 4) { w.tok[k].second.swap(w.tok[j].second); std::swap(w.tok[k].first, w.tok[j].first); }
		} break;
		case 8: if (!w.src.empty())
		{
			size_t k = c.draw(w.src.size()), j = c.draw(w.src.size()), op = c.draw(5);
			c.log("source op %zu on %zu and %zu", op, k, j);
			if (op == 0 && w.src.size() < 8) { int s = w.src[k].first; w.src_inc(s, 1); stop_source v(w.src[k].second); put_src(w, s, std::move(v)); }
			else if (op == 1) { stop_source v(std::move(w.src[k].second)); int s = w.src[k].first; w.src[k].first = -1; put_src(w, s, std::move(v)); }
			else if (op == 2) { int o = w.src[k].first, n = w.src[j].first; w.src[k].second = w.src[j].second; w.src_inc(n, 1); w.src_inc(o, -1); w.src[k].first = n; }
			else if (op == 3) { int o = w.src[k].first, n = w.src[j].first; w.src[k].second = std::move(w.src[j].second); if (k != j) { w.src_inc(o, -1); w.src[j].first = -1; w.src[k].first = n; } }
			else if (op == 4) { w.src[k].second.swap(w.src[j].second); std::swap(w.src[k].first, w.src[j].first); }
		} break;
		case 9: if (!w.src.empty()) { size_t k = c.draw(w.src.size()); c.log("make_sure_possible on source %zu", k); if (w.src[k].first < 0) { int s = w.add_state(); w.src_inc(s, 1); w.src[k].first = s; } w.src[k].second.make_sure_possible(); } break;
		case 10: c.log("source without state, empty token"); put_src(w, -1, stop_source(nostopstate)); w.tok.emplace_back(-1, stop_token()); break;
		}
	}
	void run(Case& c)
	{
		Balance bal;
		{
			World w(c); w.st.reserve(4096); w.mcb.reserve(4096);
			int s = w.add_state(); w.src_inc(s, 1); put_src(w, s, stop_source());
			int n = (int)c.size(4, 50);
			for (int i = 0; i < n; ++i) { step(w); verify(w); }
			w.teardown = true;	// end in a generated order
			for (;;)
			{
				std::vector<int> o; if (!w.src.empty()) o.push_back(0); if (!w.tok.empty()) o.push_back(1); if (!w.cbs.empty()) o.push_back(2);
				if (o.empty()) break;
				int k = c.pick(o);
				if (k == 0) { w.src_inc(w.src.back().first, -1); w.src.pop_back(); } else if (k == 1) w.tok.pop_back(); else drop_cb(w, w.cbs.size() - 1);
				verify(w);
			}
			if (w.invoked_n >= 1 || w.outlived) c.nontrivial();
			if (w.outlived) c.label("tokens or callbacks outlive every source"); if (w.reentrant) c.label("callback acts on the stop state"); if (w.self_destroyed) c.label("callback destroys itself");
			c.label("callbacks invoked", w.invoked_n);
		}
		bal.verify(c, "after the last source, token and callback were destroyed");
	}
}
VP_CHECK({ "stop-state", "history of operations on stop sources, tokens and callbacks with callbacks acting on the state; non-trivial = a callback was invoked or tokens/callbacks outlived every source",
	run, 2500000, 30000000, true, 2048, nullptr });
