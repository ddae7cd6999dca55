// C11: timer manager histories under virtual time against a reference model.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono;

namespace
{
	struct M
	{
		int64_t due; int seq; bool stopped = false, called = false, cancel_flag = false; int64_t at = 0;
		bool has_handle = false, held = false;
		int action = 0;		// what the handler does
	};
	struct World
	{
		Case& c; std::shared_ptr<timer_manager> mgr; std::vector<M> t;
		std::vector<std::pair<int, timer_handler>> handles;		// timer index, handle ; -1: empty handle
		std::vector<std::pair<int, detail::timer_target_ptr>> held;
		enum Phase { Outside, Updating, Clearing } phase = Outside;
		int64_t upd_now = 0; int depth = 0; int last_due_seq = -1; int64_t last_due = INT64_MIN;
		bool reentrant = false, boundary = false, cleared_inside = false; int fired = 0, cancelled = 0;
		std::vector<char> must_cancel;
		std::vector<int> in_calls;
		World(Case& c_) : c(c_), mgr(std::make_shared<timer_manager>()) {}
		int outstanding() const { int n = 0; for (auto& m : t) n += !m.called; return n; }
	};

	void act(World& w, int self, int action);

	void on_call(World& w, int i, bool cancel, const Counted& probe)
	{
		Case& c = w.c; M& m = w.t[i];
		probe.ok();
		c.note("   handler of timer %d(%s) at %lld", i, cancel ? "cancelled" : "due", (long long)vclock::now_ns());
		c.check(!m.called, "the handler of timer %d is called a second time", i);
		c.check(w.phase != World::Outside, "the handler of timer %d is called outside of update/clear", i);
		m.called = true; m.cancel_flag = cancel; m.at = vclock::now_ns();
		bool should_cancel = m.stopped || w.phase == World::Clearing || w.must_cancel[i];
		c.check(cancel == should_cancel, "the handler of timer %d (due %lld) gets cancel=%d, expected %d", i, (long long)m.due, (int)cancel, (int)should_cancel);
		if (!cancel)
		{
			++w.fired;
			c.check(m.due <= vclock::now_ns(), "timer %d due at %lld fired at %lld, too early", i, (long long)m.due, (long long)vclock::now_ns());
			if (m.due == w.upd_now) w.boundary = true;
			bool order = m.due > w.last_due || (m.due == w.last_due && m.seq > w.last_due_seq);
			c.check(order, "timers fire out of order: timer %d due %lld fires after one due %lld", i, (long long)m.due, (long long)w.last_due);
			w.last_due = m.due; w.last_due_seq = m.seq;
		}
		else ++w.cancelled;
		if (m.action) { w.reentrant = true; act(w, i, m.action); }
	}

	int64_t pick_due(Case& c)
	{	// offsets relative to now in ns, with many ties
		static const int64_t offs[] = { 0, 1, 1000000, 5000000, 5000000, 1000000000ll, 60000000000ll, -1, -1000000, 2, 10000000 };
		size_t k = c.draw(12);
		return k == 11 ? c.range(-50, 200) * 1000 : offs[k];
	}

	void add_timer(World& w, const char* where)
	{
		Case& c = w.c; int i = (int)w.t.size(); M m; m.seq = i;
		int64_t off = pick_due(c); size_t kind = c.draw(6); int action = c.chance(1, 3) ? 1 + (int)c.draw(5) : 0;
		if (w.depth > 2) action = 0;
		m.action = action; m.due = vclock::now_ns() + off; m.has_handle = kind >= 3;
		auto probe = std::make_shared<Counted>(i);
		auto cb = [&w, i, probe](bool cancel) { on_call(w, i, cancel, *probe); };
		probe.reset();
		static const char* kn[] = { "duration(ns)", "time point", "duration(us)", "handle+duration(ms)", "handle+time point", "handle+duration(ns)" };
		if (kind == 2) { off = off / 1000 * 1000; m.due = vclock::now_ns() + off; }
		if (kind == 3) { off = off / 1000000 * 1000000; m.due = vclock::now_ns() + off; }
		w.t.push_back(m); w.must_cancel.push_back(0);
		c.log("%sadd timer %d: %s, due now%+lld%s", where, i, kn[kind], (long long)off, action ? ", handler acts" : "");
		detail::timer_target_ptr p;
		switch (kind)
		{
		case 0: p = w.mgr->add(nanoseconds(off), cb); break;
		case 1: p = w.mgr->add(vclock::base() + nanoseconds(m.due), cb); break;
		case 2: p = w.mgr->add(microseconds(off / 1000), std::move(cb)); break;
		case 3: w.handles.emplace_back(i, w.mgr->add_handler(milliseconds(off / 1000000), std::move(cb))); break;
		case 4: w.handles.emplace_back(i, w.mgr->add_handler(vclock::base() + nanoseconds(m.due), cb)); break;
		case 5: w.handles.emplace_back(i, w.mgr->add_handler(nanoseconds(off), cb)); break;
		}
		if (kind < 3 && c.chance(1, 3)) { w.held.emplace_back(i, std::move(p)); w.t[i].held = true; }
	}

	void stop_by_handle(World& w, const char* where)
	{
		Case& c = w.c; if (w.handles.empty()) return;
		size_t k = c.draw(w.handles.size()); auto& h = w.handles[k];
		c.log("%sstop through handle of timer %d", where, h.first);
		bool want = h.first >= 0 && w.mgr && !w.t[h.first].called && !w.t[h.first].stopped;
		if (want) w.t[h.first].stopped = true;
		int idx = h.first; h.first = -1;
		bool r = h.second.stop();
		c.check(r == want, "stop() through the handle of timer %d returned %d, expected %d", idx, (int)r, (int)want);
		c.check(h.second.expired(), "a stopped handle does not report expired");
	}
	void stop_by_target(World& w, const char* where)
	{
		Case& c = w.c; if (w.held.empty()) return;
		size_t k = c.draw(w.held.size()); auto& h = w.held[k];
		c.log("%sstop timer %d through the manager", where, h.first);
		bool want = !w.t[h.first].called && !w.t[h.first].stopped;
		if (want) w.t[h.first].stopped = true;
		bool r = w.mgr->stop(h.second);
		c.check(r == want, "stop(timer %d) returned %d, expected %d", h.first, (int)r, (int)want);
	}
	void clear(World& w, const char* where)
	{
		Case& c = w.c;
		c.log("%sclear", where);
		std::vector<int> exp; for (int i = 0; i < (int)w.t.size(); ++i) if (!w.t[i].called) { exp.push_back(i); w.must_cancel[i] = 1; }
		auto ph = w.phase; int64_t ld = w.last_due; int ls = w.last_due_seq; w.phase = World::Clearing;
		w.mgr->clear();
		w.phase = ph; w.last_due = ld; w.last_due_seq = ls;
		if (ph != World::Clearing) for (int i : exp) if (!w.t[i].stopped) c.check(w.t[i].called, "clear() did not call the handler of timer %d", i);
	}

	void act(World& w, int self, int action)
	{
		++w.depth;
		switch (action)
		{
		case 1: add_timer(w, "   in handler: "); break;
		case 2: stop_by_handle(w, "   in handler: "); break;
		case 3: stop_by_target(w, "   in handler: "); break;
		case 4: w.c.log("   in handler: time passes"); vclock::advance_ns(3000000); break;
		case 5: if (w.depth == 1) { clear(w, "   in handler: "); w.cleared_inside = true; } break;
		}
		--w.depth;
		(void)self;
	}

	void check_handles(World& w)
	{
		for (auto& h : w.handles)
		{
			bool want = h.first < 0 || w.t[h.first].called;
			w.c.check(h.second.expired() == want, "the handle of timer %d reports expired=%d, expected %d", h.first, (int)h.second.expired(), (int)want);
		}
		if (w.mgr) w.c.check(w.mgr->empty() == (w.outstanding() == 0), "empty() is %d with %d timers outstanding", (int)w.mgr->empty(), w.outstanding());
	}

	void update(World& w)
	{
		Case& c = w.c;
		c.log("update at %lld", (long long)vclock::now_ns());
		w.upd_now = vclock::now_ns(); w.last_due = INT64_MIN; w.last_due_seq = -1;
		size_t n = w.t.size();
		std::vector<char> was(n); for (size_t i = 0; i < n; ++i) was[i] = w.t[i].called;
		w.phase = World::Updating;
		w.mgr->update();
		w.phase = World::Outside;
		for (size_t i = 0; i < n; ++i)
			if (!w.t[i].called)
				c.check(w.t[i].due > w.upd_now, "timer %zu due at %lld has not been reported by the update at %lld", i, (long long)w.t[i].due, (long long)w.upd_now);
		for (size_t i = n; i < w.t.size(); ++i) if (w.t[i].called) c.check(w.must_cancel[i], "a timer added by a handler fired in the same update");
	}

	void run(Case& c)
	{
		vclock::reset();
		Balance bal;
		{
			World w(c);
			int steps = (int)c.size(4, 60);
			for (int k = 0; k < steps; ++k)
			{
				switch (c.weighted({ 6, 5, 4, 2, 2, 1, 1, 1 }))
				{
				case 0: add_timer(w, ""); break;
				case 1: update(w); break;
				case 2: { int64_t d = 0; size_t q = c.draw(6); if (q == 0) d = 1; else if (q == 1) d = 1000000; else if (q == 2) d = 5000000; else if (q == 3) { int64_t best = INT64_MAX; for (auto& m : w.t) if (!m.called && m.due > vclock::now_ns()) best = std::min(best, m.due); d = best == INT64_MAX ? 0 : best - vclock::now_ns(); } else if (q == 4) { int64_t best = INT64_MAX; for (auto& m : w.t) if (!m.called && m.due > vclock::now_ns()) best = std::min(best, m.due); d = best == INT64_MAX ? 0 : best - vclock::now_ns() - 1; } else d = 61000000000ll;
					c.log("time +%lld", (long long)d); vclock::advance_ns(d); break; }
				case 3: stop_by_handle(w, ""); break;
				case 4: stop_by_target(w, ""); break;
				case 5: clear(w, ""); break;
				case 6: if (!w.handles.empty()) { size_t i = c.draw(w.handles.size()); size_t op = c.draw(4);
					if (op == 0) { c.log("copy handle"); auto cp = w.handles[i]; w.handles.push_back(cp); }
					else if (op == 1) { c.log("move handle"); auto mv = std::move(w.handles[i].second); int id = w.handles[i].first; w.handles[i].first = -1; w.handles.emplace_back(id, timer_handler()); w.handles.back().second = std::move(mv); }
					else if (op == 2) { c.log("reset handle"); w.handles[i].second.reset(); w.handles[i].first = -1; }
					else { c.log("assign handle"); size_t j = c.draw(w.handles.size()); auto& a = w.handles[i]; auto& b = w.handles[j]; if (i != j) { a.second = b.second; a.first = b.first; } } } break;
				case 7: if (!w.held.empty()) { size_t i = c.draw(w.held.size()); c.log("drop target %d", w.held[i].first); w.held.erase(w.held.begin() + i); } break;
				}
				check_handles(w);
			}
			bool left = w.outstanding() > 0;
			if (c.chance(1, 2)) { vclock::advance_ns(400000000000ll); update(w); update(w); }
			// destruction cancels what is left
			c.log("destroy the manager");
			for (size_t i = 0; i < w.t.size(); ++i) { if (!w.t[i].called) w.must_cancel[i] = 1; w.t[i].action = 0; }
			w.phase = World::Clearing; { auto m = std::move(w.mgr); m.reset(); } w.phase = World::Outside;
			for (size_t i = 0; i < w.t.size(); ++i) c.check(w.t[i].called, "timer %zu was never reported", i);
			for (auto& h : w.handles) { c.check(h.second.expired() , "a handle of a destroyed manager is not expired"); c.check(!h.second.stop(), "stop() on a handle of a destroyed manager returned true"); }
			if (w.fired + w.cancelled >= 2 && (w.reentrant || w.boundary || w.cancelled)) c.nontrivial();
			if (w.reentrant) c.label("handler re-enters the manager"); if (w.boundary) c.label("update exactly at a due time"); if (left) c.label("destroyed with timers outstanding");
			if (w.cleared_inside) c.label("cleared from inside a handler");
			c.label("timers fired", w.fired); c.label("timers cancelled", w.cancelled);
		}
		bal.verify(c, "after the manager was destroyed");
	}
}
VP_CHECK({ "timer", "history of add/add_handler/stop/clear/update/time steps and handle operations, also from inside handlers; non-trivial = at least two handlers were called and one of: re-entrance, update exactly at a due time, a cancellation",
	run, 1500000, 20000000, true, 2048, nullptr });
