// C05: coroutine mutexes used by commanded coroutines and plain owners of one thread, against a model of
// owner, recursion count and waiting line, including when each command is executed in which pass.
#include "hx.hpp"
using namespace librf;
using namespace hx;
using namespace std::chrono_literals;

namespace
{
	typedef batch_unlock_t<mutex_t> guard_t;
	enum Cmd { LOCK, LOCK_OP, MANUAL, TRY, TIMED_FOR, TIMED_UNTIL, UNLOCK, UNLOCK_ADDR, G_UNLOCK, G_DROP, G_ASSIGN, G_MOVE, ADOPT, NEST, NEST_THROW, NEST_TIMED, YIELD, END };
	const char* cmd_name[] = { "lock", "co_await mutex", "lock manually", "try_lock", "try_lock_for", "try_lock_until", "unlock (awaited)", "unlock (address)", "guard.unlock", "guard destroyed", "guard move-assigned", "guard moved", "guard adopts", "child locks", "child locks and throws", "child tries for a time", "yield", "end" };
	struct Order { int cmd = 0, m = 0, slot = 0, slot2 = 0; int64_t dl = 0; };
	constexpr int SLOTS = 3, PLAIN = 2, ACTORS = 5;
	struct boom { int m; };

	struct World;
	struct Actor
	{
		int id = 0; bool alive = false, idle = false; int result = -1; Order order; awaitable_t<int>* inbox = nullptr; void* root = nullptr;
		std::optional<guard_t> slot[SLOTS];
	};
	struct World
	{
		Case& c; int nm; std::vector<mutex_t> mtx; Actor actor[ACTORS]; char plain[PLAIN] = {};
		World(Case& c_, int n) : c(c_), nm(n), mtx(n) {}
	};

	auto at(int64_t ms) { return vclock::base() + std::chrono::milliseconds(ms); }
	int64_t now_ms() { return vclock::now_ns() / 1000000; }

	future_t<int> child(World& w, Actor& a, mutex_t m, int cmd, int64_t dl)
	{
		w.c.check(librf_root_state() == a.root, "a child coroutine has another root than its task");
		if (cmd == NEST_TIMED)
		{
			bool ok = co_await m.try_lock_until(at(dl)); if (ok) co_await m.unlock(); co_return ok ? 1 : 0;
		}
		guard_t g = co_await m.lock();
		w.c.check(m.is_locked(), "a mutex is free while a guard holds it");
		if (cmd == NEST_THROW) throw boom{ a.order.m };
		co_return 1;
	}
	future_t<> actor(World& w, int id)
	{
		Actor& a = w.actor[id]; a.root = librf_root_state();
		for (;;)
		{
			awaitable_t<int> in; a.inbox = &in; a.idle = true;
			co_await in.get_future();
			a.inbox = nullptr; a.result = -1;
			Order o = a.order; if (o.cmd == END) break;
			mutex_t m = w.mtx[o.m]; int r = 1;
			switch (o.cmd)
			{
			case LOCK: { guard_t g = co_await m.lock(); a.slot[o.slot].emplace(std::move(g)); break; }
			case LOCK_OP: { guard_t g = co_await m; a.slot[o.slot].emplace(std::move(g)); break; }
			case MANUAL: co_await m.lock(adopt_manual_unlock); break;
			case TRY: r = co_await m.try_lock(); break;
			case TIMED_FOR: r = co_await m.try_lock_for(std::chrono::milliseconds(o.dl - now_ms())); break;
			case TIMED_UNTIL: r = co_await m.try_lock_until(at(o.dl)); break;
			case UNLOCK: co_await m.unlock(); break;
			case UNLOCK_ADDR: m.unlock(librf_root_state()); break;
			case G_UNLOCK: if (a.slot[o.slot]) a.slot[o.slot]->unlock(); break;
			case G_DROP: a.slot[o.slot].reset(); break;
			case G_ASSIGN: *a.slot[o.slot] = std::move(*a.slot[o.slot2]); break;
			case G_MOVE: a.slot[o.slot].emplace(std::move(*a.slot[o.slot2])); break;
			case ADOPT: { guard_t g(std::adopt_lock, librf_root_state(), m); a.slot[o.slot].emplace(std::move(g)); break; }
			case NEST: case NEST_TIMED: r = co_await child(w, a, m, o.cmd, o.dl); break;
			case NEST_THROW: r = 0; try { co_await child(w, a, m, o.cmd, o.dl); } catch (const boom& b) { r = b.m == o.m; } break;
			case YIELD: co_await yield(); break;
			}
			a.result = r;
		}
		a.alive = false;
	}

	// the model: what must happen
	struct Model
	{
		Case& c; int nm;
		struct Waiter { int who; int64_t dl; int serial; bool dead; };
		struct Mx { int owner = -1, count = 0; std::deque<int> line; };		// line: indexes into waiters
		std::vector<Waiter> waiters; std::vector<Mx> mx;
		struct Act { bool alive = false, idle = false; int result = -1; Order o; int slot[SLOTS]; int waiting = -1; int stage = 0; int times = 0; } act[ACTORS];
		std::vector<std::pair<int, int>> ready;		// (actor, stage)
		int serial = 0; int granted_after_wait = 0, timeouts = 0, recursions = 0, refused = 0, noops = 0;
		Model(Case& c_, int n) : c(c_), nm(n), mx(n) { for (auto& a : act) std::fill(a.slot, a.slot + SLOTS, -2); }	// -2: no guard object, -1: empty guard

		bool take(int m, int who) { Mx& x = mx[m]; if (x.owner == -1) { x.owner = who; x.count = 1; return true; } if (x.owner == who) { ++x.count; ++recursions; return true; } return false; }
		void release(int m, int who)
		{
			Mx& x = mx[m]; if (x.owner != who) { ++noops; return; }
			if (--x.count) return;
			x.owner = -1;
			while (!x.line.empty())
			{
				Waiter& t = waiters[x.line.front()]; x.line.pop_front();
				if (t.dead) continue;
				t.dead = true; x.owner = t.who; x.count = 1; ++granted_after_wait;
				act[t.who].waiting = -1; ready.push_back({ t.who, 2 }); return;
			}
		}
		void wait(int m, int who, int64_t dl) { waiters.push_back({ who, dl, serial++, false }); act[who].waiting = (int)waiters.size() - 1; mx[m].line.push_back((int)waiters.size() - 1); ++refused; }
		void drop(int who, int s) { Act& a = act[who]; if (a.slot[s] >= 0) release(a.slot[s], who); }
		void timers(int64_t now)
		{
			std::vector<int> due; for (size_t i = 0; i < waiters.size(); ++i) if (!waiters[i].dead && waiters[i].dl >= 0 && waiters[i].dl <= now) due.push_back((int)i);
			std::stable_sort(due.begin(), due.end(), [&](int a, int b) { return waiters[a].dl < waiters[b].dl; });
			for (int i : due) { waiters[i].dead = true; act[waiters[i].who].waiting = -1; ++timeouts; ready.push_back({ waiters[i].who, 3 }); }
		}
		void finish(int who, int r) { act[who].result = r; act[who].idle = true; }
		// stage 0: the command begins, 1: its child begins, 2: a wait ended with the lock, 3: without, 4: the child's end is seen
		void run(int who, int stage)
		{
			Act& a = act[who]; Order& o = a.o;
			if (stage == 4) { finish(who, a.result); return; }
			if (stage == 0)
				switch (o.cmd)
				{
				case LOCK: case LOCK_OP: case MANUAL: case TIMED_FOR: case TIMED_UNTIL: if (!take(o.m, who)) { wait(o.m, who, o.cmd == TIMED_FOR || o.cmd == TIMED_UNTIL ? o.dl : -1); return; } stage = 2; break;
				case TRY: finish(who, take(o.m, who)); return;
				case UNLOCK: case UNLOCK_ADDR: release(o.m, who); finish(who, 1); return;
				case G_UNLOCK: if (a.slot[o.slot] >= 0) { drop(who, o.slot); a.slot[o.slot] = -1; } finish(who, 1); return;
				case G_DROP: drop(who, o.slot); a.slot[o.slot] = -2; finish(who, 1); return;
				case G_ASSIGN: { int old = a.slot[o.slot]; if (old >= 0) release(old, who); a.slot[o.slot] = a.slot[o.slot2]; a.slot[o.slot2] = -1; finish(who, 1); return; }
				case G_MOVE: { int v = a.slot[o.slot2]; drop(who, o.slot); a.slot[o.slot] = v; a.slot[o.slot2] = -1; finish(who, 1); return; }
				case ADOPT: drop(who, o.slot); a.slot[o.slot] = o.m; finish(who, 1); return;
				case NEST: case NEST_THROW: case NEST_TIMED: ready.push_back({ who, 1 }); return;
				case YIELD: a.result = 1; ready.push_back({ who, 4 }); return;
				case END: a.alive = false; return;
				}
			if (stage == 1) { if (!take(o.m, who)) { wait(o.m, who, o.cmd == NEST_TIMED ? o.dl : -1); return; } stage = 2; }
			bool got = stage == 2;
			switch (o.cmd)
			{
			case LOCK: case LOCK_OP: drop(who, o.slot); a.slot[o.slot] = o.m; finish(who, 1); return;
			case MANUAL: finish(who, 1); return;
			case TIMED_FOR: case TIMED_UNTIL: finish(who, got); return;
			case NEST: case NEST_THROW: case NEST_TIMED: if (got) release(o.m, who); a.result = got; ready.push_back({ who, 4 }); return;
			}
		}
		void settle(int64_t now)
		{
			for (;;)
			{
				timers(now);
				if (ready.empty()) return;
				std::vector<std::pair<int, int>> pass; pass.swap(ready);
				for (auto& p : pass) run(p.first, p.second);
			}
		}
		bool owns(int who) const { for (auto& x : mx) if (x.owner == who) return true; return false; }
	};

	void run(Case& c)
	{
		vclock::reset(); vclock::advance_ns(100000000); Balance bal;
		{
			int nm = (int)c.range(1, 3);
			World w(c, nm); Model md(c, nm);
			std::vector<int> pending;
			auto spawn = [&](int i)
			{
				Actor& a = w.actor[i]; for (auto& s : a.slot) s.reset(); a.id = i; a.alive = true; a.idle = false; a.result = -1; c.log("start actor %d", i);
				sch() + actor(w, i); auto& m = md.act[i]; m.alive = true; m.idle = true; m.result = -1; std::fill(m.slot, m.slot + SLOTS, -2);
				hx::settle(c); c.check(a.idle, "an actor does not start");
			};
			auto compare = [&]()
			{
				for (int i = 0; i < ACTORS; ++i)
				{
					Actor& a = w.actor[i]; auto& m = md.act[i]; if (!m.alive) { c.check(!a.alive, "actor %d has not ended", i); continue; }
					if (m.idle)
					{
						c.check(a.idle, "actor %d is still suspended in '%s' of mutex %d (owner by the rules: %d), which should have ended", i, cmd_name[a.order.cmd], a.order.m, md.mx[a.order.m].owner);
						c.check(a.result == m.result, "'%s' of mutex %d by actor %d gave %d, expected %d", cmd_name[a.order.cmd], a.order.m, i, a.result, m.result);
					}
					else c.check(!a.idle, "actor %d ended '%s' of mutex %d (result %d) although the mutex is held by %d (deadline %lld, now %lld)", i, cmd_name[a.order.cmd], a.order.m, a.result, md.mx[a.order.m].owner, (long long)a.order.dl, (long long)now_ms());
				}
				for (int m = 0; m < nm; ++m) c.check(w.mtx[m].is_locked() == (md.mx[m].owner != -1), "mutex %d is %s, but its owner by the rules is %d (%d times)", m, w.mtx[m].is_locked() ? "locked" : "free", md.mx[m].owner, md.mx[m].count);
			};
			auto settle_all = [&]() { hx::settle(c); md.settle(now_ms()); compare(); };
			auto give = [&](int i, const Order& o)
			{
				Actor& a = w.actor[i]; a.order = o; md.act[i].o = o; md.act[i].idle = false; a.idle = false;
				if (o.cmd == TIMED_FOR || o.cmd == TIMED_UNTIL || o.cmd == NEST_TIMED) c.log("actor %d: %s mutex %d until %lld (now %lld)", i, cmd_name[o.cmd], o.m, (long long)o.dl, (long long)now_ms());
				else c.log("actor %d: %s mutex %d slot %d/%d", i, cmd_name[o.cmd], o.m, o.slot, o.slot2);
				md.ready.push_back({ i, 0 });
				a.inbox->set_value(1);
			};
			auto plain_release = [&](int who, int m, void* addr) { w.mtx[m].unlock(addr); md.release(m, who); };

			int na = (int)c.range(2, ACTORS); for (int i = 0; i < na; ++i) spawn(i);
			int steps = (int)c.size(6, 90), bursts = 0;
			for (int k = 0; k < steps; ++k)
			{
				switch (c.weighted({ 14, 4, 3, 3, 2, 2 }))
				{
				case 0:
				{	// one to three idle actors get a command each; executed in this order in one pass
					int n = (int)c.size(1, 3); bool alone = false; int given = 0;
					for (int j = 0; j < n && !alone; ++j)
					{
						std::vector<int> idle; for (int i = 0; i < na; ++i) if (md.act[i].alive && md.act[i].idle) idle.push_back(i);
						if (idle.empty()) break;
						int i = c.pick(idle); auto& ma = md.act[i]; Order o;
						o.m = (int)c.draw(nm); o.slot = (int)c.draw(SLOTS); o.slot2 = (o.slot + 1 + (int)c.draw(SLOTS - 1)) % SLOTS;
						static const int cmds[] = { LOCK, MANUAL, UNLOCK_ADDR, TRY, TIMED_FOR, TIMED_UNTIL, UNLOCK, LOCK_OP, G_UNLOCK, G_DROP, G_ASSIGN, G_MOVE, ADOPT, NEST, NEST_THROW, NEST_TIMED, YIELD, END };
						o.cmd = cmds[c.weighted({ 6, 4, 5, 4, 4, 4, 3, 3, 2, 4, 2, 2, 1, 3, 2, 2, 1, 2 })];
						o.dl = now_ms() + c.range(1, 40);
						if ((o.cmd == TIMED_FOR || o.cmd == TIMED_UNTIL || o.cmd == NEST_TIMED) && c.chance(1, 6)) { if (given) break; o.dl = now_ms() - c.range(0, 5); alone = true; }
						if ((o.cmd == G_ASSIGN) && (ma.slot[o.slot] == -2 || ma.slot[o.slot2] == -2)) o.cmd = LOCK;
						if (o.cmd == G_MOVE && (ma.slot[o.slot2] == -2)) o.cmd = G_DROP;
						if (o.cmd == ADOPT && md.mx[o.m].owner != i) o.cmd = TRY;
						if (o.cmd == END) { bool g = false; for (int s : ma.slot) if (s >= 0) g = true; if (g || md.owns(i)) o.cmd = G_DROP; }
						give(i, o); ++given;
					}
					if (given > 1) ++bursts;
					settle_all(); break;
				}
				case 1:
				{
					int64_t d = c.draw(3) == 0 ? 1 : (int64_t)c.size(1, 60);
					if (c.draw(2)) { int64_t best = -1; for (auto& t : md.waiters) if (!t.dead && t.dl > now_ms() && (best < 0 || t.dl < best)) best = t.dl; if (best >= 0) { d = best - now_ms() - (int64_t)c.draw(2); if (d <= 0) d = 1; } }
					// a command given together with the passing of time runs after the timers
					vclock::advance_ns(d * 1000000); c.log("advance to %lld", (long long)now_ms());
					settle_all(); break;
				}
				case 2:
				{	// a plain owner
					int p = (int)c.draw(PLAIN), m = (int)c.draw(nm), who = 100 + p; void* ad = &w.plain[p]; auto& x = md.mx[m]; bool can = x.owner == -1 || x.owner == who;
					switch (c.draw(5))
					{
					case 0: if (can) { c.log("plain %d: lock mutex %d", p, m); w.mtx[m].lock(ad); md.take(m, who); } break;
					case 1: { bool r = w.mtx[m].try_lock(ad); c.log("plain %d: try_lock mutex %d: %d", p, m, r); c.check(r == can, "plain try_lock gave %d, expected %d", r, can); if (r) md.take(m, who); break; }
					case 2: { bool r = w.mtx[m].try_lock_for(-1ms, ad); c.log("plain %d: try_lock_for(-1ms) mutex %d: %d", p, m, r); c.check(r == can, "plain try_lock_for gave %d, expected %d", r, can); if (r) md.take(m, who); break; }
					case 3:
					{	// the clock runs while it waits
						int64_t t = (int64_t)c.range(1, 20); int64_t dl = now_ms() + t; vclock::set_tick_ns(c.range(1, 3) * 1000000);
						bool until = c.draw(2); bool r = until ? w.mtx[m].try_lock_until(at(dl), ad) : w.mtx[m].try_lock_for(std::chrono::milliseconds(t), ad); vclock::set_tick_ns(0);
						c.log("plain %d: waits for mutex %d until %lld: %d at %lld", p, m, (long long)dl, r, (long long)now_ms());
						c.check(r == can, "plain timed lock gave %d, expected %d", r, can); if (!r) c.check(now_ms() >= dl, "a plain timed lock gave up at %lld, before its deadline %lld", (long long)now_ms(), (long long)dl); if (r) md.take(m, who);
						settle_all(); break;
					}
					case 4: c.log("plain %d: copies and drops a handle", p); { mutex_t h = w.mtx[m]; mutex_t h2 = std::move(h); c.check(h2.is_locked() == (x.owner != -1), "a copied handle is another mutex"); } break;
					}
					compare(); break;
				}
				case 3: { int p = (int)c.draw(PLAIN), m = (int)c.draw(nm); c.log("plain %d: unlock mutex %d (owner %d)", p, m, md.mx[m].owner); plain_release(100 + p, m, &w.plain[p]); settle_all(); break; }
				case 4:
				{	// guards are destroyed or released from outside of their coroutine
					int i = (int)c.draw(na), s = (int)c.draw(SLOTS); if (!md.act[i].alive || !md.act[i].idle) break; c.log("guard %d of actor %d released from outside", s, i);
					if (c.draw(2)) { if (w.actor[i].slot[s]) { w.actor[i].slot[s]->unlock(); md.drop(i, s); md.act[i].slot[s] = -1; } }
					else { w.actor[i].slot[s].reset(); md.drop(i, s); md.act[i].slot[s] = -2; }
					settle_all(); break;
				}
				case 5: for (int i = 0; i < na; ++i) if (!md.act[i].alive) { spawn(i); break; } break;
				}
			}
			// everything is released; then everybody can be told to end
			for (int round = 0; round < 200; ++round)
			{
				bool any = false;
				for (int p = 0; p < PLAIN; ++p) for (int m = 0; m < nm; ++m) while (md.mx[m].owner == 100 + p) { plain_release(100 + p, m, &w.plain[p]); any = true; }
				for (int i = 0; i < na; ++i) if (md.act[i].alive && (md.act[i].idle || md.act[i].waiting >= 0))
				{
					for (int s = 0; s < SLOTS; ++s) if (md.act[i].slot[s] >= 0) { w.actor[i].slot[s].reset(); md.drop(i, s); md.act[i].slot[s] = -2; any = true; }
					for (int m = 0; m < nm; ++m) while (md.mx[m].owner == i) { w.mtx[m].unlock(w.actor[i].root); md.release(m, i); any = true; }
				}
				settle_all();
				if (!any) break;
			}
			for (int i = 0; i < na; ++i) if (md.act[i].alive) { c.check(md.act[i].idle, "internal: actor %d waits at the end", i); Order o; o.cmd = END; give(i, o); }
			settle_all(); vclock::advance_ns(200000000); hx::settle(c);		// a stopped timer stays listed until it would have been due
			c.check(sch().empty(), "the scheduler is not empty at the end");
			if (md.granted_after_wait + md.timeouts >= 1 && md.refused >= 2) c.nontrivial();
			c.label("obtained after waiting", md.granted_after_wait); c.label("timed out", md.timeouts); c.label("recursive locks", md.recursions); c.label("waits", md.refused); c.label("unlocks by a non-owner", md.noops); if (bursts) c.label("several commands in one pass", bursts);
		}
		bal.verify(c, "after the mutexes were destroyed");
	}
}
VP_CHECK({ "mutex", "2-5 commanded coroutines and 2 plain owners on 1-3 mutexes (18 kinds of commands, several per pass), generated times; non-trivial = at least two waits, one of them ended by a hand-over or a timeout",
	run, 600000, 10000000, true, 3000, warm });
