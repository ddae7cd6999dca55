// Generated programs over all primitives: plain data, shared by C22 (interpreted under address sanitizer and under
// controlled threads) and C23 (interpreted by builds of the library with different options).
#pragma once
#include "vp.hpp"
#include <vector>
#include <string>

namespace prog
{
	enum Kind { YIELD, SLEEP, VIA, LOCK, LOCK_FOR, CHILD, THROW, WRITE, READ, WAIT, WAIT_FOR, SIGNAL, SPAWN, ALL, ANY, AWAIT, GEN, LOCK2, TRY, KINDS };
	inline const char* kname[] = { "yield", "sleep", "switch to", "lock", "lock for a time", "child", "throw", "write", "read", "wait for", "wait for a time for", "signal", "start a task on", "wait for all", "wait for any", "await a result set by a task on", "generator of", "lock several", "try to lock" };
	struct Op
	{
		int k = YIELD, a = 0, b = 0, n = 0; bool flip = false;
		std::vector<Op> body; std::vector<std::vector<Op>> sub;
	};
	typedef std::vector<Op> Ops;

	struct Program
	{
		int ns = 1, nm = 1, ne = 1, nc = 1; std::vector<int> cap, home; std::vector<Ops> task;
		std::vector<int> drive;		// decisions of a driver that may not draw while it runs
	};

	struct Gen
	{
		vp::Case& c; Program& p; int budget; bool mt; bool threads_off = false;
		int kinds[KINDS] = {};

		// held: mutexes of this task, floor: what tasks waiting for this one may hold lies below, catcher: somebody catches
		Ops ops(int depth, unsigned held, int floor, bool catcher)
		{
			Ops v; int n = (int)c.size(depth ? 0 : 1, depth == 0 ? 7 : 4);
			for (int i = 0; i < n && budget > 0; ++i)
			{
				--budget; Op o; bool deep = depth >= 4;
				unsigned d = deep ? 0 : 1;
				o.k = (int)c.weighted({ 4, 2, p.ns > 1 ? 3u : 0u, 5 * d, 3 * d, 4 * d, catcher ? 2u : 0u, 3, 3, 2, 2, 3, 2 * d, 2 * d, 1 * d, 3 * d, 1, 2 * d, 1 * d });
				int top = floor; for (int m = 0; m < p.nm; ++m) if (held >> m & 1) top = std::max(top, m + 1);
				switch (o.k)
				{
				case YIELD: o.n = (int)c.draw(3); break;
				case SLEEP: o.n = (int)c.draw(16); break;
				case VIA: o.a = (int)c.draw(p.ns); break;
				case LOCK: case LOCK_FOR: case TRY:
				{
					std::vector<int> can; for (int m = 0; m < p.nm; ++m) if (m >= top || (held >> m & 1)) can.push_back(m);
					if (can.empty()) { o.k = YIELD; break; }
					o.a = c.pick(can); o.n = (int)c.draw(12); o.flip = c.draw(2); o.body = ops(depth + 1, held | 1u << o.a, floor, catcher); break;
				}
				case LOCK2:
				{
					std::vector<int> can; for (int m = 0; m < p.nm; ++m) if (m >= top) can.push_back(m);
					if (can.size() < 2) { o.k = YIELD; break; }
					o.a = can[c.draw(can.size())]; do o.b = can[c.draw(can.size())], o.b = o.b == o.a ? can[(size_t)(std::find(can.begin(), can.end(), o.a) - can.begin() + 1) % can.size()] : o.b; while (0);
					o.body = ops(depth + 1, held | 1u << o.a | 1u << o.b, floor, catcher); break;
				}
				case CHILD: o.body = ops(depth + 1, held, floor, true); break;
				case WRITE: case READ: o.a = (int)c.draw(p.nc); break;
				case WAIT: case WAIT_FOR: case SIGNAL: o.a = (int)c.draw(p.ne); o.n = (int)c.draw(12); break;
				case SPAWN: o.a = (int)c.draw(p.ns); o.body = ops(depth + 1, 0, 0, false); break;
				case AWAIT: o.a = (int)c.draw(p.ns); o.flip = c.chance(1, 3); o.b = (int)c.draw(3); o.body = ops(depth + 1, 0, top, false); break;
				case ALL: case ANY: { int k = (int)c.range(1, 3); o.flip = c.draw(2); for (int j = 0; j < k; ++j) o.sub.push_back(ops(depth + 1, 0, top, false)); break; }
				case GEN: o.n = (int)c.draw(4); break;
				}
				++kinds[o.k];
				v.push_back(std::move(o));
			}
			return v;
		}
		void program(int max_s, int max_tasks)
		{
			p.ns = (int)c.range(1, max_s); p.nm = (int)c.range(1, 3); p.ne = (int)c.range(1, 2); p.nc = (int)c.range(1, 2);
			for (int i = 0; i < p.nc; ++i) p.cap.push_back((int)c.draw(3));
			int n = (int)c.range(1, max_tasks);
			for (int i = 0; i < n && budget > 0; ++i) { p.home.push_back((int)c.draw(p.ns)); p.task.push_back(ops(0, 0, 0, false)); }
		}
	};
	inline void describe(vp::Case& c, const Ops& v, int ind)
	{
		for (auto& o : v)
		{
			bool via = o.k == VIA || o.k == SPAWN || o.k == AWAIT;
			c.log("%*s%s %d,%d,%d%s", ind, "", kname[o.k], o.a, o.b, o.n, o.k == AWAIT && o.flip ? " (an exception)" : ""); (void)via;
			describe(c, o.body, ind + 2);
			for (size_t i = 0; i < o.sub.size(); ++i) { c.log("%*stask %d of it:", ind + 2, "", (int)i); describe(c, o.sub[i], ind + 4); }
		}
	}
	inline void describe(vp::Case& c, const Program& p)
	{
		std::string s; for (int x : p.cap) s += " " + std::to_string(x);
		c.log("%d scheduler(s), %d mutex(es), %d event(s), channels of capacity%s", p.ns, p.nm, p.ne, s.c_str());
		for (size_t i = 0; i < p.task.size(); ++i) { c.log("task %d on scheduler %d", (int)i, p.home[i]); describe(c, p.task[i], 2); }
	}
}
