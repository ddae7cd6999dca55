// C23: the same generated programs on the library built with each of its options: same steps, same order, same results.
#include "vp.hpp"
#include "vclock.hpp"
#include <algorithm>
#include "c23_host.hpp"
#include <dlfcn.h>
#include <string>
using vp::Case;

namespace
{
	struct Config { std::string name; plugin_fn* run; }; std::vector<Config> configs;
	constexpr size_t CAP = 1 << 18; char buf[2][CAP]; size_t len[2]; int cur = 0; const char* cname = "";
	void line(const char* s) { size_t n = strlen(s); if (len[cur] + n + 2 >= CAP) return; memcpy(buf[cur] + len[cur], s, n); len[cur] += n; buf[cur][len[cur]++] = '\n'; buf[cur][len[cur]] = 0; }
	void fail(const char* s) { vp::current->fail("library built as '%s': %s", cname, s); }
	int64_t now() { return vclock::now_ns() / 1000000; }
	void adv(int64_t ms) { vclock::advance_ns(ms * 1000000); }
	const Host host = { line, fail, now, adv, vp::live_allocs };

	void load()
	{
		const char* e = getenv("VP_PLUGINS"); std::string s = e ? e : ""; size_t i = 0;
		while (i < s.size())
		{
			size_t j = s.find(';', i); if (j == std::string::npos) j = s.size(); std::string one = s.substr(i, j - i); size_t k = one.find('='); i = j + 1;
			void* h = dlopen(one.substr(k + 1).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(4); }
			configs.push_back({ one.substr(0, k), (plugin_fn*)dlsym(h, "plugin_run") });
		}
		if (configs.size() < 2) { fprintf(stderr, "no plug-ins to compare\n"); exit(4); }
	}
	struct Loader { Loader() { load(); } } loader;	// before the workers are forked: labels name the configurations
	void run(Case& c)
	{
		prog::Program p; prog::Gen g{ c, p, 40, false }; g.program(2, 4); int nd = (int)c.range(1, 48); for (int i = 0; i < nd; ++i) p.drive.push_back((int)c.draw(720)); prog::describe(c, p);
		std::string d; for (int x : p.drive) d += " " + std::to_string(x); c.log("decisions:%s", d.c_str());
		size_t other = 1 + c.draw(configs.size() - 1); int sig[2]; Result r[2];
		c.note("against the library built as '%s'", configs[other].name.c_str());
		for (int k = 0; k < 2; ++k)
		{
			const Config& f = configs[k ? other : 0]; cname = f.name.c_str(); cur = k; len[k] = 0; buf[k][0] = 0; vclock::reset(); f.run(&p, &host, &r[k]);
		}
		if (len[0] != len[1] || memcmp(buf[0], buf[1], len[0]))
		{
			size_t i = 0, ln = 1, start = 0; while (i < len[0] && i < len[1] && buf[0][i] == buf[1][i]) { if (buf[0][i] == '\n') { ++ln; start = i + 1; } ++i; }
			auto at = [&](int k) { std::string s(buf[k] + start); return s.substr(0, s.find('\n')); };
			c.fail("the library built as '%s' does something else in step %d: '%s' instead of '%s'", configs[other].name.c_str(), (int)ln, at(1).c_str(), at(0).c_str());
		}
		(void)sig;
		if (r[0].kinds >= 5 && r[0].tasks >= 2) c.nontrivial();
		c.label(configs[other].name.c_str()); c.label("tasks", r[0].tasks); c.label("kinds of steps", r[0].kinds); c.label("time-outs", r[0].timeouts); c.label("exceptions", r[0].booms);
	}
	void warm() { prog::Program p; p.cap = { 1 }; p.drive = { 0 }; Result r; for (auto& f : configs) { cname = f.name.c_str(); len[cur] = 0; f.run(&p, &host, &r); } }
}
VP_CHECK({ "configurations", "1-4 tasks with up to 40 steps over all primitives on 1-2 schedulers, run by the default build and one other build of the library, whose traces are compared; non-trivial = at least 5 kinds of steps executed and 2 tasks ended",
	run, 100000, 3000000, true, 6000, warm });
