// What a build of the library with some options (a plug-in) and the comparing program know of each other.
#pragma once
#include "prog.hpp"
struct Host
{
	void (*line)(const char*);					// one line of the trace
	void (*fail)(const char*);					// an invariant is broken
	int64_t (*now_ms)();
	void (*advance_ms)(int64_t);
	int64_t (*live_allocs)();
	bool stopped = false;
};
struct Result { int kinds = 0, tasks = 0, waits = 0, janitor = 0, timeouts = 0, booms = 0; };
extern "C" typedef void plugin_fn(const prog::Program*, const Host*, Result*);
