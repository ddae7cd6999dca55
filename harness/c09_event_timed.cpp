// C09: timed waits and waits for all of several events (see event_one.hpp).
#include "event_one.hpp"
namespace { void run(Case& c) { run_events(c, true); } }
VP_CHECK({ "event-timed", "2-6 commanded coroutines and plain code on 1-4 events (wait_for, wait_until, wait_all, wait_all_for, child waits, signals, several per pass) with generated times; non-trivial = at least one wait timed out and one suspended wait was released",
	run, 700000, 12000000, true, 3000, warm });
