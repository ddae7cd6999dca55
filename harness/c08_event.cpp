// C08: untimed waits, signals, signal_all and reset (see event_one.hpp).
#include "event_one.hpp"
namespace { void run(Case& c) { run_events(c, false); } }
VP_CHECK({ "event", "2-6 commanded coroutines and plain code on 1-3 events (wait, co_await, child waits, signal, signal_all, reset, several per pass); non-trivial = at least two suspended waits were released and a signal was counted",
	run, 700000, 12000000, true, 2500, warm });
