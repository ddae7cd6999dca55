#!/usr/bin/env python3
# Writes properties.jsonl (kept as a program so that the texts stay readable and diffable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title), title)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

I = "include/librf/src/"
p("C01", "A future delivers its result exactly once, whole, to the coroutine awaiting it",
  "Awaiting a future (of a coroutine or of an awaitable wrapping an asynchronous function) resumes the awaiting coroutine exactly once and yields exactly the value, reference or exception that was set or returned, whether the result was set before or after the await and at any nesting depth, for copyable, move-only, reference and void results. Until the result is set the awaiting coroutine stays suspended, and a result taken from the future without awaiting is refused with not_ready. When a chain of awaits has ended every coroutine frame, shared state and result object has been destroyed exactly once.",
  ["inputs", "histories", "programs"], "every tree of nested coroutines and awaitables, every result type, every outcome (value or exception) and every order of setting, awaiting, copying and dropping the handles",
  "Tests await a handful of fixed chains with int/string results and print; they never check destruction counts, exceptions for void/reference awaitables, or results set between start and await.",
  [I+"state.h", I+"state.inl", "source/state.cpp", I+"promise.h", I+"future.h", I+"awaitable.h", I+"counted_ptr.h"],
  [("state result slot and resume", I+"state.inl"), ("await suspend/ready race handling", I+"state.inl:future_await_suspend"), ("reference counting of states", I+"counted_ptr.h")],
  [("result flag", "none / value / exception", I+"state.h")], ["value received by co_await", "destructor counts"])

p("C02", "Every started task runs to completion exactly once and the scheduler knows when",
  "Every coroutine handed to a scheduler starts, and each of its suspensions that becomes ready is resumed exactly once, in the order of becoming ready, one pass of the scheduler resuming exactly those that were ready when the pass began; a coroutine that yields is resumed in the next pass. The scheduler reports itself empty exactly when no started task is unfinished, nothing is ready and no timer is pending, and running until no task is left returns exactly then. Function objects used to start a task live until its coroutine with its locals has ended, their destructors may use the scheduler, and the current task, root and scheduler seen by a coroutine are its own.",
  ["programs", "histories"], "every set of tasks (futures, function objects, generators), started from outside, from inside other tasks, with any pattern of yields, child awaits and manual resumption",
  "Tests start a few tasks and run to the end; fairness, order, emptiness at intermediate points and the lifetime of captured state are never asserted.",
  ["source/scheduler.cpp", I+"scheduler.h", I+"rf_task.h", "source/rf_task.cpp", I+"yield.h", I+"current_scheduler.h"],
  [("ready list swapped per pass", "source/scheduler.cpp:run_one_batch"), ("task dictionary", "source/scheduler.cpp:new_task"), ("task owns the function object", I+"rf_task.h")],
  [("ready tasks", "started and unfinished tasks", I+"scheduler.h"), ("running states", "suspensions ready to be resumed", I+"scheduler.h")], ["order of resumption", "empty()", "run_until_notask()"])

p("C03", "A channel is a bounded FIFO: every value is delivered once and in order",
  "On a channel of capacity n the k-th read to begin receives exactly the value of the k-th write to begin, unchanged and exactly once, for every element type and channel option. A read is suspended exactly while fewer than k writes have begun, and the k-th write exactly while fewer than k-n reads have begun; with capacity 0 this is a rendezvous. Values still inside when the last handle of the channel goes are destroyed exactly once.",
  ["histories", "inputs"], "every sequence of reads and writes by coroutines, nested coroutines and plain code of one thread, every capacity and element type",
  "Tests run one producer and one consumer with small capacities and print what they read; capacity 0, wrap-around, many blocked readers or writers and non-copyable elements are hardly touched and order is not asserted.",
  [I+"channel_v2.h", I+"channel_v2.inl", I+"ring_queue.h", I+"intrusive_link_queue.h"],
  [("value queue plus queues of suspended readers and writers", I+"channel_v2.inl")], [("values", "buffered values", I+"channel_v2.inl"), ("read/write awakes", "suspended readers and writers in order", I+"channel_v2.inl")], ["values received", "which operations have completed"])

p("C04", "A channel shared by threads loses, duplicates or reorders nothing",
  "When coroutines on several schedulers (each on its own thread) and plain threads use one channel concurrently, every written value is received at most once, none is lost or invented, and if one write ended before another began their values are never received in the opposite order. No reader or writer stays blocked while the operations of the others allow it to proceed, and a channel used as a semaphore never admits more holders than it has tokens. What the writer did to the value before writing is visible to the reader.",
  ["schedules", "programs"], "every interleaving of the threads using the channel, every distribution of producers, consumers and token holders over threads",
  "The multi-thread tests run one uncontrolled interleaving per run on x86 and check a total count; lost wake-ups and duplications need particular preemptions inside the channel's operations.",
  [I+"channel_v2.inl", I+"ring_queue.h", I+"intrusive_link_queue.h", I+"spinlock.h", I+"scheduler.h"],
  [("one lock per channel", I+"channel_v2.inl"), ("wake-up hands the state to its own scheduler", I+"channel_v2.inl:on_notify")], [], ["values received by each consumer", "blocked operations when nothing runs any more"])

p("C05", "A coroutine mutex excludes, recurses, hands over in order and never leaks a lock",
  "A coroutine mutex is held by at most one owner at a time; the owner may lock it again and it becomes free only after as many unlocks; waiting coroutines obtain it in the order in which they began to wait, and every guard object releases exactly what it acquired. Try-lock succeeds exactly when the mutex is free or already owned by the caller, and a timed lock ends with the lock if it is obtained before the deadline and without it (and without ever obtaining it later) otherwise, never before the deadline. Unlocking by a non-owner changes nothing.",
  ["histories", "inputs"], "every sequence of lock, recursive lock, try-lock, timed lock, unlock and guard operations by coroutines and plain code, with every interleaving of virtual time",
  "Tests take the lock in a few coroutines and check a final counter; recursion, expiry against hand-over, order of waiters and moved guards are not covered.",
  [I+"mutex_v2.h", I+"mutex_v2.inl", "source/mutex_v2.cpp"],
  [("owner, recursion counter and queue of waiters", I+"mutex_v2.inl"), ("time-out cancels the waiting state", "source/mutex_v2.cpp")], [("owner", "root of the owning coroutine or key of plain code", I+"mutex_v2.inl"), ("counter", "recursion depth", I+"mutex_v2.inl"), ("wait awakes", "waiting coroutines", I+"mutex_v2.inl")], ["who is inside", "result of try/timed lock"])

p("C06", "A coroutine mutex excludes and never loses a wake-up across threads",
  "With owners that are coroutines on several threads and plain threads, at most one owner is ever inside a section protected by one coroutine mutex (which reports itself as locked all that time), and what it wrote there is visible to the next owner. Every owner that waits obtains the mutex as long as the others release it, in all of plain, recursive, try and timed use. A timed wait racing with the release ends in exactly one of the two ways.",
  ["schedules", "programs"], "every interleaving of lockers, unlockers and expiring waits on several threads",
  "The tests sample a few uncontrolled interleavings; a lost wake-up or a double hand-over needs a preemption between two particular steps of unlock and lock.",
  [I+"mutex_v2.inl", "source/mutex_v2.cpp", I+"spinlock.h", I+"scheduler.h"],
  [("lock around owner and waiter queue", "source/mutex_v2.cpp"), ("atomic claim between time-out and hand-over", "source/mutex_v2.cpp")], [], ["protected counter", "completion of every owner"])

p("C07", "Locking several mutexes at once takes all of them and never deadlocks",
  "Locking a set of coroutine mutexes in one operation ends with all of them held by the caller, and releasing the guard frees all of them exactly once. Coroutines and plain threads that lock overlapping sets in different orders all make progress. A failed attempt leaves none of the set held.",
  ["schedules", "histories", "inputs"], "every collection of mutexes (also overlapping and already owned ones), every order of listing, every interleaving of lockers on one or several threads",
  "The tests lock two or three fixed sets from a few coroutines; the back-off path depends on an interleaving at each single lock.",
  [I+"mutex_v2.inl", I+"without_deadlock_assemble.inl", I+"mutex_v2.h"],
  [("lock one, try the others, back off and start with the one that failed", I+"without_deadlock_assemble.inl")], [], ["who holds which mutex", "completion of every locker"])

p("C08", "Event signals release the right number of waiters, in order; none is lost",
  "A signal given while coroutines wait on an event releases exactly one of them, the one waiting longest; signals given while nobody waits are counted and each lets exactly one later wait pass without suspending; signalling all releases every coroutine waiting at that moment. Reset discards the counted signals. A wait that is not released stays suspended, and copies of an event are the same event.",
  ["histories", "inputs"], "every sequence of signal, signal-all, reset and wait by any number of coroutines and plain code, on any number of events",
  "Tests use one event with one or two signals; counts of pending signals, order among waiters and reset between them are not asserted.",
  [I+"event_v2.h", I+"event_v2.inl", "source/event_v2.cpp"],
  [("counter of pending signals and list of waiters", "source/event_v2.cpp")], [("counter", "signals not yet consumed", I+"event_v2.inl"), ("wait awakes", "waiting states in order", I+"event_v2.inl")], ["which waits have completed"])

p("C09", "Timed and combined event waits end once, with the truth, and at the right time",
  "A timed wait on an event reports success exactly if a signal released it before its deadline was processed, and otherwise reports failure, not before the deadline and once; a signal is consumed by a wait on one event exactly when that wait reports success, so no signal is swallowed by such a wait that timed out. Waiting for all of a set of events completes exactly when every one of them has been signalled for it, the timed form reporting failure at the deadline otherwise. A wait on an already signalled event ends at once, also with a deadline in the past. A wait that ended leaves nothing of itself behind in the event.",
  ["histories", "inputs", "fault_sequences"], "every sequence of signals, waits, timed waits, waits for all and steps of virtual time, including deadlines in the past and signals at the deadline",
  "The time-out tests sleep for real time with generous margins and one waiter; the boundary between signal and expiry, and expiry of one of several waits, are not reached.",
  [I+"event_v2.inl", "source/event_v2.cpp", "source/timer.cpp"],
  [("one claim of the waiting state between signal and time-out", "source/event_v2.cpp"), ("count of events still missing", I+"event_v2.inl")], [], ["boolean result of the wait", "virtual time of completion"])

p("C10", "Event signals from other threads are never lost and wake exactly one waiter",
  "When threads signal, wait with or without deadline, and wait for all of several events concurrently, the number of waits that succeed never exceeds the number of signals given, no wait stays suspended while an unconsumed signal exists, and a wait ends in exactly one way. A wait on one event that times out has not consumed a signal. No interleaving deadlocks.",
  ["schedules", "programs"], "every interleaving of signalling threads, waiting coroutines on several schedulers and expiring deadlines",
  "The tests signal from a thread after a fixed sleep, so the signal never races with the suspension or the expiry.",
  [I+"event_v2.inl", "source/event_v2.cpp", "source/timer.cpp", I+"scheduler.h"],
  [("event lock around counter and waiter list", "source/event_v2.cpp"), ("atomic claim of the waiter", "source/event_v2.cpp")], [], ["completed waits", "remaining signals"])

p("C11", "Every timer fires once, never early and in due order, or reports cancellation",
  "A timer added to a timer manager calls its handler exactly once: with the cancel flag clear, at the first update at or after its due time and never earlier; or, if it was stopped or the manager was cleared before that, with the cancel flag set (a stopped timer is reported at the latest when it would have been due). In one update due timers fire in order of their due times, equal ones in the order they were added. A handle reports expired exactly from when it has itself stopped its timer or the update or clear that called its handler has ended, and the manager is empty exactly when no timer is outstanding; handlers may add and stop timers and clear the manager.",
  ["histories", "inputs", "fault_sequences"], "every sequence of add, add-with-handle, stop, clear, update and handle operations, also from inside handlers, with any due times including the past and equal ones",
  "The timer test adds a few timers and prints; order, exactly-once, cancellation and re-entrance are not asserted, and real sleeping hides early firing.",
  [I+"timer.h", "source/timer.cpp"],
  [("sorted map of running timers plus list of newly added ones", "source/timer.cpp")], [("state of a timer", "none / added / cancelled / invalid", I+"timer.h")], ["handler calls with flag and virtual time"])

p("C12", "A sleep ends at its time, not before, and reports cancellation as an error",
  "A coroutine sleeping for a duration or until an instant is resumed at the first scheduler pass at or after that instant, never before it, and at once if the instant is not in the future. Sleepers of one scheduler are resumed in the order of their instants. If the timers of the scheduler are cleared while a coroutine sleeps, the sleep ends with the timer-cancelled error instead.",
  ["inputs", "histories"], "every mix of sleeping coroutines, durations of any unit (negative and zero too), scheduler passes and cancellations",
  "The sleep tests wait for real time with wide tolerances, never cancel, and never compare the order of several sleepers.",
  [I+"sleep.h", "source/sleep.cpp", "source/timer.cpp"],
  [("timer callback sets the result of an awaitable", "source/sleep.cpp")], [], ["virtual time of resumption", "exception received"])

p("C13", "Waiting for all or any of several tasks reports every result truthfully",
  "Waiting for all of a set of tasks completes when, and only when, the last of them has completed, and yields each one's own result at its own position, for heterogeneous lists, iterator ranges and empty sets and on any scheduler. Waiting for any completes when the first one has completed and yields exactly its index and result, while the others still run to their end. Every started task runs exactly once, and an object that a task returns a reference to is not changed by the wait.",
  ["programs", "inputs", "schedules"], "every set of tasks (futures, coroutine function objects, values of any type including void), every order of completion, also on several schedulers",
  "The existing program for it is compiled out by the preprocessor here, so nothing tests it at all.",
  [I+"when_v2.h", "source/when_v2.cpp"],
  [("countdown of unfinished tasks", "source/when_v2.cpp"), ("one result slot per task", I+"when_v2.h")], [("counter", "tasks not yet finished", I+"when_v2.h")], ["tuple/vector of results", "index of the first"])

p("C14", "A coroutine runs only on the scheduler it belongs to, also after switching",
  "Every piece of a coroutine runs in the thread that drives the scheduler it currently belongs to; after switching to another scheduler it continues there, exactly once, together with the coroutines that await it, and switching to the current one does nothing. A thread sees its own scheduler when it has one and the global one otherwise, and a local scheduler is bound exactly for the life of the guard that created it. Wake-ups coming from other threads never run the coroutine in the thread of the waker.",
  ["schedules", "programs", "configurations"], "every number of schedulers and threads, every sequence of switches at any nesting depth, mixed with waiting on channels, events, mutexes and awaitables completed by other threads",
  "The switching tests hop between two schedulers a few times and print thread ids.",
  [I+"switch_scheduler.h", "source/state.cpp", "source/scheduler.cpp", I+"current_scheduler.h", I+"scheduler.h"],
  [("the state's scheduler decides where it is queued", "source/state.cpp:switch_scheduler_await_suspend"), ("thread-local current scheduler", "source/scheduler.cpp")], [], ["thread executing each step"])

p("C15", "Stop requests reach every registered callback exactly once",
  "Of all requests to stop one shared stop state exactly the first returns true, and from then on every source and token of that state reports it. Every callback registered before the request is invoked exactly once by it, one registered afterwards is invoked at once, one destroyed before is never invoked, and a callback may destroy itself or others while it runs. Stop is possible exactly while a source exists or a stop was requested; the state lives as long as any source, token or callback and is then freed exactly once.",
  ["histories", "inputs"], "every sequence of creating, copying, moving, swapping and destroying sources, tokens and callbacks and of requesting stop, also from inside callbacks",
  "The tests request stop once with one callback; copies, moves, swaps, default-constructed handles and orders of destruction are not covered.",
  [I+"stop_token.h"],
  [("reference counts of sources and tokens in one word", I+"stop_token.h"), ("list of callbacks", I+"stop_token.h")], [("state word", "lock, stop-requested and reference counts", I+"stop_token.h")], ["callback invocations", "stop_requested/stop_possible", "heap"])

p("C16", "Stop requests, registrations and destructions race safely",
  "When threads concurrently request stop, register callbacks and destroy callbacks, tokens and sources, exactly one request succeeds and each callback is invoked at most once, and exactly once if it was registered before the request and not destroyed. The destructor of a callback being executed by another thread returns only after that execution ended. The shared state is freed exactly once, after its last user.",
  ["schedules"], "every interleaving of up to four threads operating on one stop state",
  "No test races a callback's destruction with a request; the window is a few instructions wide.",
  [I+"stop_token.h"],
  [("spin lock bit, signalling thread id and finished flag", I+"stop_token.h")], [], ["callback invocations", "use after free"])

p("C17", "Stopping tasks ends their waiting exactly once and leaves nothing behind",
  "Requesting stop on a task, or on all tasks of a scheduler, invokes the stop callbacks of exactly the tasks concerned, once, and leaves other tasks untouched; a task that does not use its stop token is unaffected. A stop for the whole scheduler also cancels its timers, so sleeping coroutines end with the cancellation error. The scheduler then still finishes every task and becomes empty, whatever the callbacks do (set results or exceptions, start tasks, stop others).",
  ["histories", "programs"], "every set of tasks with and without stop tokens and every moment and order of stop requests, including from callbacks and from inside tasks",
  "The stop tests stop one task at one moment; stopping everything with several callbacks that complete awaitables is not covered.",
  ["source/scheduler.cpp", I+"rf_task.h", "source/rf_task.cpp", I+"stop_token.h", "source/timer.cpp"],
  [("stop source of a task made on first use", "source/rf_task.cpp"), ("stop of all tasks and clearing of timers", "source/scheduler.cpp:request_stop_all_if_possible")], [], ["callback invocations", "completion of the tasks"])

p("C18", "A generator yields its sequence once, in order, lazily, and cleans up",
  "Iterating a generator that yields yields exactly the values its coroutine yields and then the value it returns, in order and whole, running the coroutine no further than the value being looked at; the iteration ends exactly then. A generator abandoned at any point, moved, assigned over or never started destroys its coroutine and everything in it exactly once. A generator run by a scheduler is resumed once per pass until it ends.",
  ["programs", "inputs"], "every generator body (lengths, element types, nested generators, local objects) and every way of iterating, abandoning, moving and scheduling it",
  "Tests run three generators from begin to end and print.",
  [I+"generator.h", "source/state.cpp"],
  [("iterator resumes the coroutine", I+"generator.h"), ("generator owns the coroutine handle", I+"generator.h")], [], ["values seen", "progress of the body", "destructor counts"])

p("C19", "The spin lock and scoped batch locks give mutual exclusion and progress",
  "At most one thread at a time is between lock and unlock of a spin lock, what it wrote there is visible to the next one, try-lock succeeds exactly when it acquires, and every thread that tries to lock gets it as long as others unlock. A scoped lock over a run-time collection of locks holds all of them during its life and none afterwards, and threads locking overlapping collections in different orders never deadlock. Failing or throwing lock attempts release what was taken.",
  ["schedules", "inputs"], "every interleaving of threads using lock, try-lock, unlock and batch locks on overlapping collections in any order",
  "Tests use the locks indirectly, under uncontrolled interleavings.",
  [I+"spinlock.h", I+"without_deadlock_assemble.inl"],
  [("compare-and-swap acquire, store release", I+"spinlock.h"), ("lock, try the rest, back off", I+"without_deadlock_assemble.inl")], [], ["owner count", "protected data"])

p("C20", "A result set by another thread reaches the awaiting coroutine exactly once",
  "When an awaitable is completed by another thread at any moment relative to the await, the awaiting coroutine is resumed exactly once, in its own scheduler, with exactly the value or exception, and what the other thread did before is visible to it. Handles to the same future may be copied and dropped by different threads; the shared state is freed exactly once after the last of them. Tasks may be started on a scheduler from other threads and none is lost.",
  ["schedules", "programs"], "every interleaving of completing threads, awaiting coroutines and handle drops",
  "The callback tests complete after a real sleep, so completion never races with the suspension.",
  [I+"state.inl", "source/state.cpp", I+"counted_ptr.h", I+"state.h", I+"scheduler.h"],
  [("state lock around result and handler", I+"state.inl"), ("atomic reference count", I+"state.h")], [], ["values received", "thread of resumption", "use after free or leak"])

p("C21", "The queues under channels and waiters behave like a FIFO list of fixed capacity",
  "A bounded ring queue accepts a value exactly when it holds fewer than its capacity and gives values back in order, whole, and exactly once, reporting size, emptiness and fullness correctly at every point, for every capacity and index type and across wrap-around. An intrusive queue gives nodes back in the order pushed, removes exactly the node asked for, and reports emptiness and size truthfully. Values inside a destroyed queue are destroyed exactly once. A counted handle keeps its object alive exactly as long as some handle refers to it.",
  ["histories", "inputs"], "every sequence of push, pop, erase and queries, every capacity, element type and index width",
  "There is no test of these containers; channels in tests use few capacities and do not run long enough for index wrap-around.",
  [I+"ring_queue.h", I+"intrusive_link_queue.h", I+"counted_ptr.h"],
  [("read and write indices modulo capacity", I+"ring_queue.h"), ("head and tail links", I+"intrusive_link_queue.h")], [], ["values popped", "size/empty/full"])

p("C22", "Programs combining all primitives finish, stay consistent and release everything",
  "A program whose coroutines combine child awaits, channels, mutexes, events, sleeps, timed waits, scheduler switches and exceptions, in a way in which every wait is eventually satisfied, runs to completion on any number of schedulers. Every invariant of each primitive holds throughout, each step of each coroutine runs exactly once and in its program order, and an exception reaches exactly the awaiting coroutine while locks held by guards are released. Afterwards every scheduler is empty and every frame, state, timer and value has been released.",
  ["programs", "schedules", "histories"], "every generated program over all primitives, with every generated schedule",
  "Each tutorial exercises one primitive alone; the interactions (a lock held across a switch, a time-out while waiting for a mutex inside a child, an exception through a guard) are not exercised.",
  ["source/scheduler.cpp", "source/state.cpp", I+"state.inl", I+"channel_v2.inl", I+"mutex_v2.inl", I+"event_v2.inl", "source/timer.cpp", I+"switch_scheduler.h"],
  [("all of them", "source")], [], ["log of steps", "invariants", "heap"])

p("C23", "The library behaves the same under each of its documented build options",
  "Single-threaded programs behave identically (same steps in the same order, same results) whether the library is built with multi-thread support disabled or enabled, with its counters for debugging, with a user-supplied spin lock, with the real-size option of its queue, or as a release or debug build. Each of these configurations compiles and leaks nothing.",
  ["configurations", "programs"], "every generated single-threaded program, each supported configuration against the default one",
  "Tests are built in one configuration only.",
  ["config.h.in", I+"def.h", "source/scheduler.cpp", I+"scheduler.h", I+"ring_queue.h", I+"spinlock.h", I+"state.h"],
  [("preprocessor options", "config.h.in")], [], ["trace of the program under each configuration"])

p("C24", "Timers and sleeps put on a scheduler by other threads fire once, there, in time",
  "While the thread of a scheduler runs it and clears its timers, other threads may add timers to it and coroutines of other schedulers may sleep on it; any thread may stop a timer. Every timer so added calls its handler exactly once, in the thread that runs that scheduler, never before its due time, within one pass in due order, and with the cancel flag set only if it was stopped or the timers were cleared after it began to be added; at most one stop of it succeeds, and then its handler reports the cancellation; while such a timer is pending, its scheduler does not report itself empty to its own thread; what the adding thread did before is visible to the handler. Every such sleep ends exactly once, in the sleeper's own scheduler, not before its instant unless it reports the cancellation. Nothing is left behind.",
  ["programs", "schedules"], "every set of timers and sleeps added by several threads at any moment relative to the passes and clears of the scheduler's thread",
  "Tests add timers from one thread only.",
  ["source/timer.cpp", I+"timer.h", "source/sleep.cpp", I+"sleep.h", "source/scheduler.cpp"],
  [("list of newly added timers under a spin lock", "source/timer.cpp")], [], ["handler calls with flag, thread and virtual time", "data handed to the handler"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
