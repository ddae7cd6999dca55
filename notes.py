# Texts of MANIFEST.json.
_ONE = "Sampled search: every generated history agreed with the oracle. Histories are bounded in length (see DESIGN.md); time is virtual; address and undefined-behaviour sanitizers and the library's own asserts are active and every case also checks that nothing is leaked. Trusts the engine, the oracle and clang-16."
_MT = "Sampled search over programs and schedules: threads are run one at a time under a schedule drawn with the case (random quanta or random priorities with change points), preempting at atomic operations, plain memory accesses and mutex operations, with a use-after-free/out-of-bounds checker, a leak check and a happens-before data race check on all heap memory of the case. Sequentially consistent executions only; programs are small."
TECH = {
    "C01": "property-based testing: generated trees of awaiting coroutines against an expected-outcome oracle, coverage-guided, shrinking",
    "C02": "property-based testing: generated task programs driven pass by pass against a run-queue model, coverage-guided, shrinking; programs x schedules with threads adding to and completing tasks of a scheduler that is drained",
    "C03": "property-based testing: generated channel histories against a reference queue model, coverage-guided, shrinking",
    "C04": "property-based testing of programs x schedules with a controlled scheduler, FIFO/exactly-once oracle, shrinking",
    "C05": "stateful property-based testing of mutex histories against a reference FIFO mutex model, coverage-guided, shrinking",
    "C06": "property-based testing of programs x schedules with a controlled scheduler, mutual-exclusion and no-lost-wakeup oracle, shrinking",
    "C07": "property-based testing of programs x schedules with a controlled scheduler, all-or-nothing and progress oracle, shrinking",
    "C08": "stateful property-based testing of event histories against a reference counting model, coverage-guided, shrinking",
    "C09": "stateful property-based testing of timed and wait-all event histories against a reference model under virtual time, coverage-guided, shrinking",
    "C10": "property-based testing of programs x schedules with a controlled scheduler, signal-conservation and no-lost-wakeup oracle, shrinking",
    "C11": "stateful property-based testing of the timer manager against a model, coverage-guided, shrinking",
    "C12": "property-based testing: generated programs of sleeping coroutines under virtual time against a due-time model, coverage-guided, shrinking",
    "C13": "property-based testing: generated sets of tasks (one thread; and programs x schedules with a controlled scheduler) against a completion oracle, coverage-guided, shrinking",
    "C14": "property-based testing of programs x schedules with a controlled scheduler, thread-affinity and exactly-once oracle, shrinking",
    "C15": "stateful property-based testing of stop sources/tokens/callbacks against a model, coverage-guided, shrinking",
    "C16": "property-based testing of programs x schedules with a controlled scheduler, invocation-count oracle, shrinking",
    "C18": "stateful property-based testing of generators against the expected sequence, coverage-guided, shrinking",
}
TECH.update({
    "C17": "property-based testing: generated programs of tasks with stop tokens, stop requests and acting callbacks against a model, coverage-guided, shrinking",
    "C19": "property-based testing of programs x schedules with a controlled scheduler, mutual-exclusion, all-or-nothing and progress oracle, shrinking",
    "C20": "property-based testing of programs x schedules with a controlled scheduler, exactly-once delivery and lifetime oracle, shrinking",
    "C21": "stateful property-based testing of the containers against reference sequences, coverage-guided, shrinking",
    "C22": "property-based testing: generated programs over all primitives (one thread; and programs x schedules with a controlled scheduler), invariants of every primitive at every step and at rest, shrinking",
    "C23": "differential property-based testing: the same generated programs on the library built with each option, traces compared, shrinking",
    "C24": "property-based testing of programs x schedules with a controlled scheduler, exactly-once, due-time and visibility oracle, shrinking",
})
MT = {"C04", "C06", "C07", "C10", "C14", "C16", "C19", "C20", "C24"}
NOTE = {"C%02d" % i: (_MT if "C%02d" % i in MT else _ONE) for i in range(1, 25)}
NA = {}
for _i in ("C02", "C13", "C22"): NOTE[_i] = _ONE + " Checks with several threads: " + _MT
