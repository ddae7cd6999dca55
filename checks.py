# What run.py builds and runs for each property.
def asan(name, src=None, **k): return dict(name=name, src=src or name + ".cpp", mode="asan", **k)
def dct(name, src=None, **k): return dict(name=name, src=src or name + ".cpp", mode="dct", **k)

DCT_ASSUME = [
    "threads interleave at atomic operations, plain memory accesses, mutex operations and yields of librf and of the program; one thread runs at a time (sequentially consistent execution), memory orders are checked by happens-before on the data handed over only",
    "code of libstdc++'s shared object runs without preemption inside",
]
ONE_ASSUME = ["one thread; time is virtual and moves only when the case moves it"]

def one(name): return dict(binaries=[asan(name)], assumptions=ONE_ASSUME)
def mt(name): return dict(binaries=[dct(name)], assumptions=DCT_ASSUME)

# the documented build options (config.h.in, CMakeLists.txt), the first one is what the others are compared with
CONFIGS = [
    ("default", []),
    ("no-multi-thread", ["-DRESUMEF_DISABLE_MULT_THREAD=1"]),
    ("counters", ["-DRESUMEF_DEBUG_COUNTER=1"]),
    ("own-spinlock", ["-DRESUMEF_USE_CUSTOM_SPINLOCK=std::mutex"]),
    ("real-size", ["-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE=1"]),
    ("debug", ["-D_DEBUG=1"]),
    ("release", ["-DNDEBUG=1"], "plain"),
    ("all", ["-DRESUMEF_DISABLE_MULT_THREAD=1", "-DRESUMEF_DEBUG_COUNTER=1", "-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE=1", "-DRESUMEF_USE_CUSTOM_SPINLOCK=std::mutex"]),
]
PLUGINS = [dict(name=c[0], src=["c23_plugin.cpp"], defs=c[1], mode=(c[2] if len(c) > 2 else "asan")) for c in CONFIGS]
THOROUGH = ("thorough",)
# the checks of other properties on other configurations (thorough tier)
OTHERS = [asan(src[:-4] + "@" + c[0], src, defs=c[1], tiers=THOROUGH, cases=40000)
          for c in CONFIGS[1:4] + CONFIGS[7:] for src in ("c01_future.cpp", "c03_channel.cpp", "c05_mutex.cpp", "c09_event_timed.cpp", "c12_sleep.cpp", "c13_when.cpp", "c17_stop_tasks.cpp")]

CHECKS = {
    "C01": one("c01_future"),
    "C02": dict(binaries=[asan("c02_sched"), dct("c02_drain_mt")], assumptions=ONE_ASSUME + DCT_ASSUME),
    "C03": one("c03_channel"),
    "C04": mt("c04_channel_mt"),
    "C05": one("c05_mutex"),
    "C06": mt("c06_mutex_mt"),
    "C07": mt("c07_batch"),
    "C08": one("c08_event"),
    "C09": one("c09_event_timed"),
    "C10": mt("c10_event_mt"),
    "C11": one("c11_timer"),
    "C12": one("c12_sleep"),
    "C13": dict(binaries=[asan("c13_when"), dct("c13_when_mt")], assumptions=ONE_ASSUME + DCT_ASSUME),
    "C14": mt("c14_affinity"),
    "C15": one("c15_stop"),
    "C16": mt("c16_stop_mt"),
    "C17": one("c17_stop_tasks"),
    "C18": one("c18_generator"),
    "C19": mt("c19_locks"),
    "C20": mt("c20_future_mt"),
    "C21": dict(binaries=[asan("c21_queues"), asan("c21_queues_rs", "c21_queues.cpp", defs=["-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE=1", "-D_QUEUE_REAL_SIZE"], only="ring")], assumptions=ONE_ASSUME),
    "C22": dict(binaries=[asan("c22_programs"), dct("c22_programs_mt")], assumptions=ONE_ASSUME + DCT_ASSUME),
    "C23": dict(binaries=[asan("c23_config", plugins=PLUGINS)] + OTHERS, assumptions=ONE_ASSUME + ["options are compared pairwise with the default build; the Windows and asio parts are not built here"]),
    "C24": mt("c24_timer_mt"),
}
