// See dct.hpp. Compiled without instrumentation; provides the __tsan_* entry points.
#include "dct.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <new>

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;

namespace dct
{
	constexpr int MAXT = 10;

	// containers of the runtime itself live outside of the case's heap
	template<class A> struct MA { using value_type = A; MA() = default; template<class B> MA(const MA<B>&) {} A* allocate(size_t n) { return (A*)malloc(n * sizeof(A)); } void deallocate(A* p, size_t) { free(p); } bool operator==(const MA&) const { return true; } };

	struct VC { u32 c[MAXT] = {}; void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

	struct Thread
	{
		std::atomic<int> turn{ 0 };
		pthread_t pt{};
		bool alive = false, finished = false;
		const void* blocked_on = nullptr;
		int lost_races = 0;
		int prio = 0;
		int idle_round = 0; bool parked = false;
		const void* last_load = nullptr; unsigned same_loads = 0;
		VC vc, acq_fence, rel_fence;
		std::function<void()> body;
	};

	struct Watched { uintptr_t b, e; int wt; u32 wc; u32 rc[MAXT]; };

	static Thread T[MAXT];
	static int NT = 0;
	static int cur = -1;							// running thread
	static bool active = false;
	static std::atomic<int> done_all{ 0 };
	static thread_local int tl_self = -1;
	static thread_local int tl_off = 0;			// >0: no scheduling points
	static vp::Case* C = nullptr;
	static Options O;
	static u64 n_points, n_switches;
	static u32 countdown;
	static int strategy;							// 0: random quantum, 1: priorities with change points
	static u32 mean;
	static int hot;									// atomic operations on one class of heap addresses are preempted half of the time (0: none)
	static int lowest;
	static int round_no; static bool quiescent;
	using SyncMap = std::unordered_map<const void*, VC, std::hash<const void*>, std::equal_to<const void*>, MA<std::pair<const void* const, VC>>>;
	using WatchVec = std::vector<Watched, MA<Watched>>;
	static SyncMap* sync_vc;
	static WatchVec* watched;

	static void fwait(std::atomic<int>& a) { while (a.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a.store(0, std::memory_order_relaxed); }
	static void fwake(std::atomic<int>& a) { a.store(1, std::memory_order_release); syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

	[[noreturn]] static void report(const char* what)
	{
		++tl_off;
		void* bt[40]; int n = backtrace(bt, 40);
		backtrace_symbols_fd(bt, n, 2);
		C->fail("%s [thread %d, point %llu]", what, tl_self, (unsigned long long)n_points);
	}

	static bool runnable(int i) { return T[i].alive && !T[i].finished && T[i].blocked_on == nullptr; }

	static u32 geo(u32 m)
	{	// the default (choice 0) is a long quantum; it varies so that no fixed rhythm can starve a thread
		u32 v = C->geometric(m);
		if (v > 3000) v = 3000;					// a thread that spins without yielding must not use up the budget
		if (v == m * 11 + 1 || v == 3000) v += (u32)((n_points * 2654435761u) >> 20) % 61;
		return v;
	}
	static void new_quantum() { countdown = strategy == 0 ? geo(mean) : geo(mean * 8); }

	// picks the next thread; self excluded when 'away'
	static int choose(int self, bool away)
	{
		int cand[MAXT], n = 0;
		for (int k = 1; k <= NT; ++k) { int i = (self + k + NT) % NT; if (runnable(i) && !(away && i == self)) cand[n++] = i; }	// choice 0: the next one in turn
		if (n == 0) return (away && self >= 0 && runnable(self)) ? self : -1;
		if (strategy == 0)
		{
			return n == 1 ? cand[0] : cand[C->draw(n)];
		}
		int best = cand[0];
		for (int i = 1; i < n; ++i) if (T[cand[i]].prio > T[best].prio) best = cand[i];
		return best;
	}

	static void hand_over(int self, int next)
	{
		if (next == self) return;
		++n_switches;
		C->hash_ = (C->hash_ ^ (n_points * 31 + (unsigned)next)) * 1099511628211ull;		// a case is a program with a schedule
		cur = next;
		fwake(T[next].turn);
		if (self >= 0) fwait(T[self].turn);
	}

	static void deadlock() { report("deadlock: every thread is blocked on a lock"); }

	static void tick()
	{
		if (++n_points > O.max_points) report("no progress: the step budget is used up (livelock, deadlock or lost wake-up)");
	}

	static inline bool enabled() { return active && tl_self >= 0 && tl_off == 0; }

	static void sched_point()
	{
		tick();
		if (countdown > 1) { --countdown; return; }
		int self = tl_self;
		if (strategy == 1) T[self].prio = --lowest;			// change point
		new_quantum();
		int next = choose(self, false);
		if (next < 0) deadlock();
		hand_over(self, next);
	}

	static void sched_away()
	{
		tick();
		int self = tl_self;
		if (strategy == 1) T[self].prio = --lowest;
		int next = choose(self, true);
		if (next < 0) deadlock();
		if (strategy == 0) new_quantum();
		hand_over(self, next);
	}

	int self() { return tl_self; }
	void point() { if (enabled()) sched_point(); }
	void yield() { if (enabled()) sched_away(); }
	u64 points() { return n_points; }
	u64 switches() { return n_switches; }
	Atomic::Atomic() { ++tl_off; }
	Atomic::~Atomic() { --tl_off; }

	bool idle(bool worked)
	{
		if (!enabled()) return true;
		Thread& t = T[tl_self];
		if (worked)
		{
			round_no = 0; for (int i = 0; i < NT; ++i) T[i].idle_round = 0;
			sched_point();
			return false;
		}
		if (t.idle_round <= round_no) t.idle_round = round_no + 1;
		bool all = true;
		for (int i = 0; i < NT; ++i) if (T[i].alive && !T[i].finished && T[i].idle_round <= round_no) all = false;
		if (all && round_no < 4) ++round_no;
		if (round_no < 4) { sched_away(); return false; }
		// several whole rounds without work. Wait here until every thread is here: then nobody is in the
		// middle of anything (a thread may still find work by itself when the clock ticks)
		t.parked = true;
		while (round_no >= 4 && !quiescent)
		{
			bool here = true;
			for (int i = 0; i < NT; ++i) if (T[i].alive && !T[i].finished && !T[i].parked) here = false;
			if (here)
			{
				bool more = false;
				if (O.on_quiescent) { ++tl_off; more = O.on_quiescent(); --tl_off; }
				if (more) { round_no = 0; for (int i = 0; i < NT; ++i) T[i].idle_round = 0; }
				else quiescent = true;
				break;
			}
			sched_away();
		}
		t.parked = false;
		if (!quiescent) sched_away();
		return quiescent;
	}

	static void* thread_main(void* p)
	{
		int i = (int)(intptr_t)p;
		tl_self = i;
		fwait(T[i].turn);
		T[i].body();
		++tl_off;
		T[i].body = nullptr;
		T[i].finished = true;
		if (!quiescent) { round_no = 0; for (int k = 0; k < NT; ++k) T[k].idle_round = 0; }
		int next = choose(-1, false);
		if (next < 0)
		{
			bool any = false; for (int k = 0; k < NT; ++k) if (T[k].alive && !T[k].finished) any = true;
			if (any) deadlock();
			fwake(done_all);
			return nullptr;
		}
		if (strategy == 0) new_quantum();
		cur = next; ++n_switches;
		fwake(T[next].turn);
		return nullptr;
	}

	void arena_begin(); void arena_end(); static u32 word_epoch = 0;

	void run(vp::Case& c, std::vector<std::function<void()>> bodies, Options o)
	{
		static unsigned runs = 0; if (++runs % 64 == 0) usleep(200);		// lets the kernel free what the ended threads held
		if (!sync_vc) sync_vc = new (malloc(sizeof(SyncMap))) SyncMap;
		if (!watched) watched = new (malloc(sizeof(WatchVec))) WatchVec;
		static pid_t pinned = 0;
		if (pinned != getpid())
		{	// one thread runs at a time: hand-overs are much cheaper on one processor
			pinned = getpid();
			cpu_set_t all; CPU_ZERO(&all);
			if (sched_getaffinity(0, sizeof all, &all) == 0)
			{
				int n = CPU_COUNT(&all), k = n ? (int)((vp::worker_slot >= 0 ? vp::worker_slot : pinned) % n) : 0;
				for (int i = 0; i < CPU_SETSIZE && n > 0; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
			}
		}
		C = &c; O = std::move(o); n_points = n_switches = 0; round_no = 0; quiescent = false; lowest = 0;
		sync_vc->clear(); ++word_epoch;
		for (auto& w : *watched) { Watched f{}; f.b = w.b; f.e = w.e; f.wt = -1; w = f; }		// what was watched before: everything done so far is ordered before the threads
		static const u32 means[] = { 8, 2, 4, 20, 60, 250 };
		strategy = (int)c.draw(3) == 2 ? 1 : 0;
		mean = means[c.draw(6)];
		if (c.draw(2)) O.plain_points = false;		// preempt at atomic operations and locks only: fewer places, each tried more often
		hot = c.draw(3) == 2 ? 1 + (int)c.draw(8) : 0;
		if (hot) c.label("schedule: one class of locations preempted often");
		c.label(strategy ? "schedule: priorities + change points" : "schedule: random quanta");
		NT = (int)bodies.size();
		if (NT > MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
		for (int i = 0; i < NT; ++i)
		{
			Thread& t = T[i];
			t.turn = 0; t.alive = true; t.finished = false; t.blocked_on = nullptr; t.idle_round = 0; t.parked = false; t.last_load = nullptr; t.same_loads = 0;
			t.vc = VC{}; t.acq_fence = VC{}; t.rel_fence = VC{}; t.vc.c[i] = 1; t.body = std::move(bodies[i]); t.prio = 0;
		}
		if (strategy == 1)
		{	// random priorities
			for (int i = 0; i < NT; ++i) T[i].prio = 1000 + i;
			for (int i = NT - 1; i > 0; --i) std::swap(T[i].prio, T[c.draw(i + 1)].prio);
		}
		done_all = 0;
		new_quantum();
		pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
		for (int i = 0; i < NT; ++i)
			if (pthread_create(&T[i].pt, &at, thread_main, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(3); }
		pthread_attr_destroy(&at);
		active = true;
		cur = choose(-1, false);
		fwake(T[cur].turn);
		fwait(done_all);
		active = false;
		for (int i = 0; i < NT; ++i) { pthread_join(T[i].pt, nullptr); T[i].alive = false; }
		O.on_quiescent = nullptr;
		c.label("switches", n_switches);
		c.label("scheduling points", n_points);
	}

	// ---------------------------------------------------------------- happens-before of watched memory
	static void do_acquire(const void* a) { auto it = sync_vc->find(a); if (it != sync_vc->end()) T[tl_self].vc.join(it->second); }
	static void do_release(const void* a, bool fresh)
	{
		Thread& t = T[tl_self];
		VC& v = (*sync_vc)[a];
		if (fresh) v = t.vc; else v.join(t.vc);
		t.vc.c[tl_self]++;
	}
	void give(const void* p) { if (active && tl_self >= 0) { ++tl_off; do_release(p, false); --tl_off; } }
	void take(const void* p) { if (active && tl_self >= 0) { ++tl_off; do_acquire(p); --tl_off; } }
	void watch(const void* p, size_t n)
	{
		++tl_off;
		if (!watched) watched = new (malloc(sizeof(WatchVec))) WatchVec;
		Watched w{}; w.b = (uintptr_t)p; w.e = w.b + n; w.wt = -1;
		watched->push_back(w); --tl_off;
	}
	void unwatch(const void* p)
	{
		if (!watched) return; ++tl_off;
		for (size_t i = 0; i < watched->size(); ++i) if ((*watched)[i].b == (uintptr_t)p) { (*watched)[i] = watched->back(); watched->pop_back(); break; }
		--tl_off;
	}
	static void hb_access(uintptr_t a, size_t n, bool write)
	{
		for (auto& w : *watched)
		{
			if (a + n <= w.b || a >= w.e) continue;
			Thread& t = T[tl_self];
			if (w.wt >= 0 && w.wt != tl_self && w.wc > t.vc.c[w.wt]) report("data race on data handed over through the library (its last write is not ordered before this access)");
			if (write)
			{
				for (int i = 0; i < NT; ++i) if (i != tl_self && w.rc[i] > t.vc.c[i]) report("data race on data handed over through the library (a read is not ordered before this write)");
				w.wt = tl_self; w.wc = t.vc.c[tl_self];
			}
			else w.rc[tl_self] = t.vc.c[tl_self];
		}
	}

	// ---------------------------------------------------------------- memory: arena with quarantine
	constexpr size_t ARENA = 96u << 20;
	static u8* arena = nullptr; static u8* shadow = nullptr; static size_t arena_pos = 0; static bool in_arena = false; static size_t arena_high = 0;
	struct Hdr { u64 size; u64 magic; };
	constexpr u64 MAGIC_LIVE = 0xA11C0A7E5A5A5A5Aull, MAGIC_DEAD = 0xDEADF4EEDEADF4EEull;

	struct Word { u32 epoch; u8 wt, wmask; u32 wc; u32 rc[MAXT]; u8 rm[MAXT]; void* wpc; void* rpc; };
	static Word* words = nullptr; 
	void arena_begin()
	{
		if (watched) watched->clear();
		if (!arena)
		{
			arena = (u8*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			shadow = (u8*)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		}
		memset(shadow, 0, arena_high / 8 + 64);
		if (!words) words = (Word*)mmap(nullptr, ARENA / 8 * sizeof(Word), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		++word_epoch;
		arena_pos = 64; arena_high = 64; in_arena = true;
	}
	void arena_end() { in_arena = false; }
	// happens-before of every arena word (8 bytes): last write, last read of every thread
	extern "C" char exe_start __asm__("__executable_start");
	static void race(const char* what, void* before, void* now)
	{
		static char b[200]; snprintf(b, sizeof b, "data race: %s (code at +0x%lx and +0x%lx of the executable)", what, (long)((char*)before - &exe_start) - 1, (long)((char*)now - &exe_start) - 1);
		report(b);
	}
	static inline bool inside(uintptr_t a) { return arena && a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA; }

	static inline void word_access(uintptr_t a, size_t n, bool write, void* pc)
	{
		Thread& t = T[tl_self]; u32 my = t.vc.c[tl_self];
		size_t off = a - (uintptr_t)arena;
		while (n)
		{
			size_t lo = off & 7, k = 8 - lo < n ? 8 - lo : n; u8 mask = (u8)(((1u << k) - 1) << lo);
			Word& w = words[off >> 3];
			if (w.epoch != word_epoch) { memset(&w, 0, sizeof w); w.epoch = word_epoch; }
			if (w.wt && w.wt - 1 != tl_self && (w.wmask & mask) && w.wc > t.vc.c[w.wt - 1]) race("a write and a later access by another thread are not ordered", w.wpc, pc);
			if (write)
			{
				for (int i = 0; i < NT; ++i) if (i != tl_self && (w.rm[i] & mask) && w.rc[i] > t.vc.c[i]) race("a read and a later write by another thread are not ordered", w.rpc, pc);
				w.wt = (u8)(tl_self + 1); w.wc = my; w.wmask = mask; w.wpc = pc;
			}
			else { if (w.rc[tl_self] == my) w.rm[tl_self] |= mask; else { w.rc[tl_self] = my; w.rm[tl_self] = mask; } w.rpc = pc; }
			off += k; n -= k;
		}
	}
	static void mem_access(const void* p, size_t n, bool write, void* pc)
	{
		uintptr_t a = (uintptr_t)p;
		if (inside(a))
		{
			u8 s = shadow[(a - (uintptr_t)arena) >> 3];
			if (s != 1)
			{
				if (s == 2) report(write ? "heap use after free (write)" : "heap use after free (read)");
				else report(write ? "heap access out of bounds (write)" : "heap access out of bounds (read)");
			}
			if (O.races) word_access(a, n, write, pc);
		}
		if (!watched->empty()) hb_access(a, n, write);
	}
	static inline __attribute__((always_inline)) void plain(const void* p, size_t n, bool write)
	{
		if (!enabled()) return;
		if (O.plain_points)
		{	// accesses to the own stack need no scheduling point
			char here; uintptr_t d = (uintptr_t)p - (uintptr_t)&here;
			if (d + 4096 > 256 * 1024) sched_point();
		}
		mem_access(p, n, write, __builtin_return_address(0));
	}

	// atomic operations
	static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

	static inline void before_atomic(const void* a, size_t n, bool load)
	{
		if (!enabled()) return;
		Thread& t = T[tl_self];
		if (hot && inside((uintptr_t)a) && 1 + (int)((u32)(((uintptr_t)a - (uintptr_t)arena) >> 3) * 2654435761u >> 29) == hot && C->draw(2)) countdown = 1;
		if (load && t.last_load == a)
		{
			if (++t.same_loads >= 8) { t.same_loads = 0; sched_away(); }	// spinning
			else sched_point();
		}
		else
		{
			t.same_loads = 0; t.last_load = load ? a : nullptr;
			sched_point();
		}
		if (inside((uintptr_t)a) && shadow[((uintptr_t)a - (uintptr_t)arena) >> 3] != 1) report("heap use after free (atomic operation)");
		(void)n;
	}
	static inline void after_load(const void* a, int mo)
	{
		if (!enabled()) return;
		if (acq(mo)) do_acquire(a);
		else { auto it = sync_vc->find(a); if (it != sync_vc->end()) T[tl_self].acq_fence.join(it->second); }
	}
	static inline void before_store(const void* a, int mo)
	{
		if (!enabled()) return;
		if (rel(mo)) do_release(a, true);
		else (*sync_vc)[a] = T[tl_self].rel_fence;		// a relaxed store starts no release sequence of its own
	}
	static inline void rmw(const void* a, int mo)
	{
		if (!enabled()) return;
		if (acq(mo)) do_acquire(a); else { auto it = sync_vc->find(a); if (it != sync_vc->end()) T[tl_self].acq_fence.join(it->second); }
		if (rel(mo)) do_release(a, false); else (*sync_vc)[a].join(T[tl_self].rel_fence);
	}
	static void fence(int mo)
	{
		if (!enabled()) return;
		sched_point();
		Thread& t = T[tl_self];
		if (acq(mo)) t.vc.join(t.acq_fence);
		if (rel(mo)) { t.rel_fence = t.vc; t.vc.c[tl_self]++; }
	}
}

// what the case starts and ends with: harness calls these around everything that uses the library
namespace dct_arena { void begin() { dct::arena_begin(); } void end() { dct::arena_end(); } }

extern "C" void* vp_alloc_hook(size_t n)
{
	using namespace dct;
	if (!in_arena || tl_off > 0) return malloc(n ? n : 1);
	size_t need = sizeof(Hdr) + ((n + 15) & ~(size_t)15) + 16;
	if (arena_pos + need > ARENA) { if (vp::current) vp::current->fail("unbounded memory growth (more than %zu MB allocated in one case)", ARENA >> 20); _exit(3); }
	u8* p = arena + arena_pos; arena_pos += need; if (arena_pos > arena_high) arena_high = arena_pos;
	Hdr* h = (Hdr*)p; h->size = n; h->magic = MAGIC_LIVE;
	u8* q = p + sizeof(Hdr);
	memset(shadow + ((q - arena) >> 3), 1, (n + 7) / 8);
	memset(q, 0xCD, n);
	return q;
}
extern "C" void vp_free_hook(void* p)
{
	using namespace dct;
	if (!inside((uintptr_t)p)) { free(p); return; }
	Hdr* h = (Hdr*)((u8*)p - sizeof(Hdr));
	if (h->magic != MAGIC_LIVE) { if (C && active) report(h->magic == MAGIC_DEAD ? "double free" : "free of an invalid pointer"); if (vp::current) vp::current->fail(h->magic == MAGIC_DEAD ? "double free" : "free of an invalid pointer"); _exit(3); }
	h->magic = MAGIC_DEAD;
	memset(shadow + (((u8*)p - arena) >> 3), 2, (h->size + 7) / 8);
	memset(p, 0xDD, h->size);
}

// ---------------------------------------------------------------- blocking primitives
static int (*real_trylock)(pthread_mutex_t*), (*real_lock)(pthread_mutex_t*), (*real_unlock)(pthread_mutex_t*);
static void resolve()
{
	if (real_unlock) return;
	real_trylock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	real_lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
	real_unlock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	using namespace dct;
	resolve();
	if (!enabled()) return real_lock(m);
	sched_point();
	for (;;)
	{
		int r = real_trylock(m);
		if (r != EBUSY) { T[tl_self].lost_races = 0; do_acquire(m); return r; }
		++T[tl_self].lost_races;
		T[tl_self].blocked_on = m;
		int next = choose(tl_self, true);
		if (next < 0) deadlock();
		tick();
		hand_over(tl_self, next);
	}
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	using namespace dct;
	resolve();
	if (enabled()) sched_point();
	int r = real_trylock(m);
	if (enabled() && r == 0) do_acquire(m);
	return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	using namespace dct;
	resolve();
	if (!enabled()) return real_unlock(m);
	do_release(m, true);
	int r = real_unlock(m);
	int starving = -1;
	for (int i = 0; i < NT; ++i) if (T[i].blocked_on == m) { T[i].blocked_on = nullptr; if (T[i].lost_races > 3) starving = i; }
	if (starving >= 0) { tick(); hand_over(tl_self, starving); }
	else sched_point();
	return r;
}
extern "C" int sched_yield() noexcept { dct::yield(); return 0; }
extern "C" int nanosleep(const struct timespec* a, struct timespec* b) { if (dct::enabled()) { dct::yield(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { dct::yield(); return 0; }

// ---------------------------------------------------------------- compiler interface
#define ATOMICS(N, TY) \
extern "C" TY __tsan_atomic##N##_load(const volatile TY* a, int mo) { dct::before_atomic((void*)a, sizeof(TY), true); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); dct::after_load((void*)a, mo); return v; } \
extern "C" void __tsan_atomic##N##_store(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::before_store((void*)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int mo) { dct::before_atomic((void*)a, sizeof(TY), false); dct::rmw((void*)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
static int cas##N(volatile TY* a, TY* c, TY v, int mo, int fmo) { dct::before_atomic((void*)a, sizeof(TY), true); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) { dct::rmw((void*)a, mo); } else dct::after_load((void*)a, fmo); return ok; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo); } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { return cas##N(a, c, v, mo, fmo); } \
extern "C" TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { cas##N(a, &c, v, mo, fmo); return c; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
extern "C" void __tsan_atomic_thread_fence(int mo) { dct::fence(mo); }
extern "C" void __tsan_atomic_signal_fence(int) {}

#define RW(N) \
extern "C" void __tsan_read##N(void* p) { dct::plain(p, N, false); } \
extern "C" void __tsan_write##N(void* p) { dct::plain(p, N, true); } \
extern "C" void __tsan_unaligned_read##N(void* p) { dct::plain(p, N, false); } \
extern "C" void __tsan_unaligned_write##N(void* p) { dct::plain(p, N, true); } \
extern "C" void __tsan_read_write##N(void* p) { dct::plain(p, N, false); dct::plain(p, N, true); } \
extern "C" void __tsan_unaligned_read_write##N(void* p) { dct::plain(p, N, false); dct::plain(p, N, true); } \
extern "C" void __tsan_volatile_read##N(void* p) { dct::plain(p, N, false); } \
extern "C" void __tsan_volatile_write##N(void* p) { dct::plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_read_range(void* p, unsigned long n) { dct::plain(p, n, false); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { dct::plain(p, n, true); }
extern "C" void __tsan_vptr_update(void** p, void*) { dct::plain(p, 8, true); }
extern "C" void __tsan_vptr_read(void** p) { dct::plain(p, 8, false); }
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}
extern "C" void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { dct::plain((void*)s, n, false); dct::plain(d, n, true); } return memcpy(d, s, n); }
extern "C" void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { dct::plain((void*)s, n, false); dct::plain(d, n, true); } return memmove(d, s, n); }
extern "C" void* __tsan_memset(void* d, int v, size_t n) { if (n) dct::plain(d, n, true); return memset(d, v, n); }
