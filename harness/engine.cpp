// See vp.hpp. Compiled without sanitizer instrumentation.
#include "vp.hpp"
#include <atomic>
#include <map>
#include <new>
#include <string>
#include <unordered_set>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ------------------------------------------------------------------ allocation accounting
extern "C" void* vp_alloc_hook(size_t) __attribute__((weak));
extern "C" void vp_free_hook(void*) __attribute__((weak));

static std::atomic<int64_t> g_allocs{ 0 }, g_bytes{ 0 };
static int64_t g_base = 0;		// what lives before a case
constexpr size_t ALLOC_HDR = 16;

[[noreturn]] static void oom_fail();

static void* vp_alloc(size_t n)
{
	int64_t blocks = g_allocs.fetch_add(1, std::memory_order_relaxed) + 1;
	if (vp_alloc_hook) return vp_alloc_hook(n);		// the arena has its own limit
	int64_t b = g_bytes.fetch_add((int64_t)n, std::memory_order_relaxed) + (int64_t)n;
	// in a case: with what the sanitizer adds to a block, and so that eight workers fit into the memory
	if (vp::current ? b + blocks * 128 - g_base > (int64_t)600 << 20 : b > (int64_t)6000 << 20) oom_fail();
	void* p = malloc(n ? n : 1);
	if (!p) oom_fail();
	g_bytes.fetch_add((int64_t)malloc_usable_size(p) - (int64_t)n, std::memory_order_relaxed);
	return p;
}
static void vp_free(void* p)
{
	if (!p) return;
	g_allocs.fetch_sub(1, std::memory_order_relaxed);
	if (vp_free_hook) { vp_free_hook(p); return; }
	g_bytes.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
	free(p);
}

void* operator new(size_t n) { return vp_alloc(n); }
void* operator new[](size_t n) { return vp_alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vp_alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vp_alloc(n); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, size_t) noexcept { vp_free(p); }
void operator delete[](void* p, size_t) noexcept { vp_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vp_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vp_free(p); }

namespace vp
{
	int worker_slot = -1;
	int64_t live_allocs() { return g_allocs.load(std::memory_order_relaxed); }
	int64_t live_bytes() { return g_bytes.load(std::memory_order_relaxed); }
}

// ------------------------------------------------------------------ coverage counters
namespace
{
	struct CovRange { uint8_t* b; uint8_t* e; };
	CovRange g_cov[64];
	int g_ncov = 0;
}
extern "C" void __sanitizer_cov_8bit_counters_init(char* start, char* stop)
{
	if (start == stop) return;
	for (int i = 0; i < g_ncov; ++i) if (g_cov[i].b == (uint8_t*)start) return;
	if (g_ncov < 64) g_cov[g_ncov++] = { (uint8_t*)start, (uint8_t*)stop };
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

extern "C" const char* __asan_default_options()
{
	return "exitcode=78:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:"
		"malloc_context_size=12:quarantine_size_mb=64:handle_segv=1:symbolize=1:detect_odr_violation=0:max_malloc_fill_size=256:max_free_fill_size=256";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:exitcode=78"; }

namespace vp
{
	Case* current = nullptr;

	namespace
	{
		using u64 = uint64_t;
		inline u64 splitmix(u64& s) { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
		struct Rng { u64 s; u64 next() { return splitmix(s); } u64 below(u64 n) { return n <= 1 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); } };
		u64 hash_str(const char* s, u64 h = 1469598103934665603ull) { for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

		struct Label { const char* name; u64 n; };
		constexpr int MAX_LABELS = 160;
		constexpr size_t MAX_DISTINCT = 1 << 21;
		constexpr int NSAMPLES = 3;
		constexpr size_t SAMPLE_CAP = 3000;

		// shared with the parent
		struct Shm
		{
			volatile u64 case_index;
			volatile u64 evaluations;
			volatile u64 nontrivial;
			volatile u64 ndistinct;
			volatile u64 corpus;
			volatile u64 features;
			volatile u64 mutated;
			volatile int failed;
			volatile int finished;
			volatile u64 total_choices;
			u64 nchoices;
			uint32_t choices[MAX_CHOICES];
			char msg[MSG_CAP];
			size_t loglen;
			char logbuf[LOG_CAP];
			Label labels[MAX_LABELS];
			int nlabels;
			int nsamples;
			char samples[NSAMPLES][SAMPLE_CAP];
			u64 distinct[MAX_DISTINCT];
		};

		Shm* S = nullptr;			// of this process
		std::vector<Check>& checks() { static std::vector<Check> v; return v; }

		// choice source
		std::vector<uint32_t> g_prefix;
		size_t g_max_len = 4096;
		Rng g_rng{ 1 };
		bool g_tail_random = false;
		bool g_overrun = false;

		const Check* g_check = nullptr;

		Shm* map_shm()
		{
			void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
			return (Shm*)p;
		}
		void unmap_shm(Shm* s) { munmap(s, sizeof(Shm)); }

		double now_s() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (double)ts.tv_sec + ts.tv_nsec * 1e-9; }

		void vlog(const char* fmt, va_list ap, bool ident)
		{
			if (!S) return;
			size_t room = LOG_CAP - S->loglen;
			char tmp[2048];
			int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
			if (n < 0) return;
			if ((size_t)n >= sizeof tmp) n = sizeof tmp - 1;
			if (ident && current)
			{
				u64 h = current->hash_ ? current->hash_ : 1469598103934665603ull;
				for (int i = 0; i < n; ++i) h = (h ^ (uint8_t)tmp[i]) * 1099511628211ull;
				current->hash_ = (h ^ '\n') * 1099511628211ull;
			}
			if ((size_t)n + 2 < room)
			{
				memcpy(S->logbuf + S->loglen, tmp, n);
				S->loglen += n;
				S->logbuf[S->loglen++] = '\n';
				S->logbuf[S->loglen] = 0;
			}
		}
	}

	void add_check(const Check& c) { checks().push_back(c); }

	uint64_t Case::draw(uint64_t bound)
	{
		if (bound <= 1) return 0;
		if (bound > 0xffffffffull) bound = 0xffffffffull;
		size_t pos = S->nchoices;
		if (pos >= g_max_len || pos >= MAX_CHOICES) { g_overrun = true; return 0; }
		uint32_t v;
		if (pos < g_prefix.size()) v = (uint32_t)(g_prefix[pos] % bound);
		else v = g_tail_random ? (uint32_t)g_rng.below(bound) : 0;
		S->choices[pos] = v;
		S->nchoices = pos + 1;
		return v;
	}
	bool Case::overrun() const { return g_overrun; }
	size_t Case::weighted(std::initializer_list<unsigned> w)
	{
		unsigned t = 0; for (unsigned x : w) t += x;
		u64 v = draw(t); size_t i = 0;
		for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
		return 0;
	}
	size_t Case::size(size_t lo, size_t hi)
	{
		if (hi <= lo) return lo;
		// half of the time uniform, else small
		size_t span = hi - lo;
		size_t k = draw(4);
		size_t cap = k == 0 ? std::min<size_t>(span, 2) : k == 1 ? std::min<size_t>(span, span / 3 + 1) : span;
		return lo + draw(cap + 1);
	}
	uint32_t Case::geometric(uint32_t mean)
	{
		// approximately geometric with the given mean, built from one uniform draw
		if (mean <= 1) return 1;
		u64 u = draw(1 << 16);
		if (u == 0) return mean * 11 + 1;	// "never soon": simplest schedule has few preemptions
		double x = -__builtin_log((double)u / (1 << 16)) * mean;
		return (uint32_t)x + 1;
	}
	void Case::log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(fmt, ap, true); va_end(ap); }
	void Case::note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(fmt, ap, false); va_end(ap); }
	void Case::fail(const char* fmt, ...)
	{
		va_list ap; va_start(ap, fmt);
		vsnprintf(S->msg, MSG_CAP, fmt, ap);
		va_end(ap);
		S->failed = 1;
		_exit(77);
	}
	void Case::check(bool ok, const char* fmt, ...)
	{
		if (ok) return;
		va_list ap; va_start(ap, fmt);
		vsnprintf(S->msg, MSG_CAP, fmt, ap);
		va_end(ap);
		S->failed = 1;
		_exit(77);
	}
	void Case::label(const char* name, uint64_t n)
	{
		for (int i = 0; i < S->nlabels; ++i) if (S->labels[i].name == name) { S->labels[i].n += n; return; }
		if (S->nlabels < MAX_LABELS) S->labels[S->nlabels++] = { name, n };
	}

	namespace
	{
		struct Corpus
		{
			std::vector<std::vector<uint32_t>> items;
			std::vector<uint8_t> seen;
			size_t nfeat = 0;
			size_t total = 0;
			void init() { size_t n = 0; for (int i = 0; i < g_ncov; ++i) n += g_cov[i].e - g_cov[i].b; seen.assign(n, 0); total = n; }
			static uint8_t bucket(uint8_t c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }
			void clear_counters() { for (int i = 0; i < g_ncov; ++i) memset(g_cov[i].b, 0, g_cov[i].e - g_cov[i].b); }
			bool harvest()
			{
				bool fresh = false; size_t off = 0;
				for (int i = 0; i < g_ncov; ++i)
				{
					uint8_t* b = g_cov[i].b; size_t n = g_cov[i].e - b; size_t j = 0;
					for (; j + 8 <= n; j += 8)
					{
						u64 w; memcpy(&w, b + j, 8); if (!w) continue;
						for (size_t k = j; k < j + 8; ++k) { uint8_t bk = bucket(b[k]); if (bk & ~seen[off + k]) { seen[off + k] |= bk; fresh = true; ++nfeat; } }
					}
					for (; j < n; ++j) { uint8_t bk = bucket(b[j]); if (bk & ~seen[off + j]) { seen[off + j] |= bk; fresh = true; ++nfeat; } }
					off += n;
				}
				return fresh;
			}
		};

		void set_limits(unsigned cpu_s)
		{
			itimerval it{}; it.it_value.tv_sec = cpu_s; setitimer(ITIMER_PROF, &it, nullptr);
			itimerval rt{}; rt.it_value.tv_sec = cpu_s * 3 + 30; setitimer(ITIMER_REAL, &rt, nullptr);
		}
		void clear_limits() { itimerval z{}; setitimer(ITIMER_PROF, &z, nullptr); setitimer(ITIMER_REAL, &z, nullptr); }

		void run_one(const Check& ck)
		{
			S->nchoices = 0; S->loglen = 0; S->logbuf[0] = 0; S->msg[0] = 0; g_overrun = false;
			Case c; current = &c; g_base = g_bytes.load() + g_allocs.load() * 128;
			set_limits(ck.cpu_limit_s);
			ck.run(c);
			S->evaluations = S->evaluations + 1;
			S->total_choices = S->total_choices + S->nchoices;
			if (g_overrun) c.label("choice budget exhausted");
			if (c.nontrivial_)
			{
				S->nontrivial = S->nontrivial + 1;
				u64 n = S->ndistinct;
				if (n < MAX_DISTINCT) { S->distinct[n] = c.hash_; S->ndistinct = n + 1; }
				if (S->nsamples < NSAMPLES && S->loglen > 0 && (S->nontrivial == 1 || S->nontrivial == 7 || S->nontrivial == 40))
				{
					snprintf(S->samples[S->nsamples], SAMPLE_CAP, "%s", S->logbuf);
					S->nsamples = S->nsamples + 1;
				}
			}
			current = nullptr;
		}

		void prepare_child(const char* errfile)
		{
			int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
			int nul = open("/dev/null", O_WRONLY);
			if (nul >= 0) { dup2(nul, 1); close(nul); }
			rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			signal(SIGPROF, SIG_DFL); signal(SIGALRM, SIG_DFL);
		}

		u64 g_seed = 1;

		// runs cases from..to (exclusive) with stride; deterministic given (seed, worker)
		void worker_loop(const Check& ck, unsigned w, unsigned stride, u64 total, double deadline, u64 upto)
		{
			Corpus co; co.init();
			if (ck.warmup) { ck.warmup(); }
			g_max_len = std::min<size_t>(ck.max_len, MAX_CHOICES);
			Rng mr{ g_seed * 0x9E3779B97F4A7C15ull + hash_str(ck.id) + w * 7919 };
			std::unordered_set<u64> distinct;
			for (u64 i = w; i < total && i <= upto; i += stride)
			{
				if ((i / stride) % 16 == 0 && now_s() > deadline) break;
				S->case_index = i;
				u64 s = g_seed * 0xD1342543DE82EF95ull + hash_str(ck.id) * 31 + i * 0x2545F4914F6CDD1Dull;
				g_rng.s = splitmix(s);
				g_tail_random = true;
				g_prefix.clear();
				if (ck.coverage && co.total && !co.items.empty() && mr.below(3) == 0)
				{
					S->mutated = S->mutated + 1;
					g_prefix = co.items[mr.below(2) ? mr.below(co.items.size()) : co.items.size() - 1 - mr.below(std::min<size_t>(co.items.size(), 32))];
					unsigned nm = 1 + (unsigned)mr.below(4);
					for (unsigned k = 0; k < nm && !g_prefix.empty(); ++k)
					{
						size_t n = g_prefix.size(), p = mr.below(n);
						switch (mr.below(7))
						{
						case 0: g_prefix[p] = (uint32_t)mr.next(); break;
						case 1: g_prefix[p] = (uint32_t)mr.below(8); break;
						case 2: g_prefix[p] += (uint32_t)mr.below(3) - 1; break;
						case 3: { size_t m = 1 + mr.below(std::min<size_t>(16, n - p)); g_prefix.erase(g_prefix.begin() + p, g_prefix.begin() + p + m); break; }
						case 4: { size_t m = 1 + mr.below(std::min<size_t>(16, n - p)); std::vector<uint32_t> ch(g_prefix.begin() + p, g_prefix.begin() + p + m); size_t q = mr.below(n + 1); g_prefix.insert(g_prefix.begin() + q, ch.begin(), ch.end()); break; }
						case 5: g_prefix.resize(p); break;
						case 6: { auto& o = co.items[mr.below(co.items.size())]; if (!o.empty()) { size_t q = mr.below(o.size()); g_prefix.resize(p); g_prefix.insert(g_prefix.end(), o.begin() + q, o.end()); } break; }
						}
					}
				}
				if (ck.coverage) co.clear_counters();
				run_one(ck);
				if (ck.coverage && co.total && co.harvest() && co.items.size() < 4000)
				{
					co.items.emplace_back(S->choices, S->choices + S->nchoices);
					S->corpus = co.items.size();
				}
				S->features = co.nfeat;
			}
			clear_limits();
			S->finished = 1;
		}

		struct Outcome { bool failed = false; bool inconclusive = false; std::string what; };

		std::string tmpdir()
		{
			static std::string d;
			if (d.empty())
			{
				const char* t = getenv("VP_TMP"); std::string base = t ? t : "/tmp";
				char buf[512]; snprintf(buf, sizeof buf, "%s/vp.%d.XXXXXX", base.c_str(), (int)getpid());
				if (!mkdtemp(buf)) { perror("mkdtemp"); exit(3); }
				d = buf;
			}
			return d;
		}

		std::string read_file(const std::string& p, size_t cap = 1 << 20)
		{
			std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
			char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < cap) s.append(b, n);
			fclose(f); return s;
		}

		std::string digest_stderr(const std::string& t)
		{
			std::string out; size_t pos = 0; int kept = 0;
			while (pos < t.size() && kept < 10)
			{
				size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size();
				std::string line = t.substr(pos, e - pos); pos = e + 1;
				bool want = line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("Assertion") != std::string::npos
					|| line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos
					|| ((line.find("    #") == 0) && line.find("librf") != std::string::npos);
				if (want) { if (!out.empty()) out += " | "; out += line.substr(0, 300); ++kept; }
			}
			return out;
		}

		Outcome classify(int st, Shm* sh, const std::string& errfile, bool need_finish)
		{
			Outcome o;
			if (WIFEXITED(st))
			{
				int c = WEXITSTATUS(st);
				if (c == 0) { if (need_finish && !sh->finished) { o.failed = true; o.what = "the process ended inside the case (exit 0)"; } return o; }
				o.failed = true;
				if (c == 77) o.what = sh->msg;
				else if (c == 3) { o.failed = false; o.inconclusive = true; o.what = "engine error"; }
				else if (c == 78) o.what = "sanitizer report: " + digest_stderr(read_file(errfile));
				else { o.what = "exit code " + std::to_string(c) + " " + digest_stderr(read_file(errfile)); }
				return o;
			}
			int sg = WTERMSIG(st);
			if (sg == SIGKILL) { o.inconclusive = true; o.what = "killed from outside"; return o; }
			o.failed = true;
			if (sg == SIGPROF) o.what = "no end: the case used its whole processor-time limit (livelock or deadlock)";
			else if (sg == SIGALRM) o.what = "no end: the case is blocked (deadlock)";
			else o.what = std::string("signal ") + strsignal(sg) + ": " + digest_stderr(read_file(errfile));
			if (sh->msg[0] && sh->failed) o.what = std::string(sh->msg) + " / " + o.what;
			return o;
		}

		// runs one choice sequence in a fresh process
		Outcome run_choices(const Check& ck, const std::vector<uint32_t>& choices, Shm* sh)
		{
			static int serial = 0;
			std::string err = tmpdir() + "/r" + std::to_string(serial++ % 16);
			sh->failed = 0; sh->finished = 0; sh->msg[0] = 0; sh->nlabels = 0; sh->evaluations = 0; sh->nontrivial = 0; sh->ndistinct = 0; sh->nsamples = 0;
			fflush(stdout);
			pid_t p = fork();
			if (p < 0) { Outcome o; o.inconclusive = true; return o; }
			if (p == 0)
			{
				prepare_child(err.c_str());
				S = sh;
				if (ck.warmup) ck.warmup();
				g_prefix = choices; g_tail_random = false; g_max_len = std::min<size_t>(ck.max_len, MAX_CHOICES);
				run_one(ck);
				clear_limits();
				sh->finished = 1;
				_exit(0);
			}
			int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
			return classify(st, sh, err, true);
		}

		Outcome run_prefix_of_worker(const Check& ck, unsigned w, unsigned stride, u64 total, u64 upto, Shm* sh)
		{
			std::string err = tmpdir() + "/p";
			memset((void*)sh, 0, offsetof(Shm, distinct));
			fflush(stdout);
			pid_t p = fork();
			if (p < 0) { Outcome o; o.inconclusive = true; return o; }
			if (p == 0) { prepare_child(err.c_str()); S = sh; worker_loop(ck, w, stride, total, now_s() + 1e9, upto); _exit(0); }
			int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
			Outcome o = classify(st, sh, err, true);
			if (o.failed && sh->case_index != upto) o.what += " (at case " + std::to_string(sh->case_index) + ")";
			return o;
		}

		std::vector<uint32_t> shrink(const Check& ck, std::vector<uint32_t> cur, Shm* sh, double budget_s, std::string& what)
		{
			double end = now_s() + budget_s;
			auto attempt = [&](const std::vector<uint32_t>& c) -> bool
			{
				if (now_s() > end) return false;
				Outcome o = run_choices(ck, c, sh);
				if (!o.failed) return false;
				what = o.what;
				cur.assign(sh->choices, sh->choices + std::min<u64>(sh->nchoices, c.size()));
				while (!cur.empty() && cur.back() == 0) cur.pop_back();
				return true;
			};
			bool progress = true;
			while (progress && now_s() < end)
			{
				progress = false;
				for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1; chunk /= 2)
				{
					for (size_t i = 0; i + chunk <= cur.size() && now_s() < end;)
					{
						std::vector<uint32_t> c = cur; c.erase(c.begin() + i, c.begin() + i + chunk);
						if (attempt(c)) progress = true; else i += chunk;
					}
					if (chunk == 1) break;
				}
				for (size_t chunk : { (size_t)16, (size_t)4, (size_t)1 })
					for (size_t i = 0; i < cur.size() && now_s() < end; i += chunk)
					{
						size_t e = std::min(cur.size(), i + chunk); bool nz = false;
						for (size_t k = i; k < e; ++k) nz |= cur[k] != 0;
						if (!nz) continue;
						std::vector<uint32_t> c = cur; for (size_t k = i; k < e; ++k) c[k] = 0;
						if (attempt(c)) progress = true;
					}
				for (size_t i = 0; i < cur.size() && now_s() < end; ++i)
				{
					uint32_t lo = 0, hi = cur[i];
					while (lo < hi && i < cur.size() && now_s() < end)
					{
						uint32_t mid = lo + (hi - lo) / 2;
						std::vector<uint32_t> c = cur; c[i] = mid;
						if (attempt(c)) { progress = true; hi = mid; if (i >= cur.size()) break; }
						else lo = mid + 1;
						if (hi - lo > 64) break;
					}
				}
			}
			return cur;
		}

		std::string json_escape(const std::string& s)
		{
			std::string o; for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += ch; } return o;
		}
	}

	int engine_main(int argc, char** argv)
	{
		std::string out, replay, replay_dir = ".", only, prop = "C00"; std::string tier = "quick"; u64 cases_override = 0; double cap = 0; bool verbose = false; unsigned workers = 8; double shrink_s = 60;
		const char* es = getenv("VERIF_SEED"); if (es && *es) g_seed = strtoull(es, nullptr, 10);
		const char* et = getenv("VERIF_TIER"); if (et && *et) tier = et;
		double scale = 1;
		for (int i = 1; i < argc; ++i)
		{
			std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replay-dir") replay_dir = nx();
			else if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), nullptr, 10);
			else if (a == "--cases") cases_override = strtoull(nx().c_str(), nullptr, 10); else if (a == "--cap") cap = atof(nx().c_str());
			else if (a == "--check") only = nx(); else if (a == "--verbose") verbose = true; else if (a == "--workers") workers = atoi(nx().c_str());
			else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--shrink") shrink_s = atof(nx().c_str());
		}
		bool thorough = tier == "thorough";
		if (cap <= 0) cap = thorough ? 1500 : 400;

		if (!replay.empty())
		{
			// file: "check <id>" / "choices n n n ..." lines
			std::string t = read_file(replay); std::string cid; std::vector<uint32_t> ch; bool pre = false; unsigned w = 0; u64 upto = 0, total = 0, seed = g_seed;
			size_t p = t.find("check "); if (p != std::string::npos) cid = t.substr(p + 6, t.find('\n', p) - p - 6);
			p = t.find("\nchoices"); if (p != std::string::npos) { const char* s = t.c_str() + p + 8; char* e; for (;;) { while (*s == ' ') ++s; if (*s == '\n' || !*s) break; unsigned long v = strtoul(s, &e, 10); if (e == s) break; ch.push_back((uint32_t)v); s = e; } }
			p = t.find("\nworker "); if (p != std::string::npos) { pre = true; unsigned long long a, b, d, f; if (sscanf(t.c_str() + p, "\nworker %llu upto %llu total %llu seed %llu", &a, &b, &d, &f) == 4) { w = a; upto = b; total = d; seed = f; } }
			for (auto& ck : checks()) if (cid == ck.id)
			{
				Shm* sh = map_shm(); g_seed = seed;
				Outcome o = pre ? run_prefix_of_worker(ck, w, workers, total, upto, sh) : run_choices(ck, ch, sh);
				printf("%s\n", sh->logbuf);
				printf("%s %s\n", o.failed ? "FAILS:" : o.inconclusive ? "INCONCLUSIVE:" : "PASSES", o.what.c_str());
				return o.failed ? 1 : 0;
			}
			printf("no such check: %s\n", cid.c_str()); return 3;
		}

		FILE* of = out.empty() ? stdout : fopen(out.c_str(), "w");
		if (!of) { perror("out"); return 3; }
		fprintf(of, "{\"checks\":[");
		bool violation = false, first = true; double t_all = now_s(); bool broken = false;
		double total_weight = 0; for (auto& ck : checks()) if (only.empty() || only == ck.id) total_weight += 1;
		for (auto& ck : checks())
		{
			if (!only.empty() && only != ck.id) continue;
			g_check = &ck;
			double t0 = now_s();
			double left = cap - (now_s() - t_all);
			double deadline = t0 + std::max(5.0, left / std::max(1.0, total_weight)); total_weight -= 1;
			u64 total = cases_override ? cases_override : (u64)((thorough ? ck.thorough_cases : ck.quick_cases) * scale);
			std::vector<Shm*> sh(workers); std::vector<pid_t> pid(workers); std::vector<u64> next(workers);
			for (unsigned w = 0; w < workers; ++w) { sh[w] = map_shm(); pid[w] = -1; }
			auto spawn = [&](unsigned w)
			{
				fflush(of); fflush(stdout);
				pid_t p = fork();
				if (p == 0)
				{ worker_slot = (int)w;
					std::string err = tmpdir() + "/w" + std::to_string(w); prepare_child(err.c_str());
					S = sh[w]; S->finished = 0; S->failed = 0;
					worker_loop(ck, w, workers, total, deadline, ~0ull);
					_exit(0);
				}
				pid[w] = p;
			};
			tmpdir();
			for (unsigned w = 0; w < workers; ++w) spawn(w);
			int failing = -1; Outcome fo; unsigned unconfirmed = 0; std::string unconf_what; std::string vio_replay, vio_what; unsigned inconclusive = 0;
			unsigned running = workers;
			while (running > 0)
			{
				int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
				unsigned w = 0; for (; w < workers; ++w) if (pid[w] == p) break; if (w == workers) continue;
				pid[w] = -1; --running;
				Outcome o = classify(st, sh[w], tmpdir() + "/w" + std::to_string(w), true);
				if (o.inconclusive) { ++inconclusive; continue; }
				if (!o.failed) continue;
				// stop everything, confirm
				std::vector<uint32_t> ch(sh[w]->choices, sh[w]->choices + sh[w]->nchoices); u64 idx = sh[w]->case_index;
				std::string errtext = read_file(tmpdir() + "/w" + std::to_string(w), 20000);
				Shm* rs = map_shm(); int ok = 0; Outcome last = o;
				for (int k = 0; k < 3; ++k) { Outcome r = run_choices(ck, ch, rs); if (r.failed) { ++ok; last = r; } else break; }
				bool as_prefix = false;
				if (ok < 3)
				{
					ok = 0;
					for (int k = 0; k < 3; ++k) { Outcome r = run_prefix_of_worker(ck, w, workers, total, idx, rs); if (r.failed) { ++ok; last = r; } else break; }
					as_prefix = ok == 3;
				}
				if (ok == 3)
				{
					failing = (int)w; fo = last;
					for (unsigned v = 0; v < workers; ++v) if (pid[v] > 0) { kill(pid[v], SIGKILL); }
					for (unsigned v = 0; v < workers; ++v) if (pid[v] > 0) { int s2; waitpid(pid[v], &s2, 0); pid[v] = -1; }
					running = 0;
					std::string what = last.what; std::vector<uint32_t> small = ch; size_t orig = ch.size();
					if (!as_prefix) small = shrink(ck, ch, rs, shrink_s, what);
					if (!as_prefix) { Outcome r = run_choices(ck, small, rs); if (r.failed) what = r.what; }
					char name[512]; snprintf(name, sizeof name, "%s/%s-%s-s%llu-c%llu.replay", replay_dir.c_str(), prop.c_str(), ck.id, (unsigned long long)g_seed, (unsigned long long)idx);
					FILE* rf = fopen(name, "w");
					if (rf)
					{
						fprintf(rf, "property %s\ncheck %s\n", prop.c_str(), ck.id);
						if (as_prefix) fprintf(rf, "worker %u upto %llu total %llu seed %llu\n", w, (unsigned long long)idx, (unsigned long long)total, (unsigned long long)g_seed);
						else { fprintf(rf, "choices"); for (auto v : small) fprintf(rf, " %u", v); fprintf(rf, "\n"); }
						fprintf(rf, "seed %llu case %llu; %zu choices before shrinking, %zu after; confirmed 3 of 3\nwhat: %s\n\n", (unsigned long long)g_seed, (unsigned long long)idx, orig, small.size(), what.c_str());
						fprintf(rf, "--- case (shrunk) ---\n%s\n--- stderr of the first failure ---\n%s\n", rs->logbuf, errtext.c_str());
						fclose(rf);
					}
					vio_replay = name; vio_what = what;
				}
				else
				{
					++unconfirmed; unconf_what = o.what;
				}
				unmap_shm(rs);
				if (failing >= 0) break;
			}
			// merge
			u64 ev = 0, nt = 0, mut = 0, feat = 0, tc = 0, corp = 0; std::unordered_set<u64> dist; std::map<std::string, u64> labels; std::vector<std::string> samples;
			for (unsigned w = 0; w < workers; ++w)
			{
				ev += sh[w]->evaluations; nt += sh[w]->nontrivial; mut += sh[w]->mutated; feat = std::max<u64>(feat, (u64)sh[w]->features); tc += sh[w]->total_choices; corp += sh[w]->corpus;
				for (u64 k = 0; k < sh[w]->ndistinct; ++k) dist.insert(sh[w]->distinct[k]);
				for (int k = 0; k < sh[w]->nlabels; ++k) labels[sh[w]->labels[k].name] += sh[w]->labels[k].n;
				if (samples.size() < 3) for (int k = 0; k < sh[w]->nsamples && samples.size() < 3; ++k) samples.push_back(sh[w]->samples[(k + w) % sh[w]->nsamples]);
			}
			if (!first) fprintf(of, ","); first = false;
			fprintf(of, "{\"check\":\"%s\",\"rule\":\"%s\",\"planned\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"mutated\":%llu,\"corpus\":%llu,\"features\":%llu,\"avg_choices\":%.1f,\"unconfirmed\":%u,\"inconclusive_workers\":%u,\"wall_s\":%.2f,\"labels\":{", ck.id, json_escape(ck.rule).c_str(), (unsigned long long)total, (unsigned long long)ev, (unsigned long long)nt, dist.size(), (unsigned long long)mut, (unsigned long long)corp, (unsigned long long)feat, ev ? (double)tc / ev : 0.0, unconfirmed, inconclusive, now_s() - t0);
			bool f2 = true; for (auto& kv : labels) { fprintf(of, "%s\"%s\":%llu", f2 ? "" : ",", json_escape(kv.first).c_str(), (unsigned long long)kv.second); f2 = false; }
			fprintf(of, "},\"samples\":["); f2 = true; for (auto& s : samples) { fprintf(of, "%s\"%s\"", f2 ? "" : ",", json_escape(s).c_str()); f2 = false; }
			fprintf(of, "],\"unconfirmed_what\":\"%s\",\"violation\":%s,\"what\":\"%s\",\"replay\":\"%s\"}", json_escape(unconf_what).c_str(), failing >= 0 ? "true" : "false", json_escape(vio_what).c_str(), json_escape(vio_replay).c_str());
			fflush(of);
			if (verbose)
			{
				fprintf(stderr, "[%s] %llu/%llu cases, %llu nontrivial, %zu distinct, %llu mutated, corpus %llu, features %llu, avg choices %.1f, %.1fs%s\n", ck.id, (unsigned long long)ev, (unsigned long long)total, (unsigned long long)nt, dist.size(), (unsigned long long)mut, (unsigned long long)corp, (unsigned long long)feat, ev ? (double)tc / ev : 0.0, now_s() - t0, failing >= 0 ? " VIOLATION" : "");
				for (auto& kv : labels) fprintf(stderr, "    %-50s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
				if (failing >= 0) fprintf(stderr, "    %s\n    replay %s\n", vio_what.c_str(), vio_replay.c_str());
				if (unconfirmed) fprintf(stderr, "    UNCONFIRMED x%u: %s\n", unconfirmed, unconf_what.c_str());
			}
			for (unsigned w = 0; w < workers; ++w) unmap_shm(sh[w]);
			if (ev == 0 && failing < 0) broken = true;
			if (failing >= 0) { violation = true; break; }
		}
		fprintf(of, "],\"violation\":%s,\"wall_s\":%.2f}\n", violation ? "true" : "false", now_s() - t_all);
		if (of != stdout) fclose(of);
		{	// scratch of this run
			std::string d = tmpdir(); for (unsigned i = 0; i < 64; ++i) { unlink((d + "/w" + std::to_string(i)).c_str()); unlink((d + "/r" + std::to_string(i)).c_str()); } unlink((d + "/p").c_str()); rmdir(d.c_str());
		}
		return violation ? 1 : broken ? 3 : 0;
	}
}

static void oom_fail()
{
	if (vp::current) { const char* m = "unbounded memory growth (more than 600 MB in one case)"; if (vp::S) { strncpy(vp::S->msg, m, 200); vp::S->failed = 1; } _exit(77); }
	_exit(3);
}

int main(int argc, char** argv) { return vp::engine_main(argc, argv); }
