// Supervisor: explores seeds in forked workers, replays and minimises tapes.
#include "core.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cstdlib>
#include <cinttypes>
#include <iostream>
#include <streambuf>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <functional>
#include <memory>
#include <system_error>
#include <ios>
#include <new>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=8:malloc_context_size=0:"
		"detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1:"
		"print_summary=1:alloc_dealloc_mismatch=0:symbolize=0:max_allocation_size_mb=4096";
}
extern "C" const char* __ubsan_default_options() {
	return "print_stacktrace=0:exitcode=77";
}
#endif

namespace sim {

Shared* sh {};
Mask target {};
int targetProp {};
bool verbose {};
thread_local Ctx* ctx {};

static int indent = 0;

Indent::Indent() { ++indent; }
Indent::~Indent() { --indent; }

void logText(const char* fmt, ...) {
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	char out[1280];
	int n;
	if(ctx && ctx->actor >= 0) {
		n = snprintf(out, sizeof(out), "  [T%d] %s\n", ctx->actor, buf);
	} else {
		n = snprintf(out, sizeof(out), "  %*s%s\n", indent * 2, "", buf);
	}
	(void)! ::write(1, out, std::min<std::size_t>(n, sizeof(out) - 1));
}

void recordDraw(std::uint32_t v) {
	auto& c = *ctx;
	if(c.toShared) {
		if(sh->tapeLen < maxTape) {
			sh->tape[sh->tapeLen++] = v;
		}
		// a run cannot be repeated when its tape is too long
		else broken("tape too long");
	}
	if(c.record) {
		ctx = nullptr; // not part of the simulated system
		c.record->push_back(v);
		ctx = &c;
	}
}

std::uint64_t* counter(const char* name) {
	auto h = fnv(name) % maxCounters;
	for(std::size_t i = 0; i < maxCounters; ++i) {
		auto& c = sh->counters[(h + i) % maxCounters];
		if(!c.name[0]) {
			std::strncpy(c.name, name, sizeof(c.name) - 1);
			return &c.value;
		}
		if(!std::strncmp(c.name, name, sizeof(c.name) - 1)) {
			return &c.value;
		}
	}
	broken("too many counters");
}

static void vreport(const char* label, const char* fmt, va_list ap) {
	std::strncpy(sh->label, label, sizeof(sh->label) - 1);
	vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
	sh->hash = ctx ? ctx->hash : 0;
	if(verbose) {
		logText("!! %s: %s", sh->label, sh->msg);
	}
}

void fail(Mask mask, const char* label, const char* fmt, ...) {
	if(ctx && ctx->sched) mask |= P(13); // it did not fail alone
	if(noMemoryHit) mask |= P(23);
	va_list ap;
	va_start(ap, fmt);
	if(mask & target) {
		vreport(label, fmt, ap);
		sh->mask = mask;
		_exit(10);
	}
	if(verbose) vreport(label, fmt, ap);
	sh->foreignMask |= mask;
	_exit(11);
}

void soft(Mask mask, const char* label, const char* fmt, ...) {
	if(ctx && ctx->sched) mask |= P(13);
	if(noMemoryHit) mask |= P(23);
	va_list ap;
	va_start(ap, fmt);
	if(mask & target) {
		vreport(label, fmt, ap);
		sh->mask = mask;
		_exit(10);
	}
	if(verbose) vreport(label, fmt, ap);
	sh->foreignMask |= mask;
	va_end(ap);
}

void leaked(Mask mask, const char* what, long n) {
	if(n <= 0 || ctx->actor >= 0 || ctx->sched) return;
	if(!ctx->again) {
		ctx->leakSeen = true;
		return;
	}
	soft(mask, "memory leak", "%s: %ld allocations are never freed", what, n);
}

void broken(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vreport("harness", fmt, ap);
	fprintf(stderr, "harness error: %s\n", sh->msg);
	_exit(13);
}

thread_local bool noMemoryRuns {}, noMemoryHit {};

std::string tokMessage(int t) {
	auto s = "token-" + std::to_string(t) + "!";
	switch(t % 7) {
		case 0: s += " and a message that is not short"; break;
		case 2: s += " 100% %s %n %d\nsecond line\ttab \"quoted\" \\"; break;
		case 3: s += std::string(std::size_t(t) % 50 * 40, 'x') + " end"; break;
		case 5: s += " \xc3\xa4\xff\x01 {} {0}"; break;
		default: break;
	}
	return s;
}

namespace {
template<typename B> struct TokOf final : B, TokStd {
	std::string msg;
	template<typename... A> explicit TokOf(int t, A&&... a) : B(std::forward<A>(a)...), TokStd{t}, msg(tokMessage(t)) {}
	const char* what() const noexcept override { return msg.c_str(); }
};
template<typename B, typename... A> [[noreturn]] void throwAs(int tok, A... a) { throw TokOf<B>(tok, a...); }
} // namespace

void throwStd(int tok) {
	switch(tok % 11) {
		case 0: throwAs<std::exception>(tok);
		case 2: throwAs<std::logic_error>(tok, "");
		case 3: throwAs<std::invalid_argument>(tok, "");
		case 4: throwAs<std::out_of_range>(tok, "");
		case 5: throwAs<std::bad_function_call>(tok);
		case 6: throwAs<std::length_error>(tok, "");
		case 7: throwAs<std::range_error>(tok, "");
		case 8: throwAs<std::bad_weak_ptr>(tok);
		case 9: throwAs<std::system_error>(tok, std::error_code());
		case 10: throwAs<std::ios_base::failure>(tok, "");
		default: throwAs<std::runtime_error>(tok, "");
	}
}



ExcInfo currentExc() {
	try {
		throw;
	} catch(const TokStd& e) {
		return {excStd, e.tok};
	} catch(const TokPlain& e) {
		return {excPlain, e.tok};
	} catch(int i) {
		return {excInt, i};
	} catch(const std::bad_alloc&) {
		return {excAlloc, 0};
	} catch(const std::invalid_argument&) {
		return {excInvalid, 0};
	} catch(const std::logic_error&) {
		return {excLogic, 0};
	} catch(...) {
		return {excOther, 0};
	}
}

void throwTok(int kind, int tok) {
	switch(kind) {
		case excStd: throwStd(tok);
		case excPlain: throw TokPlain(tok);
		case excInt: throw int(tok);
		default: throw std::bad_alloc();
	}
}

// std::cerr of the actors
class CerrBuf : public std::streambuf {
protected:
	int_type overflow(int_type c) override {
		if(!ctx) return c == EOF ? 0 : c;
		yieldPoint(6);
		if(ctx->cerrMode == 1) return traits_type::eof();
		if(ctx->cerrMode == 2) throw TokPlain(-77);
		if(c != EOF && ctx->cerrText) {
			UserScope us;
			ctx->cerrText->push_back(char(c));
		}
		return c == EOF ? 0 : c;
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override {
		if(!ctx) return n;
		yieldPoint(6);
		if(ctx->cerrMode == 1) return 0;
		if(ctx->cerrMode == 2) throw TokPlain(-77);
		if(ctx->cerrText) {
			UserScope us;
			ctx->cerrText->append(s, std::size_t(n));
		}
		return n;
	}
};

// ---- one run -------------------------------------------------------------------------------------
static const int runSeconds = 10; // of cpu time

static void armTimer(int secs) {
	itimerval t {};
	t.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &t, nullptr);
	itimerval r {};
	r.it_value.tv_sec = secs ? 120 : 0;
	setitimer(ITIMER_REAL, &r, nullptr);
}

static void execRun(int prop, bool random, std::uint64_t seed, const std::uint32_t* tape, std::size_t len,
		bool again = false) {
	Ctx c;
	c.again = again;
	c.random = random;
	c.rng = seed;
	c.replay = tape;
	c.replayLen = len;
	c.toShared = true;
	sh->tapeLen = 0;
	sh->label[0] = sh->msg[0] = 0;
	sh->mask = 0;
	sh->solo = 0;
	ctx = &c;
	std::string cerrText;
	cerrText.reserve(256);
	c.cerrText = &cerrText;
	std::cerr.clear();
	armTimer(runSeconds);
	runFor(prop);
	ctx = nullptr;
	if(c.leakSeen) {
		std::vector<std::uint32_t> same(sh->tape, sh->tape + sh->tapeLen);
		return execRun(prop, false, 0, same.data(), same.size(), true);
	}
	sh->hash = c.hash;
	sh->steps += c.steps;
	sh->doneRuns++;
	if(c.nontrivial) {
		++sh->nontrivial;
		if(sh->nhashes < maxHashes) {
			sh->hashes[sh->nhashes++] = c.hash;
		}
	}
}

static void quietStderr() {
	int fd = open("/dev/null", O_WRONLY);
	if(fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
}

static std::uint64_t runSeed(std::uint64_t seed, int prop, std::uint64_t idx) {
	std::uint64_t s = seed * 0x9e3779b97f4a7c15ull + std::uint64_t(prop) * 0xda942042e4dd58b5ull;
	splitmix(s);
	s ^= idx * 0xd6e8feb86659fd93ull;
	return splitmix(s);
}

struct Outcome {
	enum Kind { ok, violation, foreign, harness } kind {ok};
	std::string label, msg;
	std::uint64_t hash {};
};

// Interprets the end of a child
static Outcome outcome(int status) {
	Outcome o;
	o.hash = sh->hash;
	o.label = sh->label;
	o.msg = sh->msg;
	if(WIFEXITED(status)) {
		switch(WEXITSTATUS(status)) {
			case 0: o.kind = Outcome::ok; return o;
			case 10: o.kind = Outcome::violation; return o;
			case 11: o.kind = Outcome::foreign; return o;
			case 13: o.kind = Outcome::harness; return o;
			case 12: o.kind = Outcome::violation; o.label = "terminate";
				o.msg = "std::terminate was called"; break;
			case 77: o.kind = Outcome::violation;
				if(o.label.empty()) {
					o.label = "sanitizer";
					o.msg = "undefined behaviour reported by the sanitizer";
				}
				break;
			default: o.kind = Outcome::violation;
				o.label = "exit";
				o.msg = "process ended with code " + std::to_string(WEXITSTATUS(status));
		}
	} else {
		int sig = WTERMSIG(status);
		o.kind = sig == SIGKILL ? Outcome::harness : Outcome::violation;
		if(sig == SIGPROF || sig == SIGALRM) {
			o.label = "hang";
			o.msg = "the run did not end within its time limit";
		} else {
			o.label = "signal " + std::to_string(sig);
			o.msg = std::string("crashed: ") + strsignal(sig);
		}
	}
	o.hash = 0;
	if(sh->solo && o.kind == Outcome::violation) {
		o.kind = Outcome::foreign;
	}
	return o;
}

using Tape = std::vector<std::uint32_t>;
using History = std::vector<Tape>;

static Outcome runHistory(int prop, const History& h, bool quiet) {
	fflush(stdout);
	pid_t pid = fork();
	if(pid < 0) { perror("fork"); exit(2); }
	if(pid == 0) {
		if(quiet) quietStderr();
		bool v = verbose;
		for(std::size_t i = 0; i < h.size(); ++i) {
			verbose = v;
			if(verbose && h.size() > 1) logText("-- run %zu of %zu", i + 1, h.size());
			execRun(prop, false, 0, h[i].data(), h[i].size());
		}
		_exit(0);
	}
	int status;
	while(waitpid(pid, &status, 0) < 0) {}
	return outcome(status);
}

} // namespace sim

using namespace sim;

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() {
	const char* d = __asan_get_report_description();
	if(sh) {
		snprintf(sh->label, sizeof(sh->label), "memory error %s", d ? d : "?");
		snprintf(sh->msg, sizeof(sh->msg), "memory error reported by AddressSanitizer: %s", d ? d : "?");
	}
}
#endif

// ---- allocation ------------------------------------------------------------------------------------
#include <malloc.h>
static void* simAlloc(std::size_t n, std::size_t align) {
	auto* c = ctx && !ctx->uncounted ? ctx : nullptr;
	if(c && c->fc.inLib) {
		++c->fc.allocs;
		yieldPoint(1);
		if(c->fc.countdown > 0 && --c->fc.countdown == 0) {
			c->fc.fired = true;
			if(c->fc.firedOut) *c->fc.firedOut = true;
			if(c->fc.persistent) c->fc.countdown = 1;
			COUNT("fault: allocation failed");
			throw std::bad_alloc();
		}
	}
	if(n > (std::size_t(1) << 30)) throw std::bad_alloc();
	void* p = align > alignof(std::max_align_t) ? aligned_alloc(align, (n + align - 1) / align * align)
		: malloc(n ? n : 1);
	if(!p) throw std::bad_alloc();
	if(c) {
		++c->liveAllocs;
		c->liveBytes += long(malloc_usable_size(p));
		if(c->liveBytes > (1l << 30)) {
			fail(~Mask(0), "memory", "the run uses more than 1 GB of memory");
		}
	}
	return p;
}
static void simFree(void* p) noexcept {
	if(p && ctx && !ctx->uncounted) {
		--ctx->liveAllocs;
		ctx->liveBytes -= long(malloc_usable_size(p));
	}
	free(p);
}
void* operator new(std::size_t n) { return simAlloc(n, 0); }
void* operator new[](std::size_t n) { return simAlloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return simAlloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return simAlloc(n, std::size_t(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
	try { return simAlloc(n, 0); } catch(...) { return nullptr; }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
	try { return simAlloc(n, 0); } catch(...) { return nullptr; }
}
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, std::size_t) noexcept { simFree(p); }
void operator delete[](void* p, std::size_t) noexcept { simFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }

// Function-local statics of the code under test are initialised once in the life of a process.
// They must not depend on the run or thread that comes first: no faults and no switches there,
// and what they allocate is not part of any run.
extern "C" int __cxa_guard_acquire(std::uint64_t* g) {
	auto* b = reinterpret_cast<unsigned char*>(g);
	if(b[0]) return 0;
	if(b[1]) { // only one thread runs at a time, and it does not switch in here
		broken("recursive initialisation of a static variable");
	}
	b[1] = 1;
	if(ctx) {
		++ctx->noYield;
		++ctx->uncounted;
	}
	return 1;
}
extern "C" void __cxa_guard_release(std::uint64_t* g) {
	auto* b = reinterpret_cast<unsigned char*>(g);
	b[0] = 1;
	b[1] = 0;
	if(ctx) {
		--ctx->noYield;
		--ctx->uncounted;
	}
}
extern "C" void __cxa_guard_abort(std::uint64_t* g) {
	auto* b = reinterpret_cast<unsigned char*>(g);
	b[1] = 0;
	if(ctx) {
		--ctx->noYield;
		--ctx->uncounted;
	}
}

// ---- modes -----------------------------------------------------------------------------------------
static Shared* mapShared() {
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); exit(2); }
	return static_cast<Shared*>(p);
}

static double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Global { // between the workers
	std::uint64_t firstViolation;
	std::uint64_t harnessError;
};

static void writeHistory(FILE* f, const History& h) {
	for(auto& t : h) {
		fprintf(f, "tape %zu", t.size());
		for(auto v : t) fprintf(f, " %u", v);
		fprintf(f, "\n");
	}
}

static History readHistory(const char* path) {
	FILE* f = fopen(path, "r");
	if(!f) { perror(path); exit(2); }
	History h;
	std::size_t n;
	while(fscanf(f, " tape %zu", &n) == 1) {
		Tape t(n);
		for(auto& v : t) {
			if(fscanf(f, "%u", &v) != 1) { fprintf(stderr, "bad tape file\n"); exit(2); }
		}
		h.push_back(std::move(t));
	}
	fclose(f);
	return h;
}

// generates the tapes of the given runs
static History recordRuns(int prop, std::uint64_t seed, std::uint64_t from, std::uint64_t to) {
	History h;
	// all in one process since they might influence each other; the last one may crash
	for(auto i = from; i <= to; ++i) {
		pid_t pid = fork();
		if(pid == 0) {
			quietStderr();
			target = 0; // do not stop early; foreign ones end the process
			execRun(prop, true, runSeed(seed, prop, i), nullptr, 0);
			_exit(0);
		}
		int status;
		while(waitpid(pid, &status, 0) < 0) {}
		h.emplace_back(sh->tape, sh->tape + sh->tapeLen);
	}
	return h;
}

static void worker(int prop, std::uint64_t seed, std::uint64_t runs, double deadline,
		int w, int workers, const std::string& out, Global* g) {
	const std::uint64_t batch = 128;
	for(std::uint64_t b = std::uint64_t(w); b * batch < runs; b += std::uint64_t(workers)) {
		std::uint64_t idx = b * batch, end = std::min(runs, idx + batch);
		if(idx > __atomic_load_n(&g->firstViolation, __ATOMIC_RELAXED)) break;
		if(now() > deadline) break;
		while(idx < end) {
			auto start = idx;
			pid_t pid = fork();
			if(pid < 0) { perror("fork"); _exit(2); }
			if(pid == 0) {
				quietStderr();
				for(auto i = start; i < end; ++i) {
					sh->curRun = i;
					execRun(prop, true, runSeed(seed, prop, i), nullptr, 0);
				}
				_exit(0);
			}
			int status;
			while(waitpid(pid, &status, 0) < 0) {}
			auto o = outcome(status);
			if(o.kind == Outcome::ok) { idx = end; continue; }
			idx = sh->curRun + 1;
			if(o.kind == Outcome::foreign) { ++sh->foreignRuns; continue; }
			if(o.kind == Outcome::harness) {
				FILE* f = fopen((out + "/harness." + std::to_string(w)).c_str(), "w");
				if(f) {
					fprintf(f, "run %" PRIu64 ": %s (status %x)\n", sh->curRun, o.msg.c_str(), status);
					fclose(f);
				}
				g->harnessError = 1;
				return;
			}
			auto run = sh->curRun;
			auto path = out + "/viol." + std::to_string(w);
			FILE* f = fopen(path.c_str(), "w");
			if(!f) _exit(2);
			fprintf(f, "run %" PRIu64 "\nstart %" PRIu64 "\nhash %016" PRIx64 "\nlabel %s\nmsg %s\n",
				run, start, o.hash, o.label.c_str(), o.msg.c_str());
			writeHistory(f, {Tape(sh->tape, sh->tape + sh->tapeLen)});
			fclose(f);
			auto old = __atomic_load_n(&g->firstViolation, __ATOMIC_RELAXED);
			while(run < old && !__atomic_compare_exchange_n(&g->firstViolation, &old, run, false,
					__ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
			return;
		}
	}
}

static std::string jsonEscape(const char* s) {
	std::string r;
	for(; *s; ++s) {
		if(*s == '"' || *s == '\\') { r += '\\'; r += *s; }
		else if(static_cast<unsigned char>(*s) < 32) r += ' ';
		else r += *s;
	}
	return r;
}

static int explore(int prop, std::uint64_t seed, std::uint64_t runs, double secs, int workers,
		const std::string& out) {
	auto t0 = now();
	auto* g = static_cast<Global*>(mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	g->firstViolation = ~std::uint64_t(0);
	std::vector<Shared*> shs;
	std::vector<pid_t> pids;
	for(int w = 0; w < workers; ++w) {
		shs.push_back(mapShared());
	}
	for(int w = 0; w < workers; ++w) {
		pid_t pid = fork();
		if(pid < 0) { perror("fork"); return 2; }
		if(pid == 0) {
			sh = shs[w];
			worker(prop, seed, runs, t0 + secs, w, workers, out, g);
			_exit(0);
		}
		pids.push_back(pid);
	}
	bool bad = false;
	for(auto pid : pids) {
		int status;
		while(waitpid(pid, &status, 0) < 0) {}
		bad |= !WIFEXITED(status) || WEXITSTATUS(status) != 0;
	}
	std::uint64_t done = 0, steps = 0, nontrivial = 0, foreign = 0, foreignMask = 0;
	std::unordered_set<std::uint64_t> distinct;
	std::map<std::string, std::uint64_t> counters;
	for(auto* s : shs) {
		done += s->doneRuns;
		steps += s->steps;
		nontrivial += s->nontrivial;
		foreign += s->foreignRuns;
		foreignMask |= s->foreignMask;
		distinct.insert(s->hashes, s->hashes + s->nhashes);
		for(auto& c : s->counters) {
			if(c.name[0]) counters[c.name] += c.value;
		}
	}
	// order independent digest of all traces, for the determinism self-test
	std::uint64_t digest = 0;
	for(auto h : distinct) digest += h * 0x9e3779b97f4a7c15ull;
	FILE* f = fopen((out + "/stats.json").c_str(), "w");
	if(!f) return 2;
	fprintf(f, "{\"runs\": %" PRIu64 ", \"steps\": %" PRIu64 ", \"nontrivial\": %" PRIu64
		", \"distinct\": %zu, \"foreign\": %" PRIu64 ", \"foreign_mask\": %" PRIu64
		", \"digest\": \"%016" PRIx64 "\", \"wall\": %.3f, \"counters\": {",
		done, steps, nontrivial, distinct.size(), foreign, foreignMask, digest, now() - t0);
	bool first = true;
	for(auto& c : counters) {
		fprintf(f, "%s\"%s\": %" PRIu64, first ? "" : ", ", jsonEscape(c.first.c_str()).c_str(), c.second);
		first = false;
	}
	fprintf(f, "}}\n");
	fclose(f);
	if(bad || g->harnessError) return 2;
	return g->firstViolation != ~std::uint64_t(0) ? 10 : 0;
}

// Makes the history smaller as long as it fails in the same way.
static History shrink(int prop, History h, const std::string& label, double secs, long& tries) {
	auto t0 = now();
	auto fails = [&](const History& c) {
		++tries;
		auto o = runHistory(prop, c, true);
		return o.kind == Outcome::violation && o.label == label;
	};
	auto timeUp = [&]{ return now() - t0 > secs; };
	auto tighten = [&](History& c) { // the run may have used less than the tape has
		if(c.size() == 1 && sh->tapeLen < c[0].size()) {
			c[0].resize(sh->tapeLen);
		}
	};
	// drop whole runs of the history
	for(std::size_t n = h.size() / 2; n >= 1 && !timeUp(); n /= 2) {
		for(std::size_t i = 0; i + n < h.size() && !timeUp();) { // never the last one
			auto c = h;
			c.erase(c.begin() + long(i), c.begin() + long(i + n));
			if(fails(c)) h = c; else i += n;
		}
	}
	bool progress = true;
	while(progress && !timeUp()) {
		progress = false;
		for(std::size_t k = 0; k < h.size(); ++k) {
			// cut the end
			{
				std::size_t lo = 0, hi = h[k].size();
				while(lo < hi && !timeUp()) {
					auto mid = (lo + hi) / 2;
					auto c = h;
					c[k].resize(mid);
					if(fails(c)) {
						progress |= mid < h[k].size();
						h = c; hi = mid;
					} else lo = mid + 1;
				}
			}
			// delete blocks
			for(std::size_t n = std::min<std::size_t>(h[k].size(), 512); n >= 1 && !timeUp();
					n = n > 8 ? n / 2 : n - 1) {
				for(std::size_t e = h[k].size(); e >= n && e > 0 && !timeUp();) {
					auto c = h;
					c[k].erase(c[k].begin() + long(e - n), c[k].begin() + long(e));
					if(fails(c)) {
						tighten(c);
						h = c; progress = true;
						e = std::min(e - n, h[k].size());
					} else {
						e -= std::max<std::size_t>(1, n / 2);
					}
				}
			}
			// zero blocks
			for(std::size_t n : {64u, 16u, 4u, 2u}) {
				for(std::size_t i = 0; i < h[k].size() && !timeUp(); i += n) {
					auto c = h;
					bool any = false;
					for(auto j = i; j < std::min(h[k].size(), i + n); ++j) {
						any |= c[k][j] != 0;
						c[k][j] = 0;
					}
					if(any && fails(c)) { tighten(c); h = c; progress = true; }
				}
			}
			// smaller values
			for(std::size_t i = 0; i < h[k].size() && !timeUp(); ++i) {
				for(auto v : {0u, h[k][i] / 2, h[k][i] - 1}) {
					if(i >= h[k].size() || !h[k][i] || v >= h[k][i]) continue;
					auto c = h;
					c[k][i] = v;
					if(fails(c)) { tighten(c); h = c; progress = true; break; }
				}
			}
		}
	}
	return h;
}

static int printOutcome(const Outcome& o) {
	static const char* kinds[] = {"ok", "violation", "foreign", "harness"};
	printf("RESULT %s\nHASH %016" PRIx64 "\nLABEL %s\nMSG %s\n", kinds[o.kind], o.hash,
		o.label.c_str(), o.msg.c_str());
	return o.kind == Outcome::violation ? 10 : o.kind == Outcome::harness ? 2 : 0;
}

int main(int argc, char** argv) {
	// the same addresses in every run, if we are allowed to
	if(!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if(p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(unsigned(p) | ADDR_NO_RANDOMIZE) != -1) {
			execv("/proc/self/exe", argv);
		}
	}

	std::map<std::string, std::string> opt;
	std::string mode = argc > 1 ? argv[1] : "";
	std::vector<std::string> pos;
	for(int i = 2; i < argc; ++i) {
		std::string a = argv[i];
		if(a.rfind("--", 0) == 0) {
			if(a == "--verbose") opt[a] = "1";
			else if(i + 1 < argc) { opt[a] = argv[i + 1]; ++i; }
		} else pos.push_back(a);
	}

	int prop = atoi(opt["--prop"].c_str());
	if(prop <= 0 || prop > 60 || !propDomain(prop)) {
		fprintf(stderr, "usage: sim explore|replay|shrink|record --prop N ...\n");
		return 2;
	}
	target = P(prop);
	targetProp = prop;
	sh = mapShared();
	auto& cerrBuf = *new CerrBuf; // outlives std::cerr
	std::cerr.rdbuf(&cerrBuf);
	std::set_terminate([]{ _exit(12); });
	rlimit rl {0, 0};
	setrlimit(RLIMIT_CORE, &rl);

	// warm up lazily initialised parts of the standard library
	{
		pid_t self = getpid();
		(void) self;
		try { throwStd(1); } catch(const std::exception&) {}
	}

	std::uint64_t seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
	if(mode == "explore") {
		auto runs = strtoull(opt["--runs"].c_str(), nullptr, 10);
		auto secs = atof(opt["--time"].c_str());
		auto workers = atoi(opt["--workers"].c_str());
		return explore(prop, seed, runs, secs > 0 ? secs : 1e9, workers > 0 ? workers : 8, opt["--out"]);
	}
	if(mode == "record") {
		auto h = recordRuns(prop, seed, strtoull(opt["--from"].c_str(), nullptr, 10),
			strtoull(opt["--to"].c_str(), nullptr, 10));
		writeHistory(stdout, h);
		return 0;
	}
	if(mode == "rerun") { // the same runs in one process, as a worker does
		verbose = opt.count("--verbose");
		auto from = strtoull(opt["--from"].c_str(), nullptr, 10);
		auto to = strtoull(opt["--to"].c_str(), nullptr, 10);
		pid_t pid = fork();
		if(pid < 0) { perror("fork"); return 2; }
		if(pid == 0) {
			if(!verbose) quietStderr();
			auto v = verbose;
			for(auto i = from; i <= to; ++i) {
				verbose = v && i == to;
				execRun(prop, true, runSeed(seed, prop, i), nullptr, 0);
			}
			_exit(0);
		}
		int status;
		while(waitpid(pid, &status, 0) < 0) {}
		return printOutcome(outcome(status));
	}
	if(mode == "replay" && pos.size() == 1) {
		verbose = opt.count("--verbose");
		auto h = readHistory(pos[0].c_str());
		auto o = runHistory(prop, h, !verbose);
		return printOutcome(o);
	}
	if(mode == "shrink" && pos.size() == 2) {
		auto h = readHistory(pos[0].c_str());
		auto o = runHistory(prop, h, true);
		if(o.kind != Outcome::violation) {
			fprintf(stderr, "not failing\n");
			return 2;
		}
		auto label = o.label;
		auto secs = atof(opt["--time"].c_str());
		long tries = 0;
		h = shrink(prop, h, label, secs > 0 ? secs : 30, tries);
		FILE* f = fopen(pos[1].c_str(), "w");
		if(!f) return 2;
		writeHistory(f, h);
		fclose(f);
		printf("TRIES %ld\n", tries);
		return 0;
	}
	fprintf(stderr, "unknown mode\n");
	return 2;
}
