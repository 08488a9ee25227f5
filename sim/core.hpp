// Deterministic simulation core: choices, event log, faults, violations, fibers of control.
// Every run is a pure function of its tape (the sequence of values returned by draw()).
#pragma once
#include <limits>
#include <algorithm>
#include <functional>
#include <array>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <new>
#include <exception>
#include <stdexcept>
#include <initializer_list>

namespace sim {

// ---- properties -------------------------------------------------------------------------------
using Mask = std::uint64_t;
constexpr Mask P(int n) { return Mask(1) << n; } // n: number of the property, e.g. 1 for C01

// ---- shared memory between the run and its supervisor --------------------------------------------
constexpr std::size_t maxTape = 1u << 17;
constexpr std::size_t maxHashes = 1u << 22;
constexpr std::size_t maxCounters = 512;

struct Counter {
	char name[56];
	std::uint64_t value;
};

struct Shared {
	std::uint64_t curRun;
	std::uint64_t doneRuns;
	std::uint64_t steps;
	std::uint64_t tapeLen;
	std::uint64_t hash;
	std::uint64_t mask;
	std::uint64_t foreignMask;
	std::uint64_t foreignRuns;
	std::uint64_t nontrivial;
	std::uint64_t nhashes;
	std::uint64_t solo;   // actors run alone, crashes are not caused by other ones
	char label[160];
	char msg[1024];
	std::uint32_t tape[maxTape];
	Counter counters[maxCounters];
	std::uint64_t hashes[maxHashes];
};

extern Shared* sh;
extern Mask target;     // properties the current check decides
extern int targetProp;  // its number
extern bool verbose;
extern bool thorough;

// ---- per-actor context ---------------------------------------------------------------------------
struct FaultCtl {
	bool inLib {};        // library code is executing (not user code called by it)
	bool persistent {};   // all following allocations fail as well
	long countdown {};    // > 0: fail the countdown-th allocation from now
	bool fired {};        // an allocation failed in this scope
	bool* firedOut {};
	long allocs {};       // allocations of library code in this scope
};

struct Scheduler; // see threads.cpp

struct Ctx {
	int actor {-1};
	// choices
	const std::uint32_t* replay {};
	std::size_t replayLen {};
	std::size_t pos {};
	bool random {};              // draw from rng, otherwise replay
	std::uint64_t rng {};
	bool toShared {};            // record to the shared tape
	std::vector<std::uint32_t>* record {};
	// log
	std::uint64_t hash {1469598103934665603ull};
	std::uint64_t steps {};
	bool nontrivial {};
	// memory
	long liveAllocs {};
	long liveBytes {};
	FaultCtl fc;
	// cerr capture
	std::string* cerrText {};
	bool cerrFails {};
	int cerrMode {};             // 0 ok, 1 sink fails, 2 sink throws
	Scheduler* sched {};
	int noYield {};
	int uncounted {};            // allocations are not part of the run
	bool leakSeen {};            // see leaked
	bool again {};               // second execution of a run that left memory behind
};

extern thread_local Ctx* ctx;

/// Reports n > 0 allocations that are left. A run that leaves memory behind is executed once more by
/// the same process: what exists only once (a cache the library keeps) is not a leak.
void leaked(Mask mask, const char* what, long n);

void yieldPoint(int where); // lets the simulator switch to another actor

// ---- choices -------------------------------------------------------------------------------------
inline std::uint64_t splitmix(std::uint64_t& s) {
	std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

void recordDraw(std::uint32_t v);

/// Returns a value in [0, n). 0 is always the simplest choice.
inline std::uint32_t draw(std::uint32_t n) {
	auto& c = *ctx;
	std::uint32_t v = 0;
	if(n > 1) {
		if(c.random) {
			v = std::uint32_t(splitmix(c.rng) % n);
		} else if(c.pos < c.replayLen) {
			v = c.replay[c.pos] % n;
		}
		++c.pos;
		recordDraw(v);
	}
	return v;
}

/// True with probability num/den; 0/false is the simple outcome.
inline bool chance(std::uint32_t num, std::uint32_t den) {
	return num && draw(den) >= den - num;
}

/// Weighted choice, the first one is the simplest.
inline int pick(std::initializer_list<int> weights) {
	int sum = 0;
	for(auto w : weights) sum += w;
	if(sum <= 0) return 0;
	int v = int(draw(std::uint32_t(sum)));
	int i = 0;
	for(auto w : weights) {
		if(v < w) return i;
		v -= w;
		++i;
	}
	return 0;
}

// Small values are likely, but values up to max are possible.
inline std::uint32_t drawSkewed(std::uint32_t max) {
	auto k = draw(8);
	if(k < 4) return draw(max < 4 ? max + 1 : 4);
	if(k < 7) return draw(max < 10 ? max + 1 : 10);
	return draw(max + 1);
}

// ---- log -----------------------------------------------------------------------------------------
constexpr std::uint64_t fnv(const char* s, std::uint64_t h = 1469598103934665603ull) {
	while(*s) {
		h = (h ^ std::uint64_t(static_cast<unsigned char>(*s++))) * 1099511628211ull;
	}
	return h;
}

inline void mix(std::uint64_t v) {
	auto& h = ctx->hash;
	h = (h ^ v) * 0x9e3779b97f4a7c15ull;
	h ^= h >> 29;
}

void logText(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Indent {
	Indent();
	~Indent();
};

template<typename... Args>
inline void evImpl(std::uint64_t code, Args... args) {
	++ctx->steps;
	mix(code);
	(mix(static_cast<std::uint64_t>(args)), ...);
}

// Logs an event. Arguments must be integers (never addresses).
#define EV(fmt, ...) do { \
	constexpr auto evCode_ = ::sim::fnv(fmt); \
	::sim::evImpl(evCode_ __VA_OPT__(,) __VA_ARGS__); \
	if(__builtin_expect(::sim::verbose, 0)) { \
		::sim::logText(fmt __VA_OPT__(,) __VA_ARGS__); \
	} \
} while(0)

// ---- counters ------------------------------------------------------------------------------------
std::uint64_t* counter(const char* name);
#define COUNT(name) do { static std::uint64_t* cnt_; if(!cnt_) cnt_ = ::sim::counter(name); ++*cnt_; } while(0)
#define COUNTN(name, n) do { static std::uint64_t* cnt_; if(!cnt_) cnt_ = ::sim::counter(name); *cnt_ += (n); } while(0)

// ---- violations ----------------------------------------------------------------------------------
// A check failed. When it does not violate the property that is decided here
// it's foreign: the run cannot continue in a meaningful way and is given up.
[[noreturn]] void fail(Mask mask, const char* label, const char* fmt, ...)
	__attribute__((format(printf, 3, 4)));
// Same, but the run can go on when it's foreign.
void soft(Mask mask, const char* label, const char* fmt, ...)
	__attribute__((format(printf, 3, 4)));
// The harness itself is broken.
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- allocation faults ---------------------------------------------------------------------------
/// Library code runs during its lifetime. With countdown > 0 the countdown-th allocation fails.
struct LibScope {
	FaultCtl saved;
	bool done {};
	bool fired_ {};
	long allocs_ {};
	explicit LibScope(long countdown = 0, bool persistent = false) : saved(ctx->fc) {
		ctx->fc = {};
		ctx->fc.inLib = true;
		ctx->fc.countdown = countdown;
		ctx->fc.persistent = persistent;
	}
	~LibScope() { end(); }
	void end() {
		if(!done) {
			fired_ = ctx->fc.fired;
			allocs_ = ctx->fc.allocs;
			ctx->fc = saved;
			done = true;
		}
	}
	bool fired() const { return done ? fired_ : ctx->fc.fired; }
	long allocs() const { return done ? allocs_ : ctx->fc.allocs; }
	LibScope(const LibScope&) = delete;
};

/// Library code that removes or releases something runs during its lifetime. It must not depend on
/// memory: there might be none (only in runs that ask for it).
extern thread_local bool noMemoryRuns, noMemoryHit;
struct ReleaseScope : LibScope {
	static bool dry() {
		if(!noMemoryRuns || !chance(2, 3)) return false;
		EV("memory is exhausted");
		COUNT("fault: no memory while removing");
		return true;
	}
	ReleaseScope() : LibScope(dry() ? 1 : 0, true) { ctx->fc.firedOut = &noMemoryHit; }
};

/// User code that was called by the library runs during its lifetime.
struct UserScope {
	FaultCtl saved;
	UserScope() : saved(ctx->fc) { ctx->fc = {}; }
	~UserScope() { ctx->fc = saved; }
	UserScope(const UserScope&) = delete;
};

// ---- exceptions thrown by simulated user code ------------------------------------------------------
struct TokStd { // part of all exceptions that are derived from std::exception
	int tok;
};
[[noreturn]] void throwStd(int tok); // the class (std::logic_error, std::bad_function_call, ...) depends on tok
struct TokPlain { // not derived from std::exception
	int tok;
	TokPlain(int t) : tok(t) {}
};
// exception kinds
enum ExcKind { excNone = 0, excStd, excPlain, excInt, excAlloc, excInvalid, excLogic, excOther };
struct ExcInfo {
	int kind {excNone};
	int tok {};
	bool operator==(const ExcInfo& o) const { return kind == o.kind && tok == o.tok; }
};
/// Information about the exception currently being handled.
ExcInfo currentExc();
[[noreturn]] void throwTok(int kind, int tok);
std::string tokMessage(int tok); // what() of the standard ones

/// Calls f, which must not throw, while an exception propagates, or only sometimes so.
template<typename F> struct InDestructor {
	F& f;
	~InDestructor() { f(); }
};
template<typename F> void whileUnwinding(F f) {
	COUNT("operations while an exception propagates");
	EV("while an exception propagates");
	try {
		InDestructor<F> d {f};
		throw TokPlain(-55);
	} catch(const TokPlain&) {
	}
}
template<typename F> void maybeUnwinding(F f) {
	if(chance(1, 12)) whileUnwinding(f);
	else f();
}

// ---- domains -------------------------------------------------------------------------------------
struct Domain { // registers a simulated world
	const char* name;
	void (*func)(int prop);
	Domain* next;
	Domain(const char*, void (*)(int));
};
void (*findDomain(const char* name))(int);
void runFor(int prop);          // runs the domain that decides the property
extern const char* propDomain(int prop);

} // namespace sim
