// Several actors, each with objects of its own, on real threads of which only one runs at a time (C13).
// Every actor first runs alone; then all of them run again with the same choices while the
// scheduler switches between them. Each one has to make the same observations in both cases.
#include "core.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <errno.h>
#include <algorithm>
#include <memory>

namespace sim {

struct Actor {
	Ctx solo, inter;
	std::vector<std::uint32_t> tape;
	std::string cerrText;
	int domain {};
	int num {};
	long seen {};
	sem_t go;
	pthread_t thread;
	bool started {};
	bool done {};
};

struct Scheduler {
	Ctx* main {};
	std::vector<std::unique_ptr<Actor>> actors;
	sem_t back;            // main waits on it
	long gap {};           // yield points until the next switch
	bool running {};
	std::uint64_t switches {};
	int rate {};
};

static const char* domainNames[] = {"callbacks", "guards", "clone", "bytes", "print", "connections", "pure", "values"};

static void runDomain(int d) {
	static const int props[] = {13, 11, 13, 16, 19, 6, 13, 22};
	auto* f = findDomain(domainNames[d]);
	if(!f) broken("domain %s is missing", domainNames[d]);
	f(props[d]);
}

// Draws from the main tape
static std::uint32_t mainDraw(Scheduler& s, std::uint32_t n) {
	auto* old = ctx;
	ctx = s.main;
	auto v = draw(n);
	ctx = old;
	return v;
}

static void nextGap(Scheduler& s) {
	if(sh->tapeLen > maxTape / 2) { // enough switches
		s.gap = 1l << 40;
		return;
	}
	// 0 is the longest one; the basis depends on the run, but bursts of switches are always possible
	static const std::uint32_t gaps[] = {8192, 1024, 128, 16, 4};
	auto k = mainDraw(s, 3) + std::uint32_t(s.rate);
	auto v = mainDraw(s, gaps[std::min(4u, k)]);
	s.gap = 1 + (v ? gaps[std::min(4u, k)] - v : gaps[std::min(4u, k)]);
}

static Actor* drawOther(Scheduler& s, Actor* self) {
	std::vector<Actor*> cand;
	for(auto& a : s.actors) {
		if(!a->done && a.get() != self) cand.push_back(a.get());
	}
	if(cand.empty()) return nullptr;
	return cand[mainDraw(s, std::uint32_t(cand.size()))];
}

static void wait(sem_t& s) {
	while(sem_wait(&s) != 0) {}
}

static Actor* current(Scheduler& s) {
	return s.actors[std::size_t(ctx->actor)].get();
}

static void doYield(Scheduler& s, int where) {
	auto* self = current(s);
	// nothing of the scheduler counts as part of the actor
	auto* c = ctx;
	ctx = nullptr;
	auto saved = c->fc;
	c->fc = {};
	ctx = c;
	if(--s.gap <= 0 || where < 0) {
		auto* other = drawOther(s, self);
		nextGap(s);
		if(!other && where < 0) { // waits for something no one is going to do
			c->fc = saved;
			fail(P(13), "deadlock", "thread T%d waits for a lock forever", self->num);
		}
		if(other) {
			++s.switches;
			COUNT("switches between threads");
			if(where == 0) COUNT("switches inside library code");
			if(verbose) logText("---- switch to T%d", other->num);
			auto* old = ctx;
			ctx = s.main;
			mix(std::uint64_t(other->num) + 17);
			ctx = old;
			sem_post(&other->go);
			wait(self->go);
		}
	}
	c->fc = saved;
}

void yieldPoint(int where) {
	if(ctx && ctx->sched && ctx->sched->running && !ctx->noYield) {
		doYield(*ctx->sched, where);
	}
}

} // namespace sim

// ---- synchronisation -----------------------------------------------------------------------------
// Happens-before between the actors, by vector clocks: what was done before something is released
// (a lock, an atomic variable that is written) is known to those who acquire it later.
namespace sim {

static constexpr int maxActors = 8;
struct Clock { std::uint32_t at[maxActors]; };

static Clock clocks[maxActors];
static bool synchronised; // in a way that is not understood: static variables are not judged
static std::uint32_t generation; // entries of other runs are void

struct Sync {
	std::uintptr_t addr;
	std::uint32_t generation;
	Clock clock;
};
static constexpr std::size_t maxSync = 1 << 12;
static Sync syncs[maxSync];

static bool judged() {
	return ctx && ctx->sched && ctx->sched->running && !ctx->noYield;
}

static Sync* findSync(std::uintptr_t addr) {
	auto h = (addr >> 3) * 0x9e3779b97f4a7c15ull >> 52;
	for(int i = 0; i < 64; ++i) {
		auto& x = syncs[(h + i) % maxSync];
		if(x.generation != generation) x = {addr, generation, {}};
		if(x.addr == addr) return &x;
	}
	synchronised = true; // too many of them
	return nullptr;
}

static void acquire(const volatile void* p) {
	auto* x = findSync(reinterpret_cast<std::uintptr_t>(p));
	auto& mine = clocks[ctx->actor];
	for(int i = 0; x && i < maxActors; ++i) mine.at[i] = std::max(mine.at[i], x->clock.at[i]);
}

static void release(const volatile void* p) {
	auto* x = findSync(reinterpret_cast<std::uintptr_t>(p));
	auto& mine = clocks[ctx->actor];
	for(int i = 0; x && i < maxActors; ++i) x->clock.at[i] = std::max(mine.at[i], x->clock.at[i]);
	++mine.at[ctx->actor];
}

static void startClocks() {
	++generation;
	synchronised = false;
	for(int i = 0; i < maxActors; ++i) {
		clocks[i] = {};
		clocks[i].at[i] = 1;
	}
}

template<typename F> static F* next(const char* name) {
	return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name));
}

// A thread that waits for a lock lets the others go on.
template<typename Try> static int lock(Try tryLock, const volatile void* p) {
	for(;;) {
		auto r = tryLock();
		if(r != EBUSY) {
			if(r == 0) acquire(p);
			return r;
		}
		COUNT("waited for a lock");
		doYield(*ctx->sched, -1);
	}
}

} // namespace sim

extern "C" {
int pthread_mutex_trylock(pthread_mutex_t* m) {
	static auto real = sim::next<int(pthread_mutex_t*)>("pthread_mutex_trylock");
	auto r = real(m);
	if(r == 0 && sim::judged()) sim::acquire(m);
	return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
	static auto real = sim::next<int(pthread_mutex_t*)>("pthread_mutex_lock");
	static auto tryLock = sim::next<int(pthread_mutex_t*)>("pthread_mutex_trylock");
	return sim::judged() ? sim::lock([&]{ return tryLock(m); }, m) : real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	static auto real = sim::next<int(pthread_mutex_t*)>("pthread_mutex_unlock");
	if(sim::judged()) sim::release(m);
	return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
	static auto real = sim::next<int(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
	static auto tryLock = sim::next<int(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
	return sim::judged() ? sim::lock([&]{ return tryLock(m); }, m) : real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
	static auto real = sim::next<int(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
	static auto tryLock = sim::next<int(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
	return sim::judged() ? sim::lock([&]{ return tryLock(m); }, m) : real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
	static auto real = sim::next<int(pthread_rwlock_t*)>("pthread_rwlock_unlock");
	if(sim::judged()) sim::release(m);
	return real(m);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
	static auto real = sim::next<int(pthread_once_t*, void (*)())>("pthread_once");
	if(sim::judged()) sim::synchronised = true;
	return real(o, f);
}

} // extern "C"
// (static variables of functions are initialised without switches and not judged while that happens, see main.cpp)

// ---- instrumentation -----------------------------------------------------------------------------
// The code is compiled with -fsanitize=thread but not linked with its runtime: these functions are
// called at each memory access instead. Every one of them may be the place of a switch.
namespace sim {

extern "C" char __data_start, _end; // static variables of the program

struct StaticAccess {
	std::uintptr_t addr;
	std::size_t size;
	Clock writes, reads; // of each actor the last one
};

static constexpr std::size_t maxStatic = 1024;
static StaticAccess accesses[maxStatic];
static std::size_t naccesses;

// Two actors that have no objects in common must not access the same variable when one of them
// modifies it, unless they synchronise.
static void noteStatic(std::uintptr_t a, std::size_t size, bool write) {
	auto self = ctx->actor;
	auto& known = clocks[self];
	StaticAccess* own = nullptr;
	for(std::size_t i = 0; i < naccesses; ++i) {
		auto& x = accesses[i];
		if(x.addr == a && x.size == size) own = &x;
		if(x.addr >= a + size || a >= x.addr + x.size) continue;
		for(int k = 0; k < maxActors; ++k) {
			if(k == self || synchronised) continue;
			if(x.writes.at[k] > known.at[k] || (write && x.reads.at[k] > known.at[k])) {
				fail(P(13), "data race", "threads without common objects access the same static variable, one of them modifies it");
			}
		}
	}
	if(!own) {
		if(naccesses == maxStatic) return;
		own = &accesses[naccesses++];
		*own = {a, size, {}, {}};
	}
	(write ? own->writes : own->reads).at[self] = known.at[self];
}

static inline void access(void* p, bool write, std::size_t size = 8) {
	auto* c = ctx;
	if(!c || !c->sched || !c->fc.inLib || !c->sched->running || c->noYield) return;
	auto a = reinterpret_cast<std::uintptr_t>(p);
	if(a >= reinterpret_cast<std::uintptr_t>(&__data_start) && a < reinterpret_cast<std::uintptr_t>(&_end)) {
		noteStatic(a, size, write);
	}
	if(c->sched->gap > 1) {
		--c->sched->gap;
		return;
	}
	doYield(*c->sched, 0);
}

// The order given for an atomic operation is not considered
static inline void atomicAccess(const volatile void* p, bool write = true) {
	access(nullptr, false);
	if(!judged()) return;
	acquire(p);
	if(write) release(p);
}

} // namespace sim

using sim::access;
using sim::atomicAccess;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() { access(nullptr, false); }
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void __tsan_read_range(void* p, std::size_t n) { access(p, false, n); }
void __tsan_write_range(void* p, std::size_t n) { access(p, true, n); }
#define RW(n) \
	void __tsan_read##n(void* p) { access(p, false, n); } \
	void __tsan_write##n(void* p) { access(p, true, n); } \
	void __tsan_volatile_read##n(void* p) { access(p, false, n); } \
	void __tsan_volatile_write##n(void* p) { access(p, true, n); } \
	void __tsan_unaligned_read##n(void* p) { access(p, false, n); } \
	void __tsan_unaligned_write##n(void* p) { access(p, true, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int) { atomicAccess(p, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomicAccess(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomicAccess(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { atomicAccess(p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomicAccess(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomicAccess(p); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { atomicAccess(p); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { if(sim::judged()) sim::synchronised = true; }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

namespace sim {

struct Start {
	Scheduler* s;
	Actor* a;
	sem_t ready;
};

static void* actorMain(void* p) {
	auto& st = *static_cast<Start*>(p);
	auto& s = *st.s;
	auto& a = *st.a;
	sem_post(&st.ready);
	wait(a.go);
	ctx = &a.inter;
	runDomain(a.domain);
	ctx = nullptr;
	a.done = true;
	Ctx tmp;
	tmp.actor = a.num;
	ctx = &tmp;
	auto* other = drawOther(s, &a);
	nextGap(s);
	if(verbose) logText("---- ends");
	ctx = nullptr;
	sem_post(other ? &other->go : &s.back);
	return nullptr;
}

void runThreads(int) {
	Scheduler s;
	auto* main = ctx;
	s.main = main;
	int n = 2 + int(draw(3));
	s.rate = int(draw(4));
	EV("%d threads", n);
	// mostly the same kind of objects since they share most of the code
	auto same = draw(3) != 2;
	auto domain = pick({4, 3, 3, 3, 2, 3, 2, 2});
	// the choices of each actor are made while it runs alone
	sh->solo = 1;
	for(int i = 0; i < n; ++i) {
		s.actors.push_back(std::make_unique<Actor>());
		auto& a = *s.actors.back();
		a.num = i;
		a.domain = same ? domain : pick({4, 3, 3, 3, 2, 3, 2, 2});
		a.cerrText.reserve(256);
		auto& c = a.solo;
		c.actor = i;
		c.random = main->random;
		c.rng = main->rng;
		c.replay = main->replay;
		c.replayLen = main->replayLen;
		c.pos = main->pos;
		c.toShared = true;
		c.record = &a.tape;
		c.cerrText = &a.cerrText;
		auto v = verbose;
		if(v) logText("T%d: %s, alone", i, domainNames[a.domain]);
		ctx = &c;
		runDomain(a.domain);
		ctx = main;
		main->rng = c.rng;
		main->pos = c.pos;
		mix(c.hash);
		main->steps += c.steps;
	}
	sh->solo = 0;
	// together
	sem_init(&s.back, 0, 0);
	for(auto& a : s.actors) {
		a->cerrText.clear();
		auto& c = a->inter;
		c.actor = a->num;
		c.replay = a->tape.data();
		c.replayLen = a->tape.size();
		c.cerrText = &a->cerrText;
		c.sched = &s;
		sem_init(&a->go, 0, 0);
		Start st {&s, a.get(), {}};
		sem_init(&st.ready, 0, 0);
		ctx = nullptr;
		if(pthread_create(&a->thread, nullptr, actorMain, &st) != 0) broken("pthread_create");
		wait(st.ready);
		ctx = main;
		sem_destroy(&st.ready);
	}
	EV("all threads together");
	nextGap(s);
	auto first = draw(std::uint32_t(n));
	if(verbose) logText("---- T%d begins", int(first));
	naccesses = 0;
	startClocks();
	s.running = true;
	sem_post(&s.actors[first]->go);
	wait(s.back);
	s.running = false;
	ctx = nullptr;
	for(auto& a : s.actors) {
		pthread_join(a->thread, nullptr);
		sem_destroy(&a->go);
	}
	ctx = main;
	sem_destroy(&s.back);
	if(s.switches > std::uint64_t(n)) main->nontrivial = true;
	for(auto& a : s.actors) {
		main->steps += a->inter.steps;
		mix(a->inter.hash);
		if(a->inter.hash != a->solo.hash || a->inter.steps != a->solo.steps) {
			fail(P(13), "other observations", "thread T%d (%s) observes something else than when it runs alone",
				a->num, domainNames[a->domain]);
		}
	}
	COUNT("runs with several threads");
}

static Domain reg {"threads", runThreads};

} // namespace sim
