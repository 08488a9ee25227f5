// Simulated programs of nested scopes with guards (C11, C12)
#include "core.hpp"
#include <nytl/scope.hpp>
#include <functional>
#include <memory>
#include <optional>
#include <iostream>

namespace sim {
namespace {

enum Kind { kScope, kSuccess, kException };
const char* kindNames[] = {"ScopeGuard", "SuccessGuard", "ExceptionGuard"};

struct GuardWorld;
thread_local GuardWorld* gw {};

struct Open { // an open guarded scope
	int id {};
	int kind {};
	int runs {};
	int throws {};        // kind of the exception the guard's function ended with
	int throwTok {};
	bool unset {};
	bool normal {};       // the scope was left normally
	int state {-1};       // state of the callable when it was invoked
	int expectState {-1};
	std::size_t cerrPos {};
	bool bodyDone {};
	int uncaughtAtStart {};
	bool noMemory {};     // an allocation failed while the guard handled what its function threw
};

/// Counts the living callables
struct Live {
	static constexpr std::uint32_t ok = 0x600dca11;
	std::uint32_t magic {ok};
	std::vector<int> heap;
	explicit Live(int id);
	Live(const Live&);
	Live(Live&&);
	~Live();
};

struct GuardWorld {
	std::vector<Open*> open;
	int budget {80};
	int ids {};
	int toks {};
	int live {};
	bool failingMoves {};
	int moveThrow {};    // the next move of a callable throws this kind
	int depth {};
	int inBody {};
	int unwinding {};
	int throwRate {3};

	void items(int depth);             // may throw
	void guarded(int depth);           // may throw
	void same(int depth);              // may throw
	void tryBlock(int depth);          // may throw
	void unwindBlock(int depth);       // may throw
	void maybeThrow(int num, int den);
	void held(int depth);
	void body(int id, UserScope&);     // the guard's function
	void check(Open&);
	void run();
};

Live::Live(int id) : heap{id, id + 1, id + 2} { ++gw->live; }
Live::Live(const Live& o) : heap(o.heap) { ++gw->live; }
Live::Live(Live&& o) : heap() {
	if(gw->moveThrow) {
		auto k = gw->moveThrow;
		gw->moveThrow = 0;
		UserScope us;
		COUNT("fault: moving the callable threw");
		EV("moving the callable throws kind %d", k);
		throwTok(k, ++gw->toks);
	}
	heap = std::move(o.heap);
	++gw->live;
}
Live::~Live() {
	if(magic != ok) fail(P(12), "callable destroyed twice", "a guard's callable is destroyed twice");
	magic = 0;
	--gw->live;
}

// observed callable
struct Callable {
	int id;
	int state;
	Live live;
	explicit Callable(int i) : id(i), state(100), live(i) {}
	void operator()() {
		UserScope us;
		if(live.magic != Live::ok || live.heap.size() != 3 || live.heap[0] != id) {
			fail(P(12), "callable not alive", "the callable of guard g%d isn't intact when it is run", id);
		}
		if(gw->open.empty()) {
			fail(P(11), "guard runs late", "guard g%d runs when no guarded scope is open", id);
		}
		gw->open.back()->state = state;
		++state;
		gw->body(id, us);
	}
};

struct ConstCallable {
	int id;
	int state;
	Live live;
	mutable int calls {};
	explicit ConstCallable(int i) : id(i), state(100), live(i) {}
	void operator()() const {
		UserScope us;
		if(gw->open.empty()) {
			fail(P(11), "guard runs late", "guard g%d runs when no guarded scope is open", id);
		}
		gw->open.back()->state = state;
		++calls;
		gw->body(id, us);
	}
};

void freeFunction() {
	UserScope us;
	if(gw->open.empty()) {
		fail(P(11), "guard runs late", "a guard runs when no guarded scope is open");
	}
	gw->body(gw->open.back()->id, us);
}

/// Declared before the guard: checks after the guard's destructor
struct Sentinel {
	Open& o;
	FaultCtl fc;
	explicit Sentinel(Open& op) : o(op), fc(ctx->fc) {
		gw->open.push_back(&o);
	}
	~Sentinel() {
		ctx->fc = fc; // there is memory again
		UserScope us;
		if(gw->open.empty() || gw->open.back() != &o) {
			fail(P(11) | P(12), "scope order", "guarded scopes end in the wrong order");
		}
		gw->open.pop_back();
		gw->check(o);
	}
};

void GuardWorld::check(Open& o) {
	int expect = o.unset ? 0 : o.kind == kScope ? 1 : o.kind == kSuccess ? o.normal : !o.normal;
	EV("scope of g%d is left, normally: %d, unset: %d", o.id, int(o.normal), int(o.unset));
	if(o.runs != expect) {
		fail(P(11) | (o.throws ? P(12) : 0), "guard runs",
			"%s g%d ran %d times instead of %d (unset %d, scope left normally %d)",
			kindNames[o.kind], o.id, o.runs, expect, int(o.unset), int(o.normal));
	}
	if(o.runs && o.expectState >= 0 && o.state != o.expectState) {
		fail(P(12), "callable state", "g%d was run with the state %d of its callable instead of %d",
			o.id, o.state, o.expectState);
	}
	if(o.throws && ctx->cerrMode == 0 && !o.noMemory) {
		auto text = ctx->cerrText->substr(std::min(o.cerrPos, ctx->cerrText->size()));
		std::string want;
		if(o.throws == excStd) want = tokMessage(o.throwTok);
		if(o.throws == excAlloc) want = std::bad_alloc().what();
		if(text.empty() || text.find(want) == text.npos) {
			fail(P(12), "not reported", "the exception thrown by the function of g%d (kind %d) is not reported on std::cerr",
				o.id, o.throws);
		}
		COUNT("exceptions of guard functions reported");
	}
	if(o.throws) COUNT("exceptions of guard functions swallowed");
	if(std::cerr.fail()) std::cerr.clear();
}

void GuardWorld::maybeThrow(int num, int den) {
	if(chance(std::uint32_t(num), std::uint32_t(den))) {
		int kind = excStd + int(draw(4));
		if(kind > excInt) kind = excAlloc;
		auto tok = ++toks;
		EV("throw kind %d token %d", kind, tok);
		ctx->nontrivial = true;
		COUNT("fault: exception thrown");
		throwTok(kind, tok);
	}
}

// The function of guard id
void GuardWorld::body(int id, UserScope& us) {
	yieldPoint(7);
	auto& o = *open.back();
	EV("function of g%d runs", id);
	if(o.id != id) {
		fail(P(11), "guard order", "the function of g%d runs although the scope of g%d is the innermost open one",
			id, o.id);
	}
	++o.runs;
	COUNT("guard functions run");
	if(o.runs > 1) fail(P(11), "guard runs twice", "the function of g%d runs twice", id);
	if(std::uncaught_exceptions() > 0) COUNT("guard functions run while an exception propagates");
	if(inBody) COUNT("guard functions run inside guard functions");
	++inBody;
	ExcInfo e;
	Indent ind;
	try {
		switch(pick({4, 2, 3})) {
			case 0: break;
			case 1: maybeThrow(1, 1); break;
			default: items(depth + 1); break;
		}
		maybeThrow(1, 4);
	} catch(...) {
		e = currentExc();
		--inBody;
		o.throws = e.kind;
		o.throwTok = e.tok;
		if(ctx->cerrMode == 0) {
			// everything printed so far does not count
			o.cerrPos = ctx->cerrText->size();
		}
		EV("function of g%d throws kind %d token %d", id, e.kind, e.tok);
		if(chance(1, 4)) { // until the guard is destroyed, see Sentinel
			EV("no memory");
			COUNT("fault: no memory after a guard function threw");
			us.saved = {};
			us.saved.inLib = us.saved.persistent = true;
			us.saved.countdown = 1;
			us.saved.firedOut = &o.noMemory;
		}
		throw;
	}
	--inBody;
}

// One guarded scope; the kind of guard and of its callable are drawn
template<int K, typename F> struct GuardType;
template<typename F> struct GuardType<kScope, F> { using type = nytl::ScopeGuard<F>; };
template<typename F> struct GuardType<kSuccess, F> { using type = nytl::SuccessGuard<F>; };
template<typename F> struct GuardType<kException, F> { using type = nytl::ExceptionGuard<F>; };

template<int K, typename C> auto makeGuard(C&& c) {
	// only for the type
	if constexpr(K == kScope) return static_cast<decltype(nytl::ScopeGuard(std::forward<C>(c)))*>(nullptr);
	else if constexpr(K == kSuccess) return static_cast<decltype(nytl::SuccessGuard(std::forward<C>(c)))*>(nullptr);
	else return static_cast<decltype(nytl::ExceptionGuard(std::forward<C>(c)))*>(nullptr);
}

// lives in the same frame as the guard
#define SIM_INSIDE(guard) do { \
	inside(w, o, depth, [&]{ LibScope ls_; guard.unset(); }); \
} while(0)

template<typename U> void inside(GuardWorld& w, Open& o, int depth, U unset) {
	UserScope us;
	Indent ind;
	bool before = chance(1, 8), after = chance(1, 8);
	auto doUnset = [&] {
		EV("g%d is unset", o.id);
		COUNT("guards unset");
		o.unset = true;
		unset();
	};
	if(before) doUnset();
	w.items(depth + 1);
	if(after) doUnset();
	w.maybeThrow(1, 6);
}

template<int K> void guardedScope(GuardWorld& w, int depth, Open& o) {
	int callable = int(draw(8));
	EV("scope with %d g%d, callable %d", K, o.id, callable);
	o.uncaughtAtStart = std::uncaught_exceptions();
	if(o.uncaughtAtStart) COUNT("guards created while an exception propagates");
	if(chance(1, 40)) {
		w.moveThrow = excStd + int(draw(3));
	}
	auto reset = [&]{ w.moveThrow = 0; };
	struct R { decltype(reset) r; ~R() { r(); } } r{reset}; (void) r;
	// the construction fails: there is no guard
	bool armed = w.moveThrow != 0 && (callable == 0 || callable == 1 || callable == 2);
	if(!armed) w.moveThrow = 0;
	switch(callable) {
		case 0: { // owned temporary
			if(armed) {
				auto toks = w.toks;
				try {
					using G = std::remove_pointer_t<decltype(makeGuard<K>(std::declval<Callable>()))>;
					G g{Callable(o.id)};
					g.unset();
				} catch(...) {
					auto e = currentExc();
					if(w.toks != toks + 1 || (e.kind != excInt && e.tok != w.toks)) {
						fail(P(12), "construction", "another exception leaves the guard's constructor");
					}
					throw;
				}
				return;
			}
			o.expectState = 100;
			Sentinel s(o);
			using G = std::remove_pointer_t<decltype(makeGuard<K>(std::declval<Callable>()))>;
			G g{Callable(o.id)};
			SIM_INSIDE(g);
			o.normal = true;
			break;
		}
		case 1: { // owned, the source is gone
			auto src = std::make_unique<Callable>(o.id);
			if(armed) {
				using G = std::remove_pointer_t<decltype(makeGuard<K>(std::declval<Callable>()))>;
				G g{std::move(*src)};
				g.unset();
				return;
			}
			o.expectState = 100;
			Sentinel s(o);
			using G = std::remove_pointer_t<decltype(makeGuard<K>(std::declval<Callable>()))>;
			G g{std::move(*src)};
			src->state = 7777;
			src.reset();
			SIM_INSIDE(g);
			o.normal = true;
			break;
		}
		case 2: { // lambda
			if(armed) w.moveThrow = 0;
			o.expectState = 100;
			auto sp = std::make_shared<Callable>(o.id);
			Sentinel s(o);
			auto f = [sp]{ (*sp)(); };
			using G = std::remove_pointer_t<decltype(makeGuard<K>(std::move(f)))>;
			G g{std::move(f)};
			sp.reset();
			SIM_INSIDE(g);
			o.normal = true;
			break;
		}
		case 3: { // lvalue, changed afterwards
			Callable c(o.id);
			{
				Sentinel s(o);
				using G = std::remove_pointer_t<decltype(makeGuard<K>(c))>;
				struct Set { // also when an exception leaves the scope
					Callable& c; Open& o;
					~Set() { c.state = 300 + o.id; o.expectState = c.state; }
				};
				G g{c};
				Set set{c, o};
				SIM_INSIDE(g);
				o.normal = true;
			}
			if(o.runs && c.state != o.expectState + 1) {
				fail(P(12), "callable copied", "the function of g%d did not change the callable it refers to", o.id);
			}
			break;
		}
		case 4: { // std::function, replaced afterwards
			std::function<void()> c = [id = o.id]{
				UserScope us;
				fail(P(12), "callable state", "g%d runs the function its callable had when it was created", id);
			};
			Sentinel s(o);
			using G = std::remove_pointer_t<decltype(makeGuard<K>(c))>;
			struct Set {
				std::function<void()>& c; Open& o;
				~Set() { UserScope us; c = Callable(o.id); o.expectState = 100; }
			};
			G g{c};
			Set set{c, o};
			SIM_INSIDE(g);
			o.normal = true;
			break;
		}
		case 5: { // std::function, owned
			std::function<void()> c = Callable(o.id);
			o.expectState = 100;
			Sentinel s(o);
			using G = std::remove_pointer_t<decltype(makeGuard<K>(std::move(c)))>;
			G g{std::move(c)};
			c = []{ fail(P(12), "callable state", "an owned callable was not moved from its source"); };
			SIM_INSIDE(g);
			o.normal = true;
			break;
		}
		case 6: { // const lvalue
			const ConstCallable c(o.id);
			{
				Sentinel s(o);
				o.expectState = 100;
				using G = std::remove_pointer_t<decltype(makeGuard<K>(c))>;
				G g{c};
				SIM_INSIDE(g);
				o.normal = true;
			}
			if(c.calls != o.runs) {
				fail(P(12), "callable copied", "g%d did not run the callable it refers to", o.id);
			}
			break;
		}
		default: { // function
			Sentinel s(o);
			using G = std::remove_pointer_t<decltype(makeGuard<K>(freeFunction))>;
			G g{freeFunction};
			SIM_INSIDE(g);
			o.normal = true;
		}
	}
}

void GuardWorld::guarded(int d) {
	Open o;
	o.id = ++ids;
	o.kind = int(draw(3));
	o.cerrPos = ctx->cerrText->size();
	COUNT("guards");
	switch(o.kind) {
		case kScope: guardedScope<kScope>(*this, d, o); break;
		case kSuccess: guardedScope<kSuccess>(*this, d, o); break;
		default: guardedScope<kException>(*this, d, o);
	}
}

// Several guards in the same scope, that may be left by returning early
void GuardWorld::same(int d) {
	Open o[3];
	COUNT("scopes with several guards");
	for(int i = 0; i < 3; ++i) {
		o[i].id = ++ids;
		o[i].kind = i == 0 ? kScope : i == 1 ? kException : kSuccess;
	}
	EV("scope with three guards g%d", o[0].id);
	auto mark = [&](int n) { for(int i = 0; i < n; ++i) o[i].normal = true; };
	for(int round = 0; round < 1; ++round) {
		Sentinel s0(o[0]);
		nytl::ScopeGuard g0([&]{ UserScope us; body(o[0].id, us); });
		if(chance(1, 8)) { mark(1); return; }
		items(d + 1);
		Sentinel s1(o[1]);
		nytl::ExceptionGuard g1([&]{ UserScope us; body(o[1].id, us); });
		if(chance(1, 8)) { mark(2); break; }
		items(d + 1);
		Sentinel s2(o[2]);
		nytl::SuccessGuard g2([&]{ UserScope us; body(o[2].id, us); });
		if(chance(1, 8)) { mark(3); continue; }
		items(d + 1);
		if(chance(1, 6)) { EV("g%d is unset", o[1].id); o[1].unset = true; g1.unset(); }
		maybeThrow(1, 6);
		mark(3);
	}
}

// An exception thrown in the scope arrives unchanged
void GuardWorld::tryBlock(int d) {
	auto uncaught = std::uncaught_exceptions();
	ExcInfo thrown;
	auto opened = open.size();
	EV("try");
	Indent ind;
	struct Scope { GuardWorld& w; int d; ExcInfo& t; } sc{*this, d, thrown}; (void) sc;
	try {
		// the innermost place sees the exception first
		struct Inner {
			static void run(GuardWorld& w, int d, ExcInfo& t) {
				Open o;
				o.id = ++w.ids;
				o.kind = int(draw(3));
				o.cerrPos = ctx->cerrText->size();
				try {
					w.items(d + 1);
					w.maybeThrow(1, 2);
				} catch(...) {
					t = currentExc();
					// leaves the guards below again
					if(draw(2)) {
						EV("rethrow");
						nytl::ScopeGuard g([&]{ UserScope us; try { w.items(d + 2); } catch(...) {} w.maybeThrow(1, 3); });
						throw;
					}
					nytl::ExceptionGuard g([&]{ UserScope us; w.maybeThrow(1, 2); });
					auto p = std::current_exception();
					std::rethrow_exception(p);
				}
			}
			static void guard(GuardWorld& w, int d, ExcInfo& t, int n) {
				if(n == 0) return run(w, d, t);
				Open o;
				o.id = ++w.ids;
				o.cerrPos = ctx->cerrText->size();
				o.kind = n == 1 ? kScope : n == 2 ? kException : kSuccess;
				EV("guard %d of kind %d around it", o.id, o.kind);
				Sentinel s(o);
				auto f = [&w, id = o.id]{ UserScope us; w.body(id, us); };
				if(n == 1) {
					nytl::ScopeGuard g(f);
					guard(w, d, t, n - 1);
					o.normal = true;
				} else if(n == 2) {
					nytl::ExceptionGuard g(f);
					guard(w, d, t, n - 1);
					o.normal = true;
				} else {
					nytl::SuccessGuard g(f);
					guard(w, d, t, n - 1);
					o.normal = true;
				}
			}
		};
		Inner::guard(*this, d, thrown, 1 + int(draw(3)));
	} catch(...) {
		auto e = currentExc();
		COUNT("exceptions that passed guards");
		EV("caught kind %d token %d", e.kind, e.tok);
		if(!(e == thrown)) {
			fail(P(12), "exception changed", "an exception of kind %d token %d passed guards, but kind %d token %d arrives",
				thrown.kind, thrown.tok, e.kind, e.tok);
		}
		if(std::uncaught_exceptions() != uncaught) {
			fail(P(12), "uncaught", "the number of uncaught exceptions is wrong after an exception passed guards");
		}
		if(open.size() != opened) {
			fail(P(11) | P(12), "scopes open", "scopes are still open after an exception passed guards");
		}
		// guards in catch blocks
		if(draw(2)) items(d + 1);
		if(budget > 0 && chance(1, 5)) {
			EV("rethrow");
			throw;
		}
		return;
	}
	if(thrown.kind) {
		fail(P(12), "exception lost", "an exception of kind %d token %d did not pass the guards", thrown.kind, thrown.tok);
	}
}

// Runs code while an exception propagates
void GuardWorld::unwindBlock(int d) {
	if(unwinding > 3) return;
	struct AtUnwind {
		GuardWorld& w; int d;
		~AtUnwind() {
			UserScope us;
			COUNT("code run while an exception propagates");
			++w.unwinding;
			auto opened = w.open.size();
			try {
				EV("destructor runs code");
				w.items(d + 1);
			} catch(...) {
				EV("destructor catches");
			}
			if(w.open.size() != opened) fail(P(11) | P(12), "scopes open", "scopes are still open after they were left");
			--w.unwinding;
		}
	};
	auto tok = ++toks;
	try {
		AtUnwind a{*this, d};
		EV("throw token %d and run code in a destructor", tok);
		ctx->nontrivial = true;
		throwStd(tok);
	} catch(...) {
		auto e = currentExc();
		if(e.kind != excStd || e.tok != tok) {
			fail(P(12), "exception changed", "exception token %d changed to kind %d token %d by guards in destructors",
				tok, e.kind, e.tok);
		}
	}
}

template<typename F> using PlainGuard = nytl::ScopeGuard<F>;

// A guard that is not an automatic object but ends with the scope
template<template<typename> class G> void heldGuard(GuardWorld& w, int d, Open& o) {
	auto f = [&w, id = o.id]{ UserScope us; w.body(id, us); };
	using Guard = G<decltype(f)&>;
	COUNT("guards that are no automatic objects");
	if(chance(1, 2)) { // created while an exception propagates that is handled in the scope
		EV("scope with g%d that is created while an exception propagates", o.id);
		ctx->nontrivial = true;
		Sentinel s(o);
		std::optional<Guard> g;
		auto tok = ++w.toks;
		try {
			struct Maker {
				std::optional<Guard>& g; decltype(f)& func;
				~Maker() { g.emplace(func); }
			};
			Maker m {g, f};
			throwStd(tok);
		} catch(...) {
			auto e = currentExc();
			if(e.kind != excStd || e.tok != tok) {
				fail(P(12), "exception changed", "exception token %d changed to kind %d token %d by guards in destructors",
					tok, e.kind, e.tok);
			}
		}
		try {
			UserScope us;
			w.items(d + 1);
		} catch(...) {
			EV("caught in the scope");
		}
		if(chance(1, 8)) {
			EV("g%d is unset", o.id);
			o.unset = true;
			g->unset();
		}
		o.normal = true;
		if(draw(2)) g.reset();
		return;
	}
	EV("scope with g%d on the heap", o.id);
	Sentinel s(o);
	auto g = std::make_unique<Guard>(f);
	{
		UserScope us;
		w.items(d + 1);
		w.maybeThrow(1, 6);
	}
	o.normal = true;
	if(draw(2)) g.reset();
}

void GuardWorld::held(int d) {
	Open o;
	o.id = ++ids;
	o.kind = int(draw(3));
	o.cerrPos = ctx->cerrText->size();
	COUNT("guards");
	switch(o.kind) {
		case kScope: heldGuard<PlainGuard>(*this, d, o); break;
		case kSuccess: heldGuard<nytl::SuccessGuard>(*this, d, o); break;
		default: heldGuard<nytl::ExceptionGuard>(*this, d, o);
	}
}

void GuardWorld::items(int d) {
	if(d > 12) return;
	auto old = depth;
	depth = d;
	struct R { int& x; int o; ~R() { x = o; } } r{depth, old}; (void) r;
	int n = int(draw(4));
	for(int i = 0; i < n; ++i) {
		if(budget-- <= 0) return;
		switch(pick({6, 2, 3, 2, 1, 1})) {
			case 0: guarded(d); break;
			case 1: same(d); break;
			case 2: tryBlock(d); break;
			case 3: unwindBlock(d); break;
			case 4: maybeThrow(1, 2); break;
			default: held(d);
		}
	}
}

void GuardWorld::run() {
	static const int budgets[] = {10, 30, 80, 200};
	budget = budgets[draw(4)];
	ctx->cerrMode = 0;
	if(ctx->actor < 0 && chance(1, 4)) {
		ctx->cerrMode = 1 + int(draw(2));
		COUNT("fault: std::cerr fails");
	}
	EV("cerr mode %d", ctx->cerrMode);
	int n = 1 + int(draw(3));
	for(int i = 0; i < n; ++i) {
		try {
			if(i == 0) guarded(0);
			else items(0);
		} catch(...) {
			auto e = currentExc();
			EV("top level catches kind %d token %d", e.kind, e.tok);
		}
		if(!open.empty()) fail(P(11) | P(12), "scopes open", "scopes are still open after they were left");
	}
	ctx->cerrMode = 0;
	std::cerr.clear();
	if(live) fail(P(12) | P(11), "callable leaked", "%d callables of guards are never destroyed", live);
}

} // anon namespace

void runGuards(int) {
	GuardWorld w;
	auto old = gw;
	gw = &w;
	ctx->cerrText->clear();
	LibScope all;
	w.run();
	gw = old;
}

static Domain reg {"guards", runGuards};

} // namespace sim
