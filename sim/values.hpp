// Operations on vectors, matrices, rectangles and strings whose elements or allocations fail (C22).
// Included by the two parts of this world; everything in here is local to them.
#pragma once
#include "core.hpp"
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/utf.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>

namespace sim {
namespace {

// ---- elements --------------------------------------------------------------------------------------
struct ElemCtl {
	long ops {};        // operations of elements so far
	long countdown {};  // the countdown-th one fails
	bool fired {};
	int kind {}, tok {};
};
thread_local ElemCtl ectl {};

void elemOp() {
	++ectl.ops;
	yieldPoint(12);
	if(ectl.countdown > 0 && --ectl.countdown == 0) {
		ectl.fired = true;
		COUNT("fault: element operation threw");
		UserScope us;
		throwTok(ectl.kind, ectl.tok);
	}
}

/// A number that needs memory, like ones of arbitrary precision. Everything but moving may throw.
class Num {
public:
	Num() noexcept = default;
	Num(long v) { set(v); }
	Num(int v) : Num(long(v)) {}
	Num(const Num& o) { elemOp(); set(o.get()); }
	Num(Num&& o) noexcept : p_(std::move(o.p_)), moved_(o.moved_) { o.moved_ = true; }
	Num& operator=(const Num& o) {
		elemOp();
		set(o.get());
		return *this;
	}
	Num& operator=(Num&& o) noexcept {
		if(&o != this) {
			p_ = std::move(o.p_);
			moved_ = o.moved_;
			o.moved_ = true;
		}
		return *this;
	}
	long get() const {
		if(moved_) return -99991; // unspecified
		return p_ ? *p_ : 0;
	}
	explicit operator long() const { elemOp(); return get(); }
	operator double() const { elemOp(); return double(get()); }

	Num& operator+=(const Num& o) { elemOp(); set(get() + o.get()); return *this; }
	Num& operator-=(const Num& o) { elemOp(); set(get() - o.get()); return *this; }
	Num& operator*=(const Num& o) { elemOp(); set(get() * o.get()); return *this; }
	Num& operator/=(const Num& o) { elemOp(); set(get() / o.get()); return *this; }
	Num operator-() const { elemOp(); return Num(-get()); }
	friend Num operator+(const Num& a, const Num& b) { elemOp(); return Num(a.get() + b.get()); }
	friend Num operator-(const Num& a, const Num& b) { elemOp(); return Num(a.get() - b.get()); }
	friend Num operator*(const Num& a, const Num& b) { elemOp(); return Num(a.get() * b.get()); }
	friend Num operator/(const Num& a, const Num& b) { elemOp(); return Num(a.get() / b.get()); }
	friend bool operator==(const Num& a, const Num& b) { elemOp(); return a.get() == b.get(); }
	friend bool operator!=(const Num& a, const Num& b) { elemOp(); return a.get() != b.get(); }
	friend bool operator<(const Num& a, const Num& b) { elemOp(); return a.get() < b.get(); }
	friend bool operator>(const Num& a, const Num& b) { elemOp(); return a.get() > b.get(); }
	friend bool operator<=(const Num& a, const Num& b) { elemOp(); return a.get() <= b.get(); }
	friend bool operator>=(const Num& a, const Num& b) { elemOp(); return a.get() >= b.get(); }

private:
	void set(long v) { // strong guarantee
		auto n = std::make_unique<long>(v);
		p_ = std::move(n);
		moved_ = false;
	}
	std::unique_ptr<long> p_;
	bool moved_ {};
};

// ---- results as plain numbers ------------------------------------------------------------------------
using Flat = std::vector<long>;

[[maybe_unused]] void flat(Flat& f, bool v) { f.push_back(v); }
[[maybe_unused]] void flat(Flat& f, long v) { f.push_back(v); }
[[maybe_unused]] void flat(Flat& f, int v) { f.push_back(v); }
[[maybe_unused]] void flat(Flat& f, double v) { f.push_back(v - v == 0 ? long(v * 1024) : -99992); }
[[maybe_unused]] void flat(Flat& f, const Num& v) { f.push_back(v.get()); }
template<std::size_t D, typename T> void flat(Flat& f, const nytl::Vec<D, T>& v) {
	for(auto i = 0u; i < D; ++i) flat(f, v[i]);
}
template<std::size_t R, std::size_t C, typename T> void flat(Flat& f, const nytl::Mat<R, C, T>& m) {
	for(auto i = 0u; i < R; ++i) flat(f, m[i]);
}
template<std::size_t D, typename T> void flat(Flat& f, const nytl::Rect<D, T>& r) {
	flat(f, r.position);
	flat(f, r.size);
}
template<typename T> void flat(Flat& f, const std::vector<T>& v) {
	for(auto& x : v) flat(f, x);
}
template<typename C> void flat(Flat& f, const std::basic_string<C>& s) {
	for(auto c : s) f.push_back(long(std::make_unsigned_t<std::conditional_t<
		sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c)));
}
template<typename T, std::size_t N> void flat(Flat& f, const std::array<T, N>& a) {
	for(auto& x : a) flat(f, x);
}
template<typename... T> Flat flatten(const T&... t) {
	UserScope us;
	auto saved = ectl;
	ectl.countdown = 0;
	Flat f;
	(flat(f, t), ...);
	ectl = saved;
	return f;
}

// ---- one operation, with a fault -----------------------------------------------------------------------
constexpr Mask m22 = P(22);

struct Fault {
	bool none {true};
	bool alloc {};
	bool persistent {};
	bool unwinding {}; // happens while another exception propagates
	long at {};
	int kind {}, tok {};
};

Fault drawFault(long ops, long allocs) {
	Fault f;
	f.unwinding = chance(1, 12);
	if(ops + allocs == 0 || !chance(7, 8)) return f;
	f.none = false;
	// same weight for both, whatever their number
	f.alloc = ops == 0 || (allocs && draw(2));
	f.at = 1 + long(draw(std::uint32_t(f.alloc ? allocs : ops)));
	if(f.alloc) {
		f.persistent = chance(1, 4);
		f.kind = excAlloc;
	} else {
		static const int kinds[] = {excStd, excPlain, excInt, excAlloc};
		f.kind = kinds[draw(4)];
		f.tok = f.kind == excAlloc ? 0 : 1 + int(draw(1000));
	}
	return f;
}

struct Result {
	bool thrown {}, fired {};
	ExcInfo exc;
	Flat value;
	long ops {}, allocs {};
};

using Body = std::function<void(Result&)>;
using State = std::function<Flat()>;

/// From here on nothing fails: the result of the operation exists.
void settled(Result& r) {
	r.allocs = ctx->fc.allocs;
	r.ops = ectl.ops;
	ctx->fc.countdown = 0;
	ectl.countdown = 0;
}

/// Runs lib with the given fault; its result is flattened and destroyed again.
Result attempt(const Fault& f, const Body& lib) {
	Result r;
	ectl = {};
	if(!f.none && !f.alloc) {
		ectl.countdown = f.at;
		ectl.kind = f.kind;
		ectl.tok = f.tok;
	}
	LibScope ls(f.none || !f.alloc ? 0 : f.at, f.persistent);
	auto run = [&]{
		try {
			lib(r);
		} catch(...) {
			UserScope us;
			r.exc = currentExc();
			r.thrown = true;
		}
	};
	f.unwinding ? whileUnwinding(run) : run();
	r.fired = ls.fired() || ectl.fired;
	return r;
}

void describe(const char* name, const Fault& f) {
	(void) name;
	if(f.none) EV("again without fault");
	else if(f.alloc) EV("allocation %d fails, persistently %d", int(f.at), int(f.persistent));
	else EV("element operation %d throws kind %d token %d", int(f.at), f.kind, f.tok);
}

/// An operation that only reads its operands.
[[maybe_unused]] void readingImpl(const char* name, const Flat& expected, const State& state, const Body& lib) {
	EV("operation %d", int(fnv(name) % 100000));
	if(verbose) logText("(%s)", name);
	auto before = state();
	auto check = [&](const Result& r, const Fault& f, const char* when) {
		describe(name, f);
		if(r.fired && !r.thrown) {
			fail(m22, "error lost", "%s: a failure did not reach the caller (%s)", name, when);
		}
		if(r.thrown && !r.fired) {
			fail(m22, "unexpected exception", "%s: throws exception kind %d without reason (%s)", name, r.exc.kind, when);
		}
		if(r.thrown && !(r.exc == ExcInfo{f.kind, f.tok})) {
			fail(m22, "other exception", "%s: exception kind %d token %d arrives instead of kind %d token %d",
				name, r.exc.kind, r.exc.tok, f.kind, f.tok);
		}
		if(!r.thrown && r.value != expected) {
			fail(m22, "wrong result", "%s: wrong result (%s)", name, when);
		}
		if(state() != before) {
			fail(m22, "operand changed", "%s: changed an operand it only reads (%s)", name, when);
		}
	};
	long ops = 0, allocs = 0;
	auto tries = 2 + int(draw(2));
	for(int i = 0; i <= tries; ++i) {
		auto f = i == 0 || i == tries ? Fault {} : drawFault(ops, allocs);
		if(i != 0 && i != tries && f.none) continue;
		const char* when = i == 0 ? "no failure" : i == tries ? "after failures" : "failing";
		auto live = ctx->liveAllocs;
		{
			auto r = attempt(f, lib);
			check(r, f, when);
			if(i == 0) {
				ops = r.ops;
				allocs = r.allocs;
			}
			if(!f.none) ctx->nontrivial = true;
			if(r.thrown) COUNT("failed operations on values");
		}
		leaked(m22, name, ctx->liveAllocs - live);
	}
}

template<typename Lib>
void reading(const char* name, const Flat& expected, const State& state, Lib lib) {
	readingImpl(name, expected, state, [&](Result& r) {
		auto&& res = lib();
		settled(r);
		r.value = flatten(res);
	});
}

/// An operation that changes its first operand. With componentWise, every component has its
/// old or its new value after a failure.
struct Flatten {
	template<typename T> Flat operator()(const T& t) const { return flatten(t); }
};
template<typename T, typename Lib, typename F = Flatten>
void changing(const char* name, const T& operand, const Flat& expected, const State& state, Lib lib,
		bool componentWise = true, F flatten = {}) {
	EV("in-place operation %d", int(fnv(name) % 100000));
	if(verbose) logText("(%s)", name);
	auto before = state();
	auto old = flatten(operand);
	long ops = 0, allocs = 0;
	auto tries = 2 + int(draw(2));
	for(int i = 0; i <= tries; ++i) {
		auto f = i == 0 || i == tries ? Fault {} : drawFault(ops, allocs);
		if(i != 0 && i != tries && f.none) continue;
		auto live = ctx->liveAllocs;
		{
			std::optional<T> a(operand);
			auto r = attempt(f, [&](Result& r) { lib(*a); settled(r); });
			describe(name, f);
			if(i == 0) {
				ops = r.ops;
				allocs = r.allocs;
			}
			if(!f.none) ctx->nontrivial = true;
			if(r.thrown) COUNT("failed operations on values");
			const char* when = i == 0 ? "no failure" : i == tries ? "after failures" : "failing";
			if(r.fired != r.thrown) {
				fail(m22, r.fired ? "error lost" : "unexpected exception", "%s: %s (%s)", name,
					r.fired ? "a failure did not reach the caller" : "throws without reason", when);
			}
			if(r.thrown && !(r.exc == ExcInfo{f.kind, f.tok})) {
				fail(m22, "other exception", "%s: exception kind %d token %d arrives instead of kind %d token %d",
					name, r.exc.kind, r.exc.tok, f.kind, f.tok);
			}
			auto now = flatten(*a);
			if(!r.thrown && now != expected) {
				fail(m22, "wrong result", "%s: wrong result (%s)", name, when);
			}
			if(r.thrown && componentWise) {
				for(std::size_t k = 0; k < now.size(); ++k) {
					if(now[k] != old[k] && now[k] != expected[k]) {
						fail(m22, "partial result", "%s: component %zu has neither its old nor its new value", name, k);
					}
				}
			}
			if(r.thrown) { // it can be used again
				ectl = {};
				*a = operand;
				if(flatten(*a) != old) fail(m22, "unusable", "%s: the operand is unusable after a failure", name);
			}
			if(state() != before) {
				fail(m22, "operand changed", "%s: changed an operand it only reads (%s)", name, when);
			}
			ectl = {};
		}
		leaked(m22, name, ctx->liveAllocs - live);
	}
}

// ---- operands ------------------------------------------------------------------------------------------
long number(bool nonzero = false) {
	auto v = long(draw(25)) - 12;
	if(nonzero && v >= 0) ++v;
	return v;
}
template<std::size_t D> nytl::Vec<D, Num> vec(bool nonzero = false) {
	nytl::Vec<D, Num> r {};
	for(auto i = 0u; i < D; ++i) r[i] = Num(number(nonzero));
	return r;
}
template<std::size_t R, std::size_t C> nytl::Mat<R, C, Num> mat() {
	nytl::Mat<R, C, Num> r {};
	for(auto i = 0u; i < R; ++i) r[i] = vec<C>();
	return r;
}
template<std::size_t D> nytl::Rect<D, Num> rect() {
	nytl::Rect<D, Num> r {};
	for(auto i = 0u; i < D; ++i) {
		r.position[i] = Num(long(draw(12)));
		r.size[i] = Num(1 + long(draw(9)));
	}
	return r;
}
#define VAL(x, i) ((x)[i].get())

template<typename F> Flat gen(std::size_t n, F f) {
	Flat r;
	for(std::size_t i = 0; i < n; ++i) r.push_back(f(i));
	return r;
}

} // namespace

void valuesOfMatrices(); // see valmat.cpp
void valuesOfReals(); // see valreal.cpp

} // namespace sim
