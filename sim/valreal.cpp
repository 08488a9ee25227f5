// Operations that need real numbers, on elements that fail (C22). Their results are compared to the
// ones of the same operation on plain doubles, for which nothing can fail.
// When this does not compile with some other (correct) version of the library, since that expects more
// of an element type than Real has, it is left out (SIM_SKIP).
#include "values.hpp"

namespace sim {
#ifndef SIM_SKIP
namespace {

/// A real number that needs memory. Everything but moving may throw.
class Real {
public:
	Real() noexcept = default;
	Real(double v) { set(v); }
	Real(const Real& o) { elemOp(); set(o.get()); }
	Real(Real&& o) noexcept : p_(std::move(o.p_)) { o.moved_ = true; moved_ = false; }
	Real& operator=(const Real& o) {
		elemOp();
		set(o.get());
		return *this;
	}
	Real& operator=(Real&& o) noexcept {
		if(&o != this) {
			p_ = std::move(o.p_);
			moved_ = o.moved_;
			o.moved_ = true;
		}
		return *this;
	}
	double get() const {
		if(moved_) return -99991; // unspecified
		return p_ ? *p_ : 0;
	}
	operator double() const { elemOp(); return get(); }

	Real& operator+=(double o) { elemOp(); set(get() + o); return *this; }
	Real& operator-=(double o) { elemOp(); set(get() - o); return *this; }
	Real& operator*=(double o) { elemOp(); set(get() * o); return *this; }
	Real& operator/=(double o) { elemOp(); set(get() / o); return *this; }
	Real operator-() const { elemOp(); return Real(-get()); }

private:
	void set(double v) { // strong guarantee
		auto n = std::make_unique<double>(v);
		p_ = std::move(n);
		moved_ = false;
	}
	std::unique_ptr<double> p_;
	bool moved_ {};
};

double plain(const Real& r) { return r.get(); }

#define OP(op, R) \
	R operator op(const Real& a, const Real& b) { elemOp(); return R(a.get() op b.get()); } \
	template<typename A, typename = std::enable_if_t<std::is_arithmetic_v<A>>> \
	R operator op(A a, const Real& b) { elemOp(); return R(double(a) op b.get()); } \
	template<typename A, typename = std::enable_if_t<std::is_arithmetic_v<A>>> \
	R operator op(const Real& a, A b) { elemOp(); return R(a.get() op double(b)); }
OP(+, Real)
OP(-, Real)
OP(*, Real)
OP(/, Real)
OP(==, bool)
OP(!=, bool)
OP(<, bool)
OP(>, bool)
OP(<=, bool)
OP(>=, bool)
#undef OP

[[maybe_unused]] void flat(Flat& f, const Real& v) { flat(f, v.get()); }
template<std::size_t D> void flat(Flat& f, const nytl::Vec<D, Real>& v) {
	for(auto i = 0u; i < D; ++i) flat(f, v[i].get());
}
template<std::size_t R, std::size_t C> void flat(Flat& f, const nytl::Mat<R, C, Real>& m) {
	for(auto i = 0u; i < R; ++i) flat(f, m[i]);
}
template<std::size_t D> void flat(Flat& f, const nytl::Rect<D, Real>& r) {
	flat(f, r.position);
	flat(f, r.size);
}
template<typename... T> Flat flats(const T&... t) {
	UserScope us;
	auto saved = ectl;
	ectl.countdown = 0;
	Flat f;
	(flat(f, t), ...);
	ectl = saved;
	return f;
}

template<std::size_t D> nytl::Vec<D, double> plain(const nytl::Vec<D, Real>& v) {
	nytl::Vec<D, double> r {};
	for(auto i = 0u; i < D; ++i) r[i] = v[i].get();
	return r;
}
template<std::size_t R, std::size_t C> nytl::Mat<R, C, double> plain(const nytl::Mat<R, C, Real>& m) {
	nytl::Mat<R, C, double> r {};
	for(auto i = 0u; i < R; ++i) r[i] = plain(m[i]);
	return r;
}
template<std::size_t D> nytl::Rect<D, double> plain(const nytl::Rect<D, Real>& a) {
	return {plain(a.position), plain(a.size)};
}

/// The operation on plain numbers, which nothing makes fail
template<typename F> void reference(const char* name, F f) {
	try {
		f();
	} catch(...) {
		UserScope us;
		auto e = currentExc();
		fail(m22, "unexpected exception", "%s: throws exception kind %d for plain numbers", name, e.kind);
	}
}

/// op only reads its operands
template<typename Op, typename... T> void same(const char* name, Op op, const T&... t) {
	Flat expected;
	reference(name, [&]{
		auto&& r = op(plain(t)...);
		expected = flats(r);
	});
	readingImpl(name, expected, [&]{ return flats(t...); }, [&](Result& r) {
		auto&& res = op(t...);
		settled(r);
		r.value = flats(res);
	});
}

/// op changes its first operand
template<bool CompWise = true, typename Op, typename A, typename... T>
void changes(const char* name, Op op, const A& a, const T&... t) {
	auto ref = plain(a);
	reference(name, [&]{ op(ref, plain(t)...); });
	changing(name, a, flats(ref), [&]{ return flats(a, t...); }, [&](auto& x) { op(x, t...); }, CompWise,
		[](const A& x) { return flats(x); });
}

double real(bool positive = false) {
	return positive ? (1 + draw(64)) / 8. : (int(draw(65)) - 32) / 8.;
}
template<std::size_t D> nytl::Vec<D, Real> rvec(bool positive = false) {
	nytl::Vec<D, Real> r {};
	for(auto i = 0u; i < D; ++i) r[i] = Real(real(positive));
	return r;
}

template<std::size_t D> void realVectors() {
	namespace cw = nytl::vec::cw;
	auto a = rvec<D>(), b = rvec<D>(), c = rvec<D>(true);
	a[0] = Real(real(true)); // no null vectors
	b[draw(D)] = Real(-real(true));
	auto s = Real(real(true));
#define SAME(expr, ...) same(#expr, [](const auto& a, [[maybe_unused]] const auto&... x) { \
	[[maybe_unused]] auto X = std::tie(x...); return expr; }, __VA_ARGS__)
#define BB std::get<0>(X)
#define CC std::get<1>(X)
	switch(draw(18)) {
	case 0: SAME(nytl::length(a), a); break;
	case 1: SAME(nytl::distance(a, BB), a, b); break;
	case 2: SAME(nytl::angle(a, BB), a, b); break;
	case 3: SAME(nytl::angleNormed(a, BB), a, b); break;
	case 4: SAME(nytl::normalized(a), a); break;
	case 5: changes("normalize", [](auto& x) { nytl::normalize(x); }, a); break;
	case 6: SAME(cw::abs(a), a); changes("ip::abs", [](auto& x) { cw::ip::abs(x); }, a); break;
	case 7: SAME(cw::sqrt(a), c); changes("ip::sqrt", [](auto& x) { cw::ip::sqrt(x); }, c); break;
	case 8: SAME(cw::floor(a), a); changes("ip::floor", [](auto& x) { cw::ip::floor(x); }, a); break;
	case 9: SAME(cw::ceil(a), a); changes("ip::ceil", [](auto& x) { cw::ip::ceil(x); }, a); break;
	case 10: SAME(cw::pow(a, 2), a); changes("ip::pow f", [](auto& x) { cw::ip::pow(x, 2); }, a); break;
	case 11: SAME(cw::pow(a, BB), c, a);
		changes("ip::pow vec", [](auto& x, const auto& y) { cw::ip::pow(x, y); }, c, a); break;
	case 12: {
		auto lo = cw::min(a, b), hi = cw::max(a, b);
		same("clamp", [](const auto& x, const auto& y, const auto& z) { return cw::clamp(x, y, z); }, c, lo, hi);
		changes("ip::clamp", [](auto& x, const auto& y, const auto& z) { cw::ip::clamp(x, y, z); }, c, lo, hi);
		break;
	} case 13: SAME(cw::exp(a), b); SAME(cw::log(a), c); break;
	case 14: SAME(cw::operators::operator*(a, BB), a, b); SAME(cw::operators::operator/(a, BB), a, c); break;
	case 15: SAME(cw::operators::operator+(BB, a), a, s); SAME(cw::operators::operator-(a, BB), a, s); break;
	case 16: SAME(a + 2. * BB, a, b); SAME(a == BB, a, b); break;
	default: SAME(cw::sin(a), a); changes("ip::cos", [](auto& x) { cw::ip::cos(x); }, a); break;
	}
}

template<std::size_t R, std::size_t C> void realMatrices() {
	nytl::Mat<R, C, Real> a {};
	for(auto i = 0u; i < R; ++i) a[i] = rvec<C>();
	nytl::Mat<C, C, Real> d {};
	for(auto i = 0u; i < C; ++i) {
		d[i] = rvec<C>();
		d[i][i] = Real(30. + 4 * i + d[i][i].get()); // regular
	}
	if(chance(1, 3)) { // less than full rank
		auto i = draw(R), k = draw(R);
		if(i != k) a[i] = a[k];
	}
	if(chance(1, 3)) {
		auto k = draw(C);
		for(auto i = 0u; i < R; ++i) a[i][k] = Real(0.);
	}
	if(chance(1, 8)) a[R - 1] = nytl::Vec<C, Real>{};
	if(C > 1 && chance(1, 3)) nytl::swapRow(d, 0, 1); // needs a permutation?
	if(C > 1 && chance(1, 4)) d[0][0] = Real(0.), d[0][1] = Real(20.), d[1][0] = Real(20.);
	auto v = rvec<C>();
	auto row = draw(R), c = draw(C);
	auto after = chance(1, 2);
	switch(draw(12)) {
	case 0: changes("pivot", [=](auto& x) { nytl::pivot(x, row, c, after); }, a); break;
	case 1: changes<false>("rowEcholon", [](auto& x) { nytl::rowEcholon(x); }, a); break;
	case 2: changes<false>("reducedRowEcholon", [](auto& x) { nytl::reducedRowEcholon(x); }, a); break;
	case 3: SAME(nytl::rowEcholonCopy(a), a); break;
	case 4: SAME(nytl::reducedRowEcholonCopy(a), a); break;
	case 5: SAME(nytl::determinant(a), d); break;
	case 6: SAME(nytl::determinant(nytl::luDecomp(a)), d); break;
	case 7: SAME(nytl::inverse(a), d); break;
	case 8: SAME(nytl::invertible(a), d); break;
	case 9: same("luEvaluate", [](const auto& x, const auto& y) { return nytl::luEvaluate(x, x, y); }, d, v); break;
	case 10: same("identity", [](const auto& x) { return nytl::identity<C, std::decay_t<decltype(x[0][0])>>(); }, d); break;
	default: SAME(2. * a, a); SAME(a * BB, a, v); break;
	}
}

template<std::size_t D> void realRects() {
	nytl::Rect<D, Real> a {rvec<D>(), rvec<D>(true)}, b {rvec<D>(), rvec<D>(true)};
	if(chance(1, 2)) b.position = a.position + 0.25 * b.position;
	switch(draw(5)) {
	case 0: SAME(nytl::center(a), a); break;
	case 1: SAME(nytl::intersects(a, BB), a, b); break;
	case 2: SAME(nytl::intersectsReal(a, BB), a, b); break;
	case 3: SAME(nytl::intersection(a, BB), a, b); break;
	default: SAME(nytl::difference(a, BB), a, b); break;
	}
}

} // namespace

void valuesOfReals() {
	switch(draw(10)) {
		case 0: realVectors<2>(); break;
		case 1: realVectors<3>(); break;
		case 2: realVectors<4>(); break;
		case 3: realVectors<6>(); break;
		case 4: realMatrices<2, 2>(); break;
		case 5: realMatrices<3, 3>(); break;
		case 6: realMatrices<3, 4>(); break;
		case 7: realMatrices<4, 2>(); break;
		case 8: realRects<2>(); break;
		default: realRects<3>(); break;
	}
}

#else
void valuesOfReals() {}
#endif

} // namespace sim
