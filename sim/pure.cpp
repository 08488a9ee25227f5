// Computations on values only. There is no model of their results here (they are not decided by
// simulation); they only take part in C13: each thread has to get what it gets alone.
#include "core.hpp"
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/transform.hpp>
#include <nytl/utf.hpp>
#include <nytl/flags.hpp>
#include <nytl/span.hpp>
#include <nytl/math.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/simplex.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/functionTraits.hpp>
#include <complex>
#include <numeric>

namespace sim {
#ifndef SIM_SKIP // see OPTIONAL in check.py
namespace {

enum class Opt : unsigned { a = 1, b = 2, c = 4, d = 8 };
NYTL_FLAG_OPS(Opt)

void mixDouble(double d) {
	std::uint64_t u;
	std::memcpy(&u, &d, sizeof(u));
	mix(u);
}
template<typename V> void mixVec(const V& v) { for(auto x : v) mixDouble(double(x)); }
template<typename M> void mixMat(const M& m) {
	for(std::size_t r = 0; r < M::rows(); ++r)
		for(std::size_t c = 0; c < M::cols(); ++c) mixDouble(double(m[r][c]));
}

// everything else
void mixIt(double d) { mixDouble(d); }
void mixIt(const nytl::Quaternion& q) { for(auto d : {q.x, q.y, q.z, q.w}) mixDouble(d); }
template<std::size_t D, typename T> void mixIt(const nytl::Vec<D, T>& v) { for(auto i = 0u; i < D; ++i) mixDouble(double(v[i])); }
template<std::size_t R, std::size_t C, typename T> void mixIt(const nytl::Mat<R, C, T>& m) { mixMat(m); }
template<std::size_t D, typename T> void mixIt(const nytl::Rect<D, T>& r) { mixIt(r.position); mixIt(r.size); }
template<typename T, std::size_t N> void mixIt(const std::array<T, N>& a) { for(auto& x : a) mixIt(x); }

double val() { return double(int(draw(41)) - 20) / 4; }

// Runs library code
template<typename F> decltype(auto) lib(F f) {
	LibScope ls;
	return f();
}

template<std::size_t D> void matrices() {
	nytl::SquareMat<D, double> a, b;
	for(std::size_t r = 0; r < D; ++r) for(std::size_t c = 0; c < D; ++c) {
		a[r][c] = val();
		b[r][c] = val();
	}
	for(std::size_t r = 0; r < D; ++r) a[r][r] += 60; // regular
	mixMat(lib([&]{ return a * b; }));
	mixMat(lib([&]{ return nytl::transpose(b); }));
	mixMat(lib([&]{ return nytl::rowEcholonCopy(a); }));
	mixMat(lib([&]{ return nytl::reducedRowEcholonCopy(a); }));
	mixDouble(lib([&]{ return double(nytl::determinant(a)); }));
	mixMat(lib([&]{ return nytl::Mat<D, D, double>(nytl::inverse(a)); }));
	auto lu = lib([&]{ return nytl::luDecomp(a); });
	mixMat(lu.lower);
	mixMat(lu.upper);
	EV("%d-dimensional matrices", int(D));
}

void vectors() {
	nytl::Vec3d a {val(), val(), val() + 30}, b {val() + 30, val(), val()};
	mixVec(lib([&]{ return nytl::cross(a, b); }));
	mixDouble(lib([&]{ return nytl::dot(a, b); }));
	mixDouble(lib([&]{ return nytl::angle(a, b); }));
	mixVec(lib([&]{ return nytl::normalized(a); }));
	mixDouble(lib([&]{ return nytl::distance(a, b); }));
	mix(lib([&]{ return a == nytl::approx(b); }));
	EV("vectors");
}

void rects() {
	auto rect = [&]{
		nytl::Rect2i r;
		r.position = {int(draw(20)), int(draw(20))};
		r.size = {1 + int(draw(20)), 1 + int(draw(20))};
		return r;
	};
	auto a = rect(), b = rect();
	auto diff = lib([&]{ return nytl::difference(a, b); });
	for(auto& r : diff) { mixVec(r.position); mixVec(r.size); }
	auto i = lib([&]{ return nytl::intersection(a, b); });
	mixVec(i.position);
	mixVec(i.size);
	mix(lib([&]{ return nytl::intersects(a, b); }));
	EV("rects, %d parts", int(diff.size()));
}

void rotations() {
	nytl::Vec3d axis {val() + 30, val(), val()};
	auto angle = val();
	auto q = lib([&]{
		nytl::normalize(axis);
		auto q = nytl::Quaternion::axisAngle(axis.x, axis.y, axis.z, angle);
		return q * nytl::Quaternion::yxz(angle, 0.5 * angle, 0.1);
	});
	for(auto d : {q.x, q.y, q.z, q.w}) mixDouble(d);
	auto seq = nytl::RotationSequence(draw(12));
	mixVec(lib([&]{ return nytl::eulerAngles(q, seq); }));
	mixVec(lib([&]{ return nytl::apply(q, nytl::Vec3d{1., 2., 3.}); }));
	mixMat(lib([&]{ return nytl::lookAt<4, float>(q, nytl::Vec3f{1.f, 2.f, 3.f}); }));
	mixMat(lib([&]{ return nytl::perspective<float>(1.f, 1.5f, 0.1f, 10.f + float(draw(10))); }));
	EV("rotations");
}

#define DO(...) mixIt(lib([&]{ return __VA_ARGS__; }))
#define DOIP(x, ...) mixIt(lib([&]{ auto ip = x; __VA_ARGS__; return ip; }))

double pos() { return (1 + draw(40)) / 8.; }

void vectors2() {
	namespace cw = nytl::vec::cw;
	nytl::Vec4d a {val(), val(), val(), pos()}, b {pos(), pos(), pos(), pos()};
	nytl::Vec2f c {float(val()), float(pos())}, d {float(pos()), float(val())};
	nytl::Vec<6, int> e, f;
	for(auto i = 0u; i < 6; ++i) { e[i] = int(draw(20)); f[i] = 1 + int(draw(9)); }
	auto s = val();
	switch(draw(12)) {
	case 0: DO(nytl::length(a)); DO(nytl::mirror(a, b)); DO(nytl::sum(e)); DO(nytl::multiply(a)); break;
	case 1: DO(nytl::angleNormed(nytl::normalized(a), nytl::normalized(b))); DO(nytl::cross(c, d)); DO(nytl::distance(c, d)); break;
	case 2: DOIP(a, nytl::normalize(ip)); DOIP(a, ip += b; ip -= a; ip *= s); DO(-a); DO(s * a); DO(a + b); DO(a - b); break;
	case 3: DO(cw::max(a, b)); DO(cw::min(a, b)); DO(cw::max(a, s)); DO(cw::min(a, s)); DO(cw::max(e, f)); break;
	case 4: DO(cw::multiply(a, b)); DO(cw::divide(a, b)); DO(cw::divide(e, f)); DO(cw::abs(a)); DO(cw::sin(a)); DO(cw::cos(c)); break;
	case 5: DO(cw::tan(a)); DO(cw::asin(0.01 * a)); DO(cw::acos(0.01 * a)); DO(cw::atan(a)); DO(cw::sqrt(b)); DO(cw::log(b)); break;
	case 6: DO(cw::exp(a)); DO(cw::exp2(a)); DO(cw::floor(a)); DO(cw::ceil(a)); DO(cw::pow(b, s)); DO(cw::pow(b, a)); break;
	case 7: DO(cw::clamp(a, -1., 1.5)); DO(cw::clamp(a, -1. * b, b)); DOIP(c, cw::ip::clamp(ip, -1.f, 1.f)); DOIP(b, cw::ip::pow(ip, 2)); break;
	case 8: DO(cw::operators::operator+(a, s)); DO(cw::operators::operator-(s, a)); DO(cw::operators::operator+(s, a));
		DO(cw::operators::operator-(a, s)); break;
	case 9: DO(cw::operators::operator*(a, b)); DO(cw::operators::operator/(a, b));
		DOIP(a, cw::operators::operator*=(ip, b); cw::operators::operator/=(ip, b)); break;
	case 10: DO(nytl::vec::operators::operator*(a, s)); DO(nytl::vec::operators::operator/(a, 3.)); DO(nytl::vec::operators::operator/(s, b)); break;
	default: DO(static_cast<nytl::Vec3f>(a)); DO(static_cast<nytl::Vec<7, double>>(c)); DO(double(a == b)); DO(double(e != f)); break;
	}
	EV("vector functions");
}

void matrices2() {
	nytl::Mat<3, 4, double> a {}, b {};
	nytl::Mat<3, 3, double> d {}, e {};
	nytl::Vec<4, double> v;
	for(auto i = 0u; i < 3; ++i) {
		for(auto k = 0u; k < 4; ++k) { a[i][k] = val(); b[i][k] = val(); }
		for(auto k = 0u; k < 3; ++k) { d[i][k] = val(); e[i][k] = val(); }
		d[i][i] += 40;
	}
	for(auto i = 0u; i < 4; ++i) v[i] = val();
	nytl::Vec3d w {val(), val(), val()};
	auto s = val();
	auto n = draw(3), m = draw(3);
	switch(draw(9)) {
	case 0: DO(a + b); DO(a - b); DO(-a); DO(s * a); DO(a * v); DOIP(a, ip += b; ip -= a; ip *= s); break;
	case 1: DOIP(d, ip *= e); DO(d * a); DO(double(a == b)); DO(double(d != e)); DO(static_cast<nytl::Mat4f>(d)); break;
	case 2: DO(nytl::trace(d)); DO(nytl::multiplyDiagonal(d)); DO(nytl::col(a, n)); DOIP(a, nytl::col(ip, n, w)); break;
	case 3: DOIP(a, nytl::swapRow(ip, n, m)); DOIP(a, nytl::swapCol(ip, n, m)); DOIP(a, nytl::one(ip)); break;
	case 4: DO(nytl::identity<3, float>()); DOIP(d, nytl::identity(ip)); DO(double(nytl::symmetric(d))); DO(double(nytl::invertible(d))); break;
	case 5: DO(nytl::luEvaluate(nytl::luDecomp(d), w)); DO(nytl::inverse(nytl::luDecomp(d))); DO(nytl::determinant(nytl::luDecomp(d))); break;
	case 6: DOIP(a, nytl::pivot(ip, n, m)); DOIP(a, nytl::rowEcholon(ip)); break;
	case 7: DOIP(a, nytl::reducedRowEcholon(ip)); DO(nytl::transpose(a)); break;
	default: DO(nytl::rowEcholonCopy(nytl::Mat<3, 4, int>(a))); DO(double(nytl::determinant(nytl::Mat<3, 3, int>(d)))); break;
	}
	EV("matrix functions");
}

void transforms() {
	nytl::Vec3d a {val() + 30, val(), val()}, b {val(), val() + 30, val()}, t {val(), val(), val()};
	nytl::Vec2f c {float(pos()), float(val())}, d {float(val()), float(pos())};
	a = nytl::normalized(a);
	b = nytl::normalized(b);
	nytl::Mat4d m {};
	for(auto i = 0u; i < 4; ++i) { for(auto k = 0u; k < 4; ++k) m[i][k] = val(); }
	m[3][3] += 100;
	auto x = pos(), y = -pos(), n = pos();
	switch(draw(10)) {
	case 0: DO(nytl::expandIdentity<4, double>(nytl::Mat2d{x, y, n, x})); DO(nytl::multPos(m, t)); DO(nytl::base(nytl::Vec3f(a))); break;
	case 1: DO(nytl::scaleMat(nytl::Vec3f(t))); DO(nytl::translateMat(nytl::Vec3f(t))); DO(nytl::rotateMat(float(x))); DO(nytl::rotateMat(nytl::Vec3f(a), float(x))); break;
	case 2: DO(nytl::orientMat(c, d)); DO(nytl::orientMat(a, b)); DO(nytl::rotate(t, a, x)); break;
	case 3: DOIP(m, nytl::rotate(ip, x)); DOIP(m, nytl::rotate(ip, a, y)); DOIP(nytl::Mat4f(m), nytl::translate(ip, nytl::Vec3f(t))); DOIP(nytl::Mat4f(m), nytl::scale(ip, nytl::Vec3f(t))); break;
	case 4: DOIP(m, nytl::flipY(ip)); DOIP(m, nytl::flipZ(ip)); DO(nytl::flippedY(m)); DO(nytl::flippedZ(m)); DO(nytl::flippedAxis<0>(m)); break;
	case 5: DO(nytl::ortho<float>(float(y), float(x), -1.f, 2.f, 0.1f, float(1 + n))); DO(nytl::frustum<float>(float(y), float(x), -1.f, 2.f, 0.1f, float(1 + n))); break;
	case 6: DO(nytl::frustumRev<float>(float(y), float(x), -1.f, 2.f, 0.1f, float(1 + n)));
		DO(nytl::frustumRevInf<float>(float(y), float(x), -1.f, 2.f, float(n))); break;
	case 7: DO(nytl::perspectiveRev<float>(1.f, float(x), 0.1f, float(1 + n))); DO(nytl::perspectiveRevInf<float>(1.f, float(x), float(y))); break;
	case 8: DO(nytl::lookAt(t, a, b)); DO(nytl::lookAt<3>(a, b)); break;
	default: DO(nytl::perspective<double>(x / 3, x, y, y - 10)); DO(nytl::lookAt<4, double>(nytl::Quaternion::yxz(x, y, n), t)); break;
	}
	EV("transforms");
}

void quaternions() {
	auto unit = [&]{ return nytl::normalized(nytl::Quaternion{val(), val(), val(), pos()}); };
	auto p = unit(), q = unit();
	auto t = pos() / 6;
	switch(draw(6)) {
	case 0: DO(nytl::Quaternion::fromMat(nytl::toMat<3, double>(p))); DO(nytl::toMat<4>(q)); break;
	case 1: DO(nytl::conjugated(p)); DO(nytl::norm(p + q)); DO(nytl::normalized(p - q)); DO(t * p); break;
	case 2: DO(nytl::slerp(p, q, t)); DO(nytl::slerp(p, p, t)); break;
	case 3: DO(p * q); DO(double(p == q) + 2 * double(p != q)); DO(nytl::dot(p, q)); break;
	case 4: DO(nytl::apply(p, nytl::Vec3f{1.f, 2.f, float(t)})); DO(nytl::Quaternion::axisAngle(nytl::Vec3f{0.f, 1.f, 0.f}, t)); break;
	default: {
		auto seq = nytl::RotationSequence(draw(12));
		auto angles = lib([&]{ return nytl::eulerAngles(p, seq); });
		for(auto x : angles) mixDouble(x);
	}
	}
	EV("quaternions");
}

void numbers() {
	auto x = val(), y = pos();
	auto n = draw(12);
	std::complex<double> z {x, y}, w {x, y + (draw(2) ? 0. : 1.)};
	nytl::Mat2d a {x, y, y, x}, b {x, y, y, x + draw(2)};
	switch(draw(8)) {
	case 0: DO(nytl::degrees(x)); DO(nytl::radians(x)); DO(nytl::mix(x, y, 0.25)); DO(nytl::smoothstep(-2., 2., x)); break;
	case 1: DO(double(nytl::factorial(n))); DO(nytl::unmapUnsigned(n)); DO(double(nytl::mapUnsigned(int(x)))); break;
	case 2: {
		int store = 7;
		auto c = lib([&]{ return nytl::clampStore(float(x), -1.f, 2.f, store); });
		mixDouble(c);
		mixDouble(store);
		break;
	} case 3: DO(double(x == nytl::approx(y, 0.5))); DO(double(nytl::approx(x) != y)); DO(double(x == nytl::approx(x + 1e-12))); break;
	case 4: DO(double(z == nytl::approx(w))); DO(double(z != nytl::approx(w, 0.2))); break;
	case 5: DO(double(a == nytl::approx(b))); DO(double(a != nytl::approx(b, 0.2))); DO(double(nytl::approx(a[0]) == b[1])); break;
	case 6: {
		nytl::Simplex<3, double, 2> tri;
		tri.points_ = {{{x, y, 1.}, {y, x, 2.}, {1., 2., 3.}}};
		auto p = lib([&]{ return tri.points()[n % 3]; });
		mixIt(p);
		break;
	} default: {
		std::string str(n, 'x');
		mixDouble(double(lib([&]{ return nytl::StringParam(str).size() + std::strlen(nytl::StringParam(str).c_str()); })));
	}
	}
	EV("functions of numbers");
}

void views() {
	std::vector<int> v;
	auto n = 1 + draw(10);
	for(auto i = 0u; i < n; ++i) v.push_back(int(draw(6)));
	auto w = v;
	if(draw(2)) w[draw(n)] = int(draw(6));
	auto k = draw(n + 1);
	auto all = [&](auto s) { for(auto x : s) mixDouble(double(x)); mix(s.size()); };
	switch(draw(5)) {
	case 0: all(lib([&]{ return nytl::span<int>(v).first(k); })); all(lib([&]{ return nytl::span<int>(v).last(k); })); break;
	case 1: all(lib([&]{ return nytl::span<const int>(v).subspan(k); })); all(lib([&]{ return nytl::make_span(v.data(), k); })); break;
	case 2: {
		auto b = lib([&]{ return nytl::as_bytes(nytl::span<int>(v)); });
		for(auto x : b) mix(std::uint64_t(x));
		mix(lib([&]{ return nytl::span<int>(v).size_bytes(); }));
		break;
	} case 3: {
		nytl::span<int> s(v), t(w);
		DO(double((s == t) + 2 * (s < t) + 4 * (s > t) + 8 * (s <= t) + 16 * (s != t)));
		DO(double(s.front() + s.back() * 10 + s[k % n] * 100));
		break;
	} default: {
		int sum = 0;
		lib([&]{ for(auto it = nytl::span<int>(v).rbegin(); it != nytl::span<int>(v).rend(); ++it) sum = sum * 7 + *it; return 0; });
		mixDouble(sum);
		auto o1 = Opt(1u << draw(4)), o2 = Opt(1u << draw(4));
		auto f = lib([&]{ return ((o1 | o2) ^ o2) | (o1 & o2); });
		mix(f.value());
		mix(lib([&]{ return (nytl::Flags<Opt>(nytl::invertFlags, o1) & o2).value(); }));
	}
	}
	EV("views");
}

void rects2() {
	nytl::Rect3f a {{float(val()), float(val()), float(val())}, {float(pos()), float(pos()), float(pos())}};
	auto b = a;
	b.position[draw(3)] += float(val()) / 4;
	nytl::Vec3f p {float(val()), float(val()), float(val())};
	DO(nytl::size(a)); DO(nytl::center(a));
	DO(double(nytl::contains(a, p) + 2 * nytl::containsReal(a, p) + 4 * nytl::intersects(a, b) + 8 * nytl::intersectsReal(a, b)));
	DO(double(a == b)); DO(nytl::intersection(a, b)); DO(static_cast<nytl::Rect2i>(a));
	EV("rects");
}

void characters() {
	std::u32string s;
	auto n = 1 + draw(12);
	for(auto i = 0u; i < n; ++i) {
		static const char32_t from[] = {U'a', 0xc0, 0x4e00, 0x1f600};
		s += char32_t(from[draw(4)] + draw(40));
	}
	auto all = [&](const auto& str) { for(auto c : str) mix(std::uint64_t(c)); };
	auto u8 = lib([&]{ return nytl::toUtf8(s); });
	auto u16 = lib([&]{ return nytl::toUtf16(u8); });
	all(u16);
	all(lib([&]{ return nytl::toUtf32(u16); }));
	all(lib([&]{ return nytl::toUtf8(u16); }));
	std::uint8_t size = 0;
	auto k = draw(n);
	auto& c = lib([&]() -> char& { return nytl::nth(u8, k, size); });
	mix(std::uint64_t(&c - u8.data()));
	mix(size);
	const auto& cu8 = u8;
	auto& cc = lib([&]() -> const char& { return nytl::nth(std::string_view(cu8), k, size); });
	mix(std::uint64_t(&cc - cu8.data()));
	mix(size);
	EV("characters");
}

void strings() {
	std::u32string s;
	auto n = 1 + draw(20);
	for(auto i = 0u; i < n; ++i) {
		static const char32_t from[] = {U'a', 0xc0, 0x4e00, 0x1f600};
		s += char32_t(from[draw(4)] + draw(40));
	}
	auto u8 = lib([&]{ return nytl::toUtf8(s); });
	for(auto c : u8) mix(std::uint64_t(static_cast<unsigned char>(c)));
	auto u16 = lib([&]{ return nytl::toUtf16(s); });
	for(auto c : u16) mix(c);
	auto u32 = lib([&]{ return nytl::toUtf32(u8); });
	for(auto c : u32) mix(c);
	mix(lib([&]{ return nytl::charCount(u8); }));
	auto k = draw(n);
	auto c = lib([&]{ return nytl::nth(u8, k); });
	for(auto x : c) mix(std::uint64_t(static_cast<unsigned char>(x)));
	EV("strings of %d characters", int(n));
}

void other() {
	auto o1 = Opt(1u << draw(4)), o2 = Opt(1u << draw(4));
	auto f = lib([&]{
		auto f = nytl::Flags<Opt>(o1);
		f |= o2;
		return f ^ Opt::b;
	});
	mix(f.value());
	std::array<int, 8> arr;
	std::iota(arr.begin(), arr.end(), int(draw(100)));
	auto off = draw(4), len = draw(5);
	auto sp = lib([&]{ return nytl::span<int>(arr.data(), arr.size()).subspan(off, len); });
	for(auto x : sp) mix(std::uint64_t(x));
	auto x = draw(100), y = draw(100);
	mix(lib([&]{ return nytl::pair(x, y); }));
	mix(lib([&]{ return nytl::mapUnsigned(int(x) - 50); }));
	EV("flags and spans");
}

void runPure(int) {
	auto n = 2 + draw(12);
	for(auto i = 0u; i < n; ++i) {
		switch(draw(18)) {
			case 0: strings(); break;
			case 1: matrices<2>(); break;
			case 2: matrices<3>(); break;
			case 3: matrices<4>(); break;
			case 4: vectors(); break;
			case 5: rects(); break;
			case 6: rotations(); break;
			case 7: other(); break;
			case 8: case 9: vectors2(); break;
			case 10: case 11: matrices2(); break;
			case 12: case 13: transforms(); break;
			case 14: quaternions(); break;
			case 15: numbers(); break;
			case 16: views(); break;
			default: rects2(); characters(); break;
		}
	}
	COUNT("computations on values");
	ctx->nontrivial = true;
}

} // namespace
#else
static void runPure(int) { EV("left out"); }
#endif

static Domain reg {"pure", runPure};

} // namespace sim
