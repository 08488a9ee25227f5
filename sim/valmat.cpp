// Matrices whose elements or allocations fail (C22)
// Left out (SIM_SKIP) when it does not compile with some other (correct) version of the library, since that
// expects more of an element type than Num has
#include "values.hpp"

namespace sim {
#ifndef SIM_SKIP
namespace {

template<std::size_t R, std::size_t C> void matrices() {
	auto a = mat<R, C>(), b = mat<R, C>();
	auto d = mat<C, C>(), e = mat<C, C>();
	auto o = mat<C, R>();
	if(chance(1, 3)) b = a;
	auto v = vec<C>();
	auto w = vec<R>();
	auto s = Num(number());
	auto state = [&]{ return flatten(a, b, d, e, o, v, w, s); };
	auto A = [&](std::size_t i) { return a[i / C][i % C].get(); };
	auto B = [&](std::size_t i) { return b[i / C][i % C].get(); };
	auto S = s.get();
	constexpr auto N = R * C;
	switch(draw(20)) {
	case 0: reading("mat + mat", gen(N, [&](auto i) { return A(i) + B(i); }), state, [&]{ return a + b; }); break;
	case 1: reading("mat - mat", gen(N, [&](auto i) { return A(i) - B(i); }), state, [&]{ return a - b; }); break;
	case 2: reading("-mat", gen(N, [&](auto i) { return -A(i); }), state, [&]{ return -a; }); break;
	case 3: reading("f * mat", gen(N, [&](auto i) { return S * A(i); }), state, [&]{ return s * a; }); break;
	case 4: changing("mat += mat", a, gen(N, [&](auto i) { return A(i) + B(i); }), state, [&](auto& x) { x += b; }); break;
	case 5: changing("mat -= mat", a, gen(N, [&](auto i) { return A(i) - B(i); }), state, [&](auto& x) { x -= b; }); break;
	case 6: changing("mat *= f", a, gen(N, [&](auto i) { return A(i) * S; }), state, [&](auto& x) { x *= s; }); break;
	case 7: {
		bool eq = flatten(a) == flatten(b);
		reading("mat == mat", {eq, !eq}, state, [&]{ return std::vector<long>{a == b, a != b}; });
		break;
	} case 8: reading("mat * mat", gen(R * R, [&](auto i) {
			long r = 0;
			for(auto k = 0u; k < C; ++k) r += a[i / R][k].get() * o[k][i % R].get();
			return r;
		}), state, [&]{ return a * o; }); break;
	case 9: reading("mat * vec", gen(R, [&](auto i) {
			long r = 0;
			for(auto k = 0u; k < C; ++k) r += a[i][k].get() * v[k].get();
			return r;
		}), state, [&]{ return a * v; }); break;
	case 10: changing("mat *= mat", d, gen(C * C, [&](auto i) {
			long r = 0;
			for(auto k = 0u; k < C; ++k) r += d[i / C][k].get() * e[k][i % C].get();
			return r;
		}), state, [&](auto& x) { x *= e; }, false); break;
	case 11: reading("transpose", gen(N, [&](auto i) { return a[i % R][i / R].get(); }), state, [&]{ return nytl::transpose(a); }); break;
	case 12: {
		auto k = draw(C);
		reading("col", gen(R, [&](auto i) { return a[i][k].get(); }), state, [&]{ return nytl::col(a, k); });
		changing("set col", a, gen(N, [&](auto i) { return i % C == k ? w[i / C].get() : A(i); }), state,
			[&](auto& x) { nytl::col(x, k, w); });
		break;
	} case 13: {
		auto k = draw(R), l = draw(R);
		changing("swapRow", a, gen(N, [&](auto i) {
			auto r = i / C;
			return a[r == k ? l : r == l ? k : r][i % C].get();
		}), state, [&](auto& x) { nytl::swapRow(x, k, l); }, true);
		auto m = draw(C), n = draw(C);
		changing("swapCol", a, gen(N, [&](auto i) {
			auto c = i % C;
			return a[i / C][c == m ? n : c == n ? m : c].get();
		}), state, [&](auto& x) { nytl::swapCol(x, m, n); }, true);
		break;
	} case 14: {
		changing("one", a, gen(N, [&](auto) { return 1; }), state, [&](auto& x) { nytl::one(x); });
		changing("identity", d, gen(C * C, [&](auto i) { return i / C == i % C; }), state, [&](auto& x) { nytl::identity(x); }, false);
		break;
	} case 15: {
		long t = 0, p = 1;
		for(auto i = 0u; i < C; ++i) {
			t += d[i][i].get();
			p *= d[i][i].get();
		}
		reading("trace", {t}, state, [&]{ return nytl::trace(d); });
		reading("multiplyDiagonal", {p}, state, [&]{ return nytl::multiplyDiagonal(d); });
		break;
	} case 16: {
		if(chance(1, 2)) {
			for(auto i = 0u; i < C; ++i) for(auto k = 0u; k < i; ++k) d[i][k] = d[k][i];
		}
		bool sym = true;
		for(auto i = 0u; i < C; ++i) for(auto k = 0u; k < i; ++k) sym &= d[i][k].get() == d[k][i].get();
		reading("symmetric", {sym}, state, [&]{ return nytl::symmetric(d); });
		break;
	} case 17:
		reading("mat to other mat", gen(4 * 2, [&](auto i) {
			return i / 2 < R && i % 2 < C ? a[i / 2][i % 2].get() : 0;
		}), state, [&]{ return static_cast<nytl::Mat<4, 2, Num>>(a); });
		break;
	case 18: { // elements are converted before anything else is done
		nytl::Mat<C, C, double> dd {};
		for(auto i = 0u; i < C; ++i) for(auto k = 0u; k < C; ++k) dd[i][k] = double(d[i][k].get());
		auto ref = nytl::luDecomp(dd);
		reading("luDecomp", flatten(ref.lower, ref.upper), state, [&]{
			auto lu = nytl::luDecomp(d);
			return std::array<nytl::Mat<C, C, double>, 2>{lu.lower, lu.upper};
		});
		break;
	} default: {
		nytl::Mat<R, C, double> aa {};
		for(auto i = 0u; i < R; ++i) for(auto k = 0u; k < C; ++k) aa[i][k] = double(a[i][k].get());
		nytl::rowEcholon(aa);
		reading("rowEcholonCopy", flatten(aa), state, [&]{ return nytl::rowEcholonCopy(a); });
	}
	}
}

} // namespace

void valuesOfMatrices() {
	switch(draw(4)) {
		case 0: matrices<2, 2>(); break;
		case 1: matrices<3, 3>(); break;
		case 2: matrices<2, 3>(); break;
		default: matrices<4, 3>(); break;
	}
}

#else
void valuesOfMatrices() {}
#endif

} // namespace sim
