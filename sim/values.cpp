// Vectors, rectangles and strings whose elements or allocations fail (C22)
#include "values.hpp"

namespace sim {
namespace {
#ifndef SIM_SKIP // vectors and rectangles are left out if they do not compile, see valmat.cpp

template<std::size_t D> void vectors() {
	auto a = vec<D>(), b = vec<D>(true);
	if(chance(1, 3)) {
		for(auto i = 0u; i < D; ++i) b[i] = a[i].get() ? a[i] : Num(1);
	}
	auto s = Num(number(true));
	auto state = [&]{ return flatten(a, b, s); };
	auto A = [&](std::size_t i) { return VAL(a, i); };
	auto B = [&](std::size_t i) { return VAL(b, i); };
	auto S = s.get();
	switch(draw(27)) {
	case 0: reading("vec + vec", gen(D, [&](auto i) { return A(i) + B(i); }), state, [&]{ return a + b; }); break;
	case 1: reading("vec - vec", gen(D, [&](auto i) { return A(i) - B(i); }), state, [&]{ return a - b; }); break;
	case 2: reading("-vec", gen(D, [&](auto i) { return -A(i); }), state, [&]{ return -a; }); break;
	case 3: reading("f * vec", gen(D, [&](auto i) { return S * A(i); }), state, [&]{ return s * a; }); break;
	case 4: changing("vec += vec", a, gen(D, [&](auto i) { return A(i) + B(i); }), state, [&](auto& x) { x += b; }); break;
	case 5: changing("vec -= vec", a, gen(D, [&](auto i) { return A(i) - B(i); }), state, [&](auto& x) { x -= b; }); break;
	case 6: changing("vec *= f", a, gen(D, [&](auto i) { return A(i) * S; }), state, [&](auto& x) { x *= s; }); break;
	case 7: {
		bool eq = true;
		for(auto i = 0u; i < D; ++i) eq &= A(i) == B(i);
		reading("vec == vec", {eq, !eq}, state, [&]{ return std::vector<long>{a == b, a != b}; });
		break;
	} case 8: {
		long v = 0;
		for(auto i = 0u; i < D; ++i) v += A(i);
		reading("sum", {v}, state, [&]{ return nytl::sum(a); });
		break;
	} case 9: {
		long v = 1;
		for(auto i = 0u; i < D; ++i) v *= A(i);
		reading("multiply", {v}, state, [&]{ return nytl::multiply(a); });
		break;
	} case 10: {
		long v = 0;
		for(auto i = 0u; i < D; ++i) v += A(i) * B(i);
		reading("dot", {v}, state, [&]{ return nytl::dot(a, b); });
		break;
	} case 11:
		if constexpr(D == 3) {
			reading("cross", {A(1) * B(2) - A(2) * B(1), A(2) * B(0) - A(0) * B(2), A(0) * B(1) - A(1) * B(0)},
				state, [&]{ return nytl::cross(a, b); });
		} else if constexpr(D == 2) {
			reading("cross", {A(0) * B(1) - A(1) * B(0)}, state, [&]{ return nytl::cross(a, b); });
		}
		break;
	case 12: reading("mirror", gen(D, [&](auto i) { return 2 * A(i) - B(i); }), state, [&]{ return nytl::mirror(a, b); }); break;
	case 13: reading("cw::max", gen(D, [&](auto i) { return std::max(A(i), B(i)); }), state, [&]{ return nytl::vec::cw::max(a, b); }); break;
	case 14: reading("cw::min", gen(D, [&](auto i) { return std::min(A(i), B(i)); }), state, [&]{ return nytl::vec::cw::min(a, b); }); break;
	case 15: reading("cw::max f", gen(D, [&](auto i) { return std::max(A(i), S); }), state, [&]{ return nytl::vec::cw::max(a, s); }); break;
	case 16: reading("cw::min f", gen(D, [&](auto i) { return std::min(A(i), S); }), state, [&]{ return nytl::vec::cw::min(a, s); }); break;
	case 17: reading("cw::multiply", gen(D, [&](auto i) { return A(i) * B(i); }), state, [&]{ return nytl::vec::cw::multiply(a, b); }); break;
	case 18: reading("cw::divide", gen(D, [&](auto i) { return A(i) / B(i); }), state, [&]{ return nytl::vec::cw::divide(a, b); }); break;
	case 19: {
		auto lo = Num(std::min(S, 3l)), hi = Num(std::max(S, 3l));
		auto st = [&]{ return flatten(a, lo, hi); };
		reading("cw::clamp", gen(D, [&](auto i) { return std::clamp(A(i), lo.get(), hi.get()); }), st,
			[&]{ return nytl::vec::cw::clamp(a, lo, hi); });
		changing("cw::ip::clamp", a, gen(D, [&](auto i) { return std::clamp(A(i), lo.get(), hi.get()); }), st,
			[&](auto& x) { nytl::vec::cw::ip::clamp(x, lo, hi); });
		break;
	} case 20: reading("vec * f", gen(D, [&](auto i) { return A(i) * S; }), state, [&]{ return nytl::vec::operators::operator*(a, s); }); break;
	case 21: reading("vec / f", gen(D, [&](auto i) { return A(i) / S; }), state, [&]{ return nytl::vec::operators::operator/(a, s); }); break;
	case 22: reading("f / vec", gen(D, [&](auto i) { return S / B(i); }), state, [&]{ return nytl::vec::operators::operator/(s, b); }); break;
	case 23: changing("cw *=", a, gen(D, [&](auto i) { return A(i) * B(i); }), state,
			[&](auto& x) { nytl::vec::cw::operators::operator*=(x, b); }); break;
	case 24: changing("cw /=", a, gen(D, [&](auto i) { return A(i) / B(i); }), state,
			[&](auto& x) { nytl::vec::cw::operators::operator/=(x, b); }); break;
	case 25:
		reading("vec to smaller vec", gen(2, [&](auto i) { return A(i); }), state,
			[&]{ return static_cast<nytl::Vec<2, Num>>(a); });
		reading("vec to larger vec", gen(6, [&](auto i) { return i < D ? A(i) : 0; }), state,
			[&]{ return static_cast<nytl::Vec<6, Num>>(a); });
		break;
	default:
		reading("vec to double", gen(D, [&](auto i) { return A(i) * 1024; }), state,
			[&]{ return static_cast<nytl::Vec<D, double>>(a); });
		reading("vec + f", gen(D, [&](auto i) { return A(i) + S; }), state,
			[&]{ return nytl::vec::cw::operators::operator+(a, s); });
		reading("f - vec", gen(D, [&](auto i) { return S - A(i); }), state,
			[&]{ return nytl::vec::cw::operators::operator-(s, a); });
	}
}

template<std::size_t D, typename T> nytl::Rect<D, T> cast(const nytl::Rect<D, Num>& r) {
	nytl::Rect<D, T> ret {};
	for(auto i = 0u; i < D; ++i) {
		ret.position[i] = T(r.position[i].get());
		ret.size[i] = T(r.size[i].get());
	}
	return ret;
}

template<std::size_t D> void rects() {
	auto a = rect<D>(), b = rect<D>();
	if(chance(1, 4)) b = a;
	auto p = vec<D>();
	auto state = [&]{ return flatten(a, b, p); };
	auto pos = [&](auto& r, std::size_t i) { return r.position[i].get(); };
	auto end = [&](auto& r, std::size_t i) { return r.position[i].get() + r.size[i].get(); };
	auto ai = cast<D, int>(a), bi = cast<D, int>(b);
	bool overlap = true, inside = true, insideReal = true;
	Flat inter(2 * D);
	long area = 1;
	for(auto i = 0u; i < D; ++i) {
		inside &= pos(a, i) <= p[i].get() && p[i].get() <= end(a, i);
		insideReal &= pos(a, i) < p[i].get() && p[i].get() < end(a, i);
		inter[i] = std::max(pos(a, i), pos(b, i));
		inter[D + i] = std::min(end(a, i), end(b, i)) - inter[i];
		overlap &= inter[D + i] >= 0;
		area *= a.size[i].get();
	}
	if(!overlap) std::fill(inter.begin(), inter.end(), 0);
	switch(draw(7)) {
	case 0: {
		bool eq = flatten(a) == flatten(b);
		reading("rect == rect", {eq, !eq}, state, [&]{ return std::vector<long>{a == b, a != b}; });
		break;
	}
	case 1: reading("contains", {inside, insideReal}, state, [&]{
			return std::vector<long>{nytl::contains(a, p), nytl::containsReal(a, p)};
		}); break;
	case 2: reading("intersection", inter, state, [&]{ return nytl::intersection(a, b); }); break;
	case 3: reading("size", {area}, state, [&]{ return nytl::size(a); }); break;
	case 4: { // the parts are those of the same rects of integers
		auto ref = nytl::difference(ai, bi);
		reading("difference", flatten(ref), state, [&]{ return nytl::difference(a, b); });
		break;
	} case 5: {
		auto ref = nytl::difference(ai, bi);
		reading("difference of integers", flatten(ref), [&]{ return flatten(ai, bi); }, [&]{ return nytl::difference(ai, bi); });
		break;
	} default:
		reading("rect to other rect", flatten(static_cast<nytl::Rect<2, int>>(ai)), state, [&]{
			return static_cast<nytl::Rect<2, Num>>(a);
		});
	}
}

#endif
void strings() {
	std::u32string s;
	std::u16string s16;
	std::string s8;
	auto n = draw(4) ? draw(12) : draw(200);
	Flat pos;
	for(auto i = 0u; i < n; ++i) {
		static const char32_t from[] = {U'a', 0xc0, 0x4e00, 0x1f600};
		auto c = char32_t(from[draw(4)] + draw(20));
		s += c;
		pos.push_back(long(s8.size()));
		if(c < 0x80) s8 += char(c);
		else if(c < 0x800) { s8 += char(0xc0 | c >> 6); s8 += char(0x80 | (c & 63)); }
		else if(c < 0x10000) { s8 += char(0xe0 | c >> 12); s8 += char(0x80 | (c >> 6 & 63)); s8 += char(0x80 | (c & 63)); }
		else {
			s8 += char(0xf0 | c >> 18);
			s8 += char(0x80 | (c >> 12 & 63));
			s8 += char(0x80 | (c >> 6 & 63));
			s8 += char(0x80 | (c & 63));
		}
		if(c < 0x10000) s16 += char16_t(c);
		else { s16 += char16_t(0xd800 + ((c - 0x10000) >> 10)); s16 += char16_t(0xdc00 + ((c - 0x10000) & 0x3ff)); }
	}
	auto state = [&]{ return flatten(s, s16, s8); };
	switch(draw(6)) {
	case 0: reading("utf32 to utf8", flatten(s8), state, [&]{ return nytl::toUtf8(s); }); break;
	case 1: reading("utf16 to utf8", flatten(s8), state, [&]{ return nytl::toUtf8(s16); }); break;
	case 2: reading("utf8 to utf16", flatten(s16), state, [&]{ return nytl::toUtf16(s8); }); break;
	case 3: reading("utf8 to utf32", flatten(s), state, [&]{ return nytl::toUtf32(s8); }); break;
	case 4: reading("utf32 to utf16", flatten(s16), state, [&]{ return nytl::toUtf16(s); }); break;
	default: reading("utf16 to utf32", flatten(s), state, [&]{ return nytl::toUtf32(s16); }); break;
	}
}

void runValues(int) {
	auto start = ctx->liveAllocs;
	{
		auto n = 1 + draw(8);
		for(auto i = 0u; i < n; ++i) {
			switch(draw(16)) {
#ifndef SIM_SKIP
				case 0: vectors<2>(); break;
				case 1: vectors<3>(); break;
				case 2: vectors<4>(); break;
				case 3: vectors<5>(); break;
				case 4: case 5: case 6: case 7: valuesOfMatrices(); break;
				case 8: rects<2>(); break;
				case 9: rects<3>(); break;
				case 10: rects<4>(); break;
#endif
				case 11: case 12: case 13: case 14: valuesOfReals(); break;
				default: strings(); break;
			}
		}
	}
	leaked(m22, "at the end", ctx->liveAllocs - start);
}

} // namespace

static Domain reg {"values", runValues};

} // namespace sim
