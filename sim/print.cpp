// Simulated output to streams whose sinks fail (C19)
#include "core.hpp"
#include <ostream>
#include <sstream>
#include <streambuf>
#include <iomanip>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <functional>
#include <memory>

namespace sim {
namespace {

/// Element type with output by the user
struct Elem {
	double v {};
	operator double() const { return v; }
};
thread_local long elemThrow {};
thread_local int elemKind {}, elemTok {};
std::ostream& operator<<(std::ostream& os, const Elem& e) {
	if(elemThrow > 0 && --elemThrow == 0) {
		COUNT("fault: printing an element threw");
		EV("printing an element throws kind %d", elemKind);
		throwTok(elemKind, elemTok);
	}
	return os << e.v;
}

class Sink : public std::streambuf {
public:
	std::string data;
	long limit {-1};      // bytes until it fails
	int mode {};          // 0 eof, 1 throws
	bool failed {};
	bool transient {};    // works again after it failed once
	int bufSize {};
	bool unit {};         // sync must not throw

	explicit Sink(int buffer) : bufSize(buffer) {
		buf_.resize(std::size_t(buffer));
		if(buffer) setp(buf_.data(), buf_.data() + buffer);
	}
	void repair() {
		limit = -1;
		failed = false;
		data.clear();
		if(bufSize) setp(buf_.data(), buf_.data() + bufSize);
	}

protected:
	bool put(const char* s, std::size_t n) {
		yieldPoint(10);
		std::size_t k = limit < 0 ? n : std::min<std::size_t>(n, std::size_t(limit));
		data.append(s, k);
		if(limit >= 0) limit -= long(k);
		if(k < n) {
			if(!failed) COUNT("fault: sink failed");
			failed = true;
			if(transient) limit = -1;
			if(mode == 1) throw TokPlain(-5);
			return false;
		}
		return true;
	}
	bool drain() {
		auto n = std::size_t(pptr() - pbase());
		if(!n) return true;
		auto base = pbase();
		setp(buf_.data(), buf_.data() + bufSize);
		return put(base, n);
	}
	int_type overflow(int_type c) override {
		UserScope us;
		if(bufSize) {
			if(!drain()) return traits_type::eof();
			if(c != traits_type::eof()) {
				*pptr() = char(c);
				pbump(1);
			}
			return traits_type::not_eof(c);
		}
		char ch = char(c);
		if(c == traits_type::eof() || put(&ch, 1)) return traits_type::not_eof(c);
		return traits_type::eof();
	}
	std::streamsize xsputn(const char* s, std::streamsize n) override {
		UserScope us;
		if(bufSize) {
			if(!drain()) return 0;
		}
		auto before = data.size();
		put(s, std::size_t(n));
		return std::streamsize(data.size() - before);
	}
	int sync() override {
		UserScope us;
		// with unitbuf the standard library calls this in a destructor that must not throw
		auto m = mode;
		if(unit) mode = 0;
		auto ok = !bufSize || drain();
		mode = m;
		return ok ? 0 : -1;
	}

private:
	std::vector<char> buf_;
};

using Printer = std::function<std::ostream&(std::ostream&)>;

double value(int what) {
	switch(what) {
		case 0: return int(draw(2000)) - 1000;
		case 1: return (int(draw(200000)) - 100000) / 512.0;
		case 2: return 0;
		case 3: return 1e9 * (1 + draw(1000));
		default: return 1.0 / (1 + draw(5000));
	}
}
template<typename T> T val();
template<typename T> T val() {
	auto v = value(int(draw(5)));
	if constexpr(std::is_same_v<T, Elem>) return Elem{v};
	else if constexpr(std::is_same_v<T, std::string>) return std::string(std::uint64_t(v < 0 ? -v : v) % 40, char('a' + std::int64_t(v) % 7));
	else if constexpr(std::is_same_v<T, char>) return char('A' + std::uint64_t(v < 0 ? -v : v) % 26);
	else if constexpr(std::is_same_v<T, bool>) return v > 0;
	else if constexpr(std::is_same_v<T, nytl::Vec<2, int>>) return {val<int>(), val<int>()};
	else if constexpr(std::is_unsigned_v<T>) return T(std::uint64_t(v < 0 ? -v : v) % 250);
	else if constexpr(std::is_integral_v<T>) return T(std::int64_t(v) % 30000);
	else return T(v);
}

template<std::size_t D, typename T> nytl::Vec<D, T> vec() {
	nytl::Vec<D, T> v {};
	for(std::size_t i = 0; i < D; ++i) v[i] = val<T>();
	return v;
}

template<std::size_t D, typename T> Printer vecPrinter() {
	auto v = vec<D, T>();
	int how = int(draw(3));
	switch(how) {
		case 0: return [=](std::ostream& os) -> std::ostream& { return os << v; };
		case 1: return [=](std::ostream& os) -> std::ostream& { return nytl::print(os, v); };
		default: return [=](std::ostream& os) -> std::ostream& { return nytl::print(os, v, "<begin ", " end>", "; "); };
	}
}

template<std::size_t D, typename T> Printer rectPrinter() {
	nytl::Rect<D, T> r {};
	r.position = vec<D, T>();
	r.size = vec<D, T>();
	if(draw(2)) return [=](std::ostream& os) -> std::ostream& { return os << r; };
	return [=](std::ostream& os) -> std::ostream& { return nytl::print(os, r); };
}

template<std::size_t R, std::size_t C, typename T> Printer matPrinter() {
	nytl::Mat<R, C, T> m {};
	for(std::size_t r = 0; r < R; ++r) {
		for(std::size_t c = 0; c < C; ++c) m[r][c] = val<T>();
	}
	int how = int(draw(3));
	unsigned width = draw(4) ? 4 + draw(12) : 0;
	bool brk = draw(2);
	switch(how) {
		case 0: return [=](std::ostream& os) -> std::ostream& { return os << m; };
		case 1: return [=](std::ostream& os) -> std::ostream& { return nytl::print(os, m); };
		default: return [=](std::ostream& os) -> std::ostream& { return nytl::print(os, m, width, "  ", brk); };
	}
}

Printer makePrinter(int& type, bool& elem) {
	type = int(draw(22));
	elem = type == 4 || type == 12 || type == 13;
	switch(type) {
		case 0: return vecPrinter<2, int>();
		case 1: return vecPrinter<3, float>();
		case 2: return vecPrinter<4, double>();
		case 3: return vecPrinter<1, unsigned>();
		case 4: return vecPrinter<3, Elem>();
		case 5: return vecPrinter<7, long>();
		case 6: return rectPrinter<2, int>();
		case 7: return rectPrinter<3, double>();
		case 8: return matPrinter<2, 2, float>();
		case 9: return matPrinter<3, 3, double>();
		case 10: return matPrinter<4, 4, float>();
		case 11: return matPrinter<1, 3, int>();
		case 12: return matPrinter<2, 3, Elem>();
		case 13: return matPrinter<3, 1, Elem>();
		case 14: return rectPrinter<2, float>();
		case 16: return vecPrinter<2, std::string>();
		case 17: return vecPrinter<3, char>();
		case 18: return vecPrinter<2, nytl::Vec<2, int>>();
		case 19: return vecPrinter<3, bool>();
		case 20: return rectPrinter<2, std::string>();
		case 21: return matPrinter<3, 2, long>();
		default: return matPrinter<4, 2, double>();
	}
}

struct PrintWorld {
	struct Format {
		std::ios::fmtflags flags;
		std::streamsize precision;
		char fill;
	};

	static Format drawFormat() {
		Format f {std::ios::dec | std::ios::skipws, 6, ' '};
		if(draw(3) == 0) return f;
		f.precision = draw(13);
		static const std::ios::fmtflags floats[] = {{}, std::ios::fixed, std::ios::scientific,
			std::ios::fixed | std::ios::scientific};
		f.flags |= floats[draw(4)];
		static const std::ios::fmtflags adj[] = {{}, std::ios::left, std::ios::right, std::ios::internal};
		f.flags |= adj[draw(4)];
		if(chance(1, 4)) f.flags |= std::ios::showpos;
		if(chance(1, 4)) f.flags |= std::ios::showpoint;
		if(chance(1, 4)) f.flags |= std::ios::uppercase;
		if(chance(1, 6)) f.flags = (f.flags & ~std::ios::basefield) | std::ios::hex;
		if(chance(1, 6)) f.flags |= std::ios::showbase;
		if(chance(1, 6)) f.flags |= std::ios::unitbuf;
		if(chance(1, 6)) f.flags |= std::ios::boolalpha;
		if(chance(1, 3)) f.fill = '*';
		return f;
	}

	static void apply(std::ostream& os, const Format& f) {
		os.flags(f.flags);
		os.precision(f.precision);
		os.fill(f.fill);
	}

	static void checkFormat(std::ostream& os, const Format& f, int type, const char* when,
			std::ios::iostate mask = std::ios::goodbit) {
		if(os.precision() != f.precision) {
			fail(P(19), "precision", "the precision is %d instead of %d %s (type %d)", int(os.precision()), int(f.precision), when, type);
		}
		if(os.flags() != f.flags) {
			fail(P(19), "flags", "the format flags are %x instead of %x %s (type %d)", unsigned(os.flags()), unsigned(f.flags), when, type);
		}
		if(os.width() != 0) {
			fail(P(19), "width", "the field width %d stays set %s (type %d)", int(os.width()), when, type);
		}
		if(os.fill() != f.fill) {
			fail(P(19), "fill", "the fill character changed %s (type %d)", when, type);
		}
		if(os.exceptions() != mask) {
			fail(P(19), "exceptions", "the exception mask is %x instead of %x %s (type %d)", unsigned(os.exceptions()), unsigned(mask), when, type);
		}
	}

	void one(Sink& sink, std::ostream& os, Format& f, int mask) {
		int type;
		bool elem;
		auto print = makePrinter(type, elem);
		if(mask && (f.flags & std::ios::unitbuf)) {
			// the standard library flushes in a destructor then, which must not throw
			f.flags &= ~std::ios::unitbuf;
			apply(os, f);
		}
		sink.unit = f.flags & std::ios::unitbuf;

		// what a healthy sink receives
		std::ostringstream healthy;
		apply(healthy, f);
		elemThrow = 0;
		{
			LibScope ls;
			print(healthy);
		}
		auto text = healthy.str();
		checkFormat(healthy, f, type, "after printing to a healthy stream");

		sink.repair();
		os.exceptions(std::ios::goodbit);
		os.clear();
		int fault = pick({1, 5});
		if(fault == 1) {
			sink.limit = long(draw(std::uint32_t(text.size()) + 2));
			sink.mode = int(draw(2));
			sink.transient = draw(2);
		}
		if(elem && chance(1, 3)) {
			elemThrow = 1 + long(draw(6));
			elemKind = excStd + int(draw(3));
			elemTok = int(draw(1000));
		}
		bool elemArmed = elemThrow > 0;
		static const std::ios::iostate masks[] = {std::ios::goodbit, std::ios::badbit, std::ios::badbit | std::ios::failbit};
		os.exceptions(masks[mask]);
		EV("print type %d (%d bytes), sink fails after %d, mode %d, transient %d, exceptions %d, element throws %d", type, int(text.size()),
			int(sink.limit), sink.mode, int(sink.transient), mask, int(elemThrow));
		ExcInfo e;
		bool wrongStream = false;
		maybeUnwinding([&]{
			LibScope ls;
			try {
				auto& r = print(os);
				wrongStream = &r != &os;
			} catch(...) {
				UserScope us;
				e = currentExc();
			}
		});
		bool elemThrew = elemArmed && elemThrow == 0;
		elemThrow = 0;
		if(wrongStream) fail(P(19), "stream", "print returns another stream (type %d)", type);
		checkFormat(os, f, type, sink.failed ? "after the sink failed" : elemThrew ? "after printing an element threw" : "after printing", masks[mask]);
		// what is still in the buffer
		try {
			LibScope ls;
			os.flush();
		} catch(...) {
			UserScope us;
			if(!e.kind) e = currentExc();
		}
		EV("%d bytes arrived, fail %d, exception %d", int(sink.data.size()), int(os.fail()), e.kind);
		if(text.compare(0, sink.data.size(), sink.data) != 0) {
			fail(P(19), "no prefix", "the %d bytes that arrived are not a prefix of the text (type %d)", int(sink.data.size()), type);
		}
		if(sink.failed) {
			ctx->nontrivial = true;
			if(!os.fail() && !(elemThrew && e.kind == elemKind)) {
				fail(P(19), "failure hidden", "the sink failed but the stream's state is good (type %d)", type);
			}
			if(mask && !e.kind) fail(P(19), "failure hidden", "the sink failed but no exception is thrown (type %d)", type);
		} else if(elemThrew) {
			ctx->nontrivial = true;
			if(e.kind != elemKind || e.tok != elemTok) {
				fail(P(19), "exception lost", "printing an element threw but print ends with kind %d (type %d)", e.kind, type);
			}
		} else {
			if(os.fail() || e.kind) fail(P(19), "failure", "the sink is healthy but printing fails (type %d)", type);
			if(sink.data != text) fail(P(19), "incomplete", "the sink is healthy but only %d of %d bytes arrived (type %d)",
				int(sink.data.size()), int(text.size()), type);
		}
		if(sink.failed && !mask && e.kind && !elemThrew) {
			fail(P(19), "exception", "an exception (kind %d) leaves print although the stream does not report failures by exceptions", e.kind);
		}

		// after the repair
		sink.repair();
		os.clear();
		int again = 1 + int(draw(2));
		for(int i = 0; i < again; ++i) {
			sink.repair();
			{
				LibScope ls;
				print(os);
				os.flush();
			}
			if(sink.data != text) {
				fail(P(19), "reprint", "printing again after the repair gives another text (type %d)", type);
			}
			checkFormat(os, f, type, "after printing again", masks[mask]);
		}
		COUNT("objects printed");
	}

	void run() {
		Sink sink(draw(2) ? 0 : 1 + int(draw(16)));
		std::ostream os(&sink);
		auto f = drawFormat();
		apply(os, f);
		EV("stream: buffer %d, precision %d, flags %d", sink.bufSize, int(f.precision), int(f.flags));
		int n = 1 + int(draw(6));
		for(int i = 0; i < n; ++i) {
			yieldPoint(5);
			one(sink, os, f, int(draw(3)));
			if(chance(1, 4)) {
				f = drawFormat();
				apply(os, f);
			}
		}
	}
};

} // anon namespace

void runPrint(int) {
	PrintWorld w;
	w.run();
}

static Domain reg {"print", runPrint};

} // namespace sim
