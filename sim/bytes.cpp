// Simulated transfers through byte buffers that run full, are cut, damaged or cannot grow (C16-C18)
#include "core.hpp"
namespace sim { void bytesAssert(const char* expr); }
#define NYTL_BYTES_ASSERT(x) do { if(!(x)) { ::sim::bytesAssert(#x); } } while(0)
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <array>
#include <memory>
#include <functional>
#include <algorithm>
#include <optional>

namespace sim {

struct AssertFail { const char* expr; };

void bytesAssert(const char* expr) {
	UserScope us;
	yieldPoint(9);
	COUNT("operations refused by the assertion handler");
	throw AssertFail{expr};
}

namespace {

using Raw = std::vector<std::byte>;

struct Pod {
	std::int32_t a;
	std::int16_t b;
	char c[2];
	float f;
};
struct Odd { std::uint8_t data[37]; };
struct Three { std::uint8_t data[3]; };
struct Empty {};
enum class Color : std::uint16_t { red, green = 7, blue = 400 };

thread_local std::uint64_t bitsState;
template<typename T> T makeValue() {
	T v;
	std::byte raw[sizeof(T)];
	for(auto& b : raw) b = std::byte(splitmix(bitsState));
	std::memcpy(static_cast<void*>(&v), raw, sizeof(T));
	return v;
}
template<> bool makeValue<bool>() { return splitmix(bitsState) & 1; }
template<> Color makeValue<Color>() { return splitmix(bitsState) & 1 ? Color::green : Color::blue; }
template<> nytl::Vec3f makeValue<nytl::Vec3f>() {
	return {float(splitmix(bitsState) % 1000), float(splitmix(bitsState) % 1000), 0.5f};
}

template<typename T> Raw rawOf(const T& v) {
	Raw r(sizeof(v));
	std::memcpy(r.data(), static_cast<const void*>(&v), sizeof(v));
	return r;
}
template<typename T> Raw rawOf(const T* v, std::size_t n) {
	Raw r(n * sizeof(T));
	if(n) std::memcpy(r.data(), static_cast<const void*>(v), n * sizeof(T));
	return r;
}

template<typename... T> struct Types { static constexpr int size = sizeof...(T); };
using AllTypes = Types<std::uint8_t, std::int16_t, std::int32_t, std::uint64_t, float, double, bool, Color,
	nytl::Vec3f, nytl::Vec2i, Pod, Odd, Three, std::array<int, 3>, char>;
constexpr int typeBool = 6, typeEnum = 7;

// f is called with a null pointer of the n-th type
template<typename F, typename... T> void withType(int n, F&& f, Types<T...>) {
	int i = 0;
	((i++ == n ? (f(static_cast<T*>(nullptr)), 0) : 0), ...);
}

struct Item {
	int type {};
	int count {-1};   // -1: a single object
	int form {};
	std::uint64_t seed {};
	Raw raw;
};

struct Refused {};

struct BytesWorld {
	int prop;
	int budget {};
	std::vector<Item> items;
	Raw stored;              // model of everything written
	Mask mask {};

	// ---- target memory ------------------------------------------------------------------------
	std::unique_ptr<std::byte[]> mem;
	std::size_t memSize {}, lo {}, cap {};
	Raw image;               // expected contents of mem
	nytl::WriteBuf win;
	std::size_t written {};

	nytl::DynWriteBuf dyn;
	bool useDyn {};

	Mask m(int extra) const { return P(16) | P(extra); }

	void makeTarget(std::size_t capacity) {
		// exact size finds accesses outside, margins find wrong positions
		bool exact = draw(2);
		lo = exact ? 0 : 1 + draw(16);
		auto hi = exact ? 0 : 1 + draw(16);
		cap = capacity;
		memSize = lo + cap + hi;
		mem.reset(new std::byte[memSize ? memSize : 1]);
		image.resize(memSize);
		for(std::size_t i = 0; i < memSize; ++i) {
			image[i] = mem[i] = std::byte(0xA0 + i % 13);
		}
		std::copy(stored.begin(), stored.end(), mem.get() + lo);
		std::copy(stored.begin(), stored.end(), image.begin() + long(lo));
		written = stored.size();
		win = nytl::WriteBuf(mem.get() + lo, cap);
		if(written) { // continue where we were
			auto how = draw(2);
			if(how == 0) {
				LibScope ls;
				nytl::skip(win, written);
			} else {
				win = nytl::WriteBuf(mem.get() + lo + written, cap - written);
			}
		}
		EV("new target of %d bytes, %d are used", int(cap), int(written));
		checkTarget("in a new buffer");
	}

	void checkTarget(const char* when) {
		if(useDyn) {
			if(dyn != stored) {
				fail(m(18), "contents", "the growing buffer (%d bytes) does not contain the %d bytes written to it %s",
					int(dyn.size()), int(stored.size()), when);
			}
			return;
		}
		if(win.data() != mem.get() + lo + written || win.size() != cap - written) {
			fail(P(16) | P(17), "window", "the window of the write buffer begins at %ld and has %ld bytes instead of %ld and %ld %s",
				long(win.data() - mem.get() - lo), long(win.size()), long(written), long(cap - written), when);
		}
		if(!std::equal(image.begin(), image.end(), mem.get())) {
			std::size_t i = 0;
			while(image[i] == mem[i]) ++i;
			fail(P(16) | P(17), "contents", "byte %ld (the buffer has %ld bytes, %ld are written) is wrong %s", long(i) - long(lo),
				long(cap), long(written), when);
		}
	}

	// ---- writing ---------------------------------------------------------------------------------
	template<typename T, typename Buf> void writeForm(Buf& buf, Item& it) {
		bitsState = it.seed;
		if(it.count < 0) {
			T v = makeValue<T>();
			it.raw = rawOf(v);
			switch(it.form) {
				case 0: { const T& c = v; op([&]{ nytl::write(buf, c); }); break; }
				case 1: op([&]{ nytl::write(buf, T(v)); }); break;
				case 2: op([&]{ nytl::write<T>(buf, v); }); break;
				case 3: op([&]{ nytl::write(buf, nytl::ReadBuf(nytl::bytes(v))); }); break;
				case 4: op([&]{ nytl::write(buf, nytl::bytes(v)); }); break;
				case 5: {
					const T arr[1] = {v};
					op([&]{ nytl::write(buf, arr); });
					break;
				}
				default: { nytl::span<const T> s(&v, 1); op([&]{ nytl::write(buf, s); }); }
			}
			return;
		}
		// several objects, in memory of exactly their size
		std::unique_ptr<T[]> vals(new T[std::size_t(it.count ? it.count : 1)]);
		for(int i = 0; i < it.count; ++i) vals[std::size_t(i)] = makeValue<T>();
		std::size_t n = std::size_t(it.count);
		it.raw = rawOf(vals.get(), n);
		switch(it.form) {
			case 0: {
				if constexpr(!std::is_same_v<T, bool>) {
					std::vector<T> v(vals.get(), vals.get() + n);
					op([&]{ nytl::write(buf, v); });
					break;
				} else [[fallthrough]];
			}
			case 1: { nytl::span<const T> s(vals.get(), n); op([&]{ nytl::write(buf, s); }); break; }
			case 2: { nytl::span<T> s(vals.get(), n); op([&]{ nytl::write(buf, s); }); break; }
			case 3:
				if(n == 3) {
					std::initializer_list<T> il = {vals[0], vals[1], vals[2]};
					op([&]{ nytl::write(buf, il); });
					break;
				} [[fallthrough]];
			case 4:
				if(n == 3) {
					nytl::span<const T, 3> s(vals.get(), 3);
					op([&]{ nytl::write(buf, s); });
					break;
				} [[fallthrough]];
			default: op([&]{ nytl::write(buf, nytl::ReadBuf(nytl::bytes(nytl::span<const T>(vals.get(), n)))); });
		}
	}

	long arm {};
	bool armPersistent {};
	bool armFired {};
	template<typename F> void op(F&& f) { // one operation of the library
		LibScope ls(arm, armPersistent);
		ctx->fc.firedOut = &armFired;
		f();
	}

	Item newItem() {
		Item it;
		it.type = int(draw(AllTypes::size));
		it.count = chance(3, 8) ? int(drawSkewed(40)) : -1;
		if(chance(1, 60)) it.count = int(draw(4000));
		it.form = int(draw(7));
		it.seed = 1 + draw(1u << 20);
		return it;
	}

	std::size_t sizeOf(const Item& it) {
		std::size_t s = 0;
		withType(it.type, [&](auto* p) { s = sizeof(*p); }, AllTypes{});
		return it.count < 0 ? s : s * std::size_t(it.count);
	}

	void write(Item& it) {
		withType(it.type, [&](auto* p) {
			using T = std::remove_pointer_t<decltype(p)>;
			if(useDyn) writeForm<T>(dyn, it);
			else writeForm<T>(win, it);
		}, AllTypes{});
	}

	void doWrite() {
		auto it = newItem();
		auto size = sizeOf(it);
		bool fits = useDyn || written + size <= cap;
		armFired = false;
		arm = 0;
		if(useDyn && prop == 18 && chance(1, 2)) {
			arm = 1 + long(draw(2));
			armPersistent = draw(2);
		}
		EV("write type %d count %d (%d bytes), form %d, fits %d, failing allocation %d", it.type, it.count, int(size), it.form,
			int(fits), int(arm));
		for(int attempt = 0; ; ++attempt) {
			bool refused = false;
			ExcInfo e;
			try {
				write(it);
			} catch(const AssertFail&) {
				refused = true;
			} catch(...) {
				e = currentExc();
			}
			arm = 0;
			if(refused) {
				ctx->nontrivial = true;
				if(fits) fail(P(17) | P(16) | (useDyn ? P(18) : 0), "refused", "a write of %d bytes is refused although it fits", int(size));
				checkTarget("after a refused write");
				COUNT("writes refused");
				if(draw(2)) return; // give up on this one
				// retry on a larger buffer
				makeTarget(stored.size() + size + (draw(2) ? 0 : draw(64)));
				fits = true;
				if(attempt > 2) broken("attempts");
				continue;
			}
			if(e.kind) {
				if(e.kind != excAlloc || !armFired) {
					fail(m(18) | P(17), "unexpected exception", "a write throws kind %d without reason", e.kind);
				}
				ctx->nontrivial = true;
				COUNT("appends failed");
				checkTarget("after an append that failed");
				armFired = false;
				if(draw(2)) return;
				continue; // retry
			}
			if(armFired) {
				fail(P(18), "error lost", "an append succeeds although memory ran out");
			}
			break;
		}
		if(!fits) fail(P(17), "accepted", "a write of %d bytes is accepted although only %d are left", int(size), int(cap - written));
		if(it.raw.size() != size) broken("size");
		if(!useDyn) {
			std::copy(it.raw.begin(), it.raw.end(), image.begin() + long(lo + written));
			written += size;
			if(written == cap) COUNT("buffers filled to the last byte");
		}
		stored.insert(stored.end(), it.raw.begin(), it.raw.end());
		items.push_back(std::move(it));
		COUNT("objects written");
		checkTarget("after a write");
	}

	void doSkipWrite() {
		if(useDyn) return;
		std::size_t left = cap - written, n = 0;
		switch(draw(5)) {
			case 0: n = draw(std::uint32_t(left) + 1); break;
			case 1: n = left; break;
			case 2: n = left + 1 + draw(10); break;
			case 3: n = std::size_t(-1) - draw(50); break;
			default: n = 0;
		}
		bool fits = n <= left;
		EV("skip %ld bytes of %d to be written", long(n), int(left));
		try {
			op([&]{ nytl::skip(win, n); });
		} catch(const AssertFail&) {
			if(fits) fail(P(17) | P(16), "refused", "skipping %ld of %ld bytes is refused", long(n), long(left));
			checkTarget("after a refused skip");
			ctx->nontrivial = true;
			return;
		}
		if(!fits) fail(P(17), "accepted", "skipping %ld of %ld bytes is accepted", long(n), long(left));
		Item it; // bytes of unknown meaning
		it.type = 0;
		it.count = int(n);
		it.raw.assign(mem.get() + lo + written, mem.get() + lo + written + n);
		stored.insert(stored.end(), it.raw.begin(), it.raw.end());
		items.push_back(std::move(it));
		written += n;
		checkTarget("after a skip");
	}

	// ---- reading -----------------------------------------------------------------------------------
	std::unique_ptr<std::byte[]> src;   // heap copy of exactly the bytes that are there
	std::size_t pos {}, avail {};       // read position, end of the bytes that arrived so far
	std::size_t srcFrom {};
	nytl::ReadBuf rwin;

	// the next piece arrives
	void arrive(std::size_t end) {
		avail = end;
		srcFrom = pos;
		auto n = avail - pos;
		src.reset(new std::byte[n ? n : 1]);
		std::copy(stored.begin() + long(pos), stored.begin() + long(avail), src.get());
		rwin = nytl::ReadBuf(src.get(), n);
		EV("bytes up to %d of %d are there", int(avail), int(stored.size()));
	}

	void checkSource(const char* when) {
		if(rwin.data() != src.get() + (pos - srcFrom) || rwin.size() != avail - pos) {
			fail(P(16) | P(17), "read window", "the window of the read buffer begins at %ld and has %ld bytes instead of %ld and %ld %s",
				long(rwin.data() - src.get()), long(rwin.size()), long(pos - srcFrom), long(avail - pos), when);
		}
		if(!std::equal(src.get(), src.get() + (avail - srcFrom), stored.begin() + long(srcFrom))) {
			fail(P(16) | P(17), "source changed", "the bytes of the read buffer changed %s", when);
		}
	}

	template<typename T> void readForm(const Item& it, int form, Raw& got, bool& dstTouched) {
		dstTouched = false;
		if(it.count < 0) {
			switch(form) {
				case 0: { std::optional<T> v; op([&]{ v.emplace(nytl::read<T>(rwin)); }); got = rawOf(*v); break; }
				case 1: case 2: case 3: {
					bitsState = 99 + it.seed;
					T v = makeValue<T>();
					auto before = rawOf(v);
					struct Check {
						const T& v; const Raw& before; bool& touched; bool done;
						~Check() { if(!done) touched = rawOf(v) != before; }
					} check {v, before, dstTouched, false};
					if(form == 1) op([&]{ nytl::read(rwin, v); });
					else if(form == 2) op([&]{ nytl::read(rwin, nytl::bytes(v)); });
					else {
						nytl::WriteBuf w = nytl::bytes(v);
						op([&]{ nytl::read(rwin, w); });
						if(w.data() != reinterpret_cast<std::byte*>(&v) || w.size() != sizeof(v)) {
							fail(P(16), "destination", "read changes the destination's window");
						}
					}
					check.done = true;
					got = rawOf(v);
					break;
				}
				case 4: { // copy does not advance
					std::optional<T> v;
					op([&]{ v.emplace(nytl::copy<T>(rwin)); });
					got = rawOf(*v);
					checkSource("after a copy");
					op([&]{ nytl::skip(rwin, sizeof(T)); });
					break;
				}
				case 5: {
					std::optional<T> v;
					auto part = rwin.size() >= sizeof(T) ? rwin.first(sizeof(T)) : rwin;
					op([&]{ v.emplace(nytl::copyExact<T>(part)); });
					got = rawOf(*v);
					checkSource("after a copy");
					op([&]{ nytl::skip(rwin, sizeof(T)); });
					break;
				}
				default: {
					T v[1];
					op([&]{ nytl::read(rwin, v); });
					got = rawOf(v[0]);
				}
			}
			return;
		}
		std::size_t n = std::size_t(it.count);
		std::unique_ptr<T[]> exact(n ? new T[n] : nullptr);
		bitsState = 7;
		for(std::size_t i = 0; i < n; ++i) exact[i] = makeValue<T>();
		auto before = rawOf(exact.get(), n);
		struct Check {
			const T* v; std::size_t n; const Raw& before; bool& touched; bool done;
			~Check() { if(!done) touched = rawOf(v, n) != before; }
		} check {exact.get(), n, before, dstTouched, false};
		switch(form) {
			case 0:
				if constexpr(!std::is_same_v<T, bool>) {
					std::vector<T> v(n);
					op([&]{ nytl::read(rwin, v); });
					if(v.size() != n) fail(P(16), "vector", "reading into a vector changes its size");
					got = rawOf(v.data(), n);
					break;
				} else [[fallthrough]];
			case 1: {
				nytl::span<T> s(exact.get(), n);
				op([&]{ nytl::read(rwin, s); });
				got = rawOf(exact.get(), n);
				break;
			}
			case 2: op([&]{ nytl::read(rwin, nytl::bytes(nytl::span<T>(exact.get(), n))); });
				got = rawOf(exact.get(), n);
				break;
			case 3: { // the destination has the same size
				auto want = n * sizeof(T);
				auto part = rwin.size() >= want ? rwin.first(want) : rwin;
				op([&]{ nytl::copy(part, nytl::bytes(nytl::span<T>(exact.get(), n))); });
				got = rawOf(exact.get(), n);
				checkSource("after a copy");
				op([&]{ nytl::skip(rwin, want); });
				break;
			}
			case 4: // byte by byte
				for(std::size_t i = 0; i < n; ++i) {
					// only complete if all fit
					if(i == 0 && rwin.size() < n * sizeof(T)) {
						op([&]{ nytl::read(rwin, nytl::bytes(nytl::span<T>(exact.get(), n))); });
					}
					op([&]{ nytl::read(rwin, nytl::bytes(exact[i])); });
				}
				got = rawOf(exact.get(), n);
				break;
			default: // only skipped
				op([&]{ nytl::skip(rwin, n * sizeof(T)); });
				got = Raw(stored.begin() + long(pos), stored.begin() + long(pos + n * sizeof(T)));
		}
		check.done = true;
	}

	// several objects in two pieces
	void readPieces(const Item& it, std::size_t size) {
		Raw got(size);
		std::unique_ptr<std::byte[]> dst(new std::byte[size]);
		std::size_t k = 0;
		while(k < size) {
			auto n = 1 + draw(std::uint32_t(size - k));
			if(avail - pos < n) {
				arrive(std::min(stored.size(), pos + n + draw(20)));
			}
			op([&]{ nytl::read(rwin, nytl::WriteBuf(dst.get() + k, n)); });
			pos += n;
			k += n;
			checkSource("after reading a piece");
			COUNT("pieces of objects read");
		}
		if(!std::equal(it.raw.begin(), it.raw.end(), dst.get())) {
			fail(P(16), "value", "an object read in pieces has another value");
		}
	}

	void doRead(const Item& it) {
		auto size = it.raw.size();
		int form = int(draw(7));
		if(size && chance(1, 6)) {
			EV("read %d bytes in pieces", int(size));
			try {
				readPieces(it, size);
			} catch(const AssertFail&) {
				fail(P(17) | P(16), "refused", "reading a piece is refused although it is there");
			}
			return;
		}
		for(int attempt = 0;; ++attempt) {
			bool fits = avail - pos >= size;
			EV("read type %d count %d (%d bytes), form %d, %d are there", it.type, it.count, int(size), form, int(avail - pos));
			bool refused = false, touched = false;
			Raw got;
			try {
				withType(it.type, [&](auto* p) {
					using T = std::remove_pointer_t<decltype(p)>;
					readForm<T>(it, form, got, touched);
				}, AllTypes{});
			} catch(const AssertFail&) {
				refused = true;
			} catch(...) {
				auto e = currentExc();
				fail(P(16) | P(17), "unexpected exception", "a read throws kind %d without reason", e.kind);
			}
			if(!refused) {
				if(!fits) fail(P(17), "accepted", "reading %d bytes is accepted although only %d are there", int(size), int(avail - pos));
				pos += size;
				checkSource("after a read");
				if(got != it.raw) {
					fail(P(16) | (useDyn ? P(18) : 0), "value", "an object of type %d count %d read has another value than the one written", it.type, it.count);
				}
				COUNT("objects read");
				return;
			}
			ctx->nontrivial = true;
			COUNT("reads refused");
			if(fits) fail(P(17) | P(16), "refused", "reading %d bytes is refused although %d are there", int(size), int(avail - pos));
			if(touched) fail(P(17), "destination changed", "a refused read changes its destination");
			checkSource("after a refused read");
			if(attempt > 3) broken("attempts");
			// retry when more bytes are there
			arrive(draw(2) ? pos + size : std::min(stored.size(), pos + size + draw(30)));
		}
	}

	// things that do not depend on the window
	void misc() {
		switch(draw(6)) {
			case 0: {
				Pod p = makeValue<Pod>();
				auto b = nytl::bytes(p);
				nytl::ReadBuf cb = nytl::bytes(static_cast<const Pod&>(p));
				if(b.data() != reinterpret_cast<std::byte*>(&p) || b.size() != sizeof(p) ||
						cb.data() != b.data() || cb.size() != b.size()) {
					fail(P(16), "bytes", "bytes() of an object does not refer to the object's bytes");
				}
				break;
			}
			case 1: {
				std::vector<Three> v(draw(5));
				const auto& c = v;
				auto b = nytl::bytes(v);
				auto cb = nytl::bytes(c);
				if(b.size() != v.size() * 3 || b.data() != reinterpret_cast<std::byte*>(v.data()) ||
						cb.data() != b.data() || cb.size() != b.size()) {
					fail(P(16), "bytes", "bytes() of a vector does not refer to its elements");
				}
				break;
			}
			case 2: { // copy needs exactly the same size
				std::size_t n = draw(20), k = draw(20);
				Raw a(n), b(k, std::byte(5)), before = b;
				for(auto& x : a) x = std::byte(splitmix(bitsState));
				bool refused = false;
				try {
					op([&]{ nytl::copy(nytl::ReadBuf(a.data(), n), nytl::WriteBuf(b.data(), k)); });
				} catch(const AssertFail&) { refused = true; }
				if(refused != (n != k)) fail(P(17), "copy", "copying %d bytes to %d bytes: refused %d", int(n), int(k), int(refused));
				if(b != (refused ? before : a)) fail(P(16) | P(17), "copy", "copying leaves wrong bytes");
				break;
			}
			case 3: { // copyExact/copy of buffers that are too small or too large
				std::size_t n = draw(20);
				std::unique_ptr<std::byte[]> a(new std::byte[n + 1]());
				std::unique_ptr<std::byte[]> exact(n ? new std::byte[n]() : nullptr);
				nytl::ReadBuf b(exact.get(), n);
				bool r1 = false, r2 = false;
				try { op([&]{ (void) nytl::copyExact<std::uint64_t>(b); }); } catch(const AssertFail&) { r1 = true; }
				try { op([&]{ (void) nytl::copy<std::uint64_t>(b); }); } catch(const AssertFail&) { r2 = true; }
				if(r1 != (n != 8)) fail(P(17), "copyExact", "copyExact of 8 bytes from %d: refused %d", int(n), int(r1));
				if(r2 != (n < 8)) fail(P(17), "copy", "copy of 8 bytes from %d: refused %d", int(n), int(r2));
				if(b.data() != exact.get() || b.size() != n) fail(P(17), "window", "copy moves the window of its source");
				break;
			}
			case 4: { // skipping in a read buffer
				std::size_t n = draw(20), k = draw(24);
				if(k == 23) k = std::size_t(-1);
				if(k == 22) k = std::size_t(-1) - n;
				std::unique_ptr<std::byte[]> a(new std::byte[n + 1]());
				nytl::ReadBuf b(a.get(), n);
				bool refused = false;
				try { op([&]{ nytl::skip(b, k); }); } catch(const AssertFail&) { refused = true; }
				if(refused != (k > n)) fail(P(17), "skip", "skipping %ld of %ld bytes: refused %d", long(k), long(n), int(refused));
				auto d = refused ? 0 : k;
				if(b.data() != a.get() + d || b.size() != n - d) fail(P(16) | P(17), "skip", "skipping leaves a wrong window");
				break;
			}
			default: { // changing an object through its bytes
				std::array<std::uint8_t, 5> arr {};
				auto b = nytl::bytes(arr);
				auto i = draw(5);
				b[i] = std::byte(9);
				for(std::size_t k = 0; k < 5; ++k) {
					if(arr[k] != (k == i ? 9 : 0)) fail(P(16), "bytes", "writing a byte of an object changes another one");
				}
			}
		}
	}

	void damage() {
		// a damaged byte changes only the value that contains it
		if(stored.empty()) return;
		auto at = draw(std::uint32_t(stored.size()));
		auto bits = std::byte(1 + draw(255));
		std::size_t p = 0;
		for(auto& it : items) {
			if(at < p + it.raw.size()) {
				if(it.type == typeBool || it.type == typeEnum) return;
				it.raw[at - p] ^= bits;
				stored[at] ^= bits;
				COUNT("fault: stored byte damaged");
				EV("byte %d is damaged", int(at));
				ctx->nontrivial = true;
				return;
			}
			p += it.raw.size();
		}
	}

	void run() {
		static const int budgets[] = {4, 10, 25, 60};
		budget = budgets[draw(4)];
		useDyn = prop == 18 ? !chance(1, 10) : chance(1, prop == 17 ? 8 : 3);
		EV("growing %d", int(useDyn));
		if(!useDyn) {
			static const int caps[] = {0, 8, 40, 200, 1500, 20000};
			auto c = std::size_t(caps[draw(6)]);
			makeTarget(c + draw(9));
		} else if(draw(2)) {
			dyn.reserve(draw(200));
		}
		for(int i = 0; i < budget; ++i) {
			yieldPoint(5);
			switch(pick({10, 1, 2, 1})) {
				case 0: maybeUnwinding([&]{ doWrite(); }); break;
				case 1: doSkipWrite(); break;
				case 2: misc(); break;
				default:
					if(useDyn) {
						if(chance(1, 2)) {
							EV("shrink_to_fit");
							dyn.shrink_to_fit(); // the next append has to allocate
						}
					} else if(chance(1, 3)) {
						// moved to another buffer, like when a new packet is begun
						makeTarget(stored.size() + draw(60));
					}
			}
		}
		if(chance(1, 3)) damage();
		// read everything
		if(useDyn && draw(2)) {
			// directly from the buffer
			nytl::ReadBuf b = dyn;
			if(b.data() != dyn.data() || b.size() != dyn.size()) {
				fail(P(16) | P(18), "conversion", "converting a growing buffer to a read buffer gives other bytes");
			}
		}
		int rounds = 1 + int(draw(2));
		for(int r = 0; r < rounds; ++r) {
			pos = 0;
			arrive(draw(3) ? stored.size() : draw(std::uint32_t(stored.size()) + 1));
			if(avail < stored.size()) COUNT("fault: stored bytes cut");
			for(auto& it : items) {
				yieldPoint(5);
				maybeUnwinding([&]{ doRead(it); });
			}
			if(pos != stored.size()) broken("read position");
			EV("all items read");
		}
	}
};

} // anon namespace

void runBytes(int prop) {
	auto before = ctx->liveAllocs;
	{
		BytesWorld w;
		w.prop = prop;
		w.run();
	}
	leaked(P(16) | P(17) | P(18), "at the end", ctx->liveAllocs - before);
}

static Domain reg {"bytes", runBytes};

} // namespace sim
