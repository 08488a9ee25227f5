// Simulated pools of polymorphic objects that are cloned and clone-moved (C14, C15)
#include "core.hpp"
#include <nytl/clone.hpp>
#include <memory>
#include <string>
#include <typeinfo>
#include <algorithm>
#include <array>
#include <set>

namespace sim {
namespace {

struct CloneWorld;
thread_local CloneWorld* cw {};

struct CloneWorld {
	int live {};           // living cells
	int copies {}, moves {};
	int copiesOfMovable {};
	long throwCopy {};     // the n-th copy from now throws
	long throwMove {};
	int throwKind {};
	bool threw {};
	int toks {};
	int budget {};
	int customLive {};     // objects with their own operator new
	long nestAt {};        // at the n-th copy or move from now another object is cloned
	bool tolerated {};     // an object went on although one of its children could not be cloned

	void memberThrows(const char* what);
	virtual void nested() = 0;
	void nest() {
		if(nestAt > 0 && --nestAt == 0) nested();
	}
};

void CloneWorld::memberThrows(const char* what) {
	UserScope us;
	threw = true;
	++toks;
	EV("a member's %d throws kind %d token %d", int(what[0] == 'c'), throwKind, toks);
	throwTok(throwKind, toks);
}

constexpr int movedFrom = -1;

/// Copyable and movable value with state on the heap
struct Cell {
	static constexpr std::uint32_t ok = 0xce11ce11;
	std::uint32_t magic {ok};
	int* p;
	explicit Cell(int v = 0) : p(new int(v)) { ++cw->live; }
	Cell(const Cell& o) : p(nullptr) {
		o.check("copied");
		yieldPoint(8);
		++cw->copies;
		++cw->copiesOfMovable;
		cw->nest();
		if(cw->throwCopy > 0 && --cw->throwCopy == 0) {
			COUNT("fault: copying a member threw");
			cw->memberThrows("copy");
		}
		if(o.p) p = new int(*o.p);
		++cw->live;
	}
	Cell(Cell&& o) : p(nullptr) {
		o.check("moved");
		yieldPoint(8);
		++cw->moves;
		cw->nest();
		if(cw->throwMove > 0 && --cw->throwMove == 0) {
			COUNT("fault: moving a member threw");
			cw->memberThrows("move");
		}
		p = o.p;
		o.p = nullptr;
		++cw->live;
	}
	Cell& operator=(const Cell&) = delete;
	~Cell() {
		check("destroyed");
		magic = 0xdead;
		--cw->live;
		delete p;
	}
	void check(const char* what) const {
		if(magic != ok) {
			fail(P(14) | P(15), "member not alive", "a member that is not alive is %s", what);
		}
	}
	int get() const { check("read"); return p ? *p : movedFrom; }
	void set(int v) {
		check("changed");
		if(p) *p = v;
		else p = new int(v);
	}
};

/// Can also be assigned
struct AssignCell : Cell {
	using Cell::Cell;
	AssignCell(const AssignCell&) = default;
	AssignCell(AssignCell&&) = default;
	AssignCell& operator=(const AssignCell& o) {
		check("assigned");
		o.check("copied");
		yieldPoint(8);
		++cw->copies;
		++cw->copiesOfMovable;
		if(cw->throwCopy > 0 && --cw->throwCopy == 0) {
			COUNT("fault: copying a member threw");
			cw->memberThrows("copy");
		}
		auto n = o.p ? new int(*o.p) : nullptr;
		delete p;
		p = n;
		return *this;
	}
	AssignCell& operator=(AssignCell&& o) {
		check("assigned");
		o.check("moved");
		yieldPoint(8);
		++cw->moves;
		if(cw->throwMove > 0 && --cw->throwMove == 0) {
			COUNT("fault: moving a member threw");
			cw->memberThrows("move");
		}
		std::swap(p, o.p);
		if(this != &o) {
			delete o.p;
			o.p = nullptr;
		}
		return *this;
	}
};

/// Can only be copied
struct CopyCell {
	Cell c;
	explicit CopyCell(int v = 0) : c(v) {}
	CopyCell(const CopyCell& o) : c(o.c) { --cw->copiesOfMovable; }
};

/// Can only be moved
struct MoveCell {
	Cell c;
	explicit MoveCell(int v = 0) : c(v) {}
	MoveCell(MoveCell&&) = default;
};

using Cells = std::vector<Cell*>;

/// What every simulated object offers through each of its bases
#define SIM_PURE \
	virtual Cells cells() = 0; \
	virtual int copyOnly() const = 0; \
	virtual int kind() const = 0; \
	virtual int extra() const = 0; \
	virtual void setExtra(int) = 0;

#define SIM_COMMON(k, cellsExpr, copyOnlyCount) \
	Cells cells() override { Cells r; cellsExpr; return r; } \
	int copyOnly() const override { return copyOnlyCount; } \
	int kind() const override { return k; } \
	int extra() const override { return extra_; } \
	void setExtra(int v) override { extra_ = v; } \
	int extra_ {k};

// ---- abstract base, several levels ------------------------------------------------------------------
struct IBase : nytl::AbstractCloneable<IBase> {
	SIM_PURE
};

struct A1 : nytl::DeriveCloneable<A1, IBase> {
	Cell a {1};
	std::string name {"a string that does not fit into the small buffer"};
	SIM_COMMON(1, r.push_back(&a), 0)
};

struct A2 : nytl::DeriveCloneable<A2, A1> {
	std::vector<Cell> v;
	Cell b {2};
	A2() { v.reserve(3); v.emplace_back(3); v.emplace_back(4); v.emplace_back(5); }
	Cells cells() override {
		Cells r {&a, &b};
		for(auto& c : v) r.push_back(&c);
		return r;
	}
	int kind() const override { return 2; }
};

struct A3 : nytl::DeriveCloneable<A3, A2> {
	std::array<Cell, 2> arr {{Cell(6), Cell(7)}};
	CopyCell cc {8};
	Cells cells() override {
		auto r = A2::cells();
		r.push_back(&arr[0]);
		r.push_back(&arr[1]);
		r.push_back(&cc.c);
		return r;
	}
	int copyOnly() const override { return 1; }
	int kind() const override { return 3; }
};

// ---- other interfaces ---------------------------------------------------------------------------------
struct IOther : nytl::AbstractCloneable<IOther> {
	SIM_PURE
	Cell other {10}; // with state in the base
};

struct IThird : nytl::AbstractCloneable<IThird> {
	long pad[3] {1, 2, 3};
	SIM_PURE
};

struct Named { // not cloneable itself
	virtual ~Named() = default;
	std::string title {"the title is also too long for the small buffer"};
};

// several bases
struct D1 : nytl::DeriveCloneable<D1, IBase, IOther> {
	Cell a {11};
	SIM_COMMON(4, (r = {&other, &a}), 0)
};

struct D2 : nytl::DeriveCloneable<D2, D1, IThird> {
	Cell b {12};
	Cells cells() override { return {&other, &a, &b}; }
	int copyOnly() const override { return 0; }
	int kind() const override { return 5; }
	int extra() const override { return extra_; }
	void setExtra(int v) override { extra_ = v; }
};

struct D3 : nytl::DeriveCloneable<D3, Named, IThird, IOther> {
	std::vector<Cell> v;
	D3() { v.reserve(2); v.emplace_back(13); v.emplace_back(14); }
	SIM_COMMON(6, (r = {&other}); for(auto& c : v) r.push_back(&c), 0)
};

// three levels, the interfaces are added step by step
struct D4 : nytl::DeriveCloneable<D4, A2, IOther, IThird> {
	CopyCell cc {15};
	Cells cells() override {
		auto r = A2::cells();
		r.push_back(&other);
		r.push_back(&cc.c);
		return r;
	}
	int copyOnly() const override { return 1; }
	int kind() const override { return 7; }
	int extra() const override { return extra_; }
	void setExtra(int v) override { extra_ = v; }
};

// virtual base
struct VBase {
	VBase() = default;
	VBase(const VBase&) = default;
	VBase(VBase&&) = default;
	virtual ~VBase() = default;
	Cell vb {16};
};
struct VHelper : virtual VBase {};
struct E1 : nytl::DeriveCloneable<E1, VHelper, IBase> {
	Cell a {17};
	SIM_COMMON(8, (r = {&vb, &a}), 0)
};

// over-aligned
struct alignas(64) F1 : nytl::DeriveCloneable<F1, Named, IBase> {
	Cell a {18};
	char data[100] {};
	SIM_COMMON(9, (r = {&a}), 0)
};

// own allocation functions
struct G1 : nytl::DeriveCloneable<G1, IBase> {
	Cell a {19};
	static void* operator new(std::size_t n) {
		auto p = ::operator new(n + 16);
		++cw->customLive;
		return static_cast<char*>(p) + 16;
	}
	static void operator delete(void* p) {
		--cw->customLive;
		::operator delete(static_cast<char*>(p) - 16);
	}
	SIM_COMMON(10, (r = {&a}), 0)
};

// ---- concrete base ---------------------------------------------------------------------------------------
struct CBase : nytl::Cloneable<CBase> {
	Cell a {20};
	CBase() = default;
	explicit CBase(int v) : a(v) {}
	virtual Cells cells() { return {&a}; }
	virtual int copyOnly() const { return 0; }
	virtual int kind() const { return 11; }
	int extra_ {5};
	virtual int extra() const { return extra_; }
	virtual void setExtra(int v) { extra_ = v; }
};

struct C1 : nytl::DeriveCloneable<C1, CBase> {
	using nytl::DeriveCloneable<C1, CBase>::DeriveCloneable;
	C1() : nytl::DeriveCloneable<C1, CBase>(23) {}
	Cell b {21};
	Cells cells() override { return {&a, &b}; }
	int kind() const override { return 12; }
};

struct C2 : nytl::DeriveCloneable<C2, C1, IOther> {
	Cells cells() override { return {&a, &b, &other}; }
	int copyOnly() const override { return 0; }
	int kind() const override { return 13; }
	int extra() const override { return extra_; }
	void setExtra(int v) override { extra_ = v; }
};

// ---- only movable ------------------------------------------------------------------------------------------
struct MBase : nytl::AbstractCloneMovable<MBase> {
	SIM_PURE
};

struct M1 : nytl::DeriveCloneMovable<M1, MBase> {
	MoveCell a {30};
	std::unique_ptr<int> up {std::make_unique<int>(3)};
	SIM_COMMON(20, (r = {&a.c}), 0)
};

struct M2 : nytl::DeriveCloneMovable<M2, M1> {
	std::vector<MoveCell> v;
	Cell b {31};
	M2() { v.emplace_back(32); }
	Cells cells() override {
		Cells r {&a.c, &b};
		for(auto& c : v) r.push_back(&c.c);
		return r;
	}
	int kind() const override { return 21; }
};

struct MOther : nytl::AbstractCloneMovable<MOther> {
	MoveCell other {33};
	SIM_PURE
};

struct M3 : nytl::DeriveCloneMovable<M3, MBase, MOther> {
	MoveCell a {34}, b {35};
	SIM_COMMON(22, (r = {&other.c, &a.c, &b.c}), 0)
};

struct M4 : nytl::DeriveCloneMovable<M4, Named, M2, MOther> {
	Cells cells() override {
		auto r = M2::cells();
		r.push_back(&other.c);
		return r;
	}
	int copyOnly() const override { return 0; }
	int kind() const override { return 23; }
	int extra() const override { return extra_; }
	void setExtra(int v) override { extra_ = v; }
};

struct NBase : nytl::CloneMovable<NBase> {
	MoveCell a {36};
	CopyCell cc {37};
	virtual Cells cells() { return {&a.c, &cc.c}; }
	virtual int copyOnly() const { return 1; } // the last one
	virtual int kind() const { return 24; }
	int extra_ {5};
	virtual int extra() const { return extra_; }
	virtual void setExtra(int v) { extra_ = v; }
};

struct N1 : nytl::DeriveCloneMovable<N1, NBase> {
	MoveCell b {38};
	Cells cells() override { return {&a.c, &b.c, &cc.c}; }
	int kind() const override { return 25; }
};

// A cloneable implementation of a clone-movable interface
struct N2 : nytl::DeriveCloneable<N2, IBase, MBase> {
	Cell a {39};
	SIM_COMMON(26, (r = {&a}), 0)
};

// ---- default constructible and assignable objects, objects with surprising constructors -----------------------
struct H1 : nytl::DeriveCloneable<H1, IBase> {
	AssignCell a {40}, b {41};
	std::vector<int> ints {1, 2, 3};
	SIM_COMMON(27, (r = {&a, &b}), 0)
};

struct H2 : nytl::DeriveCloneable<H2, IThird, IBase> {
	AssignCell a {42};
	AssignCell b {43};
	SIM_COMMON(28, (r = {&a, &b}), 0)
};

struct AnyArg {
	template<typename T> AnyArg(const T&) {}
};

// everything can be converted to it
struct H3 : nytl::DeriveCloneable<H3, IBase> {
	Cell a {44};
	H3() = default;
	H3(const H3&) = default;
	H3(H3&&) = default;
	H3(std::initializer_list<AnyArg>) : a(-5) {}
	explicit H3(AnyArg) : a(-6) {}
	H3(const IBase&) : a(-7) {}
	SIM_COMMON(29, (r = {&a}), 0)
};

struct H4 : nytl::DeriveCloneMovable<H4, MBase> {
	AssignCell a {45};
	char big[5000] {};
	AssignCell b {46};
	SIM_COMMON(30, (r = {&a, &b}), 0)
};

struct H5 : nytl::Cloneable<H5> {
	AssignCell a {47};
	virtual ~H5() = default;
	H5() = default;
	H5(const H5&) = default;
	H5(H5&&) = default;
	H5& operator=(const H5&) = default;
	H5& operator=(H5&&) = default;
	H5(std::initializer_list<AnyArg>) : a(-5) {}
	virtual Cells cells() { return {&a}; }
	virtual int copyOnly() const { return 0; }
	virtual int kind() const { return 31; }
	int extra_ {31};
	virtual int extra() const { return extra_; }
	virtual void setExtra(int v) { extra_ = v; }
};

// ---- objects that clone others when they are copied ------------------------------------------------------------
std::unique_ptr<IBase> makeChild(int depth);

struct T1 : nytl::DeriveCloneable<T1, IOther, IBase> {
	Cell a {48};
	std::vector<std::unique_ptr<IBase>> kids;
	bool tolerant {};
	explicit T1(int depth = 3) {
		tolerant = chance(1, 4);
		int n = int(pick({3, 3, 2, 1}));
		for(int i = 0; depth > 0 && i < n; ++i) kids.push_back(makeChild(depth - 1));
	}
	T1(const T1& o) : DeriveCloneable(o), a(o.a), tolerant(o.tolerant), extra_(o.extra_) {
		for(auto& k : o.kids) {
			if(!tolerant) {
				kids.push_back(nytl::clone(*k));
				continue;
			}
			try {
				kids.push_back(nytl::clone(*k));
			} catch(...) {
				cw->tolerated = true;
				COUNT("children that could not be cloned left out");
			}
		}
	}
	T1(T1&&) = default;
	Cells cells() override {
		Cells r {&other, &a};
		for(auto& k : kids) for(auto* c : k->cells()) r.push_back(c);
		return r;
	}
	int copyOnly() const override { return 0; }
	int kind() const override { return 32; }
	int extra() const override { return extra_; }
	void setExtra(int v) override { extra_ = v; }
	int extra_ {32};
};

// owns a chain
struct T2 : nytl::DeriveCloneable<T2, A1> {
	std::unique_ptr<IBase> next;
	explicit T2(int depth = 20) {
		if(depth > 0 && !chance(1, 8)) next = std::make_unique<T2>(depth - 1);
	}
	T2(const T2& o) : DeriveCloneable(o), next(o.next ? nytl::clone(*o.next) : nullptr) {}
	T2(T2&&) = default;
	Cells cells() override {
		auto r = A1::cells();
		if(next) for(auto* c : next->cells()) r.push_back(c);
		return r;
	}
	int kind() const override { return 33; }
};

// moves what its children hold, they stay where they are
struct T3 : nytl::DeriveCloneMovable<T3, MBase> {
	std::array<std::unique_ptr<MBase>, 2> kids {std::make_unique<M1>(), std::make_unique<M2>()};
	MoveCell a {49};
	T3() = default;
	T3(T3&& o) : DeriveCloneMovable(std::move(o)), kids {{nytl::cloneMove(*o.kids[0]), nytl::cloneMove(*o.kids[1])}},
		a(std::move(o.a)), extra_(o.extra_) {}
	SIM_COMMON(34, (r = {&a.c}); for(auto& k : kids) for(auto* c : k->cells()) r.push_back(c), 0)
};

std::unique_ptr<IBase> makeChild(int depth) {
	switch(draw(8)) {
		case 0: return std::make_unique<A1>();
		case 1: return std::make_unique<A3>();
		case 2: return std::make_unique<D2>();
		case 3: return std::make_unique<D4>();
		case 4: return std::make_unique<H2>();
		case 5: return std::make_unique<T2>(2);
		case 6: return std::make_unique<N2>();
		default: return std::make_unique<T1>(depth);
	}
}

// ---- objects held through any of their bases ---------------------------------------------------------------
struct Holder {
	virtual ~Holder() = default;
	virtual Cells cells() = 0;
	virtual int copyOnly() = 0;
	virtual int kind() = 0;
	virtual int extra() = 0;
	virtual void setExtra(int) = 0;
	virtual const std::type_info& type() = 0;
	virtual const void* whole() = 0;
	virtual std::unique_ptr<Holder> clone(long arm, bool pers, bool& fired) = 0; // null: not possible
	virtual std::unique_ptr<Holder> cloneMove(long arm, bool pers, bool& fired) = 0;
	virtual bool canClone() = 0;
	virtual std::unique_ptr<Holder> rehold(int base) = 0;
	virtual int base() = 0;
};

template<typename T> struct HolderT;
template<typename... T> struct TypeList { static constexpr int size = sizeof...(T); };
using BaseList = TypeList<IBase, A1, A2, A3, IOther, IThird, D1, D2, D3, D4, E1, F1, G1, CBase, C1, C2,
	MBase, M1, M2, MOther, M3, M4, NBase, N1, N2, H1, H2, H3, H4, H5, T1, T2, T3>;

template<typename T, typename... L> constexpr int indexOf(TypeList<L...>) {
	int i = 0, r = -1;
	((std::is_same_v<T, L> ? r = i : 0, ++i), ...);
	return r;
}

template<typename T> constexpr bool cloneable = (!std::is_base_of_v<MBase, T> && !std::is_base_of_v<MOther, T> &&
	!std::is_base_of_v<NBase, T>) || std::is_base_of_v<IBase, T>;

template<typename From, typename... L>
std::unique_ptr<Holder> reholdAs(std::unique_ptr<From>& p, int base, TypeList<L...>);

template<typename T>
struct HolderT final : Holder {
	std::unique_ptr<T> p;
	explicit HolderT(std::unique_ptr<T> ptr) : p(std::move(ptr)) {}
	~HolderT() override {
		LibScope ls;
		p.reset();
	}
	Cells cells() override { return p->cells(); }
	int copyOnly() override { return p->copyOnly(); }
	int kind() override { return p->kind(); }
	int extra() override { return p->extra(); }
	void setExtra(int v) override { p->setExtra(v); }
	const std::type_info& type() override { return typeid(*p); }
	const void* whole() override { return dynamic_cast<const void*>(p.get()); }
	bool canClone() override { return cloneable<T>; }
	int base() override { return indexOf<T>(BaseList{}); }
	std::unique_ptr<Holder> wrap(std::unique_ptr<T> n) {
		return n ? std::make_unique<HolderT<T>>(std::move(n)) : nullptr;
	}
	std::unique_ptr<Holder> clone(long arm, bool pers, bool& fired) override {
		if constexpr(cloneable<T>) {
			std::unique_ptr<T> n;
			{
				LibScope ls(arm, pers);
				ctx->fc.firedOut = &fired;
				n = nytl::clone(static_cast<const T&>(*p));
			}
			return wrap(std::move(n));
		} else {
			return nullptr;
		}
	}
	std::unique_ptr<Holder> cloneMove(long arm, bool pers, bool& fired) override {
		std::unique_ptr<T> n;
		{
			LibScope ls(arm, pers);
			ctx->fc.firedOut = &fired;
			n = nytl::cloneMove(*p);
		}
		return wrap(std::move(n));
	}
	std::unique_ptr<Holder> rehold(int base) override { return reholdAs(p, base, BaseList{}); }
};

template<typename From, typename... L>
std::unique_ptr<Holder> reholdAs(std::unique_ptr<From>& p, int base, TypeList<L...>) {
	std::unique_ptr<Holder> r;
	int i = 0;
	auto tryOne = [&](auto* tag) {
		using To = std::remove_pointer_t<decltype(tag)>;
		if(i++ != base || r) return;
		if(auto q = dynamic_cast<To*>(p.get())) {
			std::unique_ptr<To> n(q);
			(void) p.release();
			r = std::make_unique<HolderT<To>>(std::move(n));
		}
	};
	(tryOne(static_cast<L*>(nullptr)), ...);
	return r;
}

std::unique_ptr<Holder> makeObject(int k) {
	switch(k) {
		case 0: return std::make_unique<HolderT<IBase>>(std::make_unique<A1>());
		case 1: return std::make_unique<HolderT<IBase>>(std::make_unique<A2>());
		case 2: return std::make_unique<HolderT<A1>>(std::make_unique<A3>());
		case 3: return std::make_unique<HolderT<IOther>>(std::make_unique<D1>());
		case 4: return std::make_unique<HolderT<IThird>>(std::make_unique<D2>());
		case 5: return std::make_unique<HolderT<IOther>>(std::make_unique<D3>());
		case 6: return std::make_unique<HolderT<IOther>>(std::make_unique<D4>());
		case 7: return std::make_unique<HolderT<IBase>>(std::make_unique<E1>());
		case 8: return std::make_unique<HolderT<IBase>>(std::make_unique<F1>());
		case 9: return std::make_unique<HolderT<IBase>>(std::unique_ptr<IBase>(new G1()));
		case 10: return std::make_unique<HolderT<CBase>>(std::make_unique<CBase>());
		case 11: return std::make_unique<HolderT<CBase>>(std::make_unique<C1>());
		case 12: return std::make_unique<HolderT<IOther>>(std::make_unique<C2>());
		case 13: return std::make_unique<HolderT<MBase>>(std::make_unique<M1>());
		case 14: return std::make_unique<HolderT<MBase>>(std::make_unique<M2>());
		case 15: return std::make_unique<HolderT<MOther>>(std::make_unique<M3>());
		case 16: return std::make_unique<HolderT<MOther>>(std::make_unique<M4>());
		case 17: return std::make_unique<HolderT<NBase>>(std::make_unique<NBase>());
		case 18: return std::make_unique<HolderT<NBase>>(std::make_unique<N1>());
		case 19: return std::make_unique<HolderT<MBase>>(std::make_unique<N2>());
		case 20: return std::make_unique<HolderT<IBase>>(std::make_unique<H1>());
		case 21: return std::make_unique<HolderT<IThird>>(std::make_unique<H2>());
		case 22: return std::make_unique<HolderT<IBase>>(std::make_unique<H3>());
		case 23: return std::make_unique<HolderT<MBase>>(std::make_unique<H4>());
		case 24: return std::make_unique<HolderT<H5>>(std::make_unique<H5>());
		case 25: return std::make_unique<HolderT<IOther>>(std::make_unique<T1>());
		case 26: return std::make_unique<HolderT<IBase>>(std::make_unique<T2>());
		default: return std::make_unique<HolderT<MBase>>(std::make_unique<T3>());
	}
}
constexpr int objectKinds = 28;

struct Entry {
	std::unique_ptr<Holder> h;
	std::vector<int> values;   // of the cells
	int extra {};
	int serial {};
	int kind {};
};

struct ClonePool : CloneWorld {
	std::vector<Entry> pool;
	int serials {};
	Mask both = P(14) | P(15);

	void checkEntry(Entry& e, Mask m, const char* when) {
		if(e.h->kind() != e.kind) {
			fail(m, "type", "object o%d has another dynamic type %s", e.serial, when);
		}
		auto cells = e.h->cells();
		if(cells.size() != e.values.size()) {
			fail(m, "value", "object o%d has %d members instead of %d %s", e.serial, int(cells.size()),
				int(e.values.size()), when);
		}
		for(std::size_t i = 0; i < cells.size(); ++i) {
			if(cells[i]->get() != e.values[i]) {
				fail(m, "value", "member %d of object o%d has the value %d instead of %d %s", int(i), e.serial,
					cells[i]->get(), e.values[i], when);
			}
		}
		if(e.h->extra() != e.extra) {
			fail(m, "value", "object o%d has another plain member %s", e.serial, when);
		}
	}

	void resync(Entry& e) {
		e.values.clear();
		for(auto* c : e.h->cells()) e.values.push_back(c->get());
		e.extra = e.h->extra();
	}

	void checkAll(Mask m, const char* when) {
		int cells = 0;
		std::set<const void*> seen;
		for(auto& e : pool) {
			checkEntry(e, m, when);
			for(auto* c : e.h->cells()) {
				++cells;
				if(!seen.insert(c).second || (c->p && !seen.insert(c->p).second)) {
					fail(m, "shared state", "objects share state %s", when);
				}
			}
		}
		if(cells != live) {
			fail(m, "leak", "%d members are alive instead of %d %s", live, cells, when);
		}
	}

	Entry& some() { return pool[draw(std::uint32_t(pool.size()))]; }

	void add() {
		if(pool.size() >= 12) return;
		int k = int(draw(objectKinds));
		Entry e;
		e.h = makeObject(k);
		e.serial = ++serials;
		e.kind = e.h->kind();
		resync(e);
		EV("create o%d of kind %d", e.serial, e.kind);
		pool.push_back(std::move(e));
		COUNT("objects created");
	}

	std::vector<Entry> kept;
	long current = -1;      // cannot be moved at the moment
	bool during {};
	int nestedLive {}, nestedCustom {}; // what the other clone left

	// Another object is cloned while an object is cloned
	void nested() override {
		UserScope us;
		if(pool.empty()) return;
		auto j = draw(std::uint32_t(pool.size()));
		bool move = !draw(3);
		if(move ? long(j) == current : !pool[j].h->canClone() || (during && long(j) == current)) return;
		auto m = during ? P(15) : P(14);
		COUNT("clones made while cloning");
		EV("%d clone o%d meanwhile", int(move), pool[j].serial);
		auto liveNow = live, customNow = customLive;
		auto c = copies, mv = moves, cm = copiesOfMovable;
		auto tc = throwCopy, tm = throwMove;
		auto tol = tolerated;
		bool fired = false;
		throwCopy = throwMove = 0;
		Entry ne;
		try {
			ne.h = move ? pool[j].h->cloneMove(0, false, fired) : pool[j].h->clone(0, false, fired);
		} catch(...) {
			fail(m, "unexpected error", "cloning o%d meanwhile throws without reason", pool[j].serial);
		}
		copies = c; moves = mv; copiesOfMovable = cm;
		throwCopy = tc; throwMove = tm;
		tolerated = tol;
		if(!ne.h) fail(m, "no clone", "cloning o%d meanwhile returns nothing", pool[j].serial);
		if(ne.h->type() != pool[j].h->type()) {
			fail(m, "type", "the clone of o%d has another dynamic type", pool[j].serial);
		}
		ne.serial = ++serials;
		ne.kind = pool[j].kind;
		ne.values = pool[j].values;
		ne.extra = pool[j].extra;
		checkEntry(ne, m, "cloned meanwhile");
		if(move) resync(pool[j]);
		if(chance(1, 2)) kept.push_back(std::move(ne));
		else ne.h.reset();
		nestedLive = live - liveNow;
		nestedCustom = customLive - customNow;
	}

	void useKept() {
		for(auto& k : kept) pool.push_back(std::move(k));
		kept.clear();
	}

	void doClone(bool move) {
		if(pool.size() >= 16) return;
		auto idx = draw(std::uint32_t(pool.size()));
		if(!move && !pool[idx].h->canClone()) return;
		long arm = 0;
		bool pers = false, fired = false;
		threw = false;
		int fault = pick({5, 3, 3});
		if(fault == 1) {
			arm = 1 + long(drawSkewed(8));
			pers = chance(1, 4);
		} else if(fault == 2) {
			(move ? throwMove : throwCopy) = 1 + long(drawSkewed(8));
			throwKind = excStd + int(draw(3));
			if(move && chance(1, 4)) { throwCopy = 1; }
		}
		auto m = move ? P(15) : P(14);
		EV("%d clone o%d of kind %d through base %d, failing allocation %d, failing copy %d, failing move %d", int(move),
			pool[idx].serial, pool[idx].kind, pool[idx].h->base(), int(arm), int(throwCopy), int(throwMove));
		nestedLive = nestedCustom = 0;
		nestAt = chance(1, 4) ? 1 + long(drawSkewed(6)) : 0;
		current = long(idx);
		during = move;
		tolerated = false;
		copies = moves = copiesOfMovable = 0;
		auto liveBefore = live;
		auto customBefore = customLive;
		std::unique_ptr<Holder> n;
		ExcInfo e;
		maybeUnwinding([&]{
			try {
				if(move) n = pool[idx].h->cloneMove(arm, pers, fired);
				else n = pool[idx].h->clone(arm, pers, fired);
			} catch(...) {
				e = currentExc();
			}
		});
		throwCopy = throwMove = 0;
		nestAt = 0;
		liveBefore += nestedLive;
		customBefore += nestedCustom;
		useKept();
		auto& src = pool[idx];
		if((fired || threw) && (e.kind || !tolerated)) {
			ctx->nontrivial = true;
			COUNT("clones that had to fail");
			if(!e.kind) {
				fail(m, "error lost", "cloning o%d succeeds although %s failed", src.serial, fired ? "an allocation" : "a member");
			}
			if(fired ? e.kind != excAlloc : (e.kind != throwKind || e.tok != toks)) {
				fail(m, "other error", "cloning o%d fails with another exception (kind %d token %d)", src.serial, e.kind, e.tok);
			}
			if(!move && live != liveBefore) {
				fail(m, "leak", "%d members are left after a failed clone of o%d", live - liveBefore, src.serial);
			}
			if(customLive != customBefore) {
				fail(m, "leak", "memory of a failed clone of o%d is not freed with its own deallocation function", src.serial);
			}
			if(move && !(fired && arm == 1)) {
				resync(src); // some members may have been moved
			}
			checkAll(m, "after a failed clone");
			return;
		}
		if(e.kind) {
			fail(m, "unexpected error", "cloning o%d throws kind %d without reason", src.serial, e.kind);
		}
		if(!n) fail(m, "no clone", "cloning o%d returns nothing", src.serial);
		COUNT("clones");
		if(move) COUNT("clone-moves");
		ctx->nontrivial = true;
		Entry ne;
		ne.h = std::move(n);
		ne.serial = ++serials;
		ne.kind = src.kind;
		ne.values = src.values;
		ne.extra = src.extra;
		if(tolerated) resync(ne);
		if(ne.h->type() != src.h->type()) {
			fail(m, "type", "the clone of o%d has another dynamic type", src.serial);
		}
		if(ne.h->whole() == src.h->whole()) {
			fail(m, "identity", "the clone of o%d is the same object", src.serial);
		}
		if(src.kind == 9 && reinterpret_cast<std::uintptr_t>(ne.h->whole()) % 64) {
			fail(m, "alignment", "the clone of o%d is not aligned", src.serial);
		}
		if(move) {
			auto keep = std::size_t(src.h->copyOnly());
			// the last ones can only be copied
			if(src.kind != 3 && src.kind != 7 && src.kind != 24 && src.kind != 25 && keep) broken("copyOnly");
			for(std::size_t i = 0; i + keep < src.values.size(); ++i) src.values[i] = movedFrom;
			auto vecs = src.h->cells();
			if(src.kind == 34) { // contains parts that can only be copied
				resync(src);
				if(vecs[0]->get() != movedFrom) fail(m, "not moved", "the member of o%d was not moved", src.serial);
			} else if(vecs.size() != src.values.size()) { // members in a moved vector are gone
				resync(src);
				for(std::size_t i = 0; i + keep < src.values.size(); ++i) {
					if(src.values[i] != movedFrom) {
						fail(m, "not moved", "member %d of o%d was not moved", int(i), src.serial);
					}
				}
			}
			if(copiesOfMovable) {
				fail(m, "copied", "%d members of o%d that can be moved were copied", copiesOfMovable, src.serial);
			}
		} else if(moves) {
			// moving from a copy is fine, the check of all values shows whether the original was moved from
			COUNT("members moved while cloning");
		}
		pool.push_back(std::move(ne));
		checkAll(m, move ? "after a clone-move" : "after a clone");
	}

	void mutate() {
		auto& e = some();
		auto cells = e.h->cells();
		int v = 100 + int(draw(1000));
		if(cells.empty()) return;
		auto i = draw(std::uint32_t(cells.size()));
		EV("change member %d of o%d", int(i), e.serial);
		cells[i]->set(v);
		e.values[i] = v;
		e.extra = v;
		e.h->setExtra(v);
		checkAll(both, "after another object was changed");
	}

	void destroy() {
		auto i = draw(std::uint32_t(pool.size()));
		EV("destroy o%d", pool[i].serial);
		pool.erase(pool.begin() + long(i));
		checkAll(both, "after another object was destroyed");
	}

	void rehold() {
		auto& e = some();
		auto n = e.h->rehold(int(draw(BaseList::size)));
		if(n) {
			e.h = std::move(n);
			EV("hold o%d through base %d", e.serial, e.h->base());
			COUNT("objects held through another base");
		}
	}

	void run(int prop) {
		static const int budgets[] = {5, 12, 30, 60};
		budget = budgets[draw(4)];
		int wc = prop == 15 ? 3 : prop == 14 ? 8 : 6, wm = prop == 15 ? 8 : prop == 14 ? 2 : 6;
		add();
		while(budget-- > 0) {
			yieldPoint(5);
			if(pool.empty()) add();
			switch(pick({wc, wm, 3, 2, 2, 3})) {
				case 0: doClone(false); break;
				case 1: doClone(true); break;
				case 2: add(); break;
				case 3: mutate(); break;
				case 4: destroy(); break;
				default: rehold();
			}
		}
		while(!pool.empty()) destroy();
		if(live || customLive) fail(both, "leak", "%d members are never destroyed", live);
	}
};

} // anon namespace

void runClone(int prop) {
	auto before = ctx->liveAllocs;
	{
		ClonePool w;
		auto old = cw;
		cw = &w;
		w.run(prop);
		cw = old;
	}
	leaked(P(14) | P(15), "at the end", ctx->liveAllocs - before);
}

static Domain reg {"clone", runClone};

} // namespace sim
