// Simulated world of callbacks, connections and the functions registered in them.
// The registered functions decide at run time (by drawing from the tape) what they do to
// which callback; a small model predicts every invocation, removal and notification.
#pragma once
#include "core.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>
#include <deque>
#include <memory>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>
#include <optional>

namespace sim {

// ---- user defined id --------------------------------------------------------------------------------
struct SimIdState;
struct IdHost {
	virtual ~IdHost() = default;
	virtual void idConstruct(SimIdState&) = 0; // may throw
	virtual void idRemoved(SimIdState&) = 0;
	virtual void idSet(SimIdState&, std::int64_t) = 0;
	virtual void idDeadAccess(SimIdState&, const char* what) = 0;
	virtual void idEmptyAccess(const char* what) = 0;
};
extern thread_local IdHost* idHost;

struct SimIdState {
	IdHost* host {};
	int serial {};
	std::int64_t value {};
	int removed {};
	int sets {};
	int fn {-1};
	int* live {};
	~SimIdState() { if(live) --*live; }
};

/// Fulfills the ConnectableID concept of docs/callback.md and observes its use.
struct SimID {
	std::shared_ptr<SimIdState> state;
	bool dead {}; // removed() was called on this object

	SimID() = default;
	SimID(std::int64_t v) {
		auto s = std::make_shared<SimIdState>();
		s->value = v;
		s->host = idHost;
		if(s->host) {
			UserScope us;
			yieldPoint(2);
			s->host->idConstruct(*s);
		}
		state = std::move(s);
	}
	void set(std::int64_t v) noexcept {
		UserScope us;
		yieldPoint(2);
		if(!state) {
			if(idHost) idHost->idEmptyAccess("set");
			return;
		}
		if(dead) state->host->idDeadAccess(*state, "set");
		state->host->idSet(*state, v);
		state->value = v;
	}
	std::int64_t get() const noexcept {
		if(!state) return 0;
		if(dead) {
			UserScope us;
			state->host->idDeadAccess(*state, "get");
		}
		return state->value;
	}
	void removed() noexcept {
		UserScope us;
		yieldPoint(2);
		if(!state) {
			if(idHost) idHost->idEmptyAccess("removed");
			return;
		}
		if(dead) state->host->idDeadAccess(*state, "removed");
		state->host->idRemoved(*state);
		state->value = 0;
		dead = true;
	}
};

template<typename ID> constexpr bool isTracked = !std::is_same_v<ID, nytl::ConnectionID>;
template<typename ID> constexpr bool isSim = std::is_same_v<ID, SimID>;

// ---- arguments and results ----------------------------------------------------------------------------
struct Payload {
	int tag {};
	std::vector<int> data;
	Payload() = default;
	explicit Payload(int t) : tag(t), data{t, t + 1, t * 3} {}
	bool is(int t) const {
		return tag == t && data.size() == 3 && data[0] == t && data[1] == t + 1 && data[2] == t * 3;
	}
};

// ---- profile ---------------------------------------------------------------------------------------------
enum Op {
	opNone, opCall, opCallThrough, opAdd, opDisconnect, opConnDisconnect, opSelf, opClear, opAssign,
	opCopyConn, opUnique, opEmpty, opInvalidate, opRecreate, opBulk, opGive, opCount
};

struct Profile {
	int prop {};
	int weights[opCount] {};
	int simple {};          // of 8 callbacks are simple ones
	int idPlain {}, idTracked {}, idSim {};
	bool faultAdd {}, faultCall {}, throws {}, owners {}, invalidate {};
	int budget {60};
	int maxDepth {8};
	int maxInvocations {3000};
};

Profile makeProfile(int prop); // draws

// ---- model ------------------------------------------------------------------------------------------------
enum class St { pending, registered, removed, failed };

struct Frame {
	int cb {};
	std::vector<int> snap;
	std::size_t pos {};
	bool ended {};
	ExcInfo expect {};
	bool faultFired {};
	long arm {};
	bool armPersistent {};
	// arguments
	int serial {};
	const void* addr {};
	int val {};
	bool stolen {};
	// results
	std::vector<int> results;
};

/// The observed part of a registered function object
struct Probe;

struct WorldBase : IdHost {
	virtual void probeBorn(int fn) = 0;
	virtual void probeDead(int fn) = 0;
	virtual Frame& enter(int fn) = 0;
	virtual void body(int fn) = 0;
	virtual void leave(int fn, Frame&, bool thrown) = 0;
	virtual void checkAlive(int fn, bool ok, const char* when) = 0;
	virtual void checkState(int fn, int calls) = 0;
	virtual void ownerReleased(int fn) = 0;
	virtual void badArgs(int fn, const char* what) = 0;
	virtual Mask callMask(int cb) const = 0;
};

struct Probe {
	static constexpr std::uint32_t alive = 0xa11fe00d;
	std::uint32_t magic {alive};
	WorldBase* w {};
	int fn {};
	std::vector<int> captured; // something on the heap

	Probe(WorldBase& world, int f) : w(&world), fn(f), captured{f, f ^ 0x55, 7} {
		w->probeBorn(fn);
	}
	Probe(const Probe& o) : w(o.w), fn(o.fn), captured(o.captured) {
		w->probeBorn(fn);
	}
	Probe(Probe&& o) noexcept : w(o.w), fn(o.fn), captured(std::move(o.captured)) {
		w->probeBorn(fn);
	}
	Probe& operator=(const Probe&) = delete;
	~Probe() {
		magic = 0xdeadbeef;
		w->probeDead(fn);
	}
	bool intact() const {
		return magic == alive && captured.size() == 3 && captured[0] == fn &&
			captured[1] == (fn ^ 0x55) && captured[2] == 7;
	}
};

struct OwnBase { virtual ~OwnBase() = default; };

// ---- signatures --------------------------------------------------------------------------------------------
// Each one provides: Sig, call (invokes and checks the result), accept (checks the arguments in a
// registered function and returns its result)
#define SIM_BADARG(cond, what) do { if(!(cond)) w.badArgs(fn, what); } while(0)

template<typename Cb, typename... A>
decltype(auto) invokeCb(Cb& cb, int how, A&&... a) {
	if(how == 1) return cb(std::forward<A>(a)...);
	return cb.call(std::forward<A>(a)...);
}

void checkResults(WorldBase& w, Frame& f, const std::vector<int>& got);

struct FrameLib : LibScope { // library scope of a call
	explicit FrameLib(Frame& f) : LibScope(f.arm, f.armPersistent) { ctx->fc.firedOut = &f.faultFired; }
};

struct Sig0 {
	using Sig = void();
	template<typename Cb> static void call(WorldBase&, Frame& f, Cb& cb, int how) {
		FrameLib ls(f);
		invokeCb(cb, how);
	}
	static void accept(WorldBase&, int, Frame&) {}
};

struct Sig1 {
	using Sig = int(int);
	template<typename Cb> static void call(WorldBase& w, Frame& f, Cb& cb, int how) {
		FrameLib ls(f);
		auto r = invokeCb(cb, how, f.serial);
		ls.end();
		checkResults(w, f, r);
	}
	static int accept(WorldBase& w, int fn, Frame& f, int v) {
		SIM_BADARG(v == f.serial, "int by value");
		int r = f.serial * 1000 + int(f.results.size()) + fn;
		f.results.push_back(r);
		return r;
	}
};

struct Sig2 {
	using Sig = Payload(Payload, int&);
	template<typename Cb> static void call(WorldBase& w, Frame& f, Cb& cb, int how) {
		int x = f.serial * 7;
		f.addr = &x;
		f.val = x;
		Payload p(f.serial);
		FrameLib ls(f);
		std::vector<Payload> r = (f.serial & 1) ? invokeCb(cb, how, p, x) : invokeCb(cb, how, std::move(p), x);
		ls.end();
		std::vector<int> got;
		for(auto& q : r) {
			got.push_back(q.is(q.tag) ? q.tag : -1);
		}
		checkResults(w, f, got);
		if(x != f.val) w.badArgs(-1, "int& of the caller has another value afterwards");
	}
	static Payload accept(WorldBase& w, int fn, Frame& f, Payload& p, int& x) {
		SIM_BADARG(p.is(f.serial), "Payload by value");
		SIM_BADARG(&x == f.addr, "int& refers to another object");
		SIM_BADARG(x == f.val, "int& has another value");
		f.val = ++x;
		auto stolen = std::move(p); // it's ours
		p.data.clear();
		int r = f.serial * 1000 + int(f.results.size()) + fn;
		f.results.push_back(r);
		return Payload(r);
	}
};

struct Sig3 {
	using Sig = void(const Payload&, Payload);
	template<typename Cb> static void call(WorldBase& w, Frame& f, Cb& cb, int how) {
		Payload a(f.serial), b(f.serial + 1);
		f.addr = &a;
		FrameLib ls(f);
		if(f.serial & 1) invokeCb(cb, how, a, b);
		else invokeCb(cb, how, a, Payload(f.serial + 1));
		ls.end();
		if(!a.is(f.serial)) w.badArgs(-1, "const Payload& of the caller changed");
		if((f.serial & 1) && !b.is(f.serial + 1)) w.badArgs(-1, "Payload of the caller changed");
	}
	static void accept(WorldBase& w, int fn, Frame& f, const Payload& a, Payload& b) {
		SIM_BADARG(&a == f.addr, "const Payload& refers to another object");
		SIM_BADARG(a.is(f.serial), "const Payload& has another value");
		SIM_BADARG(b.is(f.serial + 1), "second Payload by value");
		auto stolen = std::move(b);
		b.data.clear();
	}
};

struct Sig4 {
	using Sig = std::unique_ptr<int>(std::string);
	static std::string str(int s) { return "a string that is too long for the small buffer " + std::to_string(s); }
	template<typename Cb> static void call(WorldBase& w, Frame& f, Cb& cb, int how) {
		auto s = str(f.serial);
		FrameLib ls(f);
		std::vector<std::unique_ptr<int>> r = invokeCb(cb, how, s);
		ls.end();
		std::vector<int> got;
		for(auto& q : r) got.push_back(q ? *q : -1);
		checkResults(w, f, got);
		if(s != str(f.serial)) w.badArgs(-1, "string of the caller changed");
	}
	static std::unique_ptr<int> accept(WorldBase& w, int fn, Frame& f, std::string& s) {
		SIM_BADARG(s == str(f.serial), "string by value");
		auto stolen = std::move(s);
		s.clear();
		int r = f.serial * 1000 + int(f.results.size()) + fn;
		f.results.push_back(r);
		return std::make_unique<int>(r);
	}
};

struct Sig5 {
	using Sig = void(Payload&&);
	template<typename Cb> static void call(WorldBase&, Frame& f, Cb& cb, int how) {
		Payload a(f.serial);
		f.addr = &a;
		FrameLib ls(f);
		invokeCb(cb, how, std::move(a));
	}
	static void accept(WorldBase& w, int fn, Frame& f, Payload& a) {
		SIM_BADARG(&a == f.addr, "Payload&& refers to another object");
		if(f.stolen) SIM_BADARG(a.data.empty(), "Payload&& has another value");
		else SIM_BADARG(a.is(f.serial), "Payload&& has another value");
		if(f.serial % 3 == 0 && !f.stolen) {
			auto stolen = std::move(a);
			a.data.clear();
			f.stolen = true;
		}
	}
};

struct Sig6 {
	using Sig = bool(const int*, std::shared_ptr<int>);
	template<typename Cb> static void call(WorldBase& w, Frame& f, Cb& cb, int how) {
		int x = f.serial;
		f.addr = &x;
		auto sp = std::make_shared<int>(f.serial);
		FrameLib ls(f);
		std::vector<bool> r = invokeCb(cb, how, &x, sp);
		ls.end();
		std::vector<int> got;
		for(bool b : r) got.push_back(b);
		checkResults(w, f, got);
		if(sp.use_count() != 1) w.badArgs(-1, "copies of the shared_ptr argument are left");
	}
	static bool accept(WorldBase& w, int fn, Frame& f, const int* x, std::shared_ptr<int>& p) {
		SIM_BADARG(x == f.addr, "pointer by value");
		SIM_BADARG(p && *p == f.serial, "shared_ptr by value");
		auto stolen = std::move(p);
		bool r = (fn + f.serial) & 1;
		f.results.push_back(r);
		return r;
	}
};

struct Sig7 { // cannot be copied, the first function gets it
	using Sig = void(std::unique_ptr<int>);
	template<typename Cb> static void call(WorldBase&, Frame& f, Cb& cb, int how) {
		auto p = std::make_unique<int>(f.serial);
		f.addr = p.get();
		FrameLib ls(f);
		invokeCb(cb, how, std::move(p));
	}
	static void accept(WorldBase& w, int fn, Frame& f, std::unique_ptr<int>& p) {
		if(f.stolen) return;
		SIM_BADARG(p && p.get() == f.addr && *p == f.serial, "unique_ptr by value");
		f.stolen = true;
		auto stolen = std::move(p);
	}
};

// ---- world --------------------------------------------------------------------------------------------------
template<typename ID>
class World final : public WorldBase {
public:
	using Connectable = nytl::ConnectableT<ID>;
	using Conn = nytl::ConnectionT<Connectable, ID>;
	using Uniq = nytl::UniqueConnectionT<Connectable, ID>;

	struct ConnRec {
		Conn c;
		bool reset {};
	};

	struct Fn {
		int id {};
		int cb {};
		int gen {};
		St st {St::pending};
		bool ext {};       // invalidated from outside
		bool quiet {};     // does nothing when invoked
		bool small {};     // not observed by a probe
		bool connVariant {};
		int owned {-1};    // owns a connection to this function
		int probes {};
		int running {};
		int invocations {};
		std::int64_t idValue {};
		bool owned1 {};     // an owning connection exists
		std::shared_ptr<SimIdState> idState;
		std::vector<ConnRec> conns;
	};

	struct Cb { // interface to a callback object
		virtual ~Cb() = default;
		virtual Connectable& connectable() = 0;
		virtual Conn add(World&, int fn, int style, std::shared_ptr<OwnBase>) = 0;
		virtual Conn assign(World&, int fn, int style, std::shared_ptr<OwnBase>) = 0;
		virtual void addEmpty(int how) = 0;
		virtual void call(World&, Frame&, int how) = 0;
		virtual void clear() = 0;
		virtual bool disconnect(const ID&) = 0;
		virtual void listIds(std::vector<std::int64_t>&, bool& funcsOk) const = 0; // simple only
		virtual void age(World&, int calls, int adds) = 0;
		virtual void jump(int counter, std::int64_t target) = 0;
	};

	struct Slot {
		std::unique_ptr<Cb> obj;
		int gen {};
		bool simple {};
		int sig {};
		int active {};
		std::vector<int> list;   // registered functions
		std::vector<int> gone;   // removed ones whose release was not checked yet
		std::vector<int> exts;   // invalidated from outside, still in the callback
		std::vector<int> all;    // all functions ever, bounded
		bool hadExc {}, hadExt {}, hadFail {}, hadOwner {}, hadRemoval {}, nested {};
		int assigning {};
	};

	struct UniqRec {
		std::unique_ptr<Uniq> u;
		int fn {-1};
	};

	struct Owned {
		World& w;
		int fn;
		std::optional<Uniq> uc;
		Owned(World& world, int f, const Conn& c) : w(world), fn(f), uc(std::in_place, c) {
			w.owners_.push_back(this);
		}
		~Owned() {
			UserScope us;
			yieldPoint(4);
			w.owners_.erase(std::find(w.owners_.begin(), w.owners_.end(), this));
			w.ownerReleased(fn);
			ReleaseScope ls;
			uc.reset();
		}
	};

	/// What a registered function captured: owning connections, changeable later on
	struct Bag final : OwnBase {
		World& w;
		int fn;
		std::vector<std::unique_ptr<Owned>> items;
		Bag(World& world, int f) : w(world), fn(f) { w.bags_.push_back(this); }
		~Bag() override {
			UserScope us;
			w.bags_.erase(std::find(w.bags_.begin(), w.bags_.end(), this));
			items.clear();
			w.destroyed(fn);
		}
	};

	explicit World(const Profile&);
	~World() override;
	void run();
	void finish();

	// WorldBase
	void probeBorn(int fn) override { ++fns_[fn].probes; }
	void probeDead(int fn) override {
		auto& f = fns_[fn];
		if(--f.probes < 0) {
			fail(P(8), "destroyed twice", "the function object f%d was destroyed twice", fn);
		}
	}
	Frame& enter(int fn) override;
	void body(int fn) override;
	void leave(int fn, Frame&, bool thrown) override;
	void noMemoryAfter(Frame&, UserScope&, bool last);
	void checkAlive(int fn, bool ok, const char* when) override;
	void checkState(int fn, int calls) override;
	void ownerReleased(int fn) override;
	void destroyed(int fn); // the destructor of a function uses callbacks
	void badArgs(int fn, const char* what) override;
	Mask callMask(int cb) const override;
	void idConstruct(SimIdState&) override;
	void idRemoved(SimIdState&) override;
	void idSet(SimIdState&, std::int64_t) override;
	void idDeadAccess(SimIdState&, const char*) override;
	void idEmptyAccess(const char*) override;

	struct Arm { long count {}; bool persistent {}; bool* fired {}; };
	Arm takeArm() { auto a = arm_; arm_ = {}; return a; }

	Fn& fn(int i) { return fns_[i]; }
	void handlerConn(int fn, const Conn&);

private:
	bool step(int self, bool top); // one drawn operation, false: nothing
	void doCall(int c, bool through);
	void doAdd(int c, bool assign, bool bulk);
	void doDisconnect(int f, int how);
	void doClear(int c);
	void doCopyConn(int f);
	void doUnique(int c);
	void doEmpty(int c);
	void doInvalidate(int f);
	void doRecreate(int c);
	void makeCb(int c);
	void doAge(int c);
	void destroyCb(int c);
	void formalRemove(int f);
	void dropExts(int c);
	void afterOp();
	void sweep();
	void checkSubs(int c);
	int pickCb(int self, bool touch);
	int pickFn(int c, int self);
	bool touchable(int c) const {
		auto& s = slots_[c];
		if(acting_ && (s.simple || s.assigning)) return false;
		return s.obj && (!s.simple || !s.active);
	}
	bool alive(const Fn& f) const { return slots_[f.cb].obj && slots_[f.cb].gen == f.gen; }
	bool registered(const Fn& f) const { return f.st == St::registered && !f.ext; }
	bool due(int f) const;
	bool ownerCandidate(int c, int& target);
	void give(Bag& bag, int target);
	void doGive();

	Profile prof_;
	std::deque<Fn> fns_;
	std::vector<Slot> slots_;
	std::vector<Frame*> frames_;
	std::vector<UniqRec> uniqs_;
	std::vector<Owned*> owners_;
	std::vector<Bag*> bags_;
	int budget_ {};
	int invocations_ {};
	int serial_ {};
	int tok_ {};
	int idThrow_ {};       // kind of the exception the next id constructor throws
	bool idThrown_ {};
	int idTok_ {};         // of the exception
	int idSerial_ {};
	int idLive_ {};
	bool idFromHarness_ {};
	Arm arm_;
	bool unwinding_ {};
	bool ageing_ {};
	int deepFn_ {-1};      // calls its callback until the recursion is that deep
	int deepTo_ {};
	int acting_ {};        // destructors of functions that use callbacks
};

// ---- registered functions --------------------------------------------------------------------------------------
template<typename W, typename S, typename Sig> struct HandlerT;

template<typename W, typename S, typename Ret, typename... Args>
struct HandlerT<W, S, Ret(Args...)> {
	static Ret run(W& w, int fn, Args&... args) {
		UserScope us;
		yieldPoint(3);
		Frame& f = w.enter(fn);
		Indent ind;
		try {
			w.body(fn);
			yieldPoint(3);
		} catch(...) {
			w.leave(fn, f, true);
			w.noMemoryAfter(f, us, true);
			throw;
		}
		w.leave(fn, f, false);
		w.noMemoryAfter(f, us, std::is_void_v<Ret>);
		return S::accept(w, fn, f, args...);
	}

	// observed function object
	struct Big {
		W* w;
		Probe probe;
		std::shared_ptr<OwnBase> own;
		int calls {}; // functions may have a state
		Ret operator()(Args... args) {
			struct Check { // also when an exception is propagating
				const Big& b;
				W* w;
				int fn;
				~Check() {
					UserScope us;
					w->checkAlive(fn, b.probe.intact(), "after the invocation");
				}
			};
			auto fn = probe.fn;
			w->checkAlive(fn, probe.intact(), "at the start of the invocation");
			w->checkState(fn, ++calls);
			Check check {*this, w, fn};
			return run(*w, fn, args...);
		}
	};

	struct BigConn {
		W* w;
		Probe probe;
		std::shared_ptr<OwnBase> own;
		int calls {};
		Ret operator()(typename W::Conn c, Args... args) {
			struct Check {
				const BigConn& b;
				W* w;
				int fn;
				~Check() {
					UserScope us;
					w->checkAlive(fn, b.probe.intact(), "after the invocation");
				}
			};
			auto fn = probe.fn;
			w->checkAlive(fn, probe.intact(), "at the start of the invocation");
			w->checkState(fn, ++calls);
			Check check {*this, w, fn};
			{
				UserScope us;
				w->handlerConn(fn, c);
			}
			return run(*w, fn, args...);
		}
	};

	// small function object, stored inside std::function
	struct Small {
		W* w;
		int fn;
		Ret operator()(Args... args) const {
			return run(*w, fn, args...);
		}
	};
};

template<typename ID, typename S, bool Recursive>
struct CbImpl final : World<ID>::Cb {
	using W = World<ID>;
	using Sig = typename S::Sig;
	using H = HandlerT<W, S, Sig>;
	using CbT = std::conditional_t<Recursive, nytl::RecursiveCallback<Sig, ID>, nytl::Callback<Sig, ID>>;
	using Conn = typename W::Conn;
	CbT cb;

	typename W::Connectable& connectable() override { return cb; }

	template<typename F> Conn put(W& w, bool assign, int style, F&& f) {
		auto arm = w.takeArm(); // only for this operation, not for nested ones
		LibScope ls(arm.count, arm.persistent);
		ctx->fc.firedOut = arm.fired;
		if(assign) return (cb = std::forward<F>(f));
		if(style & 1) return (cb += std::forward<F>(f));
		return cb.add(std::forward<F>(f));
	}

	Conn doAdd(World<ID>& w, int fn, int style, std::shared_ptr<OwnBase> own, bool assign) {
		auto& f = w.fn(fn);
		if(f.small) {
			return put(w, assign, style, typename H::Small {&w, fn});
		}
		if constexpr(Recursive) {
			if(f.connVariant) {
				if(style & 2) {
					typename H::BigConn b {&w, Probe(w, fn), std::move(own)};
					return put(w, assign, style, b);
				}
				return put(w, assign, style, typename H::BigConn {&w, Probe(w, fn), std::move(own)});
			}
		}
		if(style & 2) {
			std::function<Sig> func(typename H::Big {&w, Probe(w, fn), std::move(own)});
			if(style & 4) {
				auto conn = put(w, assign, style, func);
				if(!func) fail(P(1) | P(9), "taken", "registering a function that was not given away takes it from the caller");
				return conn;
			}
			return put(w, assign, style, std::move(func));
		}
		return put(w, assign, style, typename H::Big {&w, Probe(w, fn), std::move(own)});
	}

	Conn add(World<ID>& w, int fn, int style, std::shared_ptr<OwnBase> own) override {
		return doAdd(w, fn, style, std::move(own), false);
	}
	Conn assign(World<ID>& w, int fn, int style, std::shared_ptr<OwnBase> own) override {
		return doAdd(w, fn, style, std::move(own), true);
	}
	void addEmpty(int how) override {
		LibScope ls;
		if(how == 0) cb.add(std::function<Sig>{});
		else if(how == 1) cb += std::function<Sig>{};
		else if(how == 2) cb = std::function<Sig>{};
		else if constexpr(Recursive) {
			typename ConnSig<Sig>::type empty {};
			if(how == 3) cb.add(empty);
			else if(how == 4) cb += empty;
			else cb = empty;
		} else {
			cb.add(std::function<Sig>{});
		}
	}
	template<typename T> struct ConnSig;
	template<typename R, typename... A> struct ConnSig<R(A...)> {
		using type = std::function<R(Conn, A...)>;
	};

	void call(World<ID>& w, Frame& f, int how) override {
		if constexpr(!Recursive && std::is_same_v<S, Sig0>) {
			if(how == 2) { // documented use of subscriptions()
				FrameLib ls(f);
				for(auto& s : cb.subscriptions()) {
					if(s.id.get() > 0) s.func();
				}
				return;
			}
		}
		S::call(w, f, cb, how);
	}
	// a long past: many calls of the (empty) callback, many functions that came and went
	template<typename R, typename... A> static std::function<R(A...)> noOp(R (*)(A...)) {
		return [](A...) -> R { if constexpr(!std::is_void_v<R>) return R{}; };
	}
	void age(World<ID>& w, int calls, int adds) override {
		for(int i = 0; i < calls; ++i) {
			Frame f;
			f.serial = i & 1023;
			S::call(w, f, cb, i & 1);
		}
		for(int i = 0; i < adds; ++i) {
			LibScope ls;
			auto conn = cb.add(noOp(static_cast<Sig*>(nullptr)));
			if(i & 1) conn.disconnect();
			else cb.disconnect(conn.id());
		}
	}
	// A past that is too long to be simulated: the counters of calls and registrations are set to
	// the value they would have. If they don't exist (under this name), nothing happens.
	struct Counters : CbT {
		template<typename D> static auto calls(int) -> decltype(&D::callID_) { return &D::callID_; }
		template<typename D> static std::nullptr_t calls(...) { return nullptr; }
		template<typename D> static auto adds(int) -> decltype(&D::subID_) { return &D::subID_; }
		template<typename D> static std::nullptr_t adds(...) { return nullptr; }
		static auto callsMember() { return calls<Counters>(0); }
		static auto addsMember() { return adds<Counters>(0); }
	};
	template<typename M> void jumpTo(M member, std::int64_t target) {
		if constexpr(std::is_member_object_pointer_v<M>) {
			auto& v = cb.*member;
			using T = std::decay_t<decltype(v)>;
			if constexpr(std::is_integral_v<T>) {
				auto max = std::numeric_limits<T>::max();
				auto t = sizeof(T) < 8 && std::uint64_t(target) > std::uint64_t(max) ? T(max - T(target & 3)) : T(target);
				if(t > v) v = t;
			}
		}
	}
	void jump(int counter, std::int64_t target) override {
		if(counter != 1) jumpTo(Counters::callsMember(), target);
		if(counter != 0) jumpTo(Counters::addsMember(), target);
	}
	void clear() override {
		ReleaseScope ls;
		cb.clear();
	}
	bool disconnect(const ID& id) override {
		ReleaseScope ls;
		return cb.disconnect(id);
	}
	void listIds(std::vector<std::int64_t>& ids, bool& funcsOk) const override {
		if constexpr(!Recursive) {
			for(auto& s : cb.subscriptions()) {
				ids.push_back(s.id.get());
				funcsOk &= bool(s.func);
			}
		} else {
			(void) ids;
			(void) funcsOk;
		}
	}
};

template<typename ID, bool Recursive>
std::unique_ptr<typename World<ID>::Cb> makeCbImpl(int sig) {
	switch(sig) {
		case 1: return std::make_unique<CbImpl<ID, Sig1, Recursive>>();
		case 2: return std::make_unique<CbImpl<ID, Sig2, Recursive>>();
		case 3: return std::make_unique<CbImpl<ID, Sig3, Recursive>>();
		case 4: return std::make_unique<CbImpl<ID, Sig4, Recursive>>();
		case 5: return std::make_unique<CbImpl<ID, Sig5, Recursive>>();
		case 6: return std::make_unique<CbImpl<ID, Sig6, Recursive>>();
		case 7: return std::make_unique<CbImpl<ID, Sig7, Recursive>>();
		default: return std::make_unique<CbImpl<ID, Sig0, Recursive>>();
	}
}
// defined in one translation unit each
template<typename ID> std::unique_ptr<typename World<ID>::Cb> makeRecursiveCb(int sig);
template<typename ID> std::unique_ptr<typename World<ID>::Cb> makeSimpleCb(int sig);

} // namespace sim
