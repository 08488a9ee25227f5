// Implementation of World, included by one translation unit per ID type.
#pragma once
#include "cbworld.hpp"

namespace sim {

template<typename ID>
World<ID>::World(const Profile& p) : prof_(p) {
	budget_ = prof_.budget;
	idHost = this;
}

template<typename ID>
World<ID>::~World() {
	idHost = nullptr;
}

template<typename ID>
Mask World<ID>::callMask(int c) const {
	auto& s = slots_[c];
	return (s.simple ? P(9) : P(1)) | (s.hadExc ? P(2) : 0) | (s.hadExt ? P(21) : 0) |
		(s.hadFail ? P(7) : 0) | (s.hadOwner ? P(20) : 0) | (s.hadRemoval ? P(3) : 0);
}

// Whether some running call still has to invoke the function or is just invoking it
template<typename ID>
bool World<ID>::due(int f) const {
	auto& fn = fns_[f];
	if(fn.running) return true;
	for(auto* fr : frames_) {
		if(fr->cb != fn.cb || fr->ended || fr->faultFired) continue;
		for(auto i = fr->pos; i < fr->snap.size(); ++i) {
			if(fr->snap[i] == f) return true;
		}
	}
	return false;
}

// ---- called by the observed objects ---------------------------------------------------------------------
template<typename ID>
Frame& World<ID>::enter(int i) {
	auto& f = fns_[i];
	EV("f%d invoked", i);
	auto& slot = slots_[f.cb];
	auto mask = callMask(f.cb);
	if(f.st == St::failed || f.st == St::pending) {
		fail(mask | P(7), "failed invoked", "f%d is invoked although its registration failed", i);
	}
	if(f.ext) mask |= P(21);
	if(!alive(f)) {
		fail(mask | P(3) | P(5), "dead invoked", "f%d is invoked after its callback was destroyed", i);
	}
	if(frames_.empty() || frames_.back()->cb != f.cb) {
		fail(mask, "no call", "f%d of c%d is invoked although no call of c%d is running innermost", i, f.cb, f.cb);
	}
	auto& fr = *frames_.back();
	if(fr.ended) {
		fail(mask | P(2), "invoked after exception",
			"f%d is invoked by a call of c%d that already ended with an exception", i, f.cb);
	}
	// functions invalidated from outside during this call may or may not be invoked
	while(fr.pos < fr.snap.size() && fr.snap[fr.pos] != i && fns_[fr.snap[fr.pos]].ext) {
		++fr.pos;
	}
	if(fr.pos >= fr.snap.size() || fr.snap[fr.pos] != i) {
		auto it = std::find(fr.snap.begin(), fr.snap.end(), i);
		if(it == fr.snap.end()) {
			if(f.st == St::registered && !f.ext) {
				fail(mask, "late invoked",
					"f%d is invoked by a call of c%d that began before it was registered", i, f.cb);
			}
			fail(mask | P(3), "removed invoked",
				"f%d is invoked by a call of c%d that began after it was removed", i, f.cb);
		}
		if(std::size_t(it - fr.snap.begin()) < fr.pos) {
			fail(mask, "invoked twice", "f%d is invoked twice (or out of order) by one call of c%d", i, f.cb);
		}
		fail(mask, "skipped", "f%d is invoked by a call of c%d that has to invoke f%d first",
			i, f.cb, fr.snap[fr.pos]);
	}
	++fr.pos;
	++f.running;
	++f.invocations;
	++invocations_;
	if(frames_.size() > 1) {
		ctx->nontrivial = true;
		COUNT("invocations in nested calls");
	}
	COUNT("invocations");
	(void) slot;
	sweep();
	return fr;
}

template<typename ID>
void World<ID>::leave(int i, Frame& fr, bool thrown) {
	auto& f = fns_[i];
	--f.running;
	if(thrown) {
		fr.expect = currentExc();
		fr.ended = true;
		slots_[f.cb].hadExc = true;
		EV("f%d ends with exception kind %d token %d", i, fr.expect.kind, fr.expect.tok);
		ctx->nontrivial = true;
	} else {
		EV("f%d returns", i);
	}
}

// Nothing but cleaning up is left to do for the call
template<typename ID>
void World<ID>::noMemoryAfter(Frame& fr, UserScope& us, bool last) {
	if(!noMemoryRuns || !last || (!fr.ended && fr.pos < fr.snap.size())) return;
	if(!ReleaseScope::dry()) return;
	us.saved.countdown = 1;
	us.saved.persistent = true;
	us.saved.firedOut = &noMemoryHit;
}

template<typename ID>
void World<ID>::checkAlive(int i, bool ok, const char* when) {
	auto& f = fns_[i];
	if(!ok || f.probes <= 0) {
		fail(P(8) | (f.owned >= 0 ? P(20) : 0), "function object damaged",
			"the function object of f%d is not intact %s (%d living copies)", i, when, f.probes);
	}
}

template<typename ID>
void World<ID>::checkState(int i, int calls) {
	auto expect = fns_[i].invocations + 1;
	if(calls != expect) {
		fail(P(8), "state lost", "the function object f%d counts %d invocations instead of %d", i, calls, expect);
	}
}

template<typename ID>
void World<ID>::badArgs(int i, const char* what) {
	Mask m = P(10);
	fail(m, "arguments", "wrong argument in f%d: %s", i, what);
}

template<typename ID>
void World<ID>::handlerConn(int i, const Conn& c) {
	auto& f = fns_[i];
	if(!slots_[f.cb].obj || c.connectable() != &slots_[f.cb].obj->connectable()) {
		fail(P(10) | P(3), "connection argument", "f%d gets a connection to another object", i);
	}
	if(f.conns.size() < 4 && !f.quiet) {
		f.conns.push_back({c, false});
	}
}

template<typename ID>
void World<ID>::ownerReleased(int i) {
	if(i < 0) return;
	auto& f = fns_[i];
	f.owned1 = false;
	EV("owner of f%d is destroyed", i);
	if(alive(f) && registered(f)) {
		COUNT("functions removed by the destruction of their owner function");
		formalRemove(i);
	}
}

// Functions may use callbacks in their destructor. Only those that were registered do it, not while
// the callback is assigned to since it is not said whether the new function is registered by then.
template<typename ID>
void World<ID>::destroyed(int i) {
	auto& f = fns_[i];
	if(!prof_.owners || ageing_ || f.st != St::removed || acting_ > 1 || budget_ <= 0 || !chance(1, 3)) return;
	++acting_;
	EV("destructor of f%d", i);
	Indent ind;
	for(auto n = 1 + draw(2); n; --n) step(-1, false);
	--acting_;
}

template<typename ID>
void World<ID>::idConstruct(SimIdState& s) {
	s.serial = ++idSerial_;
	if(idThrow_) {
		int k = idThrow_;
		idThrow_ = 0;
		idThrown_ = true;
		idTok_ = ++tok_;
		EV("id constructor throws kind %d token %d", k, tok_);
		COUNT("fault: id constructor threw");
		throwTok(k, tok_);
	}
	s.live = &idLive_;
	++idLive_;
}

template<typename ID>
void World<ID>::idRemoved(SimIdState& s) {
	++s.removed;
	if(ageing_) return;
	EV("id of f%d: removed()", s.fn);
	if(s.removed > 1) {
		soft(P(4), "removed() repeated", "the id of f%d is notified of its removal %d times", s.fn, s.removed);
	}
	if(s.fn < 0) return;
	auto& f = fns_[s.fn];
	if(f.ext) return;
	if(registered(f)) {
		soft(P(4) | P(3) | P(5) | callMask(f.cb), "removed() while registered",
			"the id of f%d is told that it is removed although it is registered", s.fn);
	}
	if(due(s.fn)) {
		soft(P(4) | P(1), "removed() while due",
			"the id of f%d is told that it is finally removed but a running call still has to invoke it or does so",
			s.fn);
	}
}

template<typename ID>
void World<ID>::idSet(SimIdState& s, std::int64_t v) {
	if(idFromHarness_) return;
	++s.sets;
	EV("id of f%d: set(), negative: %d", s.fn, int(v < 0));
	if(v >= 0) {
		soft(P(4), "set() not negative", "the id of f%d is set to the value %ld", s.fn, long(v));
	}
	if(s.removed) {
		soft(P(4), "set() after removed()", "the id of f%d is set after its removal", s.fn);
	}
	if(s.fn >= 0 && registered(fns_[s.fn])) {
		soft(P(4) | P(3) | P(5), "set() while registered",
			"the id of f%d is invalidated although it is registered", s.fn);
	}
}

template<typename ID>
void World<ID>::idDeadAccess(SimIdState& s, const char* what) {
	soft(P(4), "id accessed after removed()",
		"%s() is called on the id object of f%d stored by the callback after removed()", what, s.fn);
}

// Ids that were never given to a function have nothing to be told. Only subscriptions
// that are no functions could have such an id.
template<typename ID>
void World<ID>::idEmptyAccess(const char* what) {
	soft(P(4) | P(7), "empty id accessed", "%s() is called on a default constructed id", what);
}

// ---- model ------------------------------------------------------------------------------------------------
template<typename ID>
void World<ID>::formalRemove(int i) {
	auto& f = fns_[i];
	if(!registered(f)) return;
	auto& s = slots_[f.cb];
	s.list.erase(std::find(s.list.begin(), s.list.end(), i));
	s.gone.push_back(i);
	s.hadRemoval = true;
	f.st = St::removed;
	if(s.active) {
		COUNT("removals while a call is running");
		if(due(i)) COUNT("removals of functions still to be invoked");
	}
}

template<typename ID>
void World<ID>::dropExts(int c) {
	auto& s = slots_[c];
	for(auto i : s.exts) s.gone.push_back(i);
	s.exts.clear();
}

template<typename ID>
void World<ID>::sweep() {
	if(acting_) return; // the operation that destroys a function is not finished
	if constexpr(isTracked<ID>) {
		for(auto& f : fns_) {
			bool expect = alive(f) && registered(f);
			for(auto& r : f.conns) {
				if(r.c.connected() != (expect && !r.reset)) {
					soft(P(5) | (f.ext ? P(21) : 0) | (f.owned1 ? P(6) : 0), "connected() wrong",
						"a connection to f%d reports connected() == %d", f.id, int(r.c.connected()));
				}
			}
		}
	}
}

template<typename ID>
void World<ID>::checkSubs(int c) {
	auto& s = slots_[c];
	if(!s.obj || !s.simple || s.active) return;
	std::vector<std::int64_t> ids;
	bool funcsOk = true;
	s.obj->listIds(ids, funcsOk);
	if(s.hadExt) {
		ids.erase(std::remove_if(ids.begin(), ids.end(), [](auto v) { return v <= 0; }), ids.end());
	}
	std::vector<std::int64_t> expect;
	for(auto i : s.list) expect.push_back(fns_[i].idValue);
	if(ids != expect || !funcsOk) {
		fail(callMask(c), "subscriptions() wrong",
			"subscriptions() of c%d has %d entries that are not the %d registered functions in order",
			c, int(ids.size()), int(expect.size()));
	}
}

template<typename ID>
void World<ID>::afterOp() {
	if(acting_) return;
	for(std::size_t c = 0; c < slots_.size(); ++c) {
		auto& s = slots_[c];
		if(s.active) continue;
		for(auto i : s.gone) {
			auto& f = fns_[i];
			if(f.probes) {
				soft(P(8) | (f.owned >= 0 ? P(20) : 0), "not released",
					"%d copies of the function object of f%d are alive although it was removed and no call is running",
					f.probes, i);
			}
			if(f.idState && f.idState->removed != 1) {
				soft(P(4), "removed() missing",
					"the id of f%d was notified %d times although it was removed and no call is running",
					i, f.idState->removed);
			}
		}
		s.gone.clear();
		checkSubs(int(c));
	}
	sweep();
}

// ---- operations -------------------------------------------------------------------------------------------
template<typename ID>
void World<ID>::makeCb(int c) {
	auto& s = slots_[c];
	s = Slot {std::move(s.obj), s.gen + 1, s.simple, s.sig, 0, {}, {}, {}, {}};
	{
		LibScope ls;
		s.obj = s.simple ? makeSimpleCb<ID>(s.sig) : makeRecursiveCb<ID>(s.sig);
	}
	EV("create c%d: %d simple, signature %d", c, int(s.simple), s.sig);
	if(prof_.prop != 13 && chance(1, 100)) doAge(c);
}

// The past of a callback must not matter, however long it was.
template<typename ID>
void World<ID>::doAge(int c) {
	auto& s = slots_[c];
	if(!s.obj || s.active || s.exts.size()) return; // nothing may be left to be removed
	auto amount = [] {
		static const int around[] = {0, 64, 128, 256, 1024, 32768, 65536};
		int k = pick({8, 4, 4, 4, 2, 1, 1, 1});
		if(k == 7) return int(draw(70000));
		return std::max(around[k] - int(draw(6)), 0);
	};
	int calls = s.list.empty() ? amount() : 0;
	int adds = amount();
	EV("age c%d by %d calls and %d registrations", c, calls, adds);
	COUNTN("calls in the past of a callback", std::uint64_t(calls));
	COUNTN("registrations in the past of a callback", std::uint64_t(adds));
	ageing_ = true;
	s.obj->age(*this, calls, adds);
	if(chance(1, 3)) {
		static const std::int64_t ends[] = {1ll << 31, 1ll << 32, 1ll << 16, 1ll << 52};
		int counter = int(draw(3));
		auto target = ends[draw(4)] - std::int64_t(draw(8));
		EV("counters %d of c%d jump to %ld", counter, c, long(target));
		COUNT("callbacks with a very long past");
		s.obj->jump(counter, target);
	}
	ageing_ = false;
	afterOp();
}

template<typename ID>
void World<ID>::destroyCb(int c) {
	auto& s = slots_[c];
	EV("destroy c%d", c);
	if constexpr(!isTracked<ID>) {
		// connections would be left dangling, owners have to give them up before
		for(auto& u : uniqs_) {
			if(u.fn >= 0 && fns_[u.fn].cb == c && alive(fns_[u.fn])) {
				u.u->release();
				fns_[u.fn].owned1 = false;
				u.fn = -1;
			}
		}
		for(auto* o : owners_) {
			if(o->fn >= 0 && fns_[o->fn].cb == c && alive(fns_[o->fn])) {
				o->uc->release();
				fns_[o->fn].owned1 = false;
				o->fn = -1;
			}
		}
	}
	auto list = s.list;
	for(auto i : list) formalRemove(i);
	dropExts(c);
	{
		ReleaseScope ls;
		s.obj.reset();
	}
	afterOp();
}

template<typename ID>
int World<ID>::pickCb(int self, bool touch) {
	std::vector<int> cand;
	for(std::size_t c = 0; c < slots_.size(); ++c) {
		if(slots_[c].obj && (!touch || touchable(int(c)))) cand.push_back(int(c));
	}
	if(cand.empty()) return -1;
	if(self >= 0) {
		auto own = fns_[self].cb;
		if(std::find(cand.begin(), cand.end(), own) != cand.end() && !chance(1, 4)) return own;
	}
	return cand[draw(std::uint32_t(cand.size()))];
}

// some function that is or was registered in the callback
template<typename ID>
int World<ID>::pickFn(int c, int self) {
	auto& s = slots_[c];
	int k = pick({6, 3, 3, 2, 2});
	if(k == 3 && self >= 0 && fns_[self].cb == c) return self;
	if(k == 4 && !s.all.empty()) return s.all[draw(std::uint32_t(s.all.size()))];
	if(s.list.empty()) return s.all.empty() ? -1 : s.all[draw(std::uint32_t(s.all.size()))];
	if(k == 1) return s.list.front();
	if(k == 2) return s.list.back();
	return s.list[draw(std::uint32_t(s.list.size()))];
}

template<typename ID>
void World<ID>::doCall(int c, bool through) {
	auto& s = slots_[c];
	if(!touchable(c)) return;
	if(int(frames_.size()) >= std::max(prof_.maxDepth, deepFn_ >= 0 ? deepTo_ : 0)) return;
	if(invocations_ + int(s.list.size()) > prof_.maxInvocations) return;
	bool deep = prof_.prop != 13 && deepFn_ < 0 && frames_.empty() && !s.simple && s.list.size() && s.list.size() < 10 && chance(1, 200);
	if(deep) {
		deepFn_ = s.list[draw(std::uint32_t(s.list.size()))];
		deepTo_ = (chance(1, 3) ? 256 : 64) + int(draw(5));
		EV("f%d will call c%d until the depth is %d", deepFn_, c, deepTo_);
		COUNT("recursions of 64 or 256 calls");
	}
	Frame f;
	f.cb = c;
	f.snap = s.list;
	f.serial = ++serial_;
	int how = int(draw(s.simple && s.sig == 0 ? 3 : 2));
	if(prof_.faultCall && chance(1, 6)) {
		f.arm = 1 + long(drawSkewed(16));
		f.armPersistent = chance(1, 4);
	}
	EV("call c%d (%d functions, depth %d, failing allocation %d)", c, int(f.snap.size()),
		int(frames_.size()), int(f.arm));
	COUNT("calls");
	frames_.push_back(&f);
	++s.active;
	if(s.active > 1) COUNT("recursive calls");
	if(s.active > 4) COUNT("recursive calls deeper than 4");
	auto end = [&] {
		if(deep) deepFn_ = -1;
		if(frames_.back() != &f) broken("frames");
		frames_.pop_back();
		--s.active;
	};
	auto mask = [&] { return callMask(c); };
	Indent ind;
	try {
		s.obj->call(*this, f, how);
	} catch(...) {
		auto e = currentExc();
		end();
		EV("call of c%d ends with exception kind %d token %d", c, e.kind, e.tok);
		if(f.faultFired) s.hadExc = true;
		if(f.ended) {
			if(!(e == f.expect)) {
				fail(P(2), "other exception", "a function of c%d threw (kind %d token %d) but the call throws (kind %d token %d)",
					c, f.expect.kind, f.expect.tok, e.kind, e.tok);
			}
		} else if(e.kind != excAlloc || !f.faultFired) {
			fail(mask() | P(2) | P(7), "unexpected exception",
				"the call of c%d throws an exception (kind %d token %d) that none of its functions threw", c, e.kind, e.tok);
		}
		COUNT("calls ended by an exception");
		if(frames_.size()) COUNT("nested calls ended by an exception");
		afterOp();
		if(through) {
			COUNT("exceptions passed on through enclosing calls");
			throw;
		}
		return;
	}
	end();
	EV("call of c%d returns", c);
	if(f.ended) {
		fail(P(2), "exception lost", "a function of c%d threw but the call returns normally", c);
	}
	while(f.pos < f.snap.size() && fns_[f.snap[f.pos]].ext) ++f.pos;
	if(f.pos < f.snap.size()) {
		fail(mask(), "not invoked", "the call of c%d returns without having invoked f%d", c, f.snap[f.pos]);
	}
	afterOp();
}

template<typename ID>
bool World<ID>::ownerCandidate(int c, int& target) {
	// functions of re-entrant callbacks, preferably of the same one
	std::vector<int> cand;
	for(std::size_t k = 0; k < slots_.size(); ++k) {
		auto& s = slots_[k];
		if(!s.obj || s.simple) continue;
		for(auto i : s.list) {
			if(!fns_[i].owned1 && !fns_[i].conns.empty() && !fns_[i].conns[0].reset) {
				cand.push_back(i);
				if(int(k) == c) cand.push_back(i);
			}
		}
	}
	if(cand.empty()) return false;
	target = cand[draw(std::uint32_t(cand.size()))];
	return true;
}

template<typename ID>
void World<ID>::give(Bag& bag, int target) {
	auto& f = fns_[bag.fn];
	auto& t = fns_[target];
	EV("f%d owns f%d", bag.fn, target);
	f.owned = target;
	t.owned1 = true;
	bag.items.push_back(std::make_unique<Owned>(*this, target, t.conns[0].c));
	slots_[f.cb].hadOwner = slots_[t.cb].hadOwner = true;
	COUNT("functions owning a connection");
	if(t.cb == f.cb) COUNT("functions owning a connection of the same callback");
	if(target == bag.fn) COUNT("functions owning a connection of themselves");
	if(bag.items.size() > 1) COUNT("functions owning several connections");
}

// A function that is registered already gets or loses an owning connection. This way
// owners may be registered before what they own, own each other or themselves.
template<typename ID>
void World<ID>::doGive() {
	if(bags_.empty()) return;
	auto& bag = *bags_[draw(std::uint32_t(bags_.size()))];
	auto& f = fns_[bag.fn];
	if(!bag.items.empty() && chance(1, 4)) {
		auto k = draw(std::uint32_t(bag.items.size()));
		auto t = bag.items[k]->fn;
		if(t >= 0 && alive(fns_[t]) && !touchable(fns_[t].cb)) return;
		EV("f%d gives up owning f%d", f.id, t);
		auto item = std::move(bag.items[k]);
		bag.items.erase(bag.items.begin() + long(k));
		item.reset(); // might destroy the bag
		afterOp();
		return;
	}
	int target = -1;
	if(!ownerCandidate(f.cb, target)) return;
	if(chance(1, 6) && alive(f) && registered(f) && !slots_[f.cb].simple && !f.owned1 && !f.conns.empty() && !f.conns[0].reset) {
		target = f.id;
	}
	give(bag, target);
	COUNT("owning connections given to registered functions");
	afterOp();
}

template<typename ID>
void World<ID>::doAdd(int c, bool assign, bool bulk) {
	auto& s = slots_[c];
	if(!touchable(c)) return;
	int n = 1;
	if(bulk) {
		n = 2 + int(drawSkewed(90));
		if(chance(1, 30)) {
			n = 250 + int(draw(12));
			COUNT("registrations of more than 250 functions");
		}
		COUNT("bulk registrations");
	}
	if(fns_.size() + std::size_t(n) > 700) return;
	struct Outer { // a destructor might add a function while adding another one fails
		World& w;
		int idThrow, idTok;
		bool idThrown;
		Arm arm;
		~Outer() { w.idThrow_ = idThrow; w.idTok_ = idTok; w.idThrown_ = idThrown; w.arm_ = arm; }
	} outer {*this, idThrow_, idTok_, idThrown_, arm_}; (void) outer;
	idThrow_ = 0;
	arm_ = {};
	for(int k = 0; k < n; ++k) {
		int i = int(fns_.size());
		fns_.emplace_back();
		auto& f = fns_.back();
		f.id = i;
		f.cb = c;
		f.gen = s.gen;
		f.quiet = bulk && k % 16 != 7;
		int form = bulk ? 0 : pick({5, 3, 3});
		f.small = form == 1;
		f.connVariant = form == 2 && !s.simple;
		int style = bulk ? 0 : int(draw(8));
		std::shared_ptr<OwnBase> own;
		int target = -1;
		if(prof_.owners && !bulk && !f.small && chance(1, 2)) {
			auto bag = std::make_shared<Bag>(*this, i);
			for(int m = pick({1, 4, 1, 1}); m > 0 && ownerCandidate(c, target); --m) {
				give(*bag, target);
			}
			own = std::move(bag);
		}
		bool fired = false;
		idThrown_ = false;
		int arm = 0;
		if(prof_.faultAdd && !bulk && chance(1, 3)) {
			if(isSim<ID> && chance(1, 3)) {
				idThrow_ = 1 + int(draw(3));
			} else {
				arm = 1 + int(drawSkewed(6));
				arm_ = {arm, chance(1, 5), &fired};
			}
		}
		if(assign && k == 0) {
			auto list = s.list;
			for(auto j : list) formalRemove(j);
			dropExts(c);
		}
		EV("%d add f%d to c%d: form %d style %d, owns f%d, failing allocation %d", int(assign), i, c,
			form, style, target, arm);
		COUNT("registrations");
		if(s.active) COUNT("registrations while a call is running");
		std::optional<Conn> conn;
		try {
			struct Assigning { int& n; int by; ~Assigning() { n -= by; } } as {s.assigning, assign && k == 0};
			s.assigning += as.by;
			conn.emplace(assign && k == 0 ? s.obj->assign(*this, i, style, std::move(own)) :
				s.obj->add(*this, i, style, std::move(own)));
		} catch(...) {
			auto e = currentExc();
			arm_ = {};
			idThrow_ = 0;
			f.st = St::failed;
			s.hadFail = true;
			ctx->nontrivial = true;
			EV("registration of f%d fails with kind %d", i, e.kind);
			COUNT("registrations that failed");
			if(s.active) COUNT("registrations that failed while a call is running");
			bool ok = (e.kind == excAlloc && fired) || (idThrown_ && e.tok == idTok_);
			if(!ok) {
				fail(P(7), "unexpected exception in add", "registering f%d throws kind %d without reason", i, e.kind);
			}
			own.reset();
			if(f.probes) {
				soft(P(8) | P(7), "failed function kept",
					"%d copies of the function object of f%d are alive although its registration failed", f.probes, i);
			}
			afterOp();
			return;
		}
		arm_ = {};
		idThrow_ = 0;
		own.reset();
		f.st = St::registered;
		s.list.push_back(i);
		s.all.push_back(i);
		if(s.all.size() > 300) s.all.erase(s.all.begin());
		// usually the connection is kept
		if(bulk || !chance(1, 10)) f.conns.push_back({*conn, false});
		f.idValue = conn->id().get();
		EV("f%d has id %d", i, int(f.idValue));
		if constexpr(isSim<ID>) {
			f.idState = conn->id().state;
			if(!f.idState) fail(P(4) | P(5), "id", "the connection has no id");
			if(f.idState->fn >= 0) fail(P(4) | P(5), "id", "the connection has the id of another function");
			if(f.idState->removed) fail(P(4) | P(5), "id", "the new connection's id was already removed");
			f.idState->fn = i;
		}
		if(conn->connectable() != &s.obj->connectable()) {
			fail(P(3) | P(5), "connection", "add returns a connection to another object");
		}
		if(!conn->connected()) {
			soft(P(5) | P(7), "not connected", "add returns a connection that is not connected");
		}
		if(!f.small && !f.probes) {
			soft(P(8), "not kept", "the callback keeps no copy of the registered function object f%d", i);
		}
	}
	afterOp();
}

template<typename ID>
void World<ID>::doDisconnect(int i, int how) {
	if(i < 0) return;
	auto& f = fns_[i];
	if(f.conns.empty()) return;
	auto ri = draw(std::uint32_t(f.conns.size()));
	if(!alive(f) || !touchable(f.cb)) {
		// a connection that was reset does not touch the callback
		if(!f.conns[ri].reset) return;
	}
	auto& s = slots_[f.cb];
	bool expect = alive(f) && registered(f) && !f.conns[ri].reset;
	if(how == 0) {
		if(f.conns[ri].reset) return;
		EV("disconnect id of f%d, %d registered", i, int(expect));
		if(s.active) COUNT("disconnects while a call is running");
		if(!expect) COUNT("disconnects of removed functions");
		auto id = f.conns[ri].c.id();
		if(expect) formalRemove(i);
		bool got = s.obj->disconnect(id);
		if(got != expect) {
			auto m = P(3) | (s.simple ? P(9) : 0) | (f.ext || s.hadExt ? P(21) : 0) | (s.hadOwner ? P(20) : 0) |
				(s.hadFail ? P(7) : 0);
			// a further removal that reports success changes nothing in the model
			if(got) soft(m, "disconnect result", "disconnecting f%d returns 1", i);
			else fail(m, "disconnect result", "disconnecting f%d returns 0", i);
		}
	} else {
		EV("disconnect connection %d of f%d, %d registered", int(ri), i, int(expect));
		if(expect) formalRemove(i);
		{
			auto& rec = f.conns[ri];
			ReleaseScope ls;
			rec.c.disconnect();
		}
		auto& rec = f.conns[ri];
		rec.reset = true;
		if(rec.c.connected() || rec.c.connectable()) {
			soft(P(5) | P(3), "still connected", "a connection reports connected after disconnect");
		}
	}
	afterOp();
}

template<typename ID>
void World<ID>::doClear(int c) {
	if(!touchable(c)) return;
	auto& s = slots_[c];
	EV("clear c%d", c);
	if(s.active) COUNT("clears while a call is running");
	auto list = s.list;
	for(auto i : list) formalRemove(i);
	dropExts(c);
	s.obj->clear();
	afterOp();
}

template<typename ID>
void World<ID>::doCopyConn(int i) {
	if(i < 0) return;
	auto& f = fns_[i];
	if(f.conns.empty()) return;
	auto ri = draw(std::uint32_t(f.conns.size()));
	if(f.conns.size() < 10 && chance(1, 60)) {
		auto n = (chance(1, 2) ? 62 : 254) + draw(6);
		EV("%d copies of connection %d of f%d", int(n), int(ri), i);
		COUNT("connections copied many times");
		while(n--) {
			auto copy = f.conns[ri];
			f.conns.push_back(std::move(copy));
		}
		afterOp();
		return;
	}
	int how = int(draw(3));
	EV("copy connection %d of f%d, way %d", int(ri), i, how);
	if(how == 0 && f.conns.size() < 4) {
		auto copy = f.conns[ri];
		f.conns.push_back(std::move(copy));
	} else if(how == 1) {
		auto rj = draw(std::uint32_t(f.conns.size()));
		f.conns[rj] = f.conns[ri];
	} else {
		Conn d; // default constructed ones are not connected and may be disconnected
		if(d.connected()) soft(P(5), "default connected", "a default constructed connection is connected");
		d.disconnect();
		d = f.conns[ri].c;
		if(d.connected() != f.conns[ri].c.connected() || d.connectable() != f.conns[ri].c.connectable()) {
			soft(P(5), "copy differs", "the copy of a connection differs");
		}
	}
	afterOp();
}

template<typename ID>
void World<ID>::doUnique(int c) {
	int k = pick({4, 2, 4, 2, 2, 3});
	if(k == 0) { // new owner
		int i = pickFn(c, -1);
		if(i < 0 || uniqs_.size() >= 6) return;
		auto& f = fns_[i];
		if(f.owned1 || f.conns.empty() || f.conns[0].reset || !alive(f)) return;
		EV("new owning connection of f%d", i);
		COUNT("owning connections");
		f.owned1 = true;
		auto how = draw(2);
		if(how == 0) uniqs_.push_back({std::make_unique<Uniq>(f.conns[0].c), i});
		else uniqs_.push_back({std::make_unique<Uniq>(*f.conns[0].c.connectable(), f.conns[0].c.id()), i});
		afterOp();
		return;
	}
	if(uniqs_.empty()) return;
	auto a = draw(std::uint32_t(uniqs_.size()));
	auto can = [&](std::size_t u) {
		auto i = uniqs_[u].fn;
		if(i < 0) return true;
		auto& f = fns_[i];
		return !alive(f) || touchable(f.cb);
	};
	auto drop = [&](std::size_t u) { // the model of giving up the owned function
		auto i = uniqs_[u].fn;
		if(i < 0) return;
		fns_[i].owned1 = false;
		if(alive(fns_[i]) && registered(fns_[i])) formalRemove(i);
		uniqs_[u].fn = -1;
	};
	auto checkEmpty = [&](std::size_t u, const char* what) {
		if(uniqs_[u].u->connected() || uniqs_[u].u->connectable()) {
			soft(P(6), "owner not empty", "an owning connection is not empty after %s", what);
		}
	};
	switch(k) {
		case 1: { // move construct
			if(uniqs_.size() >= 6) return;
			EV("move construct owner of f%d", uniqs_[a].fn);
			uniqs_.push_back({});
			auto& to = uniqs_.back();
			to.u = std::make_unique<Uniq>(std::move(*uniqs_[a].u));
			to.fn = uniqs_[a].fn;
			uniqs_[a].fn = -1;
			checkEmpty(a, "being moved");
			break;
		}
		case 2: { // move assign
			auto b = draw(std::uint32_t(uniqs_.size()));
			if(a == b || !can(a)) return;
			EV("move owner of f%d to owner of f%d", uniqs_[b].fn, uniqs_[a].fn);
			drop(a);
			{
				ReleaseScope ls;
				*uniqs_[a].u = std::move(*uniqs_[b].u);
			}
			uniqs_[a].fn = uniqs_[b].fn;
			uniqs_[b].fn = -1;
			checkEmpty(b, "being moved");
			break;
		}
		case 3: {
			if(!can(a)) return;
			EV("disconnect owner of f%d", uniqs_[a].fn);
			drop(a);
			{
				ReleaseScope ls;
				uniqs_[a].u->disconnect();
			}
			checkEmpty(a, "disconnect");
			break;
		}
		case 4: {
			auto i = uniqs_[a].fn;
			EV("release owner of f%d", i);
			auto con = uniqs_[a].u->connectable();
			auto conn = [&]() -> Conn {
				ReleaseScope ls;
				return uniqs_[a].u->release();
			}();
			checkEmpty(a, "release");
			if(conn.connectable() != con) soft(P(6), "release", "release returns another connection");
			if(i >= 0) {
				fns_[i].owned1 = false;
				uniqs_[a].fn = -1;
				if(fns_[i].conns.size() < 4) fns_[i].conns.push_back({conn, false});
				if constexpr(!isTracked<ID>) {
					if(conn.id().get() != fns_[i].idValue) soft(P(6), "release", "release returns another id");
				}
			}
			break;
		}
		default: {
			if(!can(a)) return;
			EV("destroy owner of f%d", uniqs_[a].fn);
			drop(a);
			{
				ReleaseScope ls;
				uniqs_[a].u.reset();
			}
			uniqs_.erase(uniqs_.begin() + long(a));
		}
	}
	afterOp();
}

template<typename ID>
void World<ID>::doEmpty(int c) {
	auto& s = slots_[c];
	if(!touchable(c)) return;
	int how = int(draw(s.simple ? 3 : 6));
	EV("add empty function to c%d, way %d", c, how);
	COUNT("registrations of empty functions");
	if(how == 2 || how == 5) {
		auto list = s.list;
		for(auto i : list) formalRemove(i);
		dropExts(c);
	}
	s.hadFail = true;
	ExcInfo e;
	try {
		struct Assigning { int& n; ~Assigning() { --n; } } as {++s.assigning};
		s.obj->addEmpty(how);
	} catch(...) {
		e = currentExc();
	}
	if(e.kind != excInvalid) {
		fail(P(7), "empty accepted", "registering an empty function in c%d does not throw std::invalid_argument (%d)",
			c, e.kind);
	}
	afterOp();
}

template<typename ID>
void World<ID>::doInvalidate(int i) {
	if constexpr(isTracked<ID>) {
		if(i < 0) return;
		auto& f = fns_[i];
		if(!alive(f) || !registered(f)) return;
		for(auto& r : f.conns) {
			if(r.reset) continue;
			EV("invalidate the id of f%d from outside", i);
			COUNT("fault: id invalidated from outside");
			ctx->nontrivial = true;
			auto& s = slots_[f.cb];
			s.list.erase(std::find(s.list.begin(), s.list.end(), i));
			s.exts.push_back(i);
			s.hadExt = true;
			f.ext = true;
			auto id = r.c.id();
			idFromHarness_ = true;
			id.set(0);
			idFromHarness_ = false;
			break;
		}
		afterOp();
	}
}

template<typename ID>
void World<ID>::doRecreate(int c) {
	auto& s = slots_[c];
	if(s.active) return;
	if(s.obj) destroyCb(c);
	makeCb(c);
}

template<typename ID>
bool World<ID>::step(int self, bool) {
	if(budget_ <= 0) return false;
	--budget_;
	int sum = 0;
	for(auto w : prof_.weights) sum += w;
	int v = int(draw(std::uint32_t(sum))), op = 0;
	while(op < opCount - 1 && v >= prof_.weights[op]) v -= prof_.weights[op++];
	if(op == opNone) return false;
	int c = pickCb(self, true);
	if(c < 0 && op != opRecreate) return false;
	if(op == opRecreate) c = int(draw(std::uint32_t(slots_.size())));
	if(acting_) {
		if(op == opConnDisconnect) op = opDisconnect;
		if(op != opCall && op != opCallThrough && op != opAdd && op != opDisconnect && op != opClear) return false;
		slots_[c].hadOwner = true;
		ctx->nontrivial = true;
		COUNT("operations of destructors of functions");
	}
	yieldPoint(5);
	switch(op) {
		case opCall: doCall(c, false); break;
		case opCallThrough: doCall(c, self >= 0); break;
		case opAdd: doAdd(c, false, false); break;
		case opBulk: doAdd(c, false, true); break;
		case opAssign: doAdd(c, true, false); break;
		case opDisconnect: doDisconnect(pickFn(c, self), 0); break;
		case opConnDisconnect: doDisconnect(pickFn(c, self), 1); break;
		case opSelf:
			if(self >= 0) {
				if(alive(fns_[self]) && registered(fns_[self])) COUNT("functions removing themselves");
				doDisconnect(self, int(draw(2)));
			}
			break;
		case opClear: doClear(c); break;
		case opCopyConn: doCopyConn(pickFn(c, self)); break;
		case opUnique: doUnique(c); break;
		case opEmpty: doEmpty(c); break;
		case opInvalidate: doInvalidate(pickFn(c, self)); break;
		case opGive: doGive(); break;
		case opRecreate:
			if(prof_.prop != 13 && chance(1, 20)) doAge(c);
			else doRecreate(c);
			break;
		default: break;
	}
	return true;
}

template<typename ID>
void World<ID>::body(int i) {
	auto& f = fns_[i];
	if(i == deepFn_) {
		if(int(frames_.size()) < deepTo_ && registered(f)) {
			doCall(f.cb, false);
			if(i == deepFn_) deepFn_ = -1; // could not be reached
			return;
		}
		deepFn_ = -1;
	}
	if(f.quiet || budget_ <= 0) return;
	int n = pick({6, 5, 3, 1});
	for(int k = 0; k < n; ++k) {
		step(i, false);
	}
	if(prof_.throws && chance(1, 7)) {
		// user code might run while the exception propagates
		struct AtUnwind {
			World& w;
			int i;
			bool active;
			~AtUnwind() {
				if(!active) return;
				COUNT("operations during unwinding");
				auto old = w.unwinding_;
				w.unwinding_ = true;
				try {
					w.step(i, false);
				} catch(...) {
				}
				w.unwinding_ = old;
			}
		} atUnwind {*this, i, false};
		atUnwind.active = !unwinding_ && chance(1, 4);
		int kind = excStd + int(draw(3));
		++tok_;
		EV("f%d throws kind %d token %d", i, kind, tok_);
		COUNT("fault: function threw");
		throwTok(kind, tok_);
	}
}

template<typename ID>
void World<ID>::run() {
	int n = 1 + int(draw(3));
	slots_.resize(std::size_t(n));
	for(int c = 0; c < n; ++c) {
		slots_[c].simple = chance(std::uint32_t(prof_.simple), 8);
		slots_[c].sig = int(draw(8));
		makeCb(c);
		int k = int(draw(5));
		for(int j = 0; j < k; ++j) doAdd(c, false, false);
	}
	int steps = 2 + int(draw(24));
	for(int k = 0; k < steps; ++k) {
		if(prof_.prop != 13 && chance(1, 16)) {
			whileUnwinding([&]{
				unwinding_ = true;
				try {
					step(-1, true);
				} catch(...) {
				}
				unwinding_ = false;
			});
		} else {
			step(-1, true);
		}
	}
	finish();
}

template<typename ID>
void World<ID>::finish() {
	EV("finish");
	// no more surprises: every callback can still be used
	prof_.throws = prof_.faultAdd = prof_.faultCall = false;
	budget_ = 0;
	prof_.maxInvocations += 2000;
	for(int round = 0; round < 2; ++round) {
		for(std::size_t c = 0; c < slots_.size(); ++c) {
			if(slots_[c].obj) {
				doCall(int(c), false);
				if(!round) doAdd(int(c), false, false);
			}
		}
	}
	bool uniqsFirst = draw(2) == 0;
	auto dropUniqs = [&] {
		while(!uniqs_.empty()) {
			auto i = uniqs_.back().fn;
			if(i >= 0) {
				fns_[i].owned1 = false;
				if(alive(fns_[i])) formalRemove(i);
			}
			uniqs_.back().u.reset();
			uniqs_.pop_back();
			afterOp();
		}
	};
	if(uniqsFirst) dropUniqs();
	for(std::size_t c = 0; c < slots_.size(); ++c) {
		if(slots_[c].obj) destroyCb(int(c));
	}
	dropUniqs();
	afterOp();
	for(auto& f : fns_) {
		if(f.probes) {
			soft(P(8) | (f.owned >= 0 ? P(20) : 0), "leak", "%d copies of the function object of f%d are never destroyed",
				f.probes, f.id);
		}
		f.conns.clear();
		f.idState.reset();
	}
	if(idLive_) {
		soft(P(8) | P(4), "id leak", "%d id objects are never destroyed", idLive_);
	}
}

template<typename ID>
void runWorld(const Profile& p) {
	auto before = ctx->liveAllocs;
	{
		World<ID> w(p);
		noMemoryRuns = p.prop == 23;
		noMemoryHit = false;
		w.run();
		noMemoryRuns = noMemoryHit = false;
	}
	leaked(P(8) | P(7) | P(2), "at the end", ctx->liveAllocs - before);
}

} // namespace sim
