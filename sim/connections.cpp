// Simulated owners of connections whose disconnect operation can fail (C06)
#include "core.hpp"
#include <nytl/connection.hpp>
#include <deque>
#include <memory>
#include <optional>
#include <algorithm>
#include <utility>
#include <iostream>

namespace sim {
namespace {

struct DiscHost {
	virtual ~DiscHost() = default;
	virtual bool onDisconnect(int con, std::int64_t id) = 0;
};

// via the interface
template<typename ID> struct SimConnectable : nytl::ConnectableT<ID> {
	DiscHost* host {};
	int num {};
	bool disconnect(const ID& id) override {
		UserScope us;
		return host->onDisconnect(num, id.get());
	}
};

// a class that has only what is needed
template<typename ID> struct OwnConnectable {
	DiscHost* host {};
	int num {};
	void disconnect(ID id) {
		UserScope us;
		host->onDisconnect(num, id.get());
	}
};

template<typename C, typename ID> struct ConnWorld : DiscHost {
	using Conn = nytl::ConnectionT<C, ID>;
	using Uniq = nytl::UniqueConnectionT<C, ID>;
	static constexpr bool tracked = !std::is_same_v<ID, nytl::ConnectionID>;

	struct Link { // something that can be disconnected
		int con {};
		std::int64_t value {};
		ID id {};
		int requests {};   // disconnect requests seen
		int due {};        // requests expected so far
		bool invalid {};   // invalidated from outside
		bool owned {};
	};
	struct Slot {
		std::unique_ptr<Uniq> u;
		int link {-1};
	};

	std::vector<std::unique_ptr<C>> cons;
	std::deque<Link> links;
	std::vector<Slot> slots;
	std::vector<Uniq> vec;     // owners in a container
	std::vector<int> vecLinks;
	int busy {-1};             // slot an operation runs on
	bool vecBusy {};
	int throwNext {};          // kind of the exception the next disconnect throws
	bool didThrow {};
	bool perCon {};            // ids are only unique per connectable
	int toks {};
	int budget {};
	int depth {};

	bool onDisconnect(int con, std::int64_t value) override {
		yieldPoint(3);
		Link* l {};
		for(auto& k : links) {
			if(k.con == con && k.value == value) l = &k;
		}
		EV("c%d: disconnect %d is requested", con, int(value));
		if(!l) fail(P(6), "wrong id", "connectable c%d is asked to disconnect the id %ld that no connection has", con, long(value));
		++l->requests;
		COUNT("disconnect requests");
		if(l->requests > l->due) {
			fail(P(6), "disconnect without duty", "the connection with id %ld is disconnected %d times instead of %d",
				long(value), l->requests, l->due);
		}
		if(l->invalid) {
			fail(P(6), "disconnect of removed", "the connection with id %ld that is already gone is disconnected", long(value));
		}
		if constexpr(tracked) {
			if(draw(2)) { l->invalid = true; l->id.set(0); }
		}
		if(depth < 3 && chance(1, 4)) {
			// user code may use other owners
			COUNT("disconnects that use other owners");
			auto t = throwNext;
			auto b = busy;
			auto vb = vecBusy;
			auto dt = didThrow;
			throwNext = 0;
			++depth;
			step();
			--depth;
			throwNext = t;
			busy = b;
			vecBusy = vb;
			didThrow = dt;
		}
		if(throwNext) {
			auto k = throwNext;
			throwNext = 0;
			didThrow = true;
			ctx->nontrivial = true;
			COUNT("fault: disconnect threw");
			EV("disconnect throws kind %d", k);
			throwTok(k, ++toks);
		}
		return true;
	}

	// performs an operation, sometimes while an exception propagates
	template<typename F> void perform(F f) {
		if(!chance(1, 4)) { f(); return; }
		COUNT("operations on owners while an exception propagates");
		ctx->nontrivial = true;
		int kind = excStd + int(draw(3)), tok = ++toks;
		EV("while an exception propagates");
		struct AtUnwind { F& f; ~AtUnwind() { f(); } };
		try {
			AtUnwind a {f};
			throwTok(kind, tok);
		} catch(...) {
			auto e = currentExc();
			if(e.kind != kind || e.tok != tok) {
				fail(P(6), "exception changed", "an exception that propagates while an owner is used changes to kind %d", e.kind);
			}
		}
	}

	// the owner of the link has to disconnect it now
	void duty(int link) {
		if(link < 0) return;
		auto& l = links[std::size_t(link)];
		l.owned = false;
		if(!l.invalid && l.value > 0) ++l.due;
	}

	void check(const char* when) {
		for(auto& l : links) {
			if(l.requests != l.due) {
				fail(P(6), "not disconnected", "the connection with id %ld was disconnected %d times instead of %d %s",
					long(l.value), l.requests, l.due, when);
			}
		}
		for(std::size_t i = 0; i < slots.size(); ++i) {
			if(int(i) != busy && !inUse[i]) checkOwner(*slots[i].u, slots[i].link, when);
		}
		if(!vecBusy) {
			for(std::size_t i = 0; i < vec.size(); ++i) checkOwner(vec[i], vecLinks[i], when);
		}
	}

	void checkOwner(const Uniq& u, int link, const char* when) {
		bool expect = link >= 0 && !links[std::size_t(link)].invalid && links[std::size_t(link)].value > 0;
		if(u.connected() != expect) {
			fail(P(6), "connected", "an owner of link %d reports connected %d %s", link, int(u.connected()), when);
		}
		if(link < 0 ? u.connectable() != nullptr : u.connectable() != cons[std::size_t(links[std::size_t(link)].con)].get()) {
			fail(P(6), "connectable", "an owner of link %d has another connectable %s", link, when);
		}
		if(link >= 0 && expect && u.id().get() != links[std::size_t(link)].value) {
			fail(P(6), "id", "an owner of link %d has another id %s", link, when);
		}
	}

	int newLink() {
		Link l;
		l.con = int(draw(std::uint32_t(cons.size())));
		// connectables count on their own, so that ids of different ones are often equal
		int n = 1;
		for(auto& k : links) n += !perCon || k.con == l.con;
		l.value = chance(1, 10) ? -int(draw(2)) : n;
		l.id = ID {l.value};
		if(l.value <= 0) l.value = -1000 - int(links.size()); // never requested
		l.owned = true;
		links.push_back(l);
		return int(links.size()) - 1;
	}

	void arm(bool any) {
		didThrow = false;
		throwNext = 0;
		if(chance(1, 3)) throwNext = any ? excStd + int(draw(3)) : draw(3) ? int(excStd) : int(excAlloc);
	}

	void create() {
		if(slots.size() >= 8) return;
		auto i = newLink();
		auto& l = links[std::size_t(i)];
		EV("owner of link %d", i);
		COUNT("owning connections");
		LibScope ls;
		Slot s;
		s.link = i;
		auto& c = *cons[std::size_t(l.con)];
		if(draw(2)) s.u = std::make_unique<Uniq>(c, l.id);
		else s.u = std::make_unique<Uniq>(Conn(c, l.id));
		slots.push_back(std::move(s));
	}

	int some() { // not the one that is in use
		std::vector<int> cand;
		for(std::size_t i = 0; i < slots.size(); ++i) {
			if(!inUse[i]) cand.push_back(int(i));
		}
		return cand.empty() ? -1 : cand[draw(std::uint32_t(cand.size()))];
	}
	bool inUse[64] {};

	void step() {
		if(budget-- <= 0) return;
		yieldPoint(5);
		bool nested = depth > 0;
		int op = pick({5, 3, 3, 5, 3, 3, 2, 3, nested ? 0 : 5});
		EV("step %d", op);
		switch(op) {
			case 0: create(); break;
			case 1: { // empty owner
				if(slots.size() >= 8) return;
				slots.push_back({std::make_unique<Uniq>(), -1});
				break;
			}
			case 2: { // move construct
				auto a = some();
				if(a < 0 || slots.size() >= 8) return;
				Slot s;
				{
					LibScope ls;
					s.u = std::make_unique<Uniq>(std::move(*slots[std::size_t(a)].u));
				}
				s.link = slots[std::size_t(a)].link;
				slots[std::size_t(a)].link = -1;
				slots.push_back(std::move(s));
				break;
			}
			case 3: { // move assign
				auto a = some();
				if(a < 0) return;
				inUse[a] = true;
				auto b = some();
				if(b >= 0) {
					inUse[b] = true;
					auto& to = slots[std::size_t(a)];
					auto* tu = to.u.get();
					auto* fu = slots[std::size_t(b)].u.get();
					auto link = slots[std::size_t(b)].link;
					duty(to.link);
					arm(false);
					EV("move owner of link %d to the owner of link %d", link, to.link);
					busy = a;
					perform([&]{
						ReleaseScope ls;
						*tu = std::move(*fu); // noexcept
					});
					busy = -1;
					slots[std::size_t(a)].link = link;
					slots[std::size_t(b)].link = -1;
					inUse[b] = false;
				}
				inUse[a] = false;
				break;
			}
			case 4: { // explicit disconnect
				auto a = some();
				if(a < 0) return;
				inUse[a] = true;
				auto* u = slots[std::size_t(a)].u.get();
				auto link = slots[std::size_t(a)].link;
				duty(link);
				arm(true);
				EV("disconnect owner of link %d", link);
				bool threw = false;
				busy = a;
				perform([&]{
					try {
						ReleaseScope ls;
						u->disconnect();
					} catch(...) {
						threw = true;
						auto e = currentExc();
						if(!didThrow) fail(P(6), "exception", "disconnect throws kind %d without reason", e.kind);
					}
				});
				busy = -1;
				// may be tried again after an error
				bool keep = threw && u->connectable();
				slots[std::size_t(a)].link = keep ? link : -1;
				if(keep) links[std::size_t(link)].owned = true;
				inUse[a] = false;
				break;
			}
			case 5: { // release
				auto a = some();
				if(a < 0) return;
				auto& s = slots[std::size_t(a)];
				EV("release owner of link %d", s.link);
				auto before = s.u->id().get();
				Conn c = [&]() -> Conn { ReleaseScope ls; return s.u->release(); }();
				auto want = s.link < 0 ? nullptr : cons[std::size_t(links[std::size_t(s.link)].con)].get();
				if(c.connectable() != want || (want && c.id().get() != before)) {
					fail(P(6), "release", "release returns another connection");
				}
				auto link = s.link;
				s.link = -1;
				if(link >= 0 && draw(2)) { // owned again
					if(slots.size() < 8) {
						slots.push_back({std::make_unique<Uniq>(c), link});
					}
				}
				break;
			}
			case 6: { // invalidated from outside
				if constexpr(tracked) {
					if(links.empty()) return;
					auto& l = links[draw(std::uint32_t(links.size()))];
					bool used = false;
					for(std::size_t i = 0; i < slots.size(); ++i) used |= inUse[i] && slots[i].link >= 0 && &links[std::size_t(slots[i].link)] == &l;
					if(used || vecBusy) return;
					EV("id %d is set to zero", int(l.value));
					l.id.set(0);
					l.invalid = true;
				}
				break;
			}
			case 7: { // destroy
				auto a = some();
				if(a < 0 || nested) return; // (keep the numbers of the other ones)
				auto u = std::move(slots[std::size_t(a)].u);
				auto link = slots[std::size_t(a)].link;
				slots.erase(slots.begin() + a);
				duty(link);
				arm(false);
				EV("destroy owner of link %d", link);
				perform([&]{
					ReleaseScope ls;
					u.reset();
				});
				break;
			}
			default: container();
		}
		throwNext = 0;
		check("after an operation");
	}

	// owners in a vector
	void container() {
		vecBusy = true;
		switch(draw(5)) {
			case 0: case 1: {
				auto i = newLink();
				auto& l = links[std::size_t(i)];
				EV("vector: push link %d", i);
				{
					LibScope ls;
					if(draw(2)) vec.emplace_back(*cons[std::size_t(l.con)], l.id);
					else vec.push_back(Conn(*cons[std::size_t(l.con)], l.id));
				}
				vecLinks.push_back(i);
				break;
			}
			case 2: {
				if(vec.empty()) break;
				auto i = draw(std::uint32_t(vec.size()));
				EV("vector: erase %d of %d", int(i), int(vec.size()));
				duty(vecLinks[i]);
				arm(false);
				vecLinks.erase(vecLinks.begin() + long(i));
				{
					ReleaseScope ls;
					vec.erase(vec.begin() + long(i));
				}
				break;
			}
			case 3: {
				if(vec.size() < 2) break;
				auto i = draw(std::uint32_t(vec.size())), j = draw(std::uint32_t(vec.size()));
				if(i == j) break;
				EV("vector: swap %d and %d", int(i), int(j));
				{
					ReleaseScope ls;
					std::swap(vec[i], vec[j]);
				}
				std::swap(vecLinks[i], vecLinks[j]);
				break;
			}
			default: {
				if(vec.size() < 3) break;
				EV("vector: rotate");
				{
					ReleaseScope ls;
					std::rotate(vec.begin(), vec.begin() + 1, vec.end());
				}
				std::rotate(vecLinks.begin(), vecLinks.begin() + 1, vecLinks.end());
			}
		}
		vecBusy = false;
	}

	void run() {
		static const int budgets[] = {6, 15, 40, 90};
		budget = budgets[draw(4)];
		if(ctx->actor < 0 && chance(1, 4)) {
			ctx->cerrMode = 1 + int(draw(2));
			COUNT("fault: std::cerr fails");
		}
		int n = 1 + int(draw(3));
		for(int i = 0; i < n; ++i) {
			cons.push_back(std::make_unique<C>());
			cons.back()->host = this;
			cons.back()->num = i;
		}
		vec.reserve(draw(3));
		perCon = draw(2);
		while(budget > 0) step();
		EV("finish");
		budget = 0;
		while(!slots.empty()) {
			auto u = std::move(slots.back().u);
			duty(slots.back().link);
			slots.pop_back();
			arm(false);
			ReleaseScope ls;
			u.reset();
		}
		throwNext = 0;
		for(auto l : vecLinks) duty(l);
		vecLinks.clear();
		vecBusy = true;
		{
			ReleaseScope ls;
			vec.clear();
		}
		vecBusy = false;
		check("at the end");
		ctx->cerrMode = 0;
		std::cerr.clear();
	}
};

template<typename C, typename ID> void runWith() {
	ConnWorld<C, ID> w;
	w.run();
}

} // anon namespace

void runConnections(int prop) {
	auto before = ctx->liveAllocs;
	noMemoryRuns = prop == 23;
	noMemoryHit = false;
	switch(draw(4)) {
		case 0: runWith<SimConnectable<nytl::ConnectionID>, nytl::ConnectionID>(); break;
		case 1: runWith<SimConnectable<nytl::TrackedConnectionID>, nytl::TrackedConnectionID>(); break;
		case 2: runWith<OwnConnectable<nytl::ConnectionID>, nytl::ConnectionID>(); break;
		default: runWith<OwnConnectable<nytl::TrackedConnectionID>, nytl::TrackedConnectionID>();
	}
	noMemoryRuns = false;
	leaked(P(6), "at the end", ctx->liveAllocs - before);
}

static Domain reg {"connections", runConnections};

} // namespace sim
