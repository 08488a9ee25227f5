// Which worlds of callbacks are simulated for which property
#include "cbworld.hpp"

namespace sim {

thread_local IdHost* idHost {};

template<typename ID> void runWorld(const Profile&);

void checkResults(WorldBase& w, Frame& f, const std::vector<int>& got) {
	if(got != f.results) {
		w.badArgs(-1, "the call does not return the results of the functions in the order of invocation");
	}
}

Profile makeProfile(int prop) {
	Profile p;
	p.prop = prop;
	//                 none call thr add dis cdis self clr asg copy uniq empt inv recr bulk give
	int base[opCount] = {2,  9,   4,  8,  5,  4,   4,   2,  2,  2,   2,   1,   0,  1,   0,   0};
	std::copy(base, base + opCount, p.weights);
	auto& w = p.weights;
	p.simple = 1;
	p.idPlain = 3; p.idTracked = 3; p.idSim = 3;
	p.throws = chance(1, 3);
	switch(prop) {
		case 1: p.simple = 0; w[opBulk] = 1; break;
		case 2: p.throws = true; p.faultCall = true; w[opCallThrough] = 9; p.simple = 2; break;
		case 3: w[opDisconnect] = 10; w[opConnDisconnect] = 8; w[opSelf] = 6; w[opClear] = 3; p.simple = 2; w[opBulk] = 1; break;
		case 4: p.idPlain = p.idTracked = 0; p.simple = 1; w[opDisconnect] = 7; p.faultAdd = chance(1, 4);
			w[opClear] = 3; w[opRecreate] = 2; break;
		case 5: p.idPlain = 1; w[opCopyConn] = 8; w[opConnDisconnect] = 8; w[opRecreate] = 3; p.simple = 2; break;
		case 6: w[opUnique] = 14; w[opCopyConn] = 3; p.simple = 2; break;
		case 7: p.faultAdd = true; w[opAdd] = 14; w[opAssign] = 4; w[opEmpty] = 3; p.simple = 2; break;
		case 8: p.faultAdd = p.faultCall = true; p.throws = true; w[opSelf] = 7; w[opClear] = 3; p.simple = 2; break;
		case 9: p.simple = 7; w[opBulk] = 2; w[opDisconnect] = 8; w[opClear] = 1; break;
		case 10: p.simple = 3; w[opBulk] = 1; w[opClear] = 1; break;
		case 20: p.owners = true; w[opAdd] = 12; w[opClear] = 2; w[opAssign] = 3; p.simple = 1; break;
		case 21: p.idPlain = 0; p.invalidate = true; w[opInvalidate] = 8; p.simple = 3; break;
		case 23: w[opDisconnect] = 7; w[opConnDisconnect] = 5; w[opSelf] = 6; w[opClear] = 3; w[opUnique] = 5; w[opRecreate] = 2;
			p.simple = 2; break;
		default: p.faultAdd = p.faultCall = chance(1, 3); p.owners = chance(1, 3); break;
	}
	// a property holds whatever else goes on
	if(prop != 13) {
		if(!draw(3)) p.owners = true;
		if(!draw(4)) p.faultAdd = true;
		if(!draw(4)) p.faultCall = true;
		if(!draw(6) && prop != 9) p.invalidate = true;
	}
	// every run uses another mix of operations
	if(draw(4)) {
		for(int i = opCall; i < opCount; ++i) {
			switch(draw(6)) {
				case 0: case 1: case 2: break;
				case 3: w[i] *= 2; break;
				case 4: w[i] = (w[i] + 1) / 2; break;
				default: w[i] = 0;
			}
		}
	}
	if(!w[opBulk] && prop != 13 && chance(1, 40)) w[opBulk] = 1;
	if(!w[opAdd]) w[opAdd] = 3;
	if(!w[opCall]) w[opCall] = 3;
	if(prop == 21 && !w[opInvalidate]) w[opInvalidate] = 5;
	if(p.invalidate && prop != 21) w[opInvalidate] = 2;
	w[opGive] = p.owners ? prop == 20 ? 6 : 2 : 0;
	static const int budgets[] = {30, 60, 120, 250};
	p.budget = budgets[draw(4)];
	static const int depths[] = {4, 8, 14, 30};
	p.maxDepth = depths[draw(4)];
	return p;
}

void runCallbacks(int prop) {
	auto p = makeProfile(prop);
	int sum = p.idPlain + p.idTracked + p.idSim;
	int v = int(draw(std::uint32_t(sum)));
	if(v < p.idPlain) runWorld<nytl::ConnectionID>(p);
	else if(v < p.idPlain + p.idTracked) runWorld<nytl::TrackedConnectionID>(p);
	else runWorld<SimID>(p);
}

static Domain reg {"callbacks", runCallbacks};

} // namespace sim
