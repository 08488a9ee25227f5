// Which simulated world decides which property. The worlds register themselves, a binary contains
// only the ones it needs.
#include "core.hpp"
namespace sim {

static Domain* first {};

Domain::Domain(const char* n, void (*f)(int)) : name(n), func(f), next(first) { first = this; }

void (*findDomain(const char* name))(int) {
	for(auto* d = first; d; d = d->next) {
		if(!std::strcmp(d->name, name)) return d->func;
	}
	return nullptr;
}

const char* propDomain(int prop) {
	switch(prop) {
		case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10:
		case 20: case 21: case 23: return "callbacks";
		case 11: case 12: return "guards";
		case 13: return "threads";
		case 14: case 15: return "clone";
		case 16: case 17: case 18: return "bytes";
		case 19: return "print";
		case 22: return "values";
		default: return nullptr;
	}
}

void runFor(int prop) {
	auto* name = propDomain(prop);
	if((prop == 6 && draw(2)) || (prop == 23 && !draw(4))) name = "connections";
	auto* f = findDomain(name);
	if(!f) broken("the world %s is not part of this binary", name);
	f(prop);
}

} // namespace sim
