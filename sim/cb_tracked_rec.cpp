#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<nytl::TrackedConnectionID>::Cb> makeRecursiveCb<nytl::TrackedConnectionID>(int sig) { return makeCbImpl<nytl::TrackedConnectionID, true>(sig); }
}
