#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<nytl::TrackedConnectionID>::Cb> makeSimpleCb<nytl::TrackedConnectionID>(int sig) { return makeCbImpl<nytl::TrackedConnectionID, false>(sig); }
}
