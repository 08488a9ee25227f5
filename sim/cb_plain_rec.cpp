#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<nytl::ConnectionID>::Cb> makeRecursiveCb<nytl::ConnectionID>(int sig) { return makeCbImpl<nytl::ConnectionID, true>(sig); }
}
