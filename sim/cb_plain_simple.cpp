#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<nytl::ConnectionID>::Cb> makeSimpleCb<nytl::ConnectionID>(int sig) { return makeCbImpl<nytl::ConnectionID, false>(sig); }
}
