#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<sim::SimID>::Cb> makeSimpleCb<sim::SimID>(int sig) { return makeCbImpl<sim::SimID, false>(sig); }
}
