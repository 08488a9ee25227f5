#include "cbworld.hpp"
namespace sim {
template<> std::unique_ptr<World<sim::SimID>::Cb> makeRecursiveCb<sim::SimID>(int sig) { return makeCbImpl<sim::SimID, true>(sig); }
}
