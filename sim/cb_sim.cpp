#include "cbworld_impl.hpp"
namespace sim {
template class World<sim::SimID>;
template void runWorld<sim::SimID>(const Profile&);
}
