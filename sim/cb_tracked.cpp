#include "cbworld_impl.hpp"
namespace sim {
template class World<nytl::TrackedConnectionID>;
template void runWorld<nytl::TrackedConnectionID>(const Profile&);
}
