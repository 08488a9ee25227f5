#include "cbworld_impl.hpp"
namespace sim {
template class World<nytl::ConnectionID>;
template void runWorld<nytl::ConnectionID>(const Profile&);
}
