// single-threaded domains do not need the scheduler
#include "core.hpp"
namespace sim { void yieldPoint(int) {} }
