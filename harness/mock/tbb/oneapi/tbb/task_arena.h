#include <symx_tbb.hpp>
