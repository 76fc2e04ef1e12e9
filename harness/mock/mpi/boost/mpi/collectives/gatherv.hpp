#include <symx_mpi.hpp>
