#include "../mpi.hpp"
