#include "../../mc_mpi.hpp"
