#include "mc_mt.hpp"
