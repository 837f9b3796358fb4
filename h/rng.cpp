#include "mc_rng_impl.inc"
