// Force-included (-include) when the explorers compile /repo's sources: owns every draw taken from a
// std::mt19937_64.  Unarmed, the engine behaves exactly like the standard one; armed, each draw is an
// explorer decision (scripted value).
#pragma once
#ifdef __cplusplus
#include <random>
#include <cstdint>
extern "C" {
extern int mcrng_armed;
uint64_t mcrng_next(void);
}
namespace std {
template <>
inline mt19937_64::result_type mt19937_64::operator()() {
    if (mcrng_armed) return mcrng_next();
    if (_M_p >= state_size) _M_gen_rand();
    result_type z = _M_x[_M_p++];
    z ^= (z >> 29) & 0x5555555555555555ULL;
    z ^= (z << 17) & 0x71d67fffeda60000ULL;
    z ^= (z << 37) & 0xfff7eee000000000ULL;
    z ^= (z >> 43);
    return z;
}
}
#endif
