// One definition of the explorer side of mc_rng.h.
#include <vector>
extern "C" {
int mcrng_armed = 0;
static std::vector<uint64_t> mcrng_script;   // decisions to replay
static uint64_t mcrng_default = 0;           // value of draws past the script
static uint64_t mcrng_used = 0;
uint64_t mcrng_next(void) {
    uint64_t k = mcrng_used++;
    return k < mcrng_script.size() ? mcrng_script[k] : mcrng_default;
}
void mcrng_arm(const uint64_t *s, uint64_t n, uint64_t dflt) {
    mcrng_script.assign(s, s + n);
    mcrng_default = dflt;
    mcrng_used = 0;
    mcrng_armed = 1;
}
uint64_t mcrng_draws(void) { return mcrng_used; }
void mcrng_disarm(void) { mcrng_armed = 0; }
}
