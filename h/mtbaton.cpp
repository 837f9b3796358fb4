#include "mtbaton.hpp"
#include "mc.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <atomic>
#include <random>
using namespace mc;
namespace bt {
struct Thr { std::atomic<int> go{0}; bool alive = true, polled = false; enum { RUN, MUTEX, COND, JOIN } wait = RUN; void *on = nullptr; bool timed = false, timedout = false, signalled = false; pthread_t h{}; void *(*f)(void *) = nullptr; void *arg = nullptr; uintptr_t seen = 0; int times = 0; };
static const int MAXT = 64, CPUS = 2;   // threads at most; CPUs of the machine presented
static Thr thr[MAXT]; static int nthr = 0, base_, quiet = 0;
static thread_local int me = -1;
static bool on = false;
static std::vector<Dev> devs; static size_t devi; static Shared *sh;
static long polls = 0, steps = 0;
static pthread_key_t ending;
std::string (*describe)(const std::string &);
struct Mx { int owner = -1; };
static std::unordered_map<void *, Mx> mx;
static uint64_t now = 1000000000ull;
static bool managed() { return on && me >= 0; }
static void fut(std::atomic<int> &a, int op, int v) { syscall(SYS_futex, (int *)&a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
static void pass(int t) { thr[t].go.store(1); fut(thr[t].go, FUTEX_WAKE, 1); }
static void sleepuntil() { Thr &t = thr[me]; while (!t.go.load()) fut(t.go, FUTEX_WAIT, 0); t.go.store(0); }
static bool runnable(int i) {
    Thr &t = thr[i];
    if (!t.alive) return false;
    switch (t.wait) {
    case Thr::RUN: return true;
    case Thr::MUTEX: return mx[t.on].owner < 0;
    case Thr::COND: return t.signalled;
    case Thr::JOIN: return !((Thr *)t.on)->alive;
    }
    return false;
}
static std::string where() {
    static const char *w[] = {"runs", "waits for a lock", "waits on a condition", "waits for a thread to end"};
    std::string s; for (int i = 0; i < nthr; i++) if (thr[i].alive) s += fmt(" thread %d %s;", i, w[thr[i].wait]);
    return s;
}
// who runs next; the caller may itself be unable to
static int choose(bool poll) {
    if (++steps > 400000) fail("does not end:" + where());
    std::vector<int> o; for (int i = 0; i < nthr; i++) if (runnable(i)) o.push_back(i);
    if (o.empty()) for (int i = 0; i < nthr; i++) if (thr[i].alive && thr[i].wait == Thr::COND && thr[i].timed) { thr[i].timedout = thr[i].signalled = true; o.push_back(i); }
    if (o.empty()) fail("deadlock:" + where());
    bool self = runnable(me);
    if (poll) { thr[me].polled = true; bool all = true; for (int i : o) if (!thr[i].polled) all = false; if (all) for (int i : o) thr[i].polled = i == me && o.size() > 1; }
    auto fit = [&](int i) { return !thr[i].polled; };
    int d = -1;
    if (self && !poll && (quiet || base_ == KEEP)) d = me;
    else if (base_ == ROBIN) { for (int k = 1; k <= nthr && d < 0; k++) { int i = (me + k) % nthr; if (runnable(i) && fit(i)) d = i; } }
    else if (base_ == LAST) { for (size_t k = o.size(); k-- > 0 && d < 0;) if (fit(o[k])) d = o[k]; }
    else for (int i : o) if (d < 0 && fit(i)) d = i;
    if (d < 0) d = self ? me : o[0];
    if (quiet) return self ? me : d;
    int n = sh->ndec;
    if (n >= MAXDEC) fail("does not end:" + where());
    sh->n[n] = (unsigned char)o.size(); sh->ndec = n + 1;
    if (devi < devs.size() && devs[devi].at == n) { int c = devs[devi++].choice; int k = 0; for (int i : o) if (i != d && k++ == c) return i; }
    return d;
}
static void point(bool poll = false) {
    if (!managed()) return;
    if (quiet && runnable(me) && !poll) return;
    if (quiet && poll) return;
    int d = choose(poll);
    if (d == me) return;
    pass(d);
    sleepuntil();
}
static void busy() { thr[me].polled = false; }
static void block(int w, void *o) {
    Thr &t = thr[me]; t.wait = (decltype(t.wait))w; t.on = o;
    while (!runnable(me)) { int d = choose(false); if (d == me) continue; pass(d); sleepuntil(); }
    t.wait = Thr::RUN; t.polled = false;
}
static void ended(void *) {
    Thr &t = thr[me]; t.alive = false; int self = me;
    for (int i = 0; i < nthr; i++) thr[i].polled = false;
    quiet = 0;
    int d = choose(false); (void)self;
    me = -1;
    pass(d);
}
static void *begin(void *a) { me = (int)(long)a; sleepuntil(); pthread_setspecific(ending, (void *)1); return thr[me].f(thr[me].arg); }
template <class F> static F real(const char *n) { static std::map<std::string, void *> m; void *&p = m[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (F)p; }
void control(int base, const std::vector<Dev> &dv, Shared *s, void (*run)()) {
    base_ = base; devs = dv; devi = 0; sh = s; memset((void *)sh, 0, offsetof(Shared, n));
    pthread_key_create(&ending, ended);
    cpu_set_t cs; CPU_ZERO(&cs); int c = sched_getcpu(); if (c >= 0) { CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    me = 0; nthr = 1; on = true;
    run();
}
void undisturbed(bool b) { quiet += b ? 1 : -1; }
int alive() { int n = 0; for (int i = 0; i < nthr; i++) if (i != me && thr[i].alive) n++; return n; }
static void look(uintptr_t a) { Thr &t = thr[me]; if (t.seen == a) { if (++t.times > 20) { t.times = 0; point(true); } else if (t.times == 1) point(); } else { t.seen = a; t.times = 0; point(); } }
}
using namespace bt;
extern "C" {
int pthread_create(pthread_t *h, const pthread_attr_t *at, void *(*f)(void *), void *a) noexcept {
    auto r = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    if (!managed()) return r(h, at, f, a);
    if (nthr == MAXT) fail("more than 64 threads");
    int i = nthr; thr[i].f = f; thr[i].arg = a;
    int e = r(h, at, begin, (void *)(long)i);
    if (e) return e;
    thr[i].h = *h; nthr++; sh->threads++; busy();
    point();
    return 0;
}
int pthread_join(pthread_t h, void **ret) {
    auto r = real<int (*)(pthread_t, void **)>("pthread_join");
    if (!managed()) return r(h, ret);
    for (int i = 0; i < nthr; i++) if (thr[i].f && pthread_equal(thr[i].h, h)) { block(Thr::JOIN, &thr[i]); thr[i].f = nullptr; sh->joined++; return r(h, ret); }
    fail("joins a thread that does not exist or was joined before");
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!managed()) return 0; busy(); point(); while (mx[m].owner >= 0) block(Thr::MUTEX, m); mx[m].owner = me; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (!managed()) return 0; point(); if (mx[m].owner >= 0) return EBUSY; mx[m].owner = me; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!managed()) return 0; mx[m].owner = -1; busy(); point(); return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    Thr &t = thr[me];
    t.signalled = t.timedout = false; t.timed = timed; mx[m].owner = -1;
    block(Thr::COND, c);
    t.timed = false;
    while (mx[m].owner >= 0) block(Thr::MUTEX, m);
    mx[m].owner = me;
    return t.timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return managed() ? cwait(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return managed() ? cwait(c, m, true) : 0; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return managed() ? cwait(c, m, true) : 0; }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!managed()) return 0; busy(); point(); for (int i = 0; i < nthr; i++) if (thr[i].alive && thr[i].wait == Thr::COND && thr[i].on == c && !thr[i].signalled) { thr[i].signalled = true; break; } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!managed()) return 0; busy(); point(); for (int i = 0; i < nthr; i++) if (thr[i].alive && thr[i].wait == Thr::COND && thr[i].on == c) thr[i].signalled = true; return 0; }
int sched_yield(void) noexcept { point(true); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { point(true); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { point(true); return 0; }
int clock_gettime(clockid_t, struct timespec *t) noexcept { now += 1000; if (t) { t->tv_sec = now / 1000000000; t->tv_nsec = now % 1000000000; } point(true); return 0; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *c) noexcept { for (int i = 0; i < CPUS; i++) if (CPU_ISSET(i, c)) return 0; return EINVAL; }
int __cxa_guard_acquire(long long *g) {
    if (*(volatile char *)g) return 0;
    if (managed()) { while (mx[g].owner >= 0) { if (mx[g].owner == me) fail("a static variable needs itself"); block(Thr::MUTEX, g); } if (*(volatile char *)g) return 0; mx[g].owner = me; }
    return 1;
}
void __cxa_guard_release(long long *g) { *(volatile char *)g = 1; if (managed()) mx[g].owner = -1; }
void __cxa_guard_abort(long long *g) { if (managed()) mx[g].owner = -1; }
// decisions at atomic operations of the compiled code
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { if (managed()) look((uintptr_t)p); return *p; } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { if (managed()) { busy(); thr[me].seen = 0; point(); } *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { if (managed()) look((uintptr_t)p); T o = *p; *p = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { if (managed()) { busy(); point(); } T o = *p; *p = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { if (managed()) { busy(); point(); } T o = *p; *p = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { if (managed()) { busy(); point(); } T o = *p; *p = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { if (managed()) { busy(); point(); } T o = *p; *p = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { if (managed()) { busy(); point(); } T o = *p; *p = (T)(o ^ v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (managed()) look((uintptr_t)p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { if (managed()) look((uintptr_t)p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { if (managed()) look((uintptr_t)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
unsigned std::random_device::_M_getval() { static unsigned x = 12345; return x = x * 1664525u + 1013904223u; }
