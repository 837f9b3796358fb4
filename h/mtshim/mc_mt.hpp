// Stand-in for Boost.Fiber and TBB's per-thread storage: the same interface on tasks and workers owned by the explorer.
// What the real ones do for the memory model is told to the explorer (release/acquire on the object concerned).
#pragma once
#include <chrono>
#include <cstddef>
#include <exception>
#include <functional>
#include <mutex>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define MCMT_OWN __attribute__((no_sanitize("thread"), noinline))
extern "C" {
void mcmt_spawn(void (*f)(void *), void *arg, int dispatch);
int mcmt_self(void);                 // running task
int mcmt_worker(void);               // worker that runs it
void mcmt_suspend(void);             // until woken
void mcmt_wake(int task);
void mcmt_yield(void);            // let the other tasks of this worker run
void mcmt_yield_point(void);      // another worker may run here
void mcmt_release(void *obj);
void mcmt_acquire(void *obj);
}
namespace boost { namespace fibers {
enum class launch { dispatch, post };
enum class future_status { ready, timeout, deferred };
enum class cv_status { no_timeout, timeout };
template <class R> struct mc_shared {
    bool done = false; int waiter = -1; std::exception_ptr ex;
    typename std::aligned_storage<sizeof(R), alignof(R)>::type v;
    MCMT_OWN void finish() { mcmt_acquire(this); done = true; mcmt_release(this); if (waiter >= 0) mcmt_wake(waiter); }
    MCMT_OWN void wait() { mcmt_yield_point(); mcmt_acquire(this); while (!done) { waiter = mcmt_self(); mcmt_release(this); mcmt_suspend(); mcmt_acquire(this); } mcmt_release(this); }
    template <class F> void call(F &f) { try { new (&v) R(f()); } catch (...) { ex = std::current_exception(); } }
    R take() { if (ex) std::rethrow_exception(ex); return std::move(*(R *)&v); }
    void put(R x) { new (&v) R(std::move(x)); }
};
template <> struct mc_shared<void> {
    bool done = false; int waiter = -1; std::exception_ptr ex;
    MCMT_OWN void finish() { mcmt_acquire(this); done = true; mcmt_release(this); if (waiter >= 0) mcmt_wake(waiter); }
    MCMT_OWN void wait() { mcmt_yield_point(); mcmt_acquire(this); while (!done) { waiter = mcmt_self(); mcmt_release(this); mcmt_suspend(); mcmt_acquire(this); } mcmt_release(this); }
    template <class F> void call(F &f) { try { f(); } catch (...) { ex = std::current_exception(); } }
    void take() { if (ex) std::rethrow_exception(ex); }
};
template <class R> class future {
    mc_shared<R> *s = nullptr;
  public:
    future() {}
    explicit future(mc_shared<R> *x) : s(x) {}
    future(future &&o) : s(o.s) { o.s = nullptr; }
    future &operator=(future &&o) { s = o.s; o.s = nullptr; return *this; }
    bool valid() const { return s; }
    void wait() const { s->wait(); }
    R get() { auto *x = s; s = nullptr; x->wait(); return x->take(); }
};
template <class R> class promise {
    mc_shared<R> *s = new mc_shared<R>;
  public:
    promise() {}
    promise(promise &&o) : s(o.s) { o.s = nullptr; }
    future<R> get_future() { return future<R>(s); }
    template <class... A> void set_value(A &&...a) { s->put(std::forward<A>(a)...); s->finish(); }
};
template <class S> class packaged_task;
template <class R, class... A> class packaged_task<R(A...)> {
    mc_shared<R> *s = nullptr; std::function<R(A...)> f;
  public:
    packaged_task() {}
    template <class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, packaged_task>::value>::type>
    explicit packaged_task(F &&g) : s(new mc_shared<R>), f(std::forward<F>(g)) {}
    packaged_task(packaged_task &&o) : s(o.s), f(std::move(o.f)) { o.s = nullptr; }
    packaged_task &operator=(packaged_task &&o) { s = o.s; f = std::move(o.f); o.s = nullptr; return *this; }
    bool valid() const { return s; }
    future<R> get_future() { return future<R>(s); }
    void operator()(A... a) { auto *x = s; auto g = [&]() -> R { return f(std::forward<A>(a)...); }; x->call(g); x->finish(); }
};
struct mc_body {
    std::function<void()> f; mc_shared<void> end;
    static void run(void *p) { auto *b = (mc_body *)p; b->f(); b->f = nullptr; b->end.finish(); }
};
class fiber {
    mc_body *b = nullptr;
    template <class F> static std::function<void()> hold(F f) { auto *p = new F(std::move(f)); return [p]() { (*p)(); delete p; }; }
    template <class F> void start(launch l, F f) { b = new mc_body; b->f = hold(std::move(f)); mcmt_spawn(mc_body::run, b, l == launch::dispatch); }
  public:
    fiber() {}
    template <class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, fiber>::value && !std::is_same<typename std::decay<F>::type, launch>::value>::type>
    explicit fiber(F &&f) { start(launch::post, typename std::decay<F>::type(std::forward<F>(f))); }
    template <class F, class X, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, launch>::value>::type>
    fiber(F &&f, X &&x, A &&...a) { start(launch::post, std::bind(std::forward<F>(f), std::forward<X>(x), std::forward<A>(a)...)); }
    template <class F> fiber(launch l, F &&f) { start(l, typename std::decay<F>::type(std::forward<F>(f))); }
    fiber(fiber &&o) : b(o.b) { o.b = nullptr; }
    fiber &operator=(fiber &&o) { b = o.b; o.b = nullptr; return *this; }
    ~fiber() { if (b) std::terminate(); }
    bool joinable() const { return b; }
    void join() { auto *x = b; b = nullptr; x->end.wait(); }
    void detach() { b = nullptr; }
};
template <class F, class... A> auto async(launch l, F &&f, A &&...a) -> future<typename std::result_of<typename std::decay<F>::type(typename std::decay<A>::type...)>::type> {
    typedef typename std::result_of<typename std::decay<F>::type(typename std::decay<A>::type...)>::type R;
    packaged_task<R()> p(std::bind(std::forward<F>(f), std::forward<A>(a)...));
    future<R> r = p.get_future();
    fiber(l, std::move(p)).detach();
    return r;
}
template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, launch>::value>::type>
auto async(F &&f, A &&...a) -> decltype(async(launch::post, std::forward<F>(f), std::forward<A>(a)...)) { return async(launch::post, std::forward<F>(f), std::forward<A>(a)...); }
struct mc_queue {
    int n = 0, v[64];
    MCMT_OWN void put(int t) { if (n == 64) std::terminate(); v[n++] = t; }
    MCMT_OWN int take() { int t = v[0]; n--; for (int i = 0; i < n; i++) v[i] = v[i + 1]; return t; }
};
class mutex {
    int owner = -1; mc_queue q;
  public:
    MCMT_OWN bool try_lock() { mcmt_yield_point(); mcmt_acquire(this); if (owner >= 0) return false; owner = mcmt_self(); return true; }
    MCMT_OWN void lock() { mcmt_yield_point(); while (owner >= 0) { q.put(mcmt_self()); mcmt_suspend(); } owner = mcmt_self(); mcmt_acquire(this); }
    MCMT_OWN void unlock() { owner = -1; mcmt_release(this); if (q.n) mcmt_wake(q.take()); }
};
class condition_variable_any {
    mc_queue q;
  public:
    template <class L> MCMT_OWN void wait(L &l) { q.put(mcmt_self()); l.unlock(); mcmt_suspend(); l.lock(); }
    template <class L, class P> void wait(L &l, P p) { while (!p()) wait(l); }
    MCMT_OWN void notify_one() { mcmt_yield_point(); if (q.n) mcmt_wake(q.take()); }
    MCMT_OWN void notify_all() { mcmt_yield_point(); for (int i = q.n; i > 0; i--) mcmt_wake(q.take()); }
};
typedef condition_variable_any condition_variable;
}
namespace this_fiber { inline void yield() { mcmt_yield(); } }
}
namespace oneapi { namespace tbb {
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template <class T, class... X> class enumerable_thread_specific {
    std::function<T *()> mk;
    std::vector<T *> v = std::vector<T *>(16, nullptr);
  public:
    typedef T value_type; typedef T &reference;
    enumerable_thread_specific() : mk([] { return new T(); }) {}
    template <class A, class... B, class = typename std::enable_if<!std::is_same<typename std::decay<A>::type, enumerable_thread_specific>::value>::type>
    explicit enumerable_thread_specific(A a, B... b) : mk([a, b...] { return mc_make(a, b...); }) {}
    enumerable_thread_specific(enumerable_thread_specific &&o) { v.swap(o.v); mk.swap(o.mk); }
    enumerable_thread_specific &operator=(enumerable_thread_specific &&o) { v.swap(o.v); mk.swap(o.mk); return *this; }
    ~enumerable_thread_specific() { clear(); }
    T &local() { bool e; return local(e); }
    MCMT_OWN T &local(bool &e) { T *&p = v[mcmt_worker()]; e = p; if (!p) p = mk(); return *p; }
    void clear() { for (auto &p : v) { delete p; p = nullptr; } }
    std::size_t size() const { std::size_t n = 0; for (auto p : v) if (p) n++; return n; }
    bool empty() const { return !size(); }
    template <class F> void combine_each(F f) { for (auto p : v) if (p) f(*p); }
    struct iterator {
        T **p, **e;
        iterator(T **a, T **b) : p(a), e(b) { skip(); }
        void skip() { while (p != e && !*p) ++p; }
        T &operator*() const { return **p; }
        T *operator->() const { return *p; }
        iterator &operator++() { ++p; skip(); return *this; }
        bool operator!=(const iterator &o) const { return p != o.p; }
        bool operator==(const iterator &o) const { return p == o.p; }
    };
    iterator begin() { return iterator(v.data(), v.data() + v.size()); }
    iterator end() { return iterator(v.data() + v.size(), v.data() + v.size()); }
  private:
    template <class A> static auto mc_make(A &a, int = 0) -> typename std::enable_if<std::is_constructible<T, A &>::value, T *>::type { return new T(a); }
    template <class A> static auto mc_make(A &a, int = 0) -> typename std::enable_if<!std::is_constructible<T, A &>::value, T *>::type { return new T(a()); }
    template <class A, class B, class... C> static T *mc_make(A &a, B &b, C &...c) { return new T(a, b, c...); }
};
}}
namespace tbb = oneapi::tbb;
