#include "mtrt.hpp"
#include "mc.hpp"
#include <malloc.h>
#include <ucontext.h>
#include <deque>
#include <new>
using namespace mc;
extern "C" {
void mcmt_spawn(void (*f)(void *), void *arg, int dispatch);
int mcmt_self(void);
int mcmt_worker(void);
void mcmt_suspend(void);
void mcmt_wake(int task);
void mcmt_yield(void);
void mcmt_yield_point(void);
void mcmt_release(void *obj);
void mcmt_acquire(void *obj);
}
namespace mt {
typedef uint32_t Clk;
struct VC { Clk c[MAXW] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < MAXW; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum FS { READY, RUN, SUSP, DEAD };
struct Fiber { ucontext_t c; char *stack = nullptr; FS st = READY; int worker = 0; VC clk; bool pinned = false, token = false; void (*fn)(void *) = nullptr; void *arg = nullptr; };
struct Worker { int cur = -1; std::deque<int> q, remote; VC c; uintptr_t spin = 0, seen = 0; int times = 0; };   // spin: waits for a change there
int W = 1, base_ = KEEP;
std::vector<Dev> devs;
std::string (*describe)(const std::string &);
static std::vector<Fiber *> fib;
static Worker wk[MAXW];
static int cw = 0;                 // running worker
static ucontext_t schedc;
static bool live = false;          // the engine runs under control
static int quiet = 0, own = 0;     // no decisions / accesses of the explorer itself
static int budget = 0; static long ndec = 0, limit_ = 0, nswitch = 0;
static std::vector<Dev> script; static size_t scripti = 0;
static Totals *tot;                // shared
static bool mainDone = false;
static void (*bodyf)(); static void (*endf)();
static int stuck = 0, zombie = -1;
static const size_t STK = 256 << 10;
static std::vector<char *> pool;
struct Own { Own() { own++; } ~Own() { own--; } };
static std::string devstr() { std::string s; for (auto &d : devs) s += fmt("%d:%d ", d.at, d.choice); return s; }
static void retrace() { if (describe) at(describe(devstr())); }
// ------------------------------------------------------------------------------------------ shadow memory
enum Kind { PR, PW, AR, AW_ };
struct Cell { Clk wc = 0; uint8_t ww = 0, freed = 0; Clk r[MAXW] = {0, 0, 0, 0}, aw[MAXW] = {0, 0, 0, 0}, ar[MAXW] = {0, 0, 0, 0}; void *pc = nullptr, *wpc = nullptr; uint8_t pk = 0, wk_ = PW; };
struct Granule { uint8_t mask = 0; Cell one; Cell *split = nullptr; };
struct Page { Granule g[64]; };    // 512 bytes
static std::unordered_map<uintptr_t, Page *> pages; static uintptr_t lastp = 0; static Page *lastpg = nullptr;
static Granule &granule(uintptr_t a) {
    uintptr_t p = a >> 9;
    if (p != lastp || !lastpg) { Page *&x = pages[p]; if (!x) x = new Page(); lastp = p; lastpg = x; }
    return lastpg->g[(a >> 3) & 63];
}
static std::string sym(void *pc) {
    char cmd[256], b[512] = ""; snprintf(cmd, sizeof cmd, "addr2line -Cfpse /proc/%d/exe %p 2>/dev/null", (int)getpid(), (void *)((char *)pc - 1));
    FILE *f = popen(cmd, "r"); std::string s;
    if (f) { if (fgets(b, sizeof b, f)) s = b; pclose(f); }
    while (!s.empty() && s.back() == '\n') s.pop_back();
    return s.empty() ? "?" : s.substr(0, 300);
}
static const char *kname[] = {"read", "write", "atomic read", "atomic write"};
static void race(const Cell &c, int other, Kind k, void *pc) {
    Own o; live = false;
    fail(fmt("data race: worker %d %ss memory that worker %d accesses without ordering (%s; earlier %s: %s)", cw, kname[k], other, sym(pc).c_str(), kname[k == PW || k == AW_ ? c.pk : c.wk_], sym(k == PW || k == AW_ ? c.pc : c.wpc).c_str()));
}
static inline void touch(Cell &c, Kind k, void *pc) {
    VC &v = wk[cw].c;
    if (c.freed) { Own o; live = false; fail(fmt("%s of memory that has been freed (%s; freed in %s)", kname[k], sym(pc).c_str(), c.pc ? sym(c.pc).c_str() : "?")); }
    if (c.wc > v.c[c.ww]) race(c, c.ww, k, pc);
    if (k == PW || k == AW_) for (int i = 0; i < W; i++) if (c.r[i] > v.c[i]) race(c, i, k, pc);
    if (k == PR || k == PW) for (int i = 0; i < W; i++) if (c.aw[i] > v.c[i]) race(c, i, k, pc);
    if (k == PW) for (int i = 0; i < W; i++) if (c.ar[i] > v.c[i]) race(c, i, k, pc);
    Clk me = v.c[cw];
    switch (k) {
    case PR: c.r[cw] = me; break;
    case PW: c.wc = me; c.ww = (uint8_t)cw; break;
    case AR: c.ar[cw] = me; break;
    case AW_: c.aw[cw] = me; break;
    }
    c.pc = pc; c.pk = k; if (k == PW || k == AW_) { c.wpc = pc; c.wk_ = k; }
}
static void piece(uintptr_t a, uint8_t mask, Kind k, void *pc) {
    Granule &g = granule(a);
    if (!g.split) {
        if (!g.mask || g.mask == mask) { g.mask = mask; touch(g.one, k, pc); return; }
        g.split = new Cell[8];
        for (int i = 0; i < 8; i++) if (g.mask >> i & 1) g.split[i] = g.one;
    }
    for (int i = 0; i < 8; i++) if (mask >> i & 1) touch(g.split[i], k, pc);
}
static inline void access(const void *p, size_t n, Kind k, void *pc) {
    if (!live || own) return;
    Own o;
    uintptr_t a = (uintptr_t)p, e = a + n;
    while (a < e) { uintptr_t b = std::min(e, (a | 7) + 1); piece(a, (uint8_t)(((1u << (b - a)) - 1) << (a & 7)), k, pc); a = b; }
}
static void forget(const void *p, size_t n) {   // a stack used again
    for (uintptr_t a = (uintptr_t)p, e = a + n; a < e; a += 512) { auto i = pages.find(a >> 9); if (i != pages.end()) for (auto &g : i->second->g) { delete[] g.split; g = Granule(); } }
}
// ------------------------------------------------------------------------------------------ synchronisation
struct Sync { VC c; };
static std::unordered_map<uintptr_t, Sync> syncs;
static void acq(uintptr_t a) { auto i = syncs.find(a); if (i != syncs.end()) wk[cw].c.join(i->second.c); }
static void rel(uintptr_t a, bool replace = false) { Sync &s = syncs[a]; if (replace) s.c = wk[cw].c; else s.c.join(wk[cw].c); wk[cw].c.c[cw]++; }
// ------------------------------------------------------------------------------------------ scheduling
static bool ready(int w) { Worker &k = wk[w]; return k.cur >= 0 ? !k.spin : !k.q.empty() || !k.remote.empty(); }
static int stealable(int w) { Worker &k = wk[w]; return !k.q.empty() && !fib[k.q.front()]->pinned ? k.q.front() : -1; }
struct Opt { int w, victim; };   // victim -1: own work
static void options(std::vector<Opt> &o) {
    for (int w = 0; w < W; w++) {
        if (ready(w)) o.push_back({w, -1});
        else if (wk[w].cur < 0) for (int v = 0; v < W; v++) if (v != w && stealable(v) >= 0) o.push_back({w, v});
    }
}
static std::string where() {
    std::string s;
    for (int w = 0; w < W; w++) s += wk[w].cur < 0 ? fmt(" worker %d has nothing to run;", w) : wk[w].spin ? fmt(" worker %d (task %d) waits for a lock that is never released;", w, wk[w].cur) : fmt(" worker %d runs;", w);
    int n = 0; for (auto *f : fib) if (f->st == SUSP) n++;
    return s + fmt(" %d tasks wait", n);
}
static int rr = 0;
static Opt prefer(const std::vector<Opt> &o, bool cont) {
    auto find = [&](int w) { for (auto &x : o) if (x.w == w) return &x; return (const Opt *)nullptr; };
    if (base_ == ROBIN) { for (int d = 1; d <= W; d++) if (auto *x = find((cw + d) % W)) return *x; }
    if (base_ == STEAL) { for (auto &x : o) if (x.victim >= 0) return x; if (cont) if (auto *x = find(cw)) return *x; for (int d = 1; d <= W; d++) if (auto *x = find((cw + d) % W)) return *x; }
    if (base_ == LAST) return o.back();
    if (cont) if (auto *x = find(cw)) return *x;
    return o[0];
}
static Opt next_ = {-1, -1};
// A decision: who runs next. In the task that reached it; forks one process per deviation still allowed.
static Opt decide() {
    std::vector<Opt> o; options(o);
    if (o.empty() && ++stuck < 100) { for (int w = 0; w < W; w++) wk[w].spin = 0; options(o); }   // perhaps it was not waiting
    if (o.empty()) { live = false; fail("no progress:" + where()); }
    bool cont = wk[cw].cur >= 0 && !wk[cw].spin;
    Opt d = quiet && cont ? Opt{cw, -1} : prefer(o, cont);
    if (quiet) return d;
    long n = ndec++;
    if (n > 200000) { live = false; fail("no progress: 200000 decisions"); }
    if (scripti < script.size() && script[scripti].at == n) { auto x = script[scripti++]; if (x.choice >= (int)o.size()) { live = false; fail("the schedule to be replayed does not exist here"); } devs.push_back(x); retrace(); return o[x.choice]; }
    if (budget > 0 && o.size() > 1)
        for (size_t i = 0; i < o.size(); i++) {
            if (o[i].w == d.w && o[i].victim == d.victim) continue;
            if (tot->executions >= limit_) { tot->cut = 1; break; }
            pid_t p = fork();
            if (p < 0) { perror("fork"); _exit(3); }
            if (p == 0) { budget--; devs.push_back({(int)n, (int)i}); retrace(); watchdog(20); return o[i]; }
            int st; while (waitpid(p, &st, 0) < 0) {}
            if (WIFSIGNALED(st)) { devs.push_back({(int)n, (int)i}); retrace(); live = false; fail(fmt("killed by signal %d", WTERMSIG(st))); }
            if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
            retrace();
        }
    return d;
}
static void tosched(int me) { int s = own; own = 1; swapcontext(&fib[me]->c, &schedc); own = s; }
static void go(const Opt &o) {     // from a task: let o.w run
    if (o.w == cw && o.victim < 0 && wk[cw].cur >= 0) return;
    nswitch++;
    next_ = o;
    int me = wk[cw].cur;
    if (me < 0) abort();
    tosched(me);
}
static void point() { if (!live) return; Own o; if (W > 1 && !quiet) go(decide()); }
static void leave(FS st) {         // the running task gives up its worker
    int w = cw, me = wk[w].cur; Fiber &f = *fib[me];
    f.st = st; f.clk.join(wk[w].c); wk[w].c.c[w]++;
    wk[w].cur = -1;
    next_ = decide();
    if (st == DEAD) zombie = me;
    tosched(me);
}
static void entry() { int me = wk[cw].cur; own = 0; fib[me]->fn(fib[me]->arg); own = 1; leave(DEAD); abort(); }
static void start(int id) {
    Fiber &f = *fib[id];
    if (pool.empty()) f.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    else { f.stack = pool.back(); pool.pop_back(); forget(f.stack, STK); }
    getcontext(&f.c); f.c.uc_stack.ss_sp = f.stack; f.c.uc_stack.ss_size = STK; f.c.uc_link = nullptr;
    makecontext(&f.c, entry, 0);
}
static void dispatch(const Opt &o) {
    int w = o.w; Worker &k = wk[w]; cw = w;
    if (k.cur < 0) {
        for (int x : k.remote) k.q.push_back(x);
        k.remote.clear();
        int id;
        if (o.victim >= 0) { id = wk[o.victim].q.front(); wk[o.victim].q.pop_front(); }
        else { id = k.q.front(); k.q.pop_front(); }
        Fiber &f = *fib[id];
        if (!f.stack) start(id);
        f.st = RUN; f.worker = w; k.c.join(f.clk); k.cur = id;
    }
    if (tot) tot->switches++;
    k.seen = 0; k.times = 0;
    swapcontext(&schedc, &fib[k.cur]->c);
    if (zombie >= 0) { Fiber &z = *fib[zombie]; pool.push_back(z.stack); z.stack = nullptr; zombie = -1; }
}
static void reset() {
    for (auto *f : fib) { if (f->stack) pool.push_back(f->stack); delete f; }
    fib.clear(); syncs.clear(); lastpg = nullptr;
    for (auto &p : pages) { for (auto &g : p.second->g) delete[] g.split; delete p.second; }
    pages.clear();
    for (auto &w : wk) w = Worker();
    for (int w = 0; w < MAXW; w++) wk[w].c.c[w] = 1;
    ndec = 0; nswitch = 0; rr = 0; devs.clear(); scripti = 0; mainDone = false; cw = 0; stuck = 0; zombie = -1;
}
static void mainbody(void *) { bodyf(); mainDone = true; quiet++; endf(); live = false; own = 1;
    if (tot) { tot->executions++; tot->decisions += ndec; if (ndec > tot->longest) tot->longest = ndec; }
    swapcontext(&fib[0]->c, &schedc); }
static void world(void (*f)(), void (*e)()) {
    reset();
    bodyf = f; endf = e;
    fib.push_back(new Fiber); fib[0]->pinned = true; fib[0]->fn = mainbody; wk[0].q.push_back(0);
    quiet = 0; own = 1; live = true;
    next_ = {0, -1};
    while (live) { Opt o = next_; dispatch(o); }
    own = 0;
}
static void inchild(const std::function<void()> &f) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) { watchdog(30); f(); fflush(stdout); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) fail(fmt("killed by signal %d", WTERMSIG(st)));
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
}
void explore(int workers, int base, int b, long limit, void (*f)(), void (*e)(), Totals &t) {
    static Totals *sh = (Totals *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)sh, 0, sizeof *sh);
    tot = sh; W = workers; base_ = base; budget = b; limit_ = limit; script.clear(); devs.clear();
    retrace();
    inchild([&] { world(f, e); });
    t = *sh;
}
void replay(int workers, int base, const std::vector<Dev> &d, void (*f)(), void (*e)()) {
    W = workers; base_ = base; budget = 0; script = d; devs.clear();
    retrace();
    inchild([&] { world(f, e); });
}
void undisturbed(bool on) { quiet += on ? 1 : -1; }
void prewarm(int workers, void (*f)()) { for (cw = 0; cw < workers; cw++) f(); cw = 0; }
// ------------------------------------------------------------------------------------------ atomics
static void changed(uintptr_t a) { stuck = 0; for (int w = 0; w < W; w++) if (wk[w].spin && (wk[w].spin >> 3) == (a >> 3)) wk[w].spin = 0; }
static void blockon(uintptr_t a) {     // nothing to do until somebody changes a
    if (!live) { fprintf(stderr, "spins outside\n"); abort(); }
    Own o;
    wk[cw].spin = a;
    go(decide());
}
static bool isacq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool isrel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
// true if the running worker keeps looking at the same place and nothing else happens
static bool again(uintptr_t p) { Worker &k = wk[cw]; if (k.seen != p) { k.seen = p; k.times = 0; return false; } k.times++; return true; }
static void fresh() { wk[cw].seen = 0; }
template <class T> static T a_load(const volatile T *p, int mo, void *pc) {
    if (!live || own) return *p;
    if (wk[cw].seen != (uintptr_t)p) point();
    access((const void *)p, sizeof(T), AR, pc);
    { Own o; if (isacq(mo)) acq((uintptr_t)p); }
    T v = *p;
    if (again((uintptr_t)p) && wk[cw].times > 64) { fresh(); blockon((uintptr_t)p); }
    return v;
}
template <class T> static void a_store(volatile T *p, T v, int mo, void *pc) {
    if (!live || own) { *p = v; return; }
    point(); fresh();
    access((const void *)p, sizeof(T), AW_, pc);
    { Own o; if (isrel(mo)) rel((uintptr_t)p, true); else syncs.erase((uintptr_t)p); }
    *p = v; changed((uintptr_t)p);
}
template <class T, class F> static T a_rmw(volatile T *p, int mo, void *pc, F f) {
    if (!live || own) { T o = *p; *p = f(o); return o; }
    if (wk[cw].seen != (uintptr_t)p) point();
    access((const void *)p, sizeof(T), AW_, pc);
    { Own o; if (isacq(mo)) acq((uintptr_t)p); }
    T old = *p, nw = f(old);
    if (nw == old) { if (again((uintptr_t)p) && wk[cw].times > 4) { fresh(); blockon((uintptr_t)p); } return old; }
    fresh();
    { Own o; if (isrel(mo)) rel((uintptr_t)p); }
    *p = nw; changed((uintptr_t)p);
    return old;
}
template <class T> static int a_cas(volatile T *p, T *e, T v, int mo, int fmo, void *pc) {
    if (!live || own) { T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; }
    if (wk[cw].seen != (uintptr_t)p) point();
    access((const void *)p, sizeof(T), AW_, pc);
    T old = *p; bool ok = old == *e;
    { Own o; if (isacq(ok ? mo : fmo)) acq((uintptr_t)p); }
    if (ok) { fresh(); { Own o; if (isrel(mo)) rel((uintptr_t)p); } *p = v; changed((uintptr_t)p); return 1; }
    *e = old;
    if (again((uintptr_t)p) && wk[cw].times > 4) { fresh(); blockon((uintptr_t)p); }
    return 0;
}
struct Lock { int owner = -1, depth = 0, readers = 0; };
static std::unordered_map<uintptr_t, Lock> locks;
static bool inside() { return live && !own; }
}  // namespace mt
using namespace mt;
// ---------------------------------------------------------------------------------------------- what the engine calls
extern "C" {
void mcmt_spawn(void (*f)(void *), void *arg, int disp) {
    Own o;
    Fiber *b = new Fiber; b->fn = f; b->arg = arg; b->worker = cw; b->clk = wk[cw].c; wk[cw].c.c[cw]++;
    int id = (int)fib.size(); fib.push_back(b);
    if (disp) { int me = wk[cw].cur; wk[cw].q.push_front(id); wk[cw].q.push_back(me); leave(READY); return; }
    wk[cw].q.push_back(id); stuck = 0;
    if (W > 1 && !quiet) go(decide());
}
int mcmt_self(void) { return wk[cw].cur; }
int mcmt_worker(void) { return cw; }
void mcmt_suspend(void) { Own o; Fiber &f = *fib[wk[cw].cur]; if (f.token) { f.token = false; return; } leave(SUSP); fib[wk[cw].cur]->token = false; }
void mcmt_wake(int t) {
    Own o; Fiber &f = *fib[t];
    if (f.st != SUSP) { f.token = true; return; }
    stuck = 0;
    f.st = READY; f.clk.join(wk[cw].c); wk[cw].c.c[cw]++;
    if (f.worker == cw) wk[cw].q.push_back(t); else wk[f.worker].remote.push_back(t);
    if (W > 1 && !quiet) go(decide());
}
void mcmt_yield(void) { if (!live) return; Own o; wk[cw].q.push_back(wk[cw].cur); leave(READY); }
void mcmt_yield_point(void) { point(); }
void mcmt_release(void *p) { Own o; rel((uintptr_t)p); }
void mcmt_acquire(void *p) { Own o; acq((uintptr_t)p); }
int sched_yield(void) { if (inside()) { Own o; go(decide()); } return 0; }
#undef PC
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, PR, PC); } void __tsan_write##n(void *p) { access(p, n, PW, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, PR, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, PW, PC); } \
    void __tsan_read_write##n(void *p) { access(p, n, PR, PC); access(p, n, PW, PC); } void __tsan_unaligned_read_write##n(void *p) { access(p, n, PR, PC); access(p, n, PW, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, PR, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, PW, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, PR, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, PW, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, PW, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, PR, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, PR, PC); access(d, n, PW, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, PW, PC); return memset(d, c, n); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { return a_load<T>(p, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { a_store<T>(p, v, mo, PC); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T) { return v; }); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o + v); }); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o - v); }); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o & v); }); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o | v); }); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { return a_rmw<T>(p, mo, PC, [v](T o) { return (T) ~(o & v); }); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { return a_cas<T>(p, e, v, mo, f, PC); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return a_cas<T>(p, e, v, mo, f, PC); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { a_cas<T>(p, &e, v, mo, f, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (inside()) { Own o; static char f; acq((uintptr_t)&f); rel((uintptr_t)&f); } }
void __tsan_atomic_signal_fence(int) {}
// thread-local variables: one copy per worker
struct Emu { size_t size, align; void *loc, *templ; };
void *__emutls_get_address(Emu *e) {
    Own o;
    static std::map<std::pair<Emu *, int>, void *> m;
    void *&p = m[{e, cw}];
    if (!p) { p = aligned_alloc(64, (e->size + 127) & ~63ul); if (e->templ) memcpy(p, e->templ, e->size); else memset(p, 0, e->size); }
    return p;
}
// locks and one-time initialisation
static void l_lock(uintptr_t a, bool shared) {
    Own o;
    if (W > 1 && !quiet) go(decide());
    for (;;) {
        Lock &l = locks[a];
        if (shared ? l.owner < 0 : l.owner < 0 && !l.readers) { if (shared) l.readers++; else l.owner = wk[cw].cur; acq(a); return; }
        wk[cw].spin = a; go(decide());
    }
}
static int l_try(uintptr_t a, bool shared) { Own o; if (W > 1 && !quiet) go(decide()); Lock &l = locks[a]; if (l.owner >= 0 || (!shared && l.readers)) return 16; if (shared) l.readers++; else l.owner = wk[cw].cur; acq(a); return 0; }
static void l_unlock(uintptr_t a) { Own o; if (W > 1 && !quiet) go(decide()); Lock &l = locks[a]; if (l.readers) l.readers--; else l.owner = -1; rel(a); changed(a); }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (inside()) l_lock((uintptr_t)m, false); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return inside() ? l_try((uintptr_t)m, false) : 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (inside()) l_unlock((uintptr_t)m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { if (inside()) l_lock((uintptr_t)m, false); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { if (inside()) l_lock((uintptr_t)m, true); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { return inside() ? l_try((uintptr_t)m, false) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept { return inside() ? l_try((uintptr_t)m, true) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { if (inside()) l_unlock((uintptr_t)m); return 0; }
int __cxa_guard_acquire(long long *g) {
    if (*(uint8_t *)g) { if (inside()) { Own o; acq((uintptr_t)g); } return 0; }
    if (inside()) { l_lock((uintptr_t)g, false); if (*(uint8_t *)g) { l_unlock((uintptr_t)g); return 0; } }
    return 1;
}
void __cxa_guard_release(long long *g) { *(uint8_t *)g = 1; if (inside()) l_unlock((uintptr_t)g); }
void __cxa_guard_abort(long long *g) { if (inside()) l_unlock((uintptr_t)g); }
}
// memory: under control nothing is given back, so that later use of it is seen; or, with reuse, big blocks go to whoever next asks
// for as much (what was done to them before is done with: freeing and allocating are ordered by the allocator)
int mt::reuse = 0;
static std::unordered_map<size_t, std::vector<void *>> spare;
static void *take(size_t n, size_t al) {
    if (mt::reuse && live && !own && al <= 16 && n >= 200) {
        Own o;
        auto it = spare.find((n + 15) / 16);
        if (it != spare.end() && !it->second.empty()) {
            auto &l = it->second; auto w = mt::reuse == 1 ? l.end() - 1 : mt::reuse == 2 ? l.begin() : std::min_element(l.begin(), l.end());
            void *p = *w; l.erase(w);
            for (size_t i = 0; i < malloc_usable_size(p); i += 8) { Granule &g = granule((uintptr_t)p + i); delete[] g.split; g = Granule(); syncs.erase((uintptr_t)p + i); }
            return p;
        }
    }
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void give(void *p, void *pc) {
    if (!p) return;
    if (!live || own) { if (!live) free(p); else if (own) free(p); return; }
    size_t n = malloc_usable_size(p);
    Own o;
    for (size_t i = 0; i < n; i += 8) {
        Granule &g = granule((uintptr_t)p + i);
        if (g.split) { for (int j = 0; j < 8; j++) { touch(g.split[j], PW, pc); g.split[j].freed = 1; } }
        else { touch(g.one, PW, pc); g.one.freed = 1; g.mask = 255; }
    }
    if (mt::reuse && n >= 200) spare[n / 16].push_back(p);
}
void *operator new(size_t n) { return take(n, 0); }
void *operator new[](size_t n) { return take(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return take(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { give(p, PC); }
void operator delete[](void *p) noexcept { give(p, PC); }
void operator delete(void *p, size_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t) noexcept { give(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { give(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { give(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { give(p, PC); }
