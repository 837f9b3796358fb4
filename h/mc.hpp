// Shared parts of the C++ explorers: dense reference algebra, reporting, crash handling.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdarg>
#include <exception>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <unordered_map>
#include <cstdint>

typedef std::complex<double> cd;

namespace mc {
// ------------------------------------------------------------------ dense reference algebra
struct Mat {
    int d;
    std::vector<cd> a;
    explicit Mat(int d_ = 0) : d(d_), a((size_t)d_ * d_) {}
    cd &operator()(int r, int c) { return a[(size_t)r * d + c]; }
    cd operator()(int r, int c) const { return a[(size_t)r * d + c]; }
    static Mat id(int d) { Mat m(d); for (int i = 0; i < d; i++) m(i, i) = 1; return m; }
};
typedef std::vector<cd> Vec;
inline Mat mul(const Mat &x, const Mat &y) {
    Mat r(x.d);
    for (int i = 0; i < x.d; i++)
        for (int k = 0; k < x.d; k++) {
            cd v = x(i, k);
            if (v == 0.0) continue;
            for (int j = 0; j < x.d; j++) r(i, j) += v * y(k, j);
        }
    return r;
}
inline Mat add(const Mat &x, const Mat &y) { Mat r(x.d); for (size_t i = 0; i < r.a.size(); i++) r.a[i] = x.a[i] + y.a[i]; return r; }
inline Vec mulv(const Mat &x, const Vec &y) {
    Vec r(x.d);
    for (int i = 0; i < x.d; i++) for (int k = 0; k < x.d; k++) r[i] += x(i, k) * y[k];
    return r;
}
inline Vec addv(const Vec &x, const Vec &y) { Vec r(x.size()); for (size_t i = 0; i < r.size(); i++) r[i] = x[i] + y[i]; return r; }
inline Mat kron(const Mat &x, const Mat &y) {
    Mat r(x.d * y.d);
    for (int i = 0; i < x.d; i++) for (int j = 0; j < x.d; j++)
        for (int k = 0; k < y.d; k++) for (int l = 0; l < y.d; l++) r(i * y.d + k, j * y.d + l) = x(i, j) * y(k, l);
    return r;
}
inline double diff(const std::vector<cd> &x, const std::vector<cd> &y) {
    if (x.size() != y.size()) return 1e300;
    double m = 0;
    for (size_t i = 0; i < x.size(); i++) { double e = std::abs(x[i] - y[i]); if (!(e <= m)) m = e; }
    return m;
}
inline double norm2v(const Vec &x) { double s = 0; for (auto &c : x) s += std::norm(c); return s; }
// Operator acting on `targets` (targets[0] = least significant index bit of g), controlled on ctrl
// (pair qubit, value), identity elsewhere.
inline Mat embed(int n, const std::vector<std::vector<cd>> &g, const std::vector<int> &targets,
                 const std::vector<std::pair<int, int>> &ctrl = {}) {
    int D = 1 << n, k = (int)targets.size();
    Mat m(D);
    for (int col = 0; col < D; col++) {
        bool on = true;
        for (auto &c : ctrl) if (((col >> c.first) & 1) != c.second) on = false;
        if (!on) { m(col, col) = 1; continue; }
        int gc = 0, rest = col;
        for (int t = 0; t < k; t++) { gc |= ((col >> targets[t]) & 1) << t; rest &= ~(1 << targets[t]); }
        for (int gr = 0; gr < (1 << k); gr++) {
            int row = rest;
            for (int t = 0; t < k; t++) if ((gr >> t) & 1) row |= 1 << targets[t];
            m(row, col) += g[gr][gc];
        }
    }
    return m;
}
inline std::string key(const std::vector<cd> &x, double q = 1e-6) {
    std::string s;
    s.reserve(x.size() * 8);
    for (auto &c : x) {
        int32_t r = (int32_t)std::llround(c.real() / q), i = (int32_t)std::llround(c.imag() / q);
        s.append((char *)&r, 4); s.append((char *)&i, 4);
    }
    return s;
}

inline std::string fmt(const char *f, ...) {
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
// ------------------------------------------------------------------ reporting
struct Ctx {
    std::string prop, shard, replay_dir, out, tier;
    std::vector<std::string> argv;
    long states = 0, transitions = 0, evals = 0, validated = 0;
    std::map<std::string, long> extra;
    std::vector<std::string> samples;
    std::set<std::string> outcomes;
    std::unordered_set<uint64_t> seen;   // distinct states, by hash
    char *trace = nullptr;               // shared page: what is being executed now
};
inline Ctx &ctx() { static Ctx c; return c; }
const size_t TRACE_SZ = 1 << 16;
inline void at(const std::string &s) {
    Ctx &c = ctx();
    size_t n = std::min(s.size(), TRACE_SZ - 1);
    memcpy(c.trace, s.data(), n);
    c.trace[n] = 0;
}
inline void emit_violation(const char *what) {
    Ctx &c = ctx();
    char path[1024];
    snprintf(path, sizeof path, "%s/%s.%s.%d.txt", c.replay_dir.c_str(), c.prop.c_str(), c.shard.c_str(), (int)getpid());
    FILE *f = fopen(path, "w");
    if (f) {
        fprintf(f, "property: %s\nwhat: %s\ntrace: %s\ncommand:", c.prop.c_str(), what, c.trace);
        for (auto &a : c.argv) fprintf(f, " '%s'", a.c_str());
        fprintf(f, "\n");
        fclose(f);
    }
    dprintf(1, "VIOLATION-DETAIL what=%s trace=%s\nVIOLATION property=%s replay=%s\n", what, c.trace, c.prop.c_str(), path);
}
[[noreturn]] inline void fail(const std::string &what) {
    emit_violation(what.c_str());
    _exit(1);
}
inline void on_signal(int sig) {
    char b[64];
    snprintf(b, sizeof b, sig == SIGVTALRM ? "no progress within the CPU-time limit (signal %d)" : "crashed with signal %d", sig);
    emit_violation(b);
    _exit(1);
}
inline void watchdog(int cpu_seconds) {  // one step must not use more CPU time than this
    struct itimerval it{};
    it.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
inline void on_terminate() {
    std::string w = "uncaught exception";
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); }
    catch (std::exception &e) { w += std::string(": ") + e.what(); }
    catch (...) {}
    fail(w);
}
// args: --prop C01 --shard i/n --tier quick --replay-dir D --out F [--key value...]
inline std::map<std::string, std::string> init(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC")) {
        setenv("MC_REEXEC", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i] + 2] = argv[i + 1];
    Ctx &c = ctx();
    for (int i = 0; i < argc; i++) c.argv.push_back(argv[i]);
    c.prop = a["prop"]; c.tier = a["tier"]; c.out = a["out"];
    c.replay_dir = a.count("replay-dir") ? a["replay-dir"] : "/tmp";
    c.shard = a["name"].empty() ? "s" : a["name"];
    c.trace = (char *)mmap(0, TRACE_SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    return a;
}
inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; }
    return r + "\"";
}
inline void state(const std::string &k) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : k) h = (h ^ ch) * 1099511628211ull;
    ctx().seen.insert(h ^ (h >> 29));
}
// one execution on the real code was carried out to its end and agreed with the reference
inline void done() {
    Ctx &c = ctx();
    long n = ++c.validated;
    if (n == 1 || n == 40 || n == 700 || n == 5000) c.samples.push_back(c.trace);
}
inline void finish() {
    Ctx &c = ctx();
    c.states += (long)c.seen.size();
    watchdog(0);
    FILE *f = fopen(c.out.c_str(), "w");
    if (!f) { perror(c.out.c_str()); _exit(3); }
    fprintf(f, "{\"states\":%ld,\"transitions\":%ld,\"evaluations\":%ld,\"traces_validated_against_impl\":%ld,\"distinct_outcomes\":%zu", c.states, c.transitions, c.evals, c.validated, c.outcomes.size());
    for (auto &e : c.extra) fprintf(f, ",%s:%ld", jstr(e.first).c_str(), e.second);
    fprintf(f, ",\"samples\":[");
    for (size_t i = 0; i < c.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(c.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    fflush(stdout);
    _exit(0);
}
}  // namespace mc
