// Observations of /repo's decision diagrams as dense data, and the gate set used by the explorers.
#pragma once
#include "common.h"
#include "dd.h"
#include "mc.hpp"
#include <iostream>
#include <sstream>
extern "C" {
void mcrng_arm(const uint64_t *s, uint64_t n, uint64_t dflt);
uint64_t mcrng_draws(void);
void mcrng_disarm(void);
}
namespace mc {
inline Vec dense(const vEdge &e, int n) {
    Vec r((size_t)1 << n);
    if (e.isTerminal()) {
        if (std::abs(e.w.r) > 1e-12 || std::abs(e.w.i) > 1e-12) fail(fmt("a vector of %d qubits became a nonzero scalar", n));
        return r;
    }
    if (e.getVar() != n - 1) fail(fmt("a vector of %d qubits became one of %d qubits", n, (int)e.getVar() + 1));
    std::size_t d = 0;
    std_complex *p = e.getVector(&d);
    if (d != r.size()) fail(fmt("vector read back with dimension %zu instead of %zu", d, r.size()));
    for (size_t i = 0; i < d; i++) r[i] = cd(p[i].r, p[i].i);
    delete[] p;
    return r;
}
inline Mat dense(const mEdge &e, int n) {
    std::size_t d = 0;
    if ((int)e.getVar() >= n) fail(fmt("a matrix on %d qubits has a node at level %d", n, (int)e.getVar()));
    std_complex **p = e.getMatrix(&d, n);
    if (d != (size_t)1 << n) fail(fmt("matrix read back with dimension %zu", d));
    Mat r((int)d);
    for (size_t i = 0; i < d; i++) {
        for (size_t j = 0; j < d; j++) r((int)i, (int)j) = cd(p[i][j].r, p[i][j].i);
        delete[] p[i];
    }
    delete[] p;
    return r;
}
// ---- reference matrices, written down from the textbook definitions (not from the code under test)
typedef std::vector<std::vector<cd>> G;
inline G g2(cd a, cd b, cd c, cd d) { return G{{a, b}, {c, d}}; }
const double R2 = std::sqrt(0.5), MPI_ = std::acos(-1.0);
const cd I1(0, 1);
inline cd ex(double t) { return std::polar(1.0, t); }
inline G gI() { return g2(1, 0, 0, 1); }
inline G gH() { return g2(R2, R2, R2, -R2); }
inline G gX() { return g2(0, 1, 1, 0); }
inline G gY() { return g2(0, -I1, I1, 0); }
inline G gZ() { return g2(1, 0, 0, -1); }
inline G gP(double t) { return g2(1, 0, 0, ex(t)); }
inline G gRX(double t) { return g2(cos(t / 2), -I1 * sin(t / 2), -I1 * sin(t / 2), cos(t / 2)); }
inline G gRY(double t) { return g2(cos(t / 2), -sin(t / 2), sin(t / 2), cos(t / 2)); }
inline G gRZ(double t) { return g2(ex(-t / 2), 0, 0, ex(t / 2)); }
inline G gU(double th, double ph, double la, double ga) {
    return g2(ex(ga) * cos(th / 2), -ex(ga + la) * sin(th / 2), ex(ga + ph) * sin(th / 2), ex(ga + ph + la) * cos(th / 2));
}
inline G gR(double th, double ph) { return g2(cos(th / 2), -I1 * ex(-ph) * sin(th / 2), -I1 * ex(ph) * sin(th / 2), cos(th / 2)); }
inline G gSX() { return g2(cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5)); }
inline G gSXd() { return g2(cd(.5, -.5), cd(.5, .5), cd(.5, .5), cd(.5, -.5)); }
inline G kronG(const G &a, const G &b) {
    G r(a.size() * b.size(), std::vector<cd>(a.size() * b.size()));
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++)
        for (size_t k = 0; k < b.size(); k++) for (size_t l = 0; l < b.size(); l++) r[i * b.size() + k][j * b.size() + l] = a[i][j] * b[k][l];
    return r;
}
inline G lin(cd x, const G &a, cd y, const G &b) {
    G r = a;
    for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) r[i][j] = x * a[i][j] + y * b[i][j];
    return r;
}
// exp(-i t/2 A(x)B), (A(x)B)^2 = 1
inline G rot2(const G &A, const G &B, double t) { return lin(cos(t / 2), kronG(gI(), gI()), -I1 * sin(t / 2), kronG(A, B)); }
inline GateMatrix gm(const G &g) { return GateMatrix{g[0][0], g[0][1], g[1][0], g[1][1]}; }
inline TwoQubitGateMatrix tqm(const G &g) {
    TwoQubitGateMatrix m;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m[i][j] = g[i][j];
    return m;
}
inline Controls ctl(const std::vector<std::pair<int, int>> &c) {
    Controls r;
    for (auto &p : c) r.emplace(Control{(Qubit)p.first, p.second ? Control::Type::pos : Control::Type::neg});
    return r;
}
// generic asymmetric matrix: every entry distinct
inline G generic(int d, double scale = 1) {
    G g(d, std::vector<cd>(d));
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) g[i][j] = scale * cd(0.11 + 0.37 * i - 0.23 * j + 0.05 * i * j, 0.41 - 0.19 * i + 0.29 * j * j / d);
    return g;
}
inline std::string cs(const std::vector<std::pair<int, int>> &c) {
    std::string s = "[";
    for (auto &p : c) s += fmt("%s%d", p.second ? "+" : "-", p.first);
    return s + "]";
}
struct Quiet {  // the library reports garbage collections on stdout
    struct Null : std::streambuf { int overflow(int c) override { return c; } } o;
    std::streambuf *b;
    Quiet() { b = std::cout.rdbuf(&o); }
    ~Quiet() { std::cout.rdbuf(b); }
};
inline void expect(const Mat &got, const Mat &want, double tol, const char *what) {
    ctx().evals++;
    double d = diff(got.a, want.a);
    if (!(d <= tol)) fail(fmt("%s: differs from the reference by %.3g", what, d));
    state(key(want.a));
}
inline void expect(const Vec &got, const Vec &want, double tol, const char *what) {
    ctx().evals++;
    double d = diff(got, want);
    if (!(d <= tol)) fail(fmt("%s: differs from the reference by %.3g", what, d));
    state(key(want));
}
}  // namespace mc
