// The engine of the working tree, built for threads, carrying out a program.
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#ifdef MC_MTSHIM
#include "mc_mt.hpp"
#else
#include <oneapi/tbb/enumerable_thread_specific.h>
#endif
#define private public
#include "common.h"
#include "dd.h"
#include "table.hpp"
#include "cache.hpp"
#undef private
#include "mpiprog.hpp"
#include "mtprog.hpp"
extern oneapi::tbb::enumerable_thread_specific<AddCache> _aCaches;
extern oneapi::tbb::enumerable_thread_specific<MulCache> _mCaches;
static vEdge build(const std::complex<double> *a, int q) {   // amplitudes of q+1 qubits
    if (q < 0) { if (std::abs(*a) < 1e-14) return vEdge::zero; vEdge e = vEdge::one; e.w = {a->real(), a->imag()}; return e; }
    std::array<vEdge, 2> c{build(a, q - 1), build(a + (1l << q), q - 1)};
    if (c[0].w.isZero() && c[1].w.isZero()) return vEdge::zero;
    return makeVEdge(q, c);
}
static mEdge gate(const PProg &p, const POp &o) {
    Controls cs;
    for (int i = 0; i < o.nc; i++) cs.emplace(Control{(Qubit)o.c[i], o.cv[i] ? Control::Type::pos : Control::Type::neg});
    if (o.k == 0) { mEdge e = makeIdent(p.n - 1); e.w = e.w * std_complex(o.m[0].real(), o.m[0].imag()); return e; }
    if (o.k == 1) { GateMatrix g{o.m[0], o.m[1], o.m[2], o.m[3]}; return o.nc ? makeGate(p.n, g, o.t[0], cs) : makeGate(p.n, g, o.t[0]); }
    if (o.k == 2) {
        TwoQubitGateMatrix g;
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = o.m[4 * i + j];
        return o.nc ? makeTwoQubitGate(p.n, g, o.t[1], o.t[0], cs) : makeTwoQubitGate(p.n, g, o.t[1], o.t[0]);
    }
    ComplexMatrix g(8);
    for (int i = 0; i < 8; i++) { g[i].resize(8); for (int j = 0; j < 8; j++) g[i][j] = o.m[8 * i + j]; }
    std::vector<Qubit> t(o.t, o.t + 3);
    return makeLargeGate(p.n, g, t);
}
struct Done { int kind; mEdge g; vEdge in, in2, out; };
static std::vector<mEdge> gates; static std::vector<Done> hist; static vEdge v0; static std::vector<vEdge> adds;
static struct Null : std::streambuf { int overflow(int c) override { return c; } } null_;
static std::string trouble;
template <class T> static void tables(CHashTable<T> &t, const char *what) {
    for (size_t v = 0; v < t._tables.size(); v++) for (size_t b = 0; b < NBUCKETS; b++) {
        std::vector<T *> ch; long n = 0;
        for (T *c = t._tables[v]._table[b].node; c; c = c->previous) { ch.push_back(c); if (++n > 100000) { trouble = std::string("the table of ") + what + " nodes has a cycle"; return; } }
        for (size_t i = 0; i < ch.size(); i++) {
            if (ch[i]->v != (Qubit)v) { trouble = std::string("a ") + what + " node in use has been given back or is filed under a wrong qubit"; return; }
            if (std::hash<T>()(*ch[i]) % NBUCKETS != b) { trouble = std::string("a ") + what + " node changed after it was filed"; return; }
            for (size_t j = 0; j < i; j++) if (std::equal_to<T>()(*ch[i], *ch[j])) { trouble = std::string("two equal ") + what + " nodes are in use"; return; }
        }
        if (t._tables[v]._table[b].locked.test_and_set()) { trouble = "a bucket stays locked"; return; }
        t._tables[v]._table[b].locked.clear();
    }
}
static bool same(const vEdge &a, const vEdge &b) {
    double d = std::hypot(a.w.r - b.w.r, a.w.i - b.w.i);
    if (std::hypot(a.w.r, a.w.i) < 1e-12 && std::hypot(b.w.r, b.w.i) < 1e-12) return true;
    return a.n == b.n && d < 1e-9;
}
extern "C" {
void mt_prepare(const PProg *p) {
    std::cout.rdbuf(&null_);
    gates.clear(); hist.clear(); adds.clear();
    for (int i = 0; i < p->nops; i++) {
        const POp &o = p->ops[i];
        bool g = o.kind == POp::FUSE || o.kind == POp::RING || o.kind == POp::BCAST || o.kind == POp::SUM;
        gates.push_back(g ? gate(*p, o) : mEdge::zero);
        adds.push_back(o.kind == POp::ADD ? build(o.m, p->n - 1) : vEdge::zero);
    }
    if (p->init == 2) v0 = build(p->v, p->n - 1); else if (p->init == 0) v0 = makeZeroState(p->n); else v0 = makeOneState(p->n);
}
int mt_run(const PProg *p, POut *out) {
    vEdge v = v0; bool fused = false; mEdge f;
    static std::mt19937_64 mt(7);
    for (int i = 0; i < p->nops; i++) {
        const POp &o = p->ops[i];
        int k = out->nout;
        out->kind[k] = o.kind;
        switch (o.kind) {
        case POp::FUSE: case POp::RING: case POp::BCAST: case POp::SUM: {
            mEdge e = gates[i];
            if (fused) e = mm_multiply(e, f);
            fused = o.kind == POp::FUSE; f = e;
            if (fused) break;
            vEdge r = mv_multiply(e, v);
            hist.push_back({0, e, v, v, r});
            if (o.kind == POp::SUM) { vEdge s = vv_add(v, r); hist.push_back({1, e, v, r, s}); r = s; }
            v = r;
            break; }
        case POp::ADD: { vEdge r = vv_add(v, adds[i]); hist.push_back({1, mEdge::zero, v, adds[i], r}); v = r; break; }
        case POp::MEAS: out->s[k][0] = measureOneCollapsing(v, o.q, mt, true); out->nout++; break;
        case POp::PROB: out->x[k] = measureOne(v, o.q, mt); out->nout++; break;
        case POp::ALL: strncpy(out->s[k], measureAll(v, false, mt).c_str(), 39); out->nout++; break;
        case POp::VEC: {
            int j = out->nvec++;
            if (v.isTerminal()) { out->nv[j] = std::abs(v.w.r) + std::abs(v.w.i) > 1e-12 ? -1 : 0; }
            else { size_t d; std_complex *x = v.getVector(&d); out->nv[j] = (int)d; for (size_t y = 0; y < d && y < 256; y++) out->v[j][y] = {x[y].r, x[y].i}; delete[] x; }
            out->nout++; break; }
        case POp::GC: { std::vector<vEdge> k{v}; for (auto &a : adds) k.push_back(a); k = gc(k, true); v = k[0]; for (size_t j = 0; j < adds.size(); j++) adds[j] = k[j + 1]; hist.clear(); break; }
        case POp::GCM: { std::vector<mEdge> k = gates; k.push_back(fused ? f : mEdge::zero); std::reverse(k.begin(), k.end()); k = gc_mat(k, true); std::reverse(k.begin(), k.end()); if (fused) f = k.back(); k.pop_back(); gates = k; hist.clear(); break; }
        default: break;
        }
    }
    return 0;
}
// after the program, undisturbed: the tables are in order, and the same operations give the very same diagrams again
const char *mt_after() {
    trouble.clear();
    tables(vUnique, "vector"); if (trouble.empty()) tables(mUnique, "matrix");
    if (!trouble.empty()) return trouble.c_str();
    for (int pass = 0; pass < 2; pass++) {
        if (pass) { _aCaches.clear(); _mCaches.clear(); }
        for (auto &h : hist) {
            vEdge r = h.kind ? vv_add(h.in, h.in2) : mv_multiply(h.g, h.in);
            if (!same(r, h.out)) return pass ? "the same operation gives a different diagram when computed anew" : "the same operation gives a different diagram when repeated";
        }
    }
    return nullptr;
}
void mt_warm() { _aCaches.local(); _mCaches.local(); vUnique._caches.local(); mUnique._caches.local(); }
}
