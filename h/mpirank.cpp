// One rank: the engine of the working tree, built for MPI, carrying out a program.
#include "common.h"
#include "dd.h"
#include <boost/mpi/collectives.hpp>
#include <boost/mpi/communicator.hpp>
#include "mpiprog.hpp"
#include <cmath>
#include <iostream>
#include <limits>
#include <random>
extern std::unordered_map<vNode *, double> probs;
double assignProbabilities(const vEdge &);
static vEdge build(const std::complex<double> *a, int q) {   // amplitudes of q+1 qubits
    if (q < 0) { if (std::abs(*a) < 1e-14) return vEdge::zero; vEdge e = vEdge::one; e.w = {a->real(), a->imag()}; return e; }
    std::array<vEdge, 2> c{build(a, q - 1), build(a + (1l << q), q - 1)};
    if (c[0].w.isZero() && c[1].w.isZero()) return vEdge::zero;
    return makeVEdge(q, c);
}
static mEdge gate(const PProg &p, const POp &o) {
    Controls cs;
    for (int i = 0; i < o.nc; i++) cs.emplace(Control{(Qubit)o.c[i], o.cv[i] ? Control::Type::pos : Control::Type::neg});
    if (o.k == 0) { mEdge e = makeIdent(p.n - 1); e.w = e.w * std_complex(o.m[0].real(), o.m[0].imag()); return e; }
    if (o.k == 1) { GateMatrix g{o.m[0], o.m[1], o.m[2], o.m[3]}; return o.nc ? makeGate(p.n, g, o.t[0], cs) : makeGate(p.n, g, o.t[0]); }
    if (o.k == 2) {
        TwoQubitGateMatrix g;
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) g[i][j] = o.m[4 * i + j];
        return o.nc ? makeTwoQubitGate(p.n, g, o.t[1], o.t[0], cs) : makeTwoQubitGate(p.n, g, o.t[1], o.t[0]);
    }
    ComplexMatrix g(8);
    for (int i = 0; i < 8; i++) { g[i].resize(8); for (int j = 0; j < 8; j++) g[i][j] = o.m[8 * i + j]; }
    std::vector<Qubit> t(o.t, o.t + 3);
    return makeLargeGate(p.n, g, t);
}
static int run(const PProg &p, POut &out, boost::mpi::communicator &world, std::mt19937_64 &mt) {
    memset(&out, 0, sizeof out);
    int g = 0; while ((1 << g) < world.size()) g++;
    int loc = p.n - g;
    vEdge v = p.init == 0 ? makeZeroStateMPI(p.n, world) : p.init == 1 ? makeOneStateMPI(p.n, world) : build(p.v + ((long)world.rank() << loc), loc - 1);
    bool fused = false; mEdge f; int fmax = 0;
    for (int i = 0; i < p.nops; i++) {
        const POp &o = p.ops[i];
        int k = out.nout;
        out.kind[k] = o.kind;
        switch (o.kind) {
        case POp::FUSE: case POp::RING: case POp::BCAST: {
            mEdge e = gate(p, o);
            int mx = o.q;
            if (mx < 0) { mx = 0; for (int j = 0; j < o.k; j++) mx = std::max(mx, o.t[j]); for (int j = 0; j < o.nc; j++) mx = std::max(mx, o.c[j]); }
            if (fused) { e = mm_multiply(e, f); mx = std::max(mx, fmax); }
            fused = o.kind == POp::FUSE; f = e; fmax = mx;
            if (fused) break;
            v = o.kind == POp::RING ? mv_multiply_MPI(e, v, world, p.n, mx) : mv_multiply_MPI_bcast3(e, v, world, p.n, mx);
            break;
        }
        case POp::MEAS: out.s[k][0] = measureOneCollapsingMPI(world, v, o.q, p.n, mt, true); out.nout++; break;
        case POp::PROB: out.x[k] = measureOneMPI(world, v, o.q, p.n, mt); out.nout++; break;
        case POp::ALL: strncpy(out.s[k], measureAllMPI(world, v, false, mt).c_str(), 39); out.nout++; break;
        case POp::PROBS: { auto r = probabilitiesMPI(world, v); int j = out.nprobs++; out.np[j] = (int)r.size(); for (size_t x = 0; x < r.size() && x < 256; x++) out.p[j][x] = r[x]; out.nout++; break; }
        case POp::VEC: {
            int j = out.nvec++;
            if (v.isTerminal()) { out.nv[j] = std::abs(v.w.r) + std::abs(v.w.i) > 1e-12 ? -1 : 0; }
            else { size_t d; std_complex *x = v.getVector(&d); out.nv[j] = (int)d; for (size_t y = 0; y < d && y < 256; y++) out.v[j][y] = {x[y].r, x[y].i}; delete[] x; }
            out.nout++; break; }
        case POp::SAVE: case POp::ROT: {
            auto name = [&](int r) { const char *d = getenv("MC_SAVE"); return std::string(d ? d : "saved") + "." + std::to_string(r); };
            world.barrier();
            save_binary(v, name(world.rank()));
            world.barrier();
            vEdge l = load_binary(name(o.kind == POp::SAVE ? world.rank() : (world.rank() + 1) % world.size()));
            out.x[k] = o.kind == POp::ROT || l == v || (l.w.isZero() && v.w.isZero());
            v = l;
            out.nout++; break; }
        case POp::XFER:
            if (world.rank() == o.q / 8) send_dd(world, v, o.q % 8);
            if (world.rank() == o.q % 8) v = receive_dd(world, o.q / 8);
            break;
        case POp::NORM: out.x[k] = adjust_weight(world, v); out.nout++; break;
        case POp::PRINT: v.printVectorMPI(world); break;
        case POp::GC: v = gc(v, true); break;
        case POp::GCM: if (fused) f = gc_mat(f, true); else gc_mat(std::vector<mEdge>{}, true); break;
        }
    }
    return 0;
}
#ifndef REAL_MPI
const mc_ops *mc_host; int mc_rank_, mc_size_;
static struct Null : std::streambuf { int overflow(int c) override { return c; } } null_;
static int armed() { return 1; }
extern "C" {
int mcrng_armed = 1;
uint64_t mcrng_next(void) { return mc_host->draw(); }
__attribute__((visibility("default"))) void mc_rank_init(const mc_ops *h, int r, int s) { mc_host = h; mc_rank_ = r; mc_size_ = s; std::cout.rdbuf(&null_); }
__attribute__((visibility("default"))) void mc_rank_reset() { gc(std::vector<vEdge>{}, true); gc_mat(std::vector<mEdge>{}, true); probs.clear(); }
__attribute__((visibility("default"))) int mc_rank_run(const PProg *p, POut *o) {
    static std::mt19937_64 mt(1);
    boost::mpi::communicator w;
    try { return run(*p, *o, w, mt); } catch (mc_unwind &) { return 1; } catch (std::exception &e) { mc_host->note(e.what()); return 2; }
}
}
#endif
