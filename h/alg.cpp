// C02: decision-diagram algebra agrees with dense linear algebra on every operation sequence up to a depth.
#include "ddx.hpp"
using namespace mc;
struct M { mEdge e; Mat d; std::string how; };
struct S { vEdge e; Vec d; std::string how; };
static int shard, shards; static long item = 0;
static bool mine() { return (item++ % shards) == shard; }
static double mag(const std::vector<cd> &x) { double m = 1; for (auto &c : x) m = std::max(m, std::abs(c)); return m; }
static std::vector<M> gens(int n) {
    std::vector<M> r;
    auto g1 = [&](const char *nm, const G &g, int t, std::vector<std::pair<int, int>> c = {}) {
        r.push_back({makeGate(n, gm(g), t, ctl(c)), embed(n, g, {t}, c), fmt("%s%d", nm, t) + (c.empty() ? "" : cs(c))});
    };
    auto g2q = [&](const char *nm, const G &g, int a, int b) { r.push_back({makeTwoQubitGate(n, tqm(g), a, b), embed(n, g, {b, a}), fmt("%s%d,%d", nm, a, b)}); };
    g1("H", gH(), 0);
    g1("T", gP(MPI_ / 4), n - 1);
    g1("P0_", g2(1, 0, 0, 0), n - 1);
    g1("X", gX(), 0);
    g1("rx", gRX(1.1), n / 2);
    if (n > 1) { g1("X", gX(), n - 1, {{0, 1}}); g1("H", gH(), 0, {{n - 1, 0}}); g2q("gen", generic(4, .4), 0, n - 1); g1("P1_", g2(0, 0, 0, 1), 0); }
    if (n > 2) { g1("Y", gY(), 1, {{0, 1}, {2, 0}}); g2q("rzx", rot2(gZ(), gX(), .9), 2, 1); g1("X", gX(), 0, {{1, 1}, {2, 1}}); }
    if (n > 3) { g1("H", gH(), 2, {{1, 1}}); g1("S", gP(MPI_/2), 1, {{3, 0}}); }
    r.push_back({mEdge{{-1, 0}, mNode::terminal}, [&] { Mat m = Mat::id(1 << n); for (auto &c : m.a) c = -c; return m; }(), "-1"});
    r.push_back({mEdge{{0, 2}, mNode::terminal}, [&] { Mat m = Mat::id(1 << n); for (auto &c : m.a) c *= cd(0, 2); return m; }(), "2i"});
    return r;
}
static void cmp(const mEdge &e, const Mat &w, int n, const char *what) { expect(dense(e, n), w, 1e-10 * mag(w.a), what); done(); ctx().transitions++; }
static void cmp(const vEdge &e, const Vec &w, int n, const char *what) { expect(dense(e, n), w, 1e-10 * mag(w), what); done(); ctx().transitions++; }

static std::vector<M> closeM(int n, int depth, size_t cap) {
    auto g = gens(n);
    std::vector<M> all{{makeIdent(n), Mat::id(1 << n), "1"}, {mEdge::zero, Mat(1 << n), "0"}};
    std::set<std::string> seen{key(all[0].d.a), key(all[1].d.a)};
    size_t lo = 0;
    for (int d = 0; d < depth; d++) {
        size_t hi = all.size();
        for (size_t i = lo; i < hi; i++) for (auto &x : g) {
            auto put = [&](mEdge e, Mat w, std::string how) {
                at(fmt("n=%d matrix ", n) + how);
                cmp(e, w, n, "matrix operation");
                if (all.size() < cap && mag(w.a) < 1e3 && seen.insert(key(w.a)).second) all.push_back({e, w, how});
            };
            M s = all[i];
            put(mm_multiply(x.e, s.e), mul(x.d, s.d), "(" + x.how + "*" + s.how + ")");
            put(mm_multiply(s.e, x.e), mul(s.d, x.d), "(" + s.how + "*" + x.how + ")");
            put(mm_add(s.e, x.e), add(s.d, x.d), "(" + s.how + "+" + x.how + ")");
            put(mm_add(x.e, s.e), add(x.d, s.d), "(" + x.how + "+" + s.how + ")");
        }
        lo = hi;
    }
    return all;
}
static std::vector<S> closeV(int n, int depth, size_t cap) {
    auto g = gens(n);
    Vec z(1 << n), o(1 << n); z[0] = 1; o[(1 << n) - 1] = 1;
    std::vector<S> all{{makeZeroState(n), z, "|0>"}, {makeOneState(n), o, "|1>"}, {vEdge::zero, Vec(1 << n), "0"}};
    for (auto &s : all) { at(s.how); cmp(s.e, s.d, n, "initial state"); }
    std::set<std::string> seen;
    for (auto &s : all) seen.insert(key(s.d));
    size_t lo = 0;
    for (int d = 0; d < depth; d++) {
        size_t hi = all.size();
        for (size_t i = lo; i < hi; i++) for (auto &x : g) {
            S s = all[i];
            auto put = [&](vEdge e, Vec w, std::string how) {
                at(fmt("n=%d vector ", n) + how);
                cmp(e, w, n, "vector operation");
                if (all.size() < cap && mag(w) < 1e3 && seen.insert(key(w)).second) all.push_back({e, w, how});
            };
            vEdge xv = mv_multiply(x.e, s.e); Vec xd = mulv(x.d, s.d);
            put(xv, xd, x.how + s.how);
            put(vv_add(xv, s.e), addv(xd, s.d), "(" + x.how + "+1)" + s.how);
            put(vv_add(s.e, xv), addv(s.d, xd), "(1+" + x.how + ")" + s.how);
        }
        lo = hi;
    }
    return all;
}
static void recheck(const std::vector<M> &a, int n) { for (auto &x : a) { at(fmt("n=%d matrix handle ", n) + x.how + " after all later operations"); cmp(x.e, x.d, n, "earlier matrix changed"); } }
static void recheck(const std::vector<S> &a, int n) { for (auto &x : a) { at(fmt("n=%d vector handle ", n) + x.how + " after all later operations"); cmp(x.e, x.d, n, "earlier vector changed"); } }

static void c02(int dm, int dv, size_t cap, int big) {
    std::map<int, std::vector<M>> MM; std::map<int, std::vector<S>> SS;
    for (int n = 1; n <= big; n++) {
        // the closure is rebuilt by every shard; pairs are divided
        MM[n] = closeM(n, n <= 2 ? dm : dm - 1, n <= 2 ? cap : cap / 4);
        SS[n] = closeV(n, n <= 3 ? dv : dv - 1, cap);
    }
    for (int n = 1; n <= big; n++) {
        auto &A = MM[n]; auto &B = SS[n];
        for (size_t i = 0; i < A.size(); i++) {
            if (!mine()) continue;
            for (size_t j = 0; j < A.size(); j++) {
                at(fmt("n=%d ", n) + A[i].how + " (x) " + A[j].how);
                cmp(mm_multiply(A[i].e, A[j].e), mul(A[i].d, A[j].d), n, "product of two computed matrices");
                cmp(mm_add(A[i].e, A[j].e), add(A[i].d, A[j].d), n, "sum of two computed matrices");
            }
            for (size_t j = 0; j < B.size(); j += 1 + B.size() / 200) {
                at(fmt("n=%d ", n) + A[i].how + " applied to " + B[j].how);
                cmp(mv_multiply(A[i].e, B[j].e), mulv(A[i].d, B[j].d), n, "computed matrix applied to computed vector");
            }
        }
        for (size_t i = 0; i < B.size(); i++) {
            if (!mine()) continue;
            for (size_t j = 0; j < B.size(); j++) {
                at(fmt("n=%d ", n) + B[i].how + " + " + B[j].how);
                cmp(vv_add(B[i].e, B[j].e), addv(B[i].d, B[j].d), n, "sum of two computed vectors");
            }
        }
    }
    // tensor products: result register = left register + right register.
    // (right operand of a matrix product: only matrices whose diagram reaches the top of their register)
    for (int n = 1; n <= 3; n++) for (int k = 1; n + k <= std::min(4, big); k++) {
        for (size_t i = 0; i < std::min<size_t>(SS[n].size(), 40); i++) for (size_t j = 0; j < std::min<size_t>(SS[k].size(), 40); j++) if (mine()) {
            const S &x = SS[n][i], &y = SS[k][j];
            if (x.e.isTerminal() || y.e.isTerminal()) continue;
            at(fmt("vector kron n=%d k=%d ", n, k) + x.how + " (x) " + y.how);
            Vec w(1 << (n + k));
            for (int p = 0; p < 1 << n; p++) for (int q = 0; q < 1 << k; q++) w[(p << k) | q] = x.d[p] * y.d[q];
            cmp(vv_kronecker(x.e, y.e), w, n + k, "tensor product of vectors");
        }
        for (size_t i = 0; i < std::min<size_t>(MM[n].size(), 40); i++) for (size_t j = 0; j < std::min<size_t>(MM[k].size(), 60); j++) if (mine()) {
            const M &x = MM[n][i], &y = MM[k][j];
            if (y.e.isTerminal() || y.e.getVar() != k - 1) continue;
            at(fmt("matrix kron n=%d k=%d ", n, k) + x.how + " (x) " + y.how);
            cmp(mm_kronecker(x.e, y.e), kron(x.d, y.d), n + k, "tensor product of matrices");
        }
    }
    // scalars: vectors on no qubits, multiples of the identity
    const cd sc[] = {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.5, 0.25}, {2, 0}, {0.001, -0.03}};
    for (cd c : sc) {
        const vEdge cv{{c.real(), c.imag()}, vNode::terminal};
        const mEdge cm{{c.real(), c.imag()}, mNode::terminal};
        const std::string cn = fmt("%g%+gi", c.real(), c.imag());
        for (int n = 1; n <= big; n++) {
            for (size_t i = 0; i < std::min<size_t>(SS[n].size(), 300); i++) if (mine()) {
                const S &x = SS[n][i];
                Vec w = x.d;
                for (auto &a : w) a *= c;
                at(fmt("n=%d ", n) + cn + " (x) " + x.how);
                cmp(vv_kronecker(cv, x.e), w, n, "tensor product of a scalar and a vector");
                cmp(mv_multiply(cm, x.e), w, n, "multiple of the identity applied to a vector");
                at(fmt("n=%d ", n) + x.how + " (x) " + cn);
                cmp(vv_kronecker(x.e, cv), w, n, "tensor product of a vector and a scalar");
            }
            for (size_t i = 0; i < std::min<size_t>(MM[n].size(), 300); i++) if (mine()) {
                const M &x = MM[n][i];
                Mat w = x.d, id = Mat::id(1 << n), sum = x.d;
                for (auto &a : w.a) a *= c;
                for (auto &a : id.a) a *= c;
                sum = add(id, x.d);
                at(fmt("n=%d ", n) + cn + " with " + x.how);
                cmp(mm_kronecker(cm, x.e), w, n, "tensor product of a scalar and a matrix");
                cmp(mm_kronecker(x.e, cm), w, n, "tensor product of a matrix and a scalar");
                cmp(mm_multiply(cm, x.e), w, n, "product of a scalar and a matrix");
                cmp(mm_multiply(x.e, cm), w, n, "product of a matrix and a scalar");
                cmp(mm_add(cm, x.e), sum, n, "sum of a multiple of the identity and a matrix");
                cmp(mm_add(x.e, cm), sum, n, "sum of a matrix and a multiple of the identity");
            }
        }
        for (cd d : sc) if (mine()) {
            const vEdge dv{{d.real(), d.imag()}, vNode::terminal};
            const mEdge dm{{d.real(), d.imag()}, mNode::terminal};
            at("scalars " + cn + fmt(" and %g%+gi", d.real(), d.imag()));
            auto val = [&](cd want, auto e, const char *what) { if (!e.isTerminal() || std::abs(cd(e.w.r, e.w.i) - want) > 1e-12) fail(what); done(); ctx().transitions++; };
            val(c * d, vv_kronecker(cv, dv), "tensor product of two scalars");
            val(c + d, vv_add(cv, dv), "sum of two scalars");
            val(c * d, mm_kronecker(cm, dm), "tensor product of two scalar matrices");
            val(c * d, mm_multiply(cm, dm), "product of two scalar matrices");
            val(c + d, mm_add(cm, dm), "sum of two scalar matrices");
        }
    }
    for (auto &p : MM) recheck(p.second, p.first);
    for (auto &p : SS) recheck(p.second, p.first);
}

int main(int argc, char **argv) {
    auto a = init(argc, argv);
    shard = atoi(a["shard"].c_str()); shards = atoi(a["shards"].c_str());
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    c02(atoi(a["dm"].c_str()), atoi(a["dv"].c_str()), atoi(a["cap"].c_str()), atoi(a["big"].c_str()));
    finish();
}
