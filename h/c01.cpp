// C01: every constructed gate denotes the operator it names, on every register, target and control layout.
#include "ddx.hpp"
using namespace mc;
static int shard, shards; static long item = 0;
static bool mine() { return (item++ % shards) == shard; }
static void ctlsets(int n, const std::vector<int> &targets, std::vector<std::vector<std::pair<int, int>>> &out) {
    std::vector<int> free;
    for (int q = 0; q < n; q++) if (std::find(targets.begin(), targets.end(), q) == targets.end()) free.push_back(q);
    long tot = 1;
    for (size_t i = 0; i < free.size(); i++) tot *= 3;
    for (long c = 0; c < tot; c++) {
        std::vector<std::pair<int, int>> s; long x = c;
        for (int q : free) { int v = x % 3; x /= 3; if (v) s.push_back({q, v - 1}); }
        out.push_back(s);
    }
}
struct Named { std::string name; GateMatrix got; G want; };
static std::vector<Named> lib() {
    std::vector<Named> v{
        {"I", Imat, gI()}, {"H", Hmat, gH()}, {"X", Xmat, gX()}, {"Y", Ymat, gY()}, {"Z", Zmat, gZ()},
        {"S", Smat, gP(MPI_ / 2)}, {"Sdag", Sdagmat, gP(-MPI_ / 2)}, {"T", Tmat, gP(MPI_ / 4)}, {"Tdag", Tdagmat, gP(-MPI_ / 4)},
        {"SX", SXmat, gSX()}, {"SXdag", SXdagmat, gSXd()}, {"V", Vmat, gRX(MPI_ / 2)}, {"Vdag", Vdagmat, gRX(-MPI_ / 2)}};
    std::vector<double> ang{0, 0.3, 1.1, MPI_ / 2, -0.7, MPI_, 2 * MPI_, 5.9, -2 * MPI_, 7.5, -17.0, 100.3};
    for (double t : ang) {
        v.push_back({fmt("rx(%g)", t), rx(t), gRX(t)});
        v.push_back({fmt("ry(%g)", t), ry(t), gRY(t)});
        v.push_back({fmt("rz(%g)", t), rz(t), gRZ(t)});
        v.push_back({fmt("p(%g)", t), p(t), gP(t)});
        v.push_back({fmt("u1(%g)", t), u1(t), gP(t)});
        for (double f : {0.0, 0.45, -1.3, MPI_}) {
            v.push_back({fmt("u2(%g,%g)", t, f), u2(t, f), gU(MPI_ / 2, t, f, 0)});
            v.push_back({fmt("r(%g,%g)", t, f), r(t, f), gR(t, f)});
            for (double l : {0.0, 0.9, -2.1}) {
                v.push_back({fmt("u3(%g,%g,%g)", t, f, l), u3(t, f, l), gU(t, f, l, 0)});
                v.push_back({fmt("u(%g,%g,%g,.8)", t, f, l), u(t, f, l, .8), gU(t, f, l, .8)});
            }
        }
    }
    return v;
}
static void check1(const std::string &nm, int n, const GateMatrix &m, const G &want, int t, const std::vector<std::pair<int, int>> &c) {
    at("gate " + nm + fmt(" n=%d target=%d controls=", n, t) + cs(c));
    mEdge e = c.empty() ? makeGate(n, m, t) : makeGate(n, m, t, ctl(c));
    ctx().transitions++;
    expect(dense(e, n), embed(n, want, {t}, c), 1e-12, "one-qubit gate"); done();
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    shard = atoi(a["shard"].c_str()); shards = atoi(a["shards"].c_str());
    int maxn = atoi(a["maxn"].c_str());
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    auto L = lib();
    // (a) matrix libraries
    for (auto &g : L) if (mine()) {
        at("matrix " + g.name);
        for (int i = 0; i < 4; i++) {
            cd d = cd(g.got[i]) - g.want[i / 2][i % 2];
            if (!(std::abs(d) < 1e-14)) fail("matrix entry of " + g.name + " is wrong");
        }
        done();
    }
    G gen = generic(2), proj0 = g2(1, 0, 0, 0), proj1 = g2(0, 0, 0, 1), low = g2(0, 0, cd(.3, .4), 0), up = g2(0, cd(0, 2), 0, 0), diag = g2(cd(.5, .1), 0, 0, cd(-.2, .7)), zero = g2(0, 0, 0, 0), small = g2(1e-5, 2e-5, 3e-5, -1e-5);
    std::vector<Named> B{{"generic", gm(gen), gen}, {"proj0", gm(proj0), proj0}, {"proj1", gm(proj1), proj1}, {"lower", gm(low), low}, {"upper", gm(up), up}, {"diag", gm(diag), diag}, {"small", gm(small), small},{"zero", gm(zero), zero}, L[0], L[1], L[2], L[3], L[5], L[7]};
    for (int n = 1; n <= maxn; n++) {
        for (int t = 0; t < n; t++) {
            std::vector<std::vector<std::pair<int, int>>> C;
            ctlsets(n, {t}, C);
            for (auto &c : C) {
                for (auto &g : B) if (mine()) check1(g.name, n, g.got, g.want, t, c);
                if (n <= 3) for (auto &g : L) if (mine()) check1(g.name, n, g.got, g.want, t, c);
            }
            // wrappers
            for (double th : {0.0, 0.7, -1.9, 3.3, MPI_, 19.1}) if (mine()) {
                at(fmt("RX/RY/RZ n=%d t=%d %g", n, t, th));
                expect(dense(RX(n, t, th), n), embed(n, gRX(th), {t}), 1e-12, "RX");
                expect(dense(RY(n, t, th), n), embed(n, gRY(th), {t}), 1e-12, "RY");
                expect(dense(RZ(n, t, th), n), embed(n, gRZ(th), {t}), 1e-12, "RZ");
                ctx().transitions += 3; done();
            }
            for (int c = 0; c < n; c++) if (c != t && mine()) {
                at(fmt("CX n=%d t=%d c=%d", n, t, c));
                expect(dense(CX(n, t, c), n), embed(n, gX(), {t}, {{c, 1}}), 1e-12, "CX");
                ctx().transitions++;
            }
        }
        // (b) two-qubit gates: index = 2*bit(target0)+bit(target1)
        G sw{{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}}, isw = sw;
        isw[1][2] = isw[2][1] = I1;
        std::vector<std::pair<std::string, G>> T{{"generic", generic(4)}, {"swap", sw}, {"iswap", isw}, {"Z0X", kronG(gZ(), gX())}, {"proj", kronG(proj0, gen)}, {"tens", kronG(gen, up)}, {"idgen", kronG(gI(), gen)}, {"genid", kronG(gen, gI())}};
        G sparse = generic(4); for (int i = 0; i < 4; i++) { sparse[2][i] = 0; sparse[i][1] = 0; }
        T.push_back({"sparse", sparse});
        for (int t0 = 0; t0 < n; t0++) for (int t1 = 0; t1 < n; t1++) if (t0 != t1) {
            std::vector<std::vector<std::pair<int, int>>> C;
            ctlsets(n, {t0, t1}, C);
            for (auto &c : C) {
                for (auto &g : T) if (mine()) {
                    at("two-qubit " + g.first + fmt(" n=%d t0=%d t1=%d c=", n, t0, t1) + cs(c));
                    mEdge e = c.empty() ? makeTwoQubitGate(n, tqm(g.second), t0, t1) : makeTwoQubitGate(n, tqm(g.second), t0, t1, ctl(c));
                    expect(dense(e, n), embed(n, g.second, {t1, t0}, c), 1e-12, "two-qubit gate"); done();
                    ctx().transitions++;
                }
            }
            for (double th : {0.0, 0.6, -2.2, MPI_, 4.4, -19.1}) if (mine()) {
                at(fmt("RXX/RYY/RZZ/RZX n=%d t0=%d t1=%d %g", n, t0, t1, th));
                expect(dense(RXX(n, t0, t1, th), n), embed(n, rot2(gX(), gX(), th), {t1, t0}), 1e-12, "RXX");
                expect(dense(RYY(n, t0, t1, th), n), embed(n, rot2(gY(), gY(), th), {t1, t0}), 1e-12, "RYY");
                expect(dense(RZZ(n, t0, t1, th), n), embed(n, rot2(gZ(), gZ(), th), {t1, t0}), 1e-12, "RZZ");
                expect(dense(RZX(n, t0, t1, th), n), embed(n, rot2(gX(), gZ(), th), {t1, t0}), 1e-12, "RZX");
                ctx().transitions += 4; done();
            }
            if (mine()) {
                at(fmt("SWAP/ISWAP n=%d t0=%d t1=%d", n, t0, t1));
                expect(dense(SWAP(n, t0, t1), n), embed(n, sw, {t1, t0}), 1e-12, "SWAP");
                expect(dense(makeSwap(n, t0, t1), n), embed(n, sw, {t1, t0}), 1e-12, "makeSwap");
                expect(dense(ISWAP(n, t0, t1), n), embed(n, isw, {t1, t0}), 1e-12, "ISWAP");
                for (int c = 0; c < n; c++) if (c != t0 && c != t1)
                    expect(dense(CSWAP(n, t0, t1, c), n), embed(n, sw, {t1, t0}, {{c, 1}}), 1e-12, "CSWAP");
            }
        }
        // (c) gates given by an arbitrary matrix on an ordered list of qubits
        for (int k = 1; k <= std::min(n, 5); k++) {
            if (k == 5 && n > 5 && ctx().tier != "thorough") continue;
            std::vector<std::pair<std::string, G>> M{{"generic", generic(1 << k, .3)}};
            G perm(1 << k, std::vector<cd>(1 << k)), sp(1 << k, std::vector<cd>(1 << k)), blk = sp;
            for (int i = 0; i < 1 << k; i++) {
                perm[(i * 3 + 1) % (1 << k)][i] = ex(.1 * i);
                sp[i][i] = cd(1 + i, -i);
                for (int j = 0; j < 1 << k; j++) if ((i >> (k - 1)) == (j >> (k - 1))) blk[i][j] = cd(.1 * (i + 1), .2 * j);
            }
            M.push_back({"perm", perm}); M.push_back({"diag", sp}); M.push_back({"block", blk});
            std::vector<int> idx(n, 0);
            std::vector<std::vector<int>> lists;
            std::function<void(std::vector<int>)> rec = [&](std::vector<int> t) {
                if ((int)t.size() == k) { lists.push_back(t); return; }
                for (int q = 0; q < n; q++) if (std::find(t.begin(), t.end(), q) == t.end()) { auto u = t; u.push_back(q); rec(u); }
            };
            rec({});
            for (auto &t : lists) {
                for (auto &g : M) if (mine()) {
                    std::string ts; for (int q : t) ts += fmt(" %d", q);
                    at("matrix gate " + g.first + fmt(" n=%d targets=", n) + ts);
                    ComplexMatrix m(g.second.begin(), g.second.end()), copy = m;
                    std::vector<Qubit> tq(t.begin(), t.end());
                    Mat want = embed(n, g.second, t);
                    expect(dense(makeLargeGate(n, m, tq), n), want, 1e-12, "matrix gate");
                    if (m != copy) fail("the matrix passed by the caller was modified");
                    expect(dense(makeLargeGate(n, m, tq), n), want, 1e-12, "matrix gate built a second time from the same matrix");
                    ctx().transitions += 2; done();
                }
            }
            std::vector<int> order; for (int i = 0; i < k; i++) order.push_back(i);
            for (auto &g : M) if (mine()) {
                at("matrix gate, default targets " + g.first + fmt(" n=%d k=%d", n, k));
                ComplexMatrix m(g.second.begin(), g.second.end());
                expect(dense(makeLargeGate(n, m), n), embed(n, g.second, order), 1e-12, "matrix gate (default targets)");
            }
        }
    }
    // (d) rejected matrices
    auto rejects = [&](ComplexMatrix m, std::vector<Qubit> t, const char *w) {
        at(std::string("rejects ") + w);
        try { makeLargeGate(3, m, t); } catch (std::invalid_argument &) { ctx().evals++; done(); return; }
        fail(std::string("accepted ") + w);
    };
    rejects(ComplexMatrix(3, std::vector<std::complex<double>>(3)), {0, 1}, "a 3x3 matrix");
    rejects(ComplexMatrix(4, std::vector<std::complex<double>>(2)), {0, 1}, "a 4x2 matrix");
    rejects(ComplexMatrix(4, std::vector<std::complex<double>>(4)), {0}, "a 4x4 matrix on one qubit");
    rejects(ComplexMatrix(2, std::vector<std::complex<double>>(2)), {0, 1}, "a 2x2 matrix on two qubits");
    finish();
}
