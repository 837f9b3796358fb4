// The programs explored for the distributed mode, and what they must give (dense reference).
#pragma once
#include "mc.hpp"
#include "mpiprog.hpp"
namespace mc {
typedef std::vector<std::vector<cd>> G;
const cd I1(0, 1);
inline cd ex(double t) { return std::polar(1.0, t); }
inline G lin(cd x, const G &a, cd y, const G &b) { G r = a; for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < r.size(); j++) r[i][j] = x * a[i][j] + y * b[i][j]; return r; }
inline G unit(int k, int seed) {   // a dense unitary on k qubits, all entries different
    int d = 1 << k;
    G a(d, std::vector<cd>(d));
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) a[i][j] = cd(std::sin(1.3 * i * i + 2.1 * j + 0.7 * seed + i * j), std::cos(0.9 * i + 1.7 * j * j - 0.3 * seed));
    for (int i = 0; i < d; i++) {
        for (int k2 = 0; k2 < i; k2++) { cd s = 0; for (int j = 0; j < d; j++) s += std::conj(a[k2][j]) * a[i][j]; for (int j = 0; j < d; j++) a[i][j] -= s * a[k2][j]; }
        double n = 0; for (auto &x : a[i]) n += std::norm(x);
        for (auto &x : a[i]) x /= std::sqrt(n);
    }
    return a;
}
inline G perm4(const std::vector<int> &p) { G g(p.size(), std::vector<cd>(p.size())); for (size_t i = 0; i < p.size(); i++) g[p[i]][i] = 1; return g; }
inline POp op(int kind, const G &g, std::vector<int> t, std::vector<std::pair<int, int>> c = {}, int q = -1) {
    POp o{}; o.kind = kind; o.q = q; o.k = (int)t.size(); o.nc = (int)c.size();
    for (size_t i = 0; i < t.size(); i++) o.t[i] = t[i];
    for (size_t i = 0; i < c.size(); i++) { o.c[i] = c[i].first; o.cv[i] = c[i].second; }
    size_t d = g.size();
    for (size_t i = 0; i < d; i++) for (size_t j = 0; j < d; j++) o.m[i * d + j] = g[i][j];
    return o;
}
inline POp mop(int kind, int q = 0) { POp o{}; o.kind = kind; o.q = q; return o; }
inline Mat omat(const POp &o, int n) {
    int d = 1 << o.k; G g(d, std::vector<cd>(d));
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) g[i][j] = o.m[i * d + j];
    if (o.k == 0) { Mat m = Mat::id(1 << n); for (auto &x : m.a) x *= o.m[0]; return m; }
    std::vector<std::pair<int, int>> c; for (int i = 0; i < o.nc; i++) c.push_back({o.c[i], o.cv[i]});
    return embed(n, g, std::vector<int>(o.t, o.t + o.k), c);
}
inline std::string show(const PProg &p, int w) {
    static const char *kn[] = {"ring", "bcast", "fuse", "measure", "probability", "measure-all", "probabilities", "read", "collect", "collect-matrices", "save-and-load", "load-the-next-rank's", "send", "norm", "print", "plus", "plus-vector"};
    std::string s = fmt("%d ranks, %d qubits, start %s:", w, p.n, p.init == 0 ? "|0>" : p.init == 1 ? "|1>" : "vector");
    for (int i = 0; i < p.nops; i++) {
        const POp &o = p.ops[i];
        s += fmt(" %s", kn[o.kind]);
        if (o.kind <= POp::FUSE || o.kind == POp::SUM) {
            s += fmt(" %dq[%.3g%+.3gi..] on", o.k, o.m[0].real(), o.m[0].imag());
            for (int j = 0; j < o.k; j++) s += fmt(" %d", o.t[j]);
            for (int j = 0; j < o.nc; j++) s += fmt(" %s%d", o.cv[j] ? "+" : "-", o.c[j]);
            if (o.q >= 0) s += fmt(" bound %d", o.q);
        } else if (o.kind <= POp::PROB) s += fmt(" %d", o.q);
        else if (o.kind == POp::XFER) s += fmt(" from rank %d to rank %d", o.q / 8, o.q % 8);
        s += ";";
    }
    if (p.init == 2) { int z = 0; for (int i = 0; i < 1 << p.n; i++) if (p.v[i] != 0.0) z++; s += fmt(" (vector with %d entries, first %.3g%+.3gi)", z, p.v[0].real(), p.v[0].imag()); }
    return s;
}
struct PBuild {
    PProg p;
    PBuild(int n, int init) { memset((void *)&p, 0, sizeof p); p.n = n; p.init = init; }
    PBuild &add(const POp &o) { if (p.nops >= 12) abort(); p.ops[p.nops++] = o; return *this; }
    PBuild &vec(const Vec &v) { p.init = 2; for (size_t i = 0; i < v.size(); i++) p.v[i] = v[i]; return *this; }
};
inline Vec densevec(int n, int seed, unsigned long mask = ~0ul, int block = 0) {   // block: keep amplitudes whose (i >> block) is in mask
    Vec v(1 << n); double s = 0;
    for (int i = 0; i < 1 << n; i++) {
        v[i] = (mask >> (i >> block)) & 1 ? cd(0.3 + std::sin(1.7 * i + seed), 0.2 + std::cos(2.3 * i - seed)) : cd(0);
        s += std::norm(v[i]);
    }
    for (auto &x : v) x /= std::sqrt(s);
    return v;
}
inline double pr(const Vec &v, int q, int b) { double s = 0; for (size_t i = 0; i < v.size(); i++) if ((int)((i >> q) & 1) == b) s += std::norm(v[i]); return s; }
// Compares what the ranks returned (out[r]) with the reference; `whole` is called with each discrepancy.
inline void verify(const PProg &p, int w, const POut *out, int only = -1) {
    auto bad = [&](const std::string &s) { fail(s); };
    int n = p.n, g = 0; while ((1 << g) < w) g++;
    int loc = n - g, L = 1 << loc;
    int r0 = only < 0 ? 0 : only, r1 = only < 0 ? w : only + 1;
    Vec d(1 << n);
    if (p.init == 0) d[0] = 1; else if (p.init == 1) d[(1 << n) - 1] = 1; else for (int i = 0; i < 1 << n; i++) d[i] = p.v[i];
    int k = 0, iv = 0, ip = 0;
    for (int i = 0; i < p.nops; i++) {
        const POp &o = p.ops[i];
        if (o.kind <= POp::FUSE) { d = mulv(omat(o, n), d); continue; }   // FUSE is always followed by an application
        if (o.kind == POp::SUM) { d = addv(d, mulv(omat(o, n), d)); continue; }
        if (o.kind == POp::ADD) { for (int x = 0; x < 1 << n; x++) d[x] += o.m[x]; continue; }
        if (o.kind == POp::GC || o.kind == POp::GCM || o.kind == POp::PRINT) continue;
        if (o.kind == POp::XFER) { for (int x = 0; x < L; x++) d[(o.q % 8) * L + x] = d[(o.q / 8) * L + x]; continue; }
        ctx().evals++;
        for (int r = r0; r < r1; r++) if (out[r].nout <= k || out[r].kind[k] != o.kind) bad("a rank did not carry out the whole program");
        double tot = norm2v(d);
        switch (o.kind) {
        case POp::MEAS: {
            char c = out[r0].s[k][0];
            for (int r = r0; r < r1; r++) if (out[r].s[k][0] != c) bad(fmt("ranks disagree about the outcome of operation %d", i));
            if (c != '0' && c != '1') bad(fmt("outcome '%c'", c));
            double q = pr(d, o.q, c - '0') / tot;
            if (q < 1e-12) bad(fmt("operation %d: qubit %d measured as %c, which has probability 0", i, o.q, c));
            for (size_t x = 0; x < d.size(); x++) if ((int)((x >> o.q) & 1) != c - '0') d[x] = 0; else d[x] /= std::sqrt(q);
            break; }
        case POp::PROB:
            for (int r = r0; r < r1; r++) if (std::abs(out[r].x[k] - pr(d, o.q, 0) / tot) > 1e-10) bad(fmt("operation %d: qubit %d is 0 with probability %.9g instead of %.9g (rank %d)", i, o.q, out[r].x[k], pr(d, o.q, 0) / tot, r));
            break;
        case POp::ALL: {
            std::string s = out[r0].s[k];
            for (int r = r0; r < r1; r++) if (s != out[r].s[k]) bad(fmt("ranks disagree about the outcome of operation %d: %s, %s", i, s.c_str(), out[r].s[k]));
            if ((int)s.size() != n) bad(fmt("operation %d: outcome %s for %d qubits", i, s.c_str(), n));
            size_t x = 0; for (char c : s) x = 2 * x + (c == '1');
            if (std::norm(d[x]) / tot < 1e-12) bad(fmt("operation %d: outcome %s has probability 0", i, s.c_str()));
            break; }
        case POp::PROBS:
            for (int r = r0; r < r1; r++) {
                if (out[r].np[ip] != 1 << n) bad(fmt("operation %d: %d probabilities for %d qubits (rank %d)", i, out[r].np[ip], n, r));
                for (int x = 0; x < 1 << n; x++) if (std::abs(out[r].p[ip][x] - std::norm(d[x]) / tot) > 1e-10) bad(fmt("operation %d: probability of %d is %.9g instead of %.9g (rank %d)", i, x, out[r].p[ip][x], std::norm(d[x]) / tot, r));
            }
            ip++;
            break;
        case POp::NORM:
            for (int r = r0; r < r1; r++) if (std::abs(out[r].x[k] - 1 / std::sqrt(tot)) > 1e-10) bad(fmt("operation %d: factor %.9g to normalize instead of %.9g (rank %d)", i, out[r].x[k], 1 / std::sqrt(tot), r));
            break;
        case POp::SAVE: case POp::ROT:
            for (int r = r0; r < r1; r++) if (out[r].x[k] != 1) bad(fmt("operation %d: what is loaded again is not what was saved (rank %d)", i, r));
            if (o.kind == POp::ROT) { Vec e = d; for (int r = 0; r < w; r++) for (int x = 0; x < L; x++) d[r * L + x] = e[(r + 1) % w * L + x]; }
            break;
        case POp::VEC:
            for (int r = r0; r < r1; r++) {
                double m = 0; for (int x = 0; x < L; x++) m = std::max(m, std::abs(d[r * L + x]));
                if (out[r].nv[iv] == 0 ? m > 1e-9 : out[r].nv[iv] != L) bad(fmt("operation %d: rank %d holds %d amplitudes, expected %d", i, r, out[r].nv[iv], m > 1e-9 ? L : 0));
                if (out[r].nv[iv]) for (int x = 0; x < L; x++) if (!(std::abs(out[r].v[iv][x] - d[r * L + x]) < 1e-9)) bad(fmt("operation %d: amplitude %d is %.6g%+.6gi instead of %.6g%+.6gi (rank %d)", i, r * L + x, out[r].v[iv][x].real(), out[r].v[iv][x].imag(), d[r * L + x].real(), d[r * L + x].imag(), r));
            }
            iv++;
            state(key(d));
            break;
        }
        k++;
    }
    for (int r = r0; r < r1; r++) if (out[r].nout != k) bad("a rank returned too many results");
}
// ---- the program families
typedef std::function<void(const PProg &, const char *)> Sink;
inline std::vector<std::vector<int>> tuples(int n, int k) {
    std::vector<std::vector<int>> r;
    std::function<void(std::vector<int>)> rec = [&](std::vector<int> t) {
        if ((int)t.size() == k) { r.push_back(t); return; }
        for (int q = 0; q < n; q++) if (std::find(t.begin(), t.end(), q) == t.end()) { auto u = t; u.push_back(q); rec(u); }
    };
    rec({});
    return r;
}
inline std::vector<Vec> starts(int n, int w) {
    int g = 0; while ((1 << g) < w) g++;
    int loc = n - g;
    std::vector<Vec> r{densevec(n, 1)};
    if (w > 1) {
        r.push_back(densevec(n, 2, 1ul << (w - 1), loc));               // only the last rank holds anything
        r.push_back(densevec(n, 3, 0x5ul, loc));                         // every other of the first ranks
        Vec b(1 << n); b[(1 << n) / w * (w / 2)] = 1; r.push_back(b);    // one basis state
        r.push_back(densevec(n, 4, 0xfffffffffffffffeul, 0));            // one amplitude missing
        Vec u(1 << n, std::pow(2.0, -n / 2.0)); r.push_back(u);          // ranks hold equal parts
    }
    return r;
}
// every gate shape on every placement
inline void fam_place(int n, int w, bool deep, const Sink &f) {
    std::vector<POp> ops;
    for (int kind : {POp::RING, POp::BCAST})
        for (int wide = 0; wide < 2; wide++) {
            auto add = [&](const G &g, std::vector<int> t, std::vector<std::pair<int, int>> c = {}) {
                int mx = 0; for (int x : t) mx = std::max(mx, x); for (auto &x : c) mx = std::max(mx, x.first);
                if (wide && mx == n - 1) return;
                ops.push_back(op(kind, g, t, c, wide ? n - 1 : -1));
            };
            for (auto &t : tuples(n, 1)) {
                int rest = n - 1;
                std::vector<int> o; for (int q = 0; q < n; q++) if (q != t[0]) o.push_back(q);
                for (int m = 0; m < (int)std::pow(3, rest); m++) {   // every control set and sign
                    std::vector<std::pair<int, int>> c; int x = m;
                    for (int j = 0; j < rest; j++) { if (x % 3) c.push_back({o[j], x % 3 - 1}); x /= 3; }
                    add(unit(1, 1), t, c);
                    if (c.size() <= 1) { add(perm4({1, 0}), t, c); G z = perm4({0, 1}); z[1][1] = -1; add(z, t, c); G pj = perm4({0, 1}); pj[0][0] = 0; add(pj, t, c); }
                }
            }
            for (auto &t : tuples(n, 2)) {
                add(unit(2, 2), t); add(perm4({0, 2, 1, 3}), t);
                for (int q = 0; q < n; q++) if (q != t[0] && q != t[1]) for (int v = 0; v < 2; v++) { if (v || deep) add(unit(2, 3), t, {{q, v}}); if (v) add(perm4({0, 2, 1, 3}), t, {{q, v}}); }
            }
            for (auto &t : tuples(n, 3)) { if (!deep && t[0] > t[1]) continue; add(unit(3, 5), t); if (deep) add(perm4({0, 3, 5, 1, 6, 2, 4, 7}), t); }
            if (!wide) { ops.push_back(op(kind, G{{cd(0, 1)}}, {}, {}, n - 1)); ops.push_back(op(kind, G{{cd(0.6, 0.8)}}, {}, {}, 0)); }
        }
    auto st = starts(n, w);
    for (size_t s = 0; s < st.size(); s++)
        for (auto &o : ops) {
            if (s > 0 && !deep && o.k == 3) continue;
            PBuild b(n, 2); b.vec(st[s]).add(o).add(mop(POp::VEC));
            f(b.p, "placement");
        }
    for (int init = 0; init < 2; init++) { PBuild b(n, init); b.add(mop(POp::VEC)); f(b.p, "start"); for (auto &o : ops) if (o.k == 1 && o.nc < 2) { PBuild c(n, init); c.add(o).add(mop(POp::VEC)); f(c.p, "start"); } }
}
inline std::vector<POp> core(int n) {
    std::vector<POp> r;
    int h = n - 1, l = 0, m = n / 2;
    for (int kind : {POp::RING, POp::BCAST}) {
        r.push_back(op(kind, unit(1, 1), {h})); r.push_back(op(kind, unit(1, 2), {l})); r.push_back(op(kind, perm4({1, 0}), {l}, {{h, 1}}));
        r.push_back(op(kind, perm4({1, 0}), {h}, {{l, 1}})); r.push_back(op(kind, perm4({0, 2, 1, 3}), {l, h}));
        r.push_back(op(kind, unit(1, 4), {m}, {{l == m ? h : l, 0}}));
    }
    r.push_back(op(POp::FUSE, unit(1, 6), {h})); r.push_back(op(POp::FUSE, perm4({1, 0}), {n > 2 ? h - 1 : h}, {{l, 1}})); r.push_back(op(POp::FUSE, unit(1, 7), {l}));
    r.push_back(mop(POp::GC)); r.push_back(mop(POp::GCM));
    return r;
}
// every sequence of operations
inline void fam_seq(int n, int w, int depth, const Sink &f) {
    auto c = core(n);
    std::vector<int> ix;
    std::function<void()> rec = [&]() {
        if ((int)ix.size() == depth) {
            PBuild b(n, 2); b.vec(densevec(n, 1, w > 1 ? 0xb : ~0ul, n > 2 ? n - 2 : 0));
            for (int i : ix) b.add(c[i]);
            bool pend = false; for (int i : ix) { if (c[i].kind == POp::FUSE) pend = true; if (c[i].kind <= POp::BCAST) pend = false; }
            if (pend || c[ix.back()].kind == POp::GCM) b.add(op(POp::RING, perm4({1, 0}), {n - 1}));
            b.add(mop(POp::VEC)); f(b.p, "sequence");
            return;
        }
        for (size_t i = 0; i < c.size(); i++) { ix.push_back((int)i); rec(); ix.pop_back(); }
    };
    rec();
}
// programs whose communication is explored under every schedule
inline void fam_sched(int n, int w, bool pairs, const Sink &f) {
    int h = n - 1;
    if (pairs) {
        auto c = core(n);
        for (auto &x : c) for (auto &y : c) {
            PBuild b(n, 2); b.vec(densevec(n, 1, 0xb, n > 2 ? n - 2 : 0)).add(x).add(y);
            if (x.kind == POp::FUSE && y.kind > POp::BCAST || y.kind >= POp::FUSE) b.add(op(POp::RING, perm4({1, 0}), {h}));
            b.add(mop(POp::VEC)); f(b.p, "schedules");
        }
    }
    for (int kind : {POp::RING, POp::BCAST}) {
        auto one = [&](std::vector<POp> o) { PBuild b(n, 2); b.vec(densevec(n, 1, 0x7, n > 2 ? n - 2 : 0)); for (auto &x : o) b.add(x); b.add(mop(POp::VEC)); f(b.p, "schedules"); };
        one({op(kind, unit(1, 1), {h})});
        one({op(kind, perm4({0, 2, 1, 3}), {0, h})});
        if (n >= 3) one({op(kind, unit(2, 1), {h, h - 1})});
        one({op(kind, unit(1, 1), {h}), op(kind, unit(1, 2), {h})});
        one({op(kind, unit(1, 1), {h}), op(kind == POp::RING ? POp::BCAST : POp::RING, unit(1, 2), {h})});
        if (n >= 3) one({op(kind, unit(1, 1), {h - 1}), op(kind, unit(1, 2), {h})});
    }
}
inline void fam_meas_sched(int n, int w, const Sink &f) {
    for (int k : {POp::MEAS, POp::PROB, POp::ALL, POp::PROBS}) for (int q : {0, n - 1}) {
        if (k >= POp::ALL && q) continue;
        PBuild b(n, 2); b.vec(densevec(n, 1, 0x7, n > 2 ? n - 2 : 0)).add(mop(k, q)).add(mop(POp::VEC)); f(b.p, "schedules");
        PBuild c(n, 2); c.vec(densevec(n, 1)).add(mop(k, q)).add(op(POp::RING, unit(1, 1), {n - 1})).add(mop(k, n - 1 - q)).add(mop(POp::VEC)); f(c.p, "schedules");
    }
}
// saving, loading and sending
inline void fam_save(int n, int w, bool deep, const Sink &f) {
    auto c = core(n);
    std::vector<POp> mv{mop(POp::SAVE), mop(POp::ROT)};
    for (int a = 0; a < w; a++) for (int b = 0; b < w; b++) if (a != b && (deep || w < 8 || a == 0 || b == 0)) mv.push_back(mop(POp::XFER, 8 * a + b));
    std::vector<POp> prep{mop(POp::GC)}, post{mop(POp::GC), op(POp::RING, unit(1, 1), {n - 1}), op(POp::BCAST, unit(1, 2), {0})};
    for (auto &x : c) if (x.kind <= POp::BCAST) prep.push_back(x);
    for (auto &v : starts(n, w)) for (auto &p : prep) for (auto &m : mv) {
        for (auto &q : post) { PBuild b(n, 2); b.vec(v).add(p).add(m).add(mop(POp::VEC)).add(q).add(mop(POp::VEC)); f(b.p, "moved states"); }
        if (!deep && p.kind != POp::GC && w > 2) continue;
        for (auto &m2 : mv) { PBuild b(n, 2); b.vec(v).add(p).add(m).add(mop(POp::GC)).add(m2).add(mop(POp::VEC)); f(b.p, "moved states"); }
    }
    for (int init = 0; init < 2; init++) for (auto &m : mv) { PBuild b(n, init); b.add(m).add(mop(POp::VEC)); f(b.p, "moved states"); }
}
inline void fam_print(int n, int w, const Sink &f) {
    for (auto &v : starts(n, w)) { PBuild a(n, 2); a.vec(v).add(mop(POp::PRINT)); f(a.p, "printed"); PBuild b(n, 2); b.vec(v).add(op(POp::RING, unit(1, 1), {n - 1})).add(mop(POp::PRINT)); f(b.p, "printed"); }
    for (int i = 0; i < 2; i++) { PBuild a(n, i); a.add(mop(POp::PRINT)); f(a.p, "printed"); }
}
// measurements after every sequence of gates
inline void fam_meas(int n, int w, int depth, const Sink &f) {
    std::vector<POp> c;
    for (int q = 0; q < n; q++) { c.push_back(mop(POp::MEAS, q)); c.push_back(mop(POp::PROB, q)); }
    c.push_back(mop(POp::ALL)); c.push_back(mop(POp::PROBS)); c.push_back(mop(POp::NORM));
    G h = {{std::sqrt(.5), std::sqrt(.5)}, {std::sqrt(.5), -std::sqrt(.5)}};
    for (int q = 0; q < n; q++) c.push_back(op(q % 2 ? POp::BCAST : POp::RING, h, {q}));
    c.push_back(op(POp::RING, perm4({1, 0}), {0}, {{n - 1, 1}}));
    c.push_back(op(POp::BCAST, perm4({1, 0}), {n - 1}, {{0, 1}}));
    c.push_back(op(POp::RING, unit(1, 3), {n - 1}));
    c.push_back(mop(POp::GC));
    auto st = starts(n, w);
    std::vector<int> ix;
    std::function<void(int)> rec = [&](int s) {
        if ((int)ix.size() == depth) {
            if (c[ix.back()].kind < POp::MEAS || c[ix.back()].kind == POp::GC) return;
            PBuild b(n, 2); b.vec(st[s]);
            for (int i : ix) b.add(c[i]);
            b.add(mop(POp::VEC)); f(b.p, "measurements");
            return;
        }
        for (size_t i = 0; i < c.size(); i++) { ix.push_back((int)i); rec(s); ix.pop_back(); }
    };
    for (size_t s = 0; s < st.size(); s++) rec((int)s);
}
}  // namespace mc
