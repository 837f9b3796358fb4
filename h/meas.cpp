// C06: measuring all qubits follows the Born rule exactly, for every value the random source can return.
// C07: the same for one qubit, with the right post-measurement state, along every history of gates and measurements.
#include "ddx.hpp"
using namespace mc;
struct S { vEdge e; Vec d; std::string how; };
struct M { mEdge e; Mat d; std::string how; };
static int shard, shards; static long item = 0;
static bool mine() { return (item++ % shards) == shard; }
static std::mt19937_64 rng(7);
typedef std::map<std::string, double> Dist;
static long runs = 0;
static const uint64_t MAXD = ~0ull;
// Exact distribution of the outcome over all draws: each draw's range is partitioned into the intervals on
// which the behaviour is constant (found by bisection between grid points, down to 2^-prec).
static Dist dist(const std::function<std::string()> &f, std::vector<uint64_t> &pre, int grid, int prec, int depth = 0) {
    mcrng_arm(pre.data(), pre.size(), 1ull << 63);
    std::string r = f();
    uint64_t used = mcrng_draws();
    mcrng_disarm();
    runs++;
    if (used <= pre.size()) return Dist{{r, 1.0}};
    if (depth > 12) fail("one measurement takes more than 12 random draws");
    auto F = [&](uint64_t x) { pre.push_back(x); Dist d = dist(f, pre, grid, prec, depth + 1); pre.pop_back(); return d; };
    auto same = [](const Dist &a, const Dist &b) {
        if (a.size() != b.size()) return false;
        for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || std::abs(i->second - j->second) > 1e-6) return false;
        return true;
    };
    Dist out;
    auto put = [&](const Dist &d, double w) { for (auto &p : d) out[p.first] += w * p.second; };
    uint64_t lo = 0; Dist dlo = F(0);
    for (int k = 1; k <= grid; k++) {
        uint64_t hi = k == grid ? MAXD : (MAXD / grid) * k;
        Dist dhi = F(hi);
        uint64_t a = lo, b = hi; Dist da = dlo;
        // possibly several change points in (lo,hi]: walk them
        while (!same(da, dhi)) {
            uint64_t l = a, h = b;
            while (h - l > (MAXD >> prec)) { uint64_t m = l + (h - l) / 2; if (same(F(m), da)) l = m; else h = m; }
            put(da, std::ldexp((double)(l - a), -64));
            a = h; da = h == b ? dhi : F(h);
            if (h == b) break;
        }
        put(da, std::ldexp((double)(b - a), -64));
        lo = hi; dlo = dhi;
    }
    return out;
}
static void compare(const Dist &got, const Dist &want, const char *what) {
    for (auto &p : got) { auto it = want.find(p.first); double w = it == want.end() ? 0 : it->second;
        if (w < 1e-20) fail(fmt("%s: outcome %s is possible (p=%g) but has probability zero", what, p.first.c_str(), p.second));
        if (!(std::abs(p.second - w) < 2e-6)) fail(fmt("%s: outcome %s has probability %.9g instead of %.9g", what, p.first.c_str(), p.second, w)); }
    for (auto &p : want) if (p.second > 3e-6 && !got.count(p.first)) fail(fmt("%s: outcome %s never occurs but has probability %.9g", what, p.first.c_str(), p.second));
    ctx().evals++;
}
static std::vector<M> gens(int n) {
    std::vector<M> r;
    auto g1 = [&](const char *nm, const G &g, int t, std::vector<std::pair<int, int>> c = {}) { r.push_back({makeGate(n, gm(g), t, ctl(c)), embed(n, g, {t}, c), fmt("%s%d", nm, t) + (c.empty() ? "" : cs(c))}); };
    for (int t = 0; t < n; t++) { g1("H", gH(), t); g1("ry", gRY(.7 + .3 * t), t); }
    g1("ryS", gRY(2e-2), 0); g1("ryT", gRY(4e-4), n - 1); g1("rx", gRX(2.2), n / 2); g1("X", gX(), n - 1);
    for (int t = 0; t + 1 < n; t++) { g1("X", gX(), t + 1, {{t, 1}}); g1("H", gH(), t, {{t + 1, 0}}); }
    if (n > 1) g1("p", gP(1.0), 0, {{n - 1, 1}});
    return r;
}
static std::vector<S> states(int n, int depth, size_t cap) {
    auto g = gens(n);
    Vec z(1 << n), o(1 << n); z[0] = 1; o[(1 << n) - 1] = 1;
    std::vector<S> all{{makeZeroState(n), z, "|0>"}, {makeOneState(n), o, "|1>"}};
    std::set<std::string> seen{key(z), key(o)};
    size_t lo = 0;
    for (int d = 0; d < depth; d++) {
        size_t hi = all.size();
        for (size_t i = lo; i < hi; i++) for (auto &x : g) {
            S s{mv_multiply(x.e, all[i].e), mulv(x.d, all[i].d), x.how + " " + all[i].how};
            ctx().transitions++;
            if (seen.insert(key(s.d)).second) all.push_back(s);
        }
        lo = hi;
    }
    // deterministic thinning: keep every k-th
    if (all.size() > cap) { std::vector<S> t; double k = (double)all.size() / cap; for (size_t i = 0; i < cap; i++) t.push_back(all[(size_t)(i * k)]); all = t; }
    for (auto &s : all) state(key(s.d));
    return all;
}
static std::string bits(int i, int n) { std::string s; for (int q = n - 1; q >= 0; q--) s += ((i >> q) & 1) ? '1' : '0'; return s; }
static Dist born(const Vec &v, int n) { Dist d; double t = norm2v(v); for (int i = 0; i < 1 << n; i++) { double p = std::norm(v[i]) / t; if (p > 1e-24) d[bits(i, n)] = p; } return d; }
static void c06(int n, int depth, size_t cap, int grid, int prec) {
    for (auto &s : states(n, depth, cap)) if (mine()) {
        at(fmt("n=%d measureAll of ", n) + s.how);
        Dist w = born(s.d, n);
        std::vector<uint64_t> pre;
        vEdge cur = s.e;
        compare(dist([&] { return measureAll(cur, false, rng); }, pre, grid, prec), w, "measureAll");
        expect(dense(cur, n), s.d, 1e-9, "vector after a measurement without collapse");
        if (!(cur == s.e)) fail("measureAll without collapse changed the vector");
        // collapse: the vector afterwards is the basis vector of the outcome
        for (uint64_t x : {(uint64_t)0, (uint64_t)1 << 62, (uint64_t)1 << 63, (uint64_t)3 << 62, MAXD}) for (uint64_t y : {(uint64_t)0, MAXD, x}) {
            vEdge c = s.e; uint64_t sc[2] = {x, y};
            mcrng_arm(sc, 2, x); std::string r = measureAll(c, true, rng); mcrng_disarm();
            Vec b(1 << n); b[strtol(r.c_str(), 0, 2)] = 1;
            if (!w.count(r)) fail("measureAll with collapse returned the impossible outcome " + r);
            expect(dense(c, n), b, 1e-9, "vector after measureAll with collapse");
            mcrng_arm(sc, 1, y); std::string r2 = measureAll(c, true, rng); mcrng_disarm();
            if (r2 != r) fail("measuring again after a collapse gave " + r2 + " instead of " + r);
            ctx().transitions += 2;
        }
        auto pr = probabilities(s.e);
        if (pr.size() != s.d.size()) fail("probabilities(): wrong length");
        for (size_t i = 0; i < pr.size(); i++) if (!(std::abs(pr[i] - std::norm(s.d[i])) < 1e-9)) fail(fmt("probabilities()[%zu]=%g instead of %g", i, pr[i], std::norm(s.d[i])));
        done();
    }
}
static Vec collapse(const Vec &v, int q, int b, double &p) {
    Vec r = v; p = 0;
    for (size_t i = 0; i < r.size(); i++) { if ((int)((i >> q) & 1) != b) r[i] = 0; else p += std::norm(r[i]); }
    if (p > 0) for (auto &c : r) c /= std::sqrt(p);
    return r;
}
static void one(const S &s, int n, int q, S out[2], double p[2], int prec) {
    Vec post[2];
    for (int b = 0; b < 2; b++) post[b] = collapse(s.d, q, b, p[b]);
    double tot = p[0] + p[1];
    double got = [&] { vEdge c = s.e; double r = measureOne(c, q, rng); if (!(c == s.e)) fail("measureOne changed the vector"); return r; }();
    if (!(std::abs(got - p[0] / tot) < 1e-9)) fail(fmt("measureOne(%d) = %.9g instead of %.9g", q, got, p[0] / tot));
    vEdge last[2]; bool have[2] = {false, false};
    std::vector<uint64_t> pre;
    Dist want; for (int b = 0; b < 2; b++) if (p[b] > 1e-24) want[b ? "1" : "0"] = p[b] / tot;
    Dist d = dist([&] {
        vEdge c = s.e; char r = measureOneCollapsing(c, q, rng);
        if (r != '0' && r != '1') fail("measureOneCollapsing returned something else than 0 or 1");
        int b = r == '1';
        if (!have[b]) { have[b] = true; last[b] = c; expect(dense(c, n), post[b], 1e-8 / std::min(1.0, std::sqrt(p[b] + 1e-30)), "post-measurement state"); }
        else if (!(c == last[b])) expect(dense(c, n), post[b], 1e-8 / std::min(1.0, std::sqrt(p[b] + 1e-30)), "post-measurement state (another draw)");
        return std::string(1, r); }, pre, 8, prec);
    compare(d, want, "measureOneCollapsing");
    for (int b = 0; b < 2; b++) { if (have[b]) out[b] = {last[b], post[b], s.how + fmt(" m%d=%d", q, b)}; else p[b] = 0; }
    ctx().transitions += 3;
}
static void walk(const S &s, int n, int left, const std::vector<M> &g, int prec) {  // all histories of measurements and gates
    for (int q = 0; q < n; q++) {
        at(fmt("n=%d ", n) + s.how + fmt(" then measure %d", q));
        S out[2]; double p[2];
        one(s, n, q, out, p, prec);
        done();
        for (int b = 0; b < 2; b++) {
            if (p[b] < 1e-9 || left == 0) continue;   // branches below 1e-9 are checked but not extended
            state(key(out[b].d));
            { S r[2]; double rp[2]; at(fmt("n=%d ", n) + out[b].how + fmt(" then measure %d again", q)); one(out[b], n, q, r, rp, prec); if (rp[1 - b] != 0 ) fail("repeating a measurement can give the other outcome"); }
            if (left > 1) walk(out[b], n, left - 1, g, prec);
            for (size_t i = 0; i < g.size(); i += (n > 2 ? 3 : 2)) {
                S t{mv_multiply(g[i].e, out[b].e), mulv(g[i].d, out[b].d), out[b].how + " " + g[i].how};
                ctx().transitions++;
                walk(t, n, left - 1, g, prec);
            }
        }
    }
}
static void c07(int n, int depth, size_t cap, int left, int prec) {
    auto g = gens(n);
    for (auto &s : states(n, depth, cap)) if (mine()) {
        walk(s, n, left, g, prec);
        // a vector whose norm is off is refused
        for (double f : {0.5, 1.2}) {
            vEdge bad = s.e; bad.w = bad.w * std_complex(f, 0);
            at(fmt("n=%d %s scaled by %g", n, s.how.c_str(), f));
            for (int q = 0; q < n; q++) for (int k = 0; k < 2; k++) {
                bool thrown = false; vEdge c = bad;
                try { if (k) measureOne(c, q, rng); else measureOneCollapsing(c, q, rng); } catch (std::runtime_error &) { thrown = true; }
                if (!thrown) fail("measuring a vector that is not normalised was not refused");
            }
            done();
        }
    }
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    shard = atoi(a["shard"].c_str()); shards = atoi(a["shards"].c_str());
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    auto num = [&](const char *k) { return atoi(a[k].c_str()); };
    if (ctx().prop == "C06") c06(num("n"), num("depth"), num("cap"), num("grid"), num("prec"));
    else c07(num("n"), num("depth"), num("cap"), num("left"), num("prec"));
    ctx().extra["rng_scripts_executed"] = runs;
    finish();
}
