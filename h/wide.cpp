// C08: every register width up to the supported maximum behaves like the small ones (a few active qubits anywhere in
//      the register, every sequence of gates on them, the rest in a known product state).
// C03: structured states and operators keep diagrams that grow linearly with the width.
#include "ddx.hpp"
using namespace mc;
static int shard, shards; static long item = 0;
static bool mine() { return (item++ % shards) == shard; }
static std::mt19937_64 rng(1);
static cd C(const std_complex &w) { return cd(w.r, w.i); }
static long nodes(const vEdge &e) {
    std::set<void *> seen; std::vector<vNode *> q;
    if (!e.isTerminal()) { q.push_back(e.n); seen.insert(e.n); }
    while (!q.empty()) { vNode *p = q.back(); q.pop_back(); for (auto &c : p->children) if (!c.isTerminal() && seen.insert(c.n).second) q.push_back(c.n); if (seen.size() > 100000) break; }
    return (long)seen.size();
}
static long nodes(const mEdge &e) {
    std::set<void *> seen; std::vector<mNode *> q;
    if (!e.isTerminal()) { q.push_back(e.n); seen.insert(e.n); }
    while (!q.empty()) { mNode *p = q.back(); q.pop_back(); for (auto &c : p->children) if (!c.isTerminal() && seen.insert(c.n).second) q.push_back(c.n); if (seen.size() > 100000) break; }
    return (long)seen.size();
}
typedef std::vector<int> Bits;
static cd amp(const vEdge &e, int n, const Bits &b) {
    if (e.isTerminal()) { if (std::abs(C(e.w)) > 1e-13) fail("the vector became a nonzero scalar"); return 0; }
    if (e.getVar() != n - 1) fail(fmt("a vector of %d qubits became one of %d", n, (int)e.getVar() + 1));
    vEdge c = e; cd a = C(e.w);
    for (int q = n - 1; q >= 0; q--) {
        if (a == 0.0) return 0;
        if (c.isTerminal() || c.getVar() != q) fail(fmt("the diagram skips qubit %d", q));
        c = c.n->getEdge(b[q]); a *= C(c.w);
    }
    return a;
}
static double norm2d(const vEdge &e) {
    std::map<vNode *, double> m;
    std::function<double(const vEdge &)> f = [&](const vEdge &x) -> double {
        double w = std::norm(C(x.w));
        if (x.isTerminal() || w == 0) return w;
        auto it = m.find(x.n);
        if (it != m.end()) return w * it->second;
        double s = f(x.n->getEdge(0)) + f(x.n->getEdge(1));
        m[x.n] = s;
        return w * s;
    };
    return f(e);
}
static mEdge mg(int n, const G &g, int t, std::vector<std::pair<int, int>> c = {}) { return makeGate(n, gm(g), t, ctl(c)); }
static vEdge ap(const mEdge &m, const vEdge &v) { ctx().transitions++; return mv_multiply(m, v); }
// ------------------------------------------------------------------------------------------------- C08
struct Bg { const char *name; int kind; };   // 0: |0>, 1: |1>, 2: |+>
struct W { int n; std::vector<int> act; int bg; vEdge e; Vec d; std::string how; };
static void check(const W &w, bool deep) {
    int n = w.n, k = (int)w.act.size(), m = n - k;
    double unit = w.bg == 2 ? std::pow(2.0, -m / 2.0) : 1;
    std::vector<char> isact(n, 0); for (int q : w.act) isact[q] = 1;
    std::vector<Bits> pats;
    for (int s = 0; s < (w.bg == 2 ? 4 : 1); s++) { Bits b(n); for (int q = 0; q < n; q++) b[q] = w.bg == 0 ? 0 : w.bg == 1 ? 1 : s == 0 ? 0 : s == 1 ? 1 : s == 2 ? q & 1 : (q / 3) & 1; pats.push_back(b); }
    for (auto b : pats) for (int x = 0; x < 1 << k; x++) {
        for (int i = 0; i < k; i++) b[w.act[i]] = (x >> i) & 1;
        cd a = amp(w.e, n, b) / unit;
        if (!(std::abs(a - w.d[x]) < 1e-8)) fail(fmt("amplitude of active pattern %d is %g%+gi instead of %g%+gi (in units of the background amplitude)", x, a.real(), a.imag(), w.d[x].real(), w.d[x].imag()));
        ctx().evals++;
    }
    if (w.bg != 2 && m > 0) {  // elsewhere zero
        Bits b = pats[0]; for (int q = 0; q < n; q++) if (!isact[q]) { b[q] ^= 1; break; }
        for (int x = 0; x < 1 << k; x++) { for (int i = 0; i < k; i++) b[w.act[i]] = (x >> i) & 1; if (std::abs(amp(w.e, n, b)) > 1e-9) fail("amplitude outside the reachable subspace"); }
    }
    if (!(std::abs(norm2d(w.e) - 1) < 1e-9)) fail(fmt("the norm became %.12g", norm2d(w.e)));
    if (!deep) return;
    auto p0of = [&](int i) { double p = 0; for (int x = 0; x < 1 << k; x++) if (!((x >> i) & 1)) p += std::norm(w.d[x]); return p; };
    auto one = [&](int q, double want) { double g = measureOne((vEdge &)w.e, q, rng); if (!(std::abs(g - want) < 1e-8)) fail(fmt("probability of 0 on qubit %d is %.9g instead of %.9g", q, g, want)); ctx().transitions++; };
    for (int i = 0; i < k; i++) one(w.act[i], p0of(i));
    for (int q : {1, n / 3, n - 2}) if (q >= 0 && q < n && !isact[q]) one(q, w.bg == 0 ? 1 : w.bg == 1 ? 0 : .5);
    const uint64_t MX = ~0ull, HF = 1ull << 63;
    for (int s = 0; s < 5; s++) {
        std::vector<uint64_t> scr(n + 8);
        for (size_t i = 0; i < scr.size(); i++) scr[i] = s == 0 ? 0 : s == 1 ? MX : s == 2 ? (i & 1 ? MX : 0) : s == 3 ? (i % 3 ? 0 : MX) : HF;
        vEdge c = w.e;
        mcrng_arm(scr.data(), scr.size(), HF); std::string r = measureAll(c, s == 3, rng); mcrng_disarm();
        ctx().transitions++;
        if ((int)r.size() != n) fail(fmt("measuring %d qubits gave %zu bits", n, r.size()));
        Bits b(n); for (int q = 0; q < n; q++) { char ch = r[n - 1 - q]; if (ch != '0' && ch != '1') fail("a measured bit is neither 0 nor 1"); b[q] = ch == '1'; }
        if (std::norm(amp(w.e, n, b)) / (unit * unit) < 1e-20) fail("measuring all qubits gave the impossible outcome " + r);
        if (w.bg == 2 && s < 2) for (int q = 0; q < n; q++) if (!isact[q] && b[q] != s) fail(fmt("extreme draws gave bit %d of a uniform qubit the value %d both ways", q, b[q]));
        if (s == 3) { if (!(std::abs(amp(c, n, b) - 1.0) < 1e-9) || !(std::abs(norm2d(c) - 1) < 1e-9)) fail("measuring all qubits with collapse did not leave the basis state of the outcome"); }
    }
    for (int i = 0; i < k; i++) for (uint64_t x : {(uint64_t)0, MX}) {
        vEdge c = w.e; mcrng_arm(&x, 1, x); char r = measureOneCollapsing(c, w.act[i], rng); mcrng_disarm();
        W y = w; y.e = c; double p = 0;
        for (int z = 0; z < 1 << k; z++) { if (((z >> i) & 1) != (r == '1')) y.d[z] = 0; else p += std::norm(w.d[z]); }
        if (p < 1e-12) fail("impossible outcome of a single-qubit measurement");
        if (p < 1e-6) continue;
        for (auto &a : y.d) a /= std::sqrt(p);
        ctx().transitions++;
        check(y, false);
    }
}
static void c08(int lo, int hi, int step, int depth) {
    struct Op { std::string nm; std::function<void(W &)> f; };
    for (int n = lo; n <= hi; n += step) {
        std::vector<std::vector<int>> sets;
        auto addset = [&](std::vector<int> s) { std::set<int> u; std::vector<int> v; for (int q : s) if (q >= 0 && q < n && u.insert(q).second) v.push_back(q); if (std::find(sets.begin(), sets.end(), v) == sets.end()) sets.push_back(v); };
        addset({0, n / 2, n - 1}); addset({n - 1, n - 2, n - 3}); addset({1, 0, 2}); addset({n / 2, n - 1, n / 2 - 1});
        for (auto &act : sets) for (int bg = 0; bg < 3; bg++) {
            if (!mine()) continue;
            int k = (int)act.size();
            std::vector<char> isact(n, 0); for (int q : act) isact[q] = 1;
            at(fmt("n=%d background %d", n, bg));
            W w0{n, act, bg, makeZeroState(n), Vec(1 << k), ""};
            w0.d[0] = 1;
            for (int q = 0; q < n; q++) if (!isact[q] && bg) w0.e = ap(mg(n, bg == 1 ? gX() : gH(), q), w0.e);
            std::vector<Op> ops;
            auto g1 = [&](const char *nm, G g, int i, std::vector<std::pair<int, int>> c = {}) {
                if (i >= k) return; for (auto &x : c) if (x.first >= k) return;
                std::vector<std::pair<int, int>> cc; for (auto &x : c) cc.push_back({act[x.first], x.second});
                Mat M = embed(k, g, {i}, c);
                mEdge me = mg(n, g, act[i], cc);
                ops.push_back({fmt("%s%d", nm, act[i]) + (c.empty() ? "" : cs(cc)), [=](W &w) { w.e = ap(me, w.e); w.d = mulv(M, w.d); }}); };
            g1("H", gH(), 0); g1("ry", gRY(.9), 1); g1("X", gX(), 1, {{0, 1}}); g1("X", gX(), 2, {{1, 0}}); g1("Y", gY(), 0, {{1, 1}, {2, 0}}); g1("rx", gRX(2.1), 2); g1("P", gP(.8), 2, {{0, 1}});
            if (k > 1) { G g = rot2(gX(), gZ(), 1.1); Mat M = embed(k, g, {1, 0}); mEdge me = makeTwoQubitGate(n, tqm(g), act[0], act[1]); ops.push_back({"two", [=](W &w) { w.e = ap(me, w.e); w.d = mulv(M, w.d); }}); }
            if (k > 2) { mEdge a = mg(n, gH(), act[2]), b = mg(n, gX(), act[0], {{act[2], 1}}); mEdge p = mm_multiply(b, a); Mat M = mul(embed(k, gX(), {0}, {{2, 1}}), embed(k, gH(), {2})); ops.push_back({"merged", [=](W &w) { w.e = ap(p, w.e); w.d = mulv(M, w.d); }}); }
            if (k > 1) { // superposition of two runs: (s + X s)/norm only when orthogonal is not needed: compare amplitudes only
                mEdge z = mg(n, gZ(), act[1]); Mat Z = embed(k, gZ(), {1});
                ops.push_back({"(1+iZ)/r2", [=](W &w) { vEdge b = ap(z, w.e); b.w = b.w * std_complex(0, 1); ctx().transitions++; vEdge s = vv_add(w.e, b); s.w = s.w * std_complex(R2, 0); w.e = s; Vec v = mulv(Z, w.d); for (size_t i = 0; i < v.size(); i++) w.d[i] = (w.d[i] + I1 * v[i]) * R2; }}); }
            std::function<void(const W &, int)> go = [&](const W &w, int left) {
                at(fmt("n=%d background %d active", n, bg) + [&] { std::string s; for (int q : act) s += fmt(" %d", q); return s; }() + ":" + w.how);
                check(w, true);
                state(fmt("%d/%d/", n, bg) + w.how); done();
                if (!left) return;
                for (auto &o : ops) { W x = w; x.how += " " + o.nm; at(fmt("n=%d background %d:", n, bg) + x.how); o.f(x); go(x, left - 1); }
            };
            go(w0, depth);
        }
        gc(std::vector<vEdge>{}, false);
    }
}
// ------------------------------------------------------------------------------------------------- C03, wide part
static void lin_(long got, long bound, const char *what) {
    ctx().evals++;
    if (got > bound) fail(fmt("%s needs %ld nodes (at most %ld expected)", what, got, bound));
}
static void c03w(int lo, int hi) {
    for (int n = lo; n <= hi; n++) {
        if (!mine()) continue;
        for (int order = 0; order < 3; order++) {
            std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i;
            if (order == 1) std::reverse(q.begin(), q.end());
            if (order == 2) std::stable_sort(q.begin(), q.end(), [](int a, int b) { return (a * 7) % 11 < (b * 7) % 11; });
            auto run = [&](const char *nm, long bound, std::function<void(std::function<void(mEdge)>)> body) {
                at(fmt("n=%d order %d %s", n, order, nm));
                vEdge v = makeZeroState(n);
                body([&](mEdge g) { lin_(nodes(g), 2 * n + 2, "a gate"); v = ap(g, v); lin_(nodes(v), bound, nm); });
                if (!(std::abs(norm2d(v) - 1) < 1e-9)) fail(fmt("norm %g", norm2d(v)));
                state(fmt("%d/%d/%s", n, order, nm)); done();
            };
            run("a basis state", n, [&](auto g) { for (int i : q) if (i % 3) g(mg(n, gX(), i)); });
            run("a uniform superposition", n, [&](auto g) { for (int i : q) g(mg(n, gH(), i)); });
            run("a product state", 2 * n, [&](auto g) { for (int i : q) g(mg(n, gRY(.1 + .02 * i), i)); for (int i : q) g(mg(n, gP(.3 * i), i)); });
            run("a uniform superposition undone", n, [&](auto g) { for (int i : q) g(mg(n, gH(), i)); for (int i : q) g(mg(n, gH(), i)); });
            run("a GHZ ladder", 2 * n + 2, [&](auto g) { g(mg(n, gH(), q[0])); for (int i = 0; i + 1 < n; i++) g(mg(n, gX(), q[i + 1], {{q[i], 1}})); });
            run("a GHZ star", 2 * n + 2, [&](auto g) { g(mg(n, gH(), q[0])); for (int i = 1; i < n; i++) g(mg(n, gX(), q[i], {{q[0], 1}})); });
            if (order < 2) run("a graph state chain", 4 * n + 4, [&](auto g) { for (int i : q) g(mg(n, gH(), i)); for (int i = 0; i + 1 < n; i++) g(mg(n, gZ(), i + 1, {{i, 1}})); });
            run("a fully controlled gate on GHZ", 4 * n + 4, [&](auto g) { g(mg(n, gH(), q[0])); for (int i = 1; i < n; i++) g(mg(n, gX(), q[i], {{q[0], 1}})); std::vector<std::pair<int, int>> c; for (int i = 1; i < n; i++) c.push_back({q[i], 1}); g(mg(n, gP(.9), q[0], c)); });
            // operators
            auto op = [&](const char *nm, long bound, std::function<void(std::function<void(mEdge)>)> body) {
                at(fmt("n=%d order %d operator %s", n, order, nm));
                mEdge m = makeIdent(n);
                body([&](mEdge g) { ctx().transitions++; m = mm_multiply(g, m); lin_(nodes(m), bound, nm); });
                state(fmt("op %d/%d/%s", n, order, nm)); done();
                return m;
            };
            mEdge h = op("H on every qubit", n, [&](auto g) { for (int i : q) g(mg(n, gH(), i)); });
            vEdge u = ap(h, makeZeroState(n)); Bits b(n, 1);
            if (!(std::abs(amp(u, n, b) * std::pow(2.0, n / 2.0) - 1.0) < 1e-8)) fail("H on every qubit as one operator does not prepare the uniform superposition");
            mEdge id = op("X twice on every qubit", n, [&](auto g) { for (int i : q) g(mg(n, gX(), i)); for (int i : q) g(mg(n, gX(), i)); });
            if (!id.isTerminal() || std::abs(C(id.w) - 1.0) > 1e-9) fail("undoing every gate does not give the identity");
            if (order < 2) op("a CX ladder", 4 * n + 4, [&](auto g) { for (int i = 0; i + 1 < n; i++) g(mg(n, gX(), q[i + 1], {{q[i], 1}})); });
            at(fmt("n=%d sum of two operators", n)); mEdge s2 = mm_add(h, h); lin_(nodes(s2), n, "a sum of equal operators"); ctx().transitions++;
            vEdge v2 = ap(s2, makeZeroState(n)); if (!(std::abs(amp(v2, n, b) * std::pow(2.0, n / 2.0) - 2.0) < 1e-8)) fail("sum of two operators");
            mEdge s3 = mm_add(h, mg(n, gX(), 0)); lin_(nodes(s3), 4 * n + 4, "a sum of two operators"); vEdge v3 = ap(s3, makeZeroState(n)); Bits e0(n, 0); e0[0] = 1;
            cd want = std::pow(2.0, -n / 2.0) + 1.0; if (!(std::abs(amp(v3, n, e0) - want) < 1e-8)) fail("sum of two different operators");
        }
        at(fmt("n=%d collection", n)); gc(std::vector<vEdge>{}, false); gc_mat(std::vector<mEdge>{}, false);
    }
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    shard = atoi(a["shard"].c_str()); shards = atoi(a["shards"].c_str());
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    auto num = [&](const char *k) { return atoi(a[k].c_str()); };
    if (ctx().prop == "C08") c08(num("lo"), num("hi"), num("step"), num("depth")); else c03w(num("lo"), num("hi"));
    finish();
}
