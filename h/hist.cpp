// C04: garbage collection is invisible (all operation sequences up to a depth, gc of vectors and matrices anywhere).
// C05: results do not depend on what was computed before (all orders of workloads, with tiny tables and caches).
#include "ddx.hpp"
#if !defined(__SANITIZE_ADDRESS__)
// Freed memory is handed out again at once, so that new nodes take the addresses of collected ones.
#include <cstdlib>
#include <new>
namespace {
const size_t NCLS = 4096;
void *pool[NCLS];
inline void *get(size_t n) {
    size_t c = (n + 15) / 16; if (!c) c = 1;
    if (c >= NCLS) { void *p = malloc(c * 16 + 16); if (!p) abort(); *(size_t *)p = c; return (char *)p + 16; }
    void *p = pool[c];
    if (p) { pool[c] = *(void **)p; return p; }
    p = malloc(c * 16 + 16); if (!p) abort();
    *(size_t *)p = c;
    return (char *)p + 16;
}
inline void put(void *p) {
    if (!p) return;
    char *b = (char *)p - 16; size_t c = *(size_t *)b;
    if (c >= NCLS) { free(b); return; }
    *(void **)p = pool[c]; pool[c] = p;
}
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
#endif
using namespace mc;
struct M { mEdge e; Mat d; };
struct S { vEdge e; Vec d; };
static double mag(const std::vector<cd> &x) { double m = 1; for (auto &c : x) m = std::max(m, std::abs(c)); return m; }
static void chk(const M &m, int n, const char *w) { expect(dense(m.e, n), m.d, 1e-9 * mag(m.d.a), w); }
static void chk(const S &m, int n, const char *w) { expect(dense(m.e, n), m.d, 1e-9 * mag(m.d), w); }
static M gate1(int n, const G &g, int t, std::vector<std::pair<int, int>> c = {}) { return {makeGate(n, gm(g), t, ctl(c)), embed(n, g, {t}, c)}; }
static M gate2(int n, const G &g, int a, int b) { return {makeTwoQubitGate(n, tqm(g), a, b), embed(n, g, {b, a})}; }
static S zero(int n) { Vec z((size_t)1 << n); z[0] = 1; return {makeZeroState(n), z}; }
static S app(const M &m, const S &s) { ctx().transitions++; return {mv_multiply(m.e, s.e), mulv(m.d, s.d)}; }
static M mulm(const M &a, const M &b) { ctx().transitions++; return {mm_multiply(a.e, b.e), mul(a.d, b.d)}; }
static M addm(const M &a, const M &b) { ctx().transitions++; return {mm_add(a.e, b.e), add(a.d, b.d)}; }
static S adds(const S &a, const S &b) { ctx().transitions++; return {vv_add(a.e, b.e), addv(a.d, b.d)}; }
static std::mt19937_64 rng(1);
static void draw(double x) { uint64_t v = (uint64_t)(x * 18446744073709551615.0); mcrng_arm(&v, 1, v); }
static Vec collapse(const Vec &v, int q, int b, double &p) {
    Vec r = v; p = 0;
    for (size_t i = 0; i < r.size(); i++) { if ((int)((i >> q) & 1) != b) r[i] = 0; else p += std::norm(r[i]); }
    for (auto &c : r) c /= std::sqrt(p);
    return r;
}
static void observe(S &s, int n) {  // read-only observations of a normalised vector
    if (std::abs(norm2v(s.d) - 1) > 1e-6) return;
    auto pr = probabilities(s.e);
    if (pr.size() != s.d.size()) fail("probabilities(): wrong length");
    for (size_t i = 0; i < pr.size(); i++) if (!(std::abs(pr[i] - std::norm(s.d[i])) < 1e-8)) fail(fmt("probabilities()[%zu] = %g instead of %g", i, pr[i], std::norm(s.d[i])));
    for (int q = 0; q < n; q++) {
        double p; collapse(s.d, q, 0, p);
        double got = measureOne(s.e, q, rng);
        if (!(std::abs(got - p) < 1e-8)) fail(fmt("measureOne(%d) = %g instead of %g", q, got, p));
    }
    for (double x : {0.03, 0.97}) {
        draw(x);
        vEdge c = s.e;
        std::string r = measureAll(c, false, rng);
        mcrng_disarm();
        long idx = strtol(r.c_str(), 0, 2);
        if ((int)r.size() != n || std::norm(s.d[idx]) < 1e-12) fail("measureAll returned the impossible outcome " + r);
    }
    ctx().transitions += 4;
}

// ------------------------------------------------------------------------------------------ C04
struct World { int n; S V[2]; M Mx[2]; };
typedef std::function<bool(World &)> Op;
static std::vector<std::pair<std::string, Op>> alphabet(int n, bool measure) {
    std::vector<std::pair<std::string, Op>> o;
    auto vop = [&](std::string nm, std::function<M(int)> mk) { o.push_back({nm, [mk](World &w) { w.V[0] = app(mk(w.n), w.V[0]); return true; }}); };
    vop("H0", [](int n) { return gate1(n, gH(), 0); });
    vop("CX", [](int n) { return gate1(n, gX(), n - 1, n > 1 ? std::vector<std::pair<int, int>>{{0, 1}} : std::vector<std::pair<int, int>>{}); });
    vop("ry", [](int n) { return gate1(n, gRY(1.1), n - 1); });
    vop("proj", [](int n) { return gate1(n, g2(1, 0, 0, 0), 0); });
    o.push_back({"M0V0", [](World &w) { w.V[0] = app(w.Mx[0], w.V[0]); return mag(w.V[0].d) < 1e3; }});
    o.push_back({"V0+V1", [](World &w) { w.V[0] = adds(w.V[0], w.V[1]); return mag(w.V[0].d) < 1e3; }});
    o.push_back({"swapV", [](World &w) { std::swap(w.V[0], w.V[1]); return true; }});
    o.push_back({"V1=V0", [](World &w) { w.V[1] = w.V[0]; return true; }});
    o.push_back({"M0M1", [](World &w) { w.Mx[0] = mulm(w.Mx[0], w.Mx[1]); return mag(w.Mx[0].d.a) < 1e3; }});
    o.push_back({"M0+M1", [](World &w) { w.Mx[0] = addm(w.Mx[0], w.Mx[1]); return mag(w.Mx[0].d.a) < 1e3; }});
    o.push_back({"swapM", [](World &w) { std::swap(w.Mx[0], w.Mx[1]); return true; }});
    // collections
    o.push_back({"gc(V0)", [](World &w) { w.V[0].e = gc(w.V[0].e, true); w.V[1] = w.V[0]; ctx().transitions++; return true; }});
    o.push_back({"gc[V0,V1]", [](World &w) { auto r = gc(std::vector<vEdge>{w.V[0].e, w.V[1].e}, true); if (r.size() != 2) fail("gc returned another number of vectors"); w.V[0].e = r[0]; w.V[1].e = r[1]; ctx().transitions++; return true; }});
    o.push_back({"gc[V1,0,V0,V1]", [](World &w) { auto r = gc(std::vector<vEdge>{w.V[1].e, vEdge::zero, w.V[0].e, w.V[1].e}, true); if (r.size() != 4 || !r[1].isTerminal()) fail("gc returned other vectors"); w.V[0].e = r[2]; w.V[1].e = r[3]; chk(S{r[0], w.V[1].d}, w.n, "first copy of a vector listed twice"); ctx().transitions++; return true; }});
    o.push_back({"gcm(M0)", [](World &w) { w.Mx[0].e = gc_mat(w.Mx[0].e, true); w.Mx[1] = w.Mx[0]; ctx().transitions++; return true; }});
    o.push_back({"gcm[M0,M1]", [](World &w) { auto r = gc_mat(std::vector<mEdge>{w.Mx[0].e, w.Mx[1].e}, true); if (r.size() != 2) fail("gc_mat returned another number of matrices"); w.Mx[0].e = r[0]; w.Mx[1].e = r[1]; ctx().transitions++; return true; }});
    o.push_back({"gcm[1,M1,0,M0,M1]", [](World &w) { auto r = gc_mat(std::vector<mEdge>{mEdge::one, w.Mx[1].e, mEdge::zero, w.Mx[0].e, w.Mx[1].e}, true); if (r.size() != 5) fail("gc_mat returned another number of matrices"); w.Mx[0].e = r[3]; w.Mx[1].e = r[4]; chk(M{r[1], w.Mx[1].d}, w.n, "first copy of a matrix listed twice"); chk(M{r[0], Mat::id(1 << w.n)}, w.n, "identity after collection"); ctx().transitions++; return true; }});
    o.push_back({"thr0,gc", [](World &w) { set_gc_thr(0, 0); auto r = gc(std::vector<vEdge>{w.V[0].e, w.V[1].e}, false); w.V[0].e = r[0]; w.V[1].e = r[1]; auto m = gc_mat(std::vector<mEdge>{w.Mx[0].e, w.Mx[1].e}, false); w.Mx[0].e = m[0]; w.Mx[1].e = m[1]; ctx().transitions++; return true; }});
    o.push_back({"thr+,gc", [](World &w) { set_gc_thr(1 << 20, 1 << 20); auto r = gc(w.V[0].e, false); w.V[0].e = r; auto m = gc_mat(w.Mx[0].e, false); w.Mx[0].e = m; ctx().transitions++; return true; }});  // below the threshold: nothing is collected, V1/M1 stay valid
    if (measure) {
        o.push_back({"obs", [](World &w) { observe(w.V[0], w.n); return true; }});
        o.push_back({"meas", [](World &w) {
            if (std::abs(norm2v(w.V[0].d) - 1) > 1e-6) return true;
            double p0; int q = w.n - 1; collapse(w.V[0].d, q, 0, p0);
            draw(.5); char r = measureOneCollapsing(w.V[0].e, q, rng); mcrng_disarm();
            ctx().transitions++;
            double p; Vec c = collapse(w.V[0].d, q, r == '1', p);
            if (r != '0' && r != '1') fail("a measurement returned something else than 0 or 1");
            if (!(p > 1e-12)) fail("impossible measurement outcome after collection");
            w.V[0].d = c; return true; }});
    }
    return o;
}
static void c04(std::map<std::string, std::string> &a) {
    int n = atoi(a["n"].c_str()), depth = atoi(a["depth"].c_str()), shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str());
    auto ops = alphabet(n, true);
    int A = (int)ops.size();
    int prefix = std::min(depth, 2);
    long P = 1; for (int i = 0; i < prefix; i++) P *= A;
    long R = 1; for (int i = prefix; i < depth; i++) R *= A;
    for (long p = shard; p < P; p += shards) {
        for (long r = 0; r < R; r++) {
            std::vector<int> seq; long x = p, y = r;
            for (int i = 0; i < prefix; i++) { seq.push_back(x % A); x /= A; }
            for (int i = prefix; i < depth; i++) { seq.push_back(y % A); y /= A; }
            std::string tr = fmt("n=%d:", n);
            for (int o : seq) tr += " " + ops[o].first;
            at(tr);
            gc(std::vector<vEdge>{}, true); gc_mat(std::vector<mEdge>{}, true);
            set_gc_thr(1 << 16, 1 << 16);
            World w; w.n = n; w.V[0] = zero(n); w.V[1] = app(gate1(n, gH(), n - 1), w.V[0]);
            w.Mx[0] = gate1(n, gRX(.6), 0); w.Mx[1] = n > 1 ? gate1(n, gX(), 0, {{n - 1, 1}}) : gate1(n, gX(), 0);
            bool ok = true;
            for (int o : seq) {
                if (!(ok = ops[o].second(w))) break;
                chk(w.V[0], n, "vector 0"); chk(w.V[1], n, "vector 1");
                chk(w.Mx[0], n, "matrix 0"); chk(w.Mx[1], n, "matrix 1");
            }
            if (!ok) continue;
            at(tr + " then observe");
            observe(w.V[0], n); observe(w.V[1], n);
            S f = app(w.Mx[1], app(w.Mx[0], w.V[1])); chk(f, n, "operation after the sequence");
            done();
        }
    }
}
// C04, second part: everything collected is forgotten.  One computation on operands P, collections, then the same
// computation on operands Q that take over the addresses of P's nodes.
static void c04b(std::map<std::string, std::string> &a) {
    int n = atoi(a["n"].c_str()), shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str()), pool_ = atoi(a["pool"].c_str());
    typedef std::function<M()> MkM; typedef std::function<S()> MkS;
    struct NM { std::string nm; MkM f; }; struct NS { std::string nm; MkS f; };
    std::vector<NM> ms; std::vector<NS> ss;
    auto g = [&](const char *nm, G x, int t, std::vector<std::pair<int, int>> c = {}) { ms.push_back({fmt("%s%d", nm, t) + (c.empty() ? "" : cs(c)), [=] { return gate1(n, x, t, c); }}); };
    int hi = n - 1;
    g("X", gX(), hi); g("S", g2(1, 0, 0, I1), hi); g("Y", gY(), 0); g("T", gP(.8), 0); g("M", g2(1, .5, .25, cd(0, .5)), hi);
    if (n > 1) { g("CX", gX(), hi, {{0, 1}}); g("CX", gX(), 0, {{hi, 1}}); g("CT", gP(.3), hi, {{0, 0}}); }
    g("ry", gRY(.7), 0);
    ms.resize(std::min<size_t>(ms.size(), pool_));
    auto st = [&](std::string nm, std::vector<NM> seq) { ss.push_back({nm, [=] { S s = zero(n); for (auto &m : seq) s = app(m.f(), s); return s; }}); };
    st("0", {}); st("X", {ms[0]}); st("XY", {ms[0], ms[2]}); st("ry", {{"", [=] { return gate1(n, gRY(.7), 0); }}}); st("ry2", {{"", [=] { return gate1(n, gRY(1.9), hi); }}, ms[0]});
    st("H", {{"", [=] { return gate1(n, gH(), 0); }}}); st("HS", {{"", [=] { return gate1(n, gH(), hi); }}, ms[1]});
    if (n > 1) st("bell", {{"", [=] { return gate1(n, gRY(.9), 0); }}, ms[5 < (int)ms.size() ? 5 : 0]});
    ss.resize(std::min<size_t>(ss.size(), pool_));
    const char *seqs[] = {"v", "m", "vv", "mm", "vm", "vmvm", "mvmv", "vvmm"};
    int NMm = (int)ms.size(), NSs = (int)ss.size();
    long it = 0, reuse = 0;
    for (int op = 0; op < 5; op++) {
        int A = op <= 1 ? NMm * NMm : op == 2 ? NMm * NSs : op == 3 ? NSs * NSs : NSs;
        for (int P = 0; P < A; P++) {
            if (it++ % shards != shard) continue;
            for (int Q = 0; Q < A; Q++) { if (P == Q) continue; for (auto sq : seqs) for (int keep = 0; keep < 2; keep++) {
                std::set<const void *> used;
                auto comp = [&](int X, bool second) {
                    auto note = [&](const void *p) { if (!second) used.insert(p); else if (used.count(p)) reuse++; };
                    if (op <= 1) { M x = ms[X / NMm].f(), y = ms[X % NMm].f(); note(x.e.n); note(y.e.n); M r = op ? mulm(x, y) : addm(x, y); chk(r, n, "result"); chk(x, n, "left operand"); chk(y, n, "right operand"); return ms[X / NMm].nm + (op ? "*" : "+") + ms[X % NMm].nm; }
                    if (op == 2) { M x = ms[X / NSs].f(); S y = ss[X % NSs].f(); note(x.e.n); note(y.e.n); S r = app(x, y); chk(r, n, "result"); return ms[X / NSs].nm + "|" + ss[X % NSs].nm + ">"; }
                    if (op == 3) { S x = ss[X / NSs].f(), y = ss[X % NSs].f(); note(x.e.n); note(y.e.n); S r = adds(x, y); chk(r, n, "result"); return "|" + ss[X / NSs].nm + ">+|" + ss[X % NSs].nm + ">"; }
                    S x = ss[X].f(); note(x.e.n); observe(x, n); return "observe |" + ss[X].nm + ">";
                };
                auto nmof = [&](int X) { return op <= 1 ? ms[X / NMm].nm + (op ? "*" : "+") + ms[X % NMm].nm : op == 2 ? ms[X / NSs].nm + "|" + ss[X % NSs].nm + ">" : op == 3 ? "|" + ss[X / NSs].nm + ">+|" + ss[X % NSs].nm + ">" : "observe |" + ss[X].nm + ">"; };
                at(fmt("n=%d ", n) + nmof(P) + ", collect " + sq + (keep ? " keeping a state and an operator, " : ", ") + nmof(Q));
                gc(std::vector<vEdge>{}, true); gc_mat(std::vector<mEdge>{}, true);
                S ks; M km;
                if (keep) { ks = app(gate1(n, gRY(1.3), 0), zero(n)); km = gate1(n, gRX(.4), hi); }
                comp(P, false);
                for (const char *q = sq; *q; q++) {
                    if (*q == 'v') { if (keep) ks.e = gc(ks.e, true); else gc(std::vector<vEdge>{}, true); }
                    else { if (keep) km.e = gc_mat(km.e, true); else gc_mat(std::vector<mEdge>{}, true); }
                    ctx().transitions++;
                }
                comp(Q, true);
                if (keep) { chk(ks, n, "kept vector"); chk(km, n, "kept operator"); }
                done();
            } }
        }
    }
    ctx().extra["operand_addresses_reused"] += reuse;
}
// ------------------------------------------------------------------------------------------ C05
struct Run { int n; std::vector<S> v; std::vector<M> m; };
typedef std::function<void(Run &)> Load;
static std::vector<std::pair<std::string, Load>> loads() {
    std::vector<std::pair<std::string, Load>> L;
    auto circ = [&](std::string nm, int n, std::function<void(Run &, S &)> body) { L.push_back({nm, [n, body](Run &r) { r.n = n; S s = zero(n); body(r, s); r.v.push_back(s); chk(s, n, "final vector"); observe(s, n); }}); };
    for (int n : {1, 2, 4}) circ(fmt("ghz%d", n), n, [n](Run &r, S &s) { s = app(gate1(n, gH(), 0), s); r.v.push_back(s); for (int i = 0; i + 1 < n; i++) { s = app(gate1(n, gX(), i + 1, {{i, 1}}), s); r.v.push_back(s); } });
    for (int n : {2, 3}) circ(fmt("rot%d", n), n, [n](Run &r, S &s) { for (int i = 0; i < n; i++) s = app(gate1(n, gRY(.4 + i), i), s); r.v.push_back(s); s = app(gate1(n, gP(.7), n - 1, {{0, 0}}), s); s = app(gate2(n, rot2(gX(), gZ(), 1.3), 0, n - 1), s); });
    for (int n : {3}) circ(fmt("add%d", n), n, [n](Run &r, S &s) { S t = app(gate1(n, gH(), 1), s), u = app(gate1(n, gRX(.8), 2), t); S x = adds(t, u), y = adds(u, t); chk(x, n, "sum"); chk(y, n, "sum"); r.v.push_back(x); r.v.push_back(y); s = app(gate1(n, gZ(), 1), u); });
    auto mat = [&](std::string nm, int n, std::function<void(Run &)> body) { L.push_back({nm, [n, body](Run &r) { r.n = n; body(r); for (auto &m : r.m) chk(m, n, "matrix"); }}); };
    for (int n : {2, 3}) mat(fmt("mm%d", n), n, [n](Run &r) { M a = gate1(n, gH(), 0), b = gate1(n, gX(), n - 1, {{0, 1}}), c = gate1(n, gRX(.5), n - 1); r.m.push_back(mulm(a, b)); r.m.push_back(mulm(b, a)); r.m.push_back(mulm(r.m[0], c)); r.m.push_back(mulm(c, r.m[1])); r.m.push_back(addm(r.m[2], r.m[3])); r.m.push_back(addm(r.m[0], b)); r.m.push_back(addm(b, r.m[0])); });
    mat("qft3", 3, [](Run &r) { M q = gate1(3, gH(), 2); int n = 3; q = mulm(gate1(n, gP(MPI_ / 2), 2, {{1, 1}}), q); q = mulm(gate1(n, gP(MPI_ / 4), 2, {{0, 1}}), q); q = mulm(gate1(n, gH(), 1), q); q = mulm(gate1(n, gP(MPI_ / 2), 1, {{0, 1}}), q); q = mulm(gate1(n, gH(), 0), q); r.m.push_back(q); S s = zero(n); s = app(gate1(n, gX(), 1), s); s = app(q, s); chk(s, n, "qft of a basis state"); r.v.push_back(s); });
    circ("proj", 2, [](Run &r, S &s) { s = app(gate1(2, gH(), 0), s); s = app(gate1(2, gX(), 1, {{0, 1}}), s); S z = app(gate1(2, g2(1, 0, 0, 0), 1), app(gate1(2, g2(0, 0, 0, 1), 0), s)); chk(z, 2, "zero vector"); S h = app(gate1(2, g2(0, 0, 0, 1), 0), s); chk(h, 2, "projected"); r.v.push_back(h); });
    L.push_back({"gc", [](Run &r) { r.n = 1; }});  // replaced by a collection in the driver
    return L;
}
static void c05(std::map<std::string, std::string> &a) {
    int len = atoi(a["len"].c_str()), shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str());
    long every = atol(a["fresh"].c_str());  // sequences between two collections of everything (0 = never)
    auto L = loads();
    int A = (int)L.size();
    long P = 1; for (int i = 0; i < len; i++) P *= A;
    long cnt = 0;
    for (long p = shard; p < P; p += shards) {
        std::string tr = "history:";
        std::vector<int> seq; long x = p;
        for (int i = 0; i < len; i++) { seq.push_back(x % A); x /= A; tr += " " + L[seq.back()].first; }
        at(tr + fmt(" (after %ld earlier sequences)", cnt));
        if (every && cnt++ % every == 0) { gc(std::vector<vEdge>{}, true); gc_mat(std::vector<mEdge>{}, true); }
        std::vector<Run> all;
        for (int i : seq) {
            if (L[i].first == "gc") {
                std::vector<vEdge> v; std::vector<mEdge> m;
                for (auto &r : all) { for (auto &s : r.v) v.push_back(s.e); for (auto &s : r.m) m.push_back(s.e); }
                v = gc(v, true); m = gc_mat(m, true);
                size_t iv = 0, im = 0;
                for (auto &r : all) { for (auto &s : r.v) s.e = v.at(iv++); for (auto &s : r.m) s.e = m.at(im++); }
            } else { all.emplace_back(); L[i].second(all.back()); }
        }
        for (auto &r : all) { for (auto &s : r.v) chk(s, r.n, "a vector computed earlier changed"); for (auto &m : r.m) chk(m, r.n, "a matrix computed earlier changed"); }
        done();
    }
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    if (a.count("pool")) c04b(a); else if (ctx().prop == "C04") c04(a); else c05(a);
    finish();
}
