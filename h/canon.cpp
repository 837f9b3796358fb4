// C03, small part: on states and operators whose amplitudes are exact (all of equal magnitude with phases 1, i, -1, -i),
// equal states have one diagram, of minimal size, however they were computed, also across garbage collections.
#include "ddx.hpp"
using namespace mc;
static int shard, shards;
static long nodes(const vEdge &e) { std::set<void *> s; std::function<void(const vEdge &)> f = [&](const vEdge &x) { if (!x.isTerminal() && s.insert(x.n).second) for (auto &c : x.n->children) f(c); }; f(e); return s.size(); }
static long nodes(const mEdge &e) { std::set<void *> s; std::function<void(const mEdge &)> f = [&](const mEdge &x) { if (!x.isTerminal() && s.insert(x.n).second) for (auto &c : x.n->children) f(c); }; f(e); return s.size(); }
static std::string canonKey(std::vector<cd> v, cd *w = nullptr) {  // up to a scalar
    cd f = 0; for (auto &c : v) if (std::abs(c) > 1e-9) { f = c; break; }
    if (w) *w = f;
    if (f == 0.0) return "";
    for (auto &c : v) c /= f;
    return key(v);
}
static long minimalV(const Vec &v) {
    std::set<std::string> u;
    for (size_t d = v.size(); d >= 2; d /= 2) for (size_t i = 0; i < v.size(); i += d) { std::string k = canonKey(Vec(v.begin() + i, v.begin() + i + d)); if (!k.empty()) u.insert(fmt("%zu:", d) + k); }
    return (long)u.size();
}
// minimal reduced form of a matrix: a block that is the same block on both diagonal halves is skipped
struct Red { std::string id; cd w; };
static Red reduceM(const Mat &m, std::set<std::string> &u) {
    if (m.d == 1) return std::abs(m(0, 0)) < 1e-9 ? Red{"0", 0} : Red{"1", m(0, 0)};
    int h = m.d / 2; Red c[4];
    for (int i = 0; i < 4; i++) { Mat b(h); for (int r = 0; r < h; r++) for (int k = 0; k < h; k++) b(r, k) = m(r + (i >> 1) * h, k + (i & 1) * h); c[i] = reduceM(b, u); }
    if (c[1].w == 0.0 && c[2].w == 0.0 && c[0].id == c[3].id && std::abs(c[0].w - c[3].w) < 1e-9) return c[0];
    cd f = 0; for (auto &x : c) if (x.w != 0.0) { f = x.w; break; }
    if (f == 0.0) return {"0", 0};
    std::string id = fmt("(%d", m.d);
    for (auto &x : c) id += x.w == 0.0 ? " 0" : " " + x.id + "*" + key({x.w / f});
    id += ")"; u.insert(id);
    return {id, f};
}
struct MO { mEdge e; Mat d; std::string nm; };
static std::vector<MO> gates(int n) {
    std::vector<MO> r;
    auto g1 = [&](const char *nm, G g, int t, std::vector<std::pair<int, int>> c = {}) { r.push_back({makeGate(n, gm(g), t, ctl(c)), embed(n, g, {t}, c), fmt("%s%d", nm, t) + (c.empty() ? "" : cs(c))}); };
    G S = g2(1, 0, 0, I1);
    for (int t = 0; t < n; t++) { g1("X", gX(), t); g1("S", S, t); }
    g1("Y", gY(), n - 1);
    for (int t = 0; t + 1 < n; t++) { g1("X", gX(), t + 1, {{t, 1}}); g1("Z", gZ(), t, {{t + 1, 1}}); g1("X", gX(), t, {{t + 1, 0}}); }
    if (n > 2) g1("X", gX(), 0, {{1, 1}, {2, 1}});
    if (n > 1) r.push_back({makeSwap(n, 0, n - 1), [&] { G g{{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {0, 0, 0, 1}}; return embed(n, g, {0, n - 1}); }(), "swap"});
    return r;
}
static void rebuildCheck(int n, size_t cap, int depth, bool matrices, int gcs) {
    auto gs = gates(n);
    if (!matrices) {
        std::map<std::string, std::pair<vNode *, std::string>> uniq;   // state up to phase -> its node
        struct St { vEdge e; Vec d; std::string how; };
        std::vector<St> all; std::map<std::string, bool> seen;
        auto reg = [&](const vEdge &e, const Vec &d, const std::string &how) {
            at(fmt("n=%d ", n) + how);
            expect(dense(e, n), d, 1e-9, "vector");
            std::string k = canonKey(d);
            auto it = uniq.find(k);
            if (it == uniq.end()) uniq[k] = {e.n, how};
            else if (it->second.first != e.n) fail("the same state has two diagrams; the other was computed by " + it->second.second);
            long mn = minimalV(d), nn = nodes(e);
            if (nn != mn) fail(fmt("diagram of %ld nodes where %ld suffice", nn, mn));
            done();
        };
        for (int hm = 0; hm < 1 << n; hm++) {
            vEdge e = makeZeroState(n); Vec d(1 << n); d[0] = 1; std::string how;
            for (int q = 0; q < n; q++) if ((hm >> q) & 1) { e = mv_multiply(makeGate(n, gm(gH()), q), e); d = mulv(embed(n, gH(), {q}), d); how += fmt("H%d ", q); }
            reg(e, d, how); all.push_back({e, d, how}); seen[key(d)] = true;
        }
        size_t lo = 0;
        for (int dep = 0; dep < depth; dep++) {
            size_t hi = all.size();
            for (size_t i = lo; i < hi; i++) for (auto &g : gs) {
                vEdge e = mv_multiply(g.e, all[i].e); Vec d = mulv(g.d, all[i].d); ctx().transitions++;
                std::string how = all[i].how + g.nm + " ";
                reg(e, d, how);
                if (!seen[key(d)] && all.size() < cap) { seen[key(d)] = true; all.push_back({e, d, how}); }
            }
            lo = hi;
        }
        for (auto &s : seen) state(s.first);
        // collections keep the diagrams unique: what survives is found again when recomputed
        for (int r = 0; r < gcs; r++) {
            std::vector<vEdge> keep; std::vector<size_t> idx;
            for (size_t i = 0; i < all.size(); i++) if ((i * 2654435761u >> 7) % 3 != (unsigned)r % 3) { keep.push_back(all[i].e); idx.push_back(i); }
            at(fmt("n=%d collection %d keeping %zu of %zu", n, r, keep.size(), all.size()));
            keep = gc(keep, true); uniq.clear();
            std::vector<mEdge> ms; for (auto &g : gs) ms.push_back(g.e); ms = gc_mat(ms, true); for (size_t i = 0; i < gs.size(); i++) gs[i].e = ms[i];
            std::vector<St> nw;
            for (size_t j = 0; j < idx.size(); j++) { nw.push_back({keep[j], all[idx[j]].d, all[idx[j]].how}); reg(keep[j], nw.back().d, "kept: " + nw.back().how); }
            std::vector<St> add;
            for (auto &s : nw) for (auto &g : gs) { vEdge e = mv_multiply(g.e, s.e); Vec d = mulv(g.d, s.d); ctx().transitions++; reg(e, d, fmt("after collection %d: ", r) + s.how + g.nm); }
            all = nw;
        }
    } else {
        std::map<std::string, std::pair<mNode *, std::string>> uniq;
        std::vector<MO> all; std::map<std::string, bool> seen;
        auto reg = [&](const mEdge &e, const Mat &d, const std::string &how) {
            at(fmt("n=%d operator ", n) + how);
            expect(dense(e, n), d, 1e-9, "matrix");
            std::string k = canonKey(d.a);
            auto it = uniq.find(k);
            if (it == uniq.end()) uniq[k] = {e.n, how};
            else if (it->second.first != e.n) fail("the same operator has two diagrams; the other was computed by " + it->second.second);
            std::set<std::string> u; reduceM(d, u);
            long nn = nodes(e);
            if (nn != (long)u.size()) fail(fmt("operator diagram of %ld nodes where %zu suffice", nn, u.size()));
            done();
        };
        all.push_back({makeIdent(n), Mat::id(1 << n), "1"}); seen[key(all[0].d.a)] = true;
        size_t lo = 0;
        for (int dep = 0; dep < depth; dep++) {
            size_t hi = all.size();
            for (size_t i = lo; i < hi; i++) for (auto &g : gs) for (int side = 0; side < 2; side++) {
                mEdge e = side ? mm_multiply(all[i].e, g.e) : mm_multiply(g.e, all[i].e); Mat d = side ? mul(all[i].d, g.d) : mul(g.d, all[i].d); ctx().transitions++;
                std::string how = side ? g.nm + " then (" + all[i].nm + ")" : "(" + all[i].nm + ") then " + g.nm;
                reg(e, d, how);
                if (!seen[key(d.a)] && all.size() < cap) { seen[key(d.a)] = true; all.push_back({e, d, how}); }
            }
            lo = hi;
        }
        for (auto &s : seen) state(s.first);
        for (int r = 0; r < gcs; r++) {
            std::vector<mEdge> keep; std::vector<size_t> idx;
            for (size_t i = 0; i < all.size(); i++) if ((i * 2654435761u >> 7) % 3 != (unsigned)r % 3) { keep.push_back(all[i].e); idx.push_back(i); }
            size_t nk = keep.size(); for (auto &g : gs) keep.push_back(g.e);
            at(fmt("n=%d operators, collection %d keeping %zu", n, r, nk));
            keep = gc_mat(keep, true); uniq.clear();
            for (size_t i = 0; i < gs.size(); i++) gs[i].e = keep[nk + i];
            std::vector<MO> nw;
            for (size_t j = 0; j < nk; j++) { nw.push_back({keep[j], all[idx[j]].d, all[idx[j]].nm}); reg(keep[j], nw.back().d, "kept: " + nw.back().nm); }
            for (auto &s : nw) for (auto &g : gs) { mEdge e = mm_multiply(g.e, s.e); Mat d = mul(g.d, s.d); ctx().transitions++; reg(e, d, fmt("after collection %d: (", r) + s.nm + ") then " + g.nm); }
            all = nw;
        }
    }
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    shard = atoi(a["shard"].c_str()); shards = atoi(a["shards"].c_str());
    watchdog(atoi(a["cpu"].c_str()));
    Quiet quiet;
    auto num = [&](const char *k) { return atoi(a[k].c_str()); };
    rebuildCheck(num("n"), num("cap"), num("depth"), num("mat"), num("gcs"));
    finish();
}
