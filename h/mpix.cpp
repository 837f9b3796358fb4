// Distributed mode: N copies of the engine as ranks, every message under the explorer's control.
#include "mpiref.hpp"
#include <dlfcn.h>
#include <ucontext.h>
#include <deque>
#include <iostream>
#include <sstream>
using namespace mc;
struct mc_ops {
    long (*post_send)(int, int, const char *, long, const char *, size_t, int);
    long (*post_recv)(int, int, const char *, long);
    int (*wait)(long, int *, int *, long *, const char **, size_t *);
    int (*test)(long, int *, int *, long *, const char **, size_t *);
    int (*probe)(int, int, int, int *, int *, long *);
    int (*coll)(const char *, int, const char *, const char *, size_t);
    void (*coll_get)(int, const char **, size_t *);
    uint64_t (*draw)(void);
    int (*draw_armed)(void);
    void (*note)(const char *);
};
struct Lib { void *h; void (*init)(const mc_ops *, int, int); void (*reset)(); int (*run)(const PProg *, POut *); };
static Lib lib[8];
static int W;
struct Msg { int src, dst, tag; std::string type; long count; std::string data; int seq; bool sync; };
struct Req { bool send, done, consumed; int rank, peer, tag; std::string type; long count; int msg; };   // msg: index of the matched/own message
struct Coll { std::string kind; int root; std::string type; std::vector<std::string> data; std::vector<bool> in; };
enum St { START, WAIT, TEST, PROBE, COLL, DONE };
struct Rank { ucontext_t c; char *stack; St st; long req; int a, b, block; long pos; int ncoll; bool unwind; int rc; int choice; int nsend, nrecv; std::string buf; };
static Rank rk[8];
static ucontext_t mainc;
static int cur = -1;
static std::vector<Msg> msgs; static std::vector<char> taken; static std::vector<Req> reqs; static std::deque<Coll> colls;
static const PProg *prog; static POut outs[8];
static bool checking = true;
static std::vector<uint64_t> script; static uint64_t used, dflt = 1ull << 63;
static std::string lastnote;
static void yield(St s) { rk[cur].st = s; int r = cur; swapcontext(&rk[r].c, &mainc); cur = r; }
static bool fits(const Msg &m, int src, int tag, int dst) { return m.dst == dst && (src == -2 || m.src == src) && (tag == -1 || m.tag == tag); }
static void match(long r, int m) {
    Req &q = reqs[r];
    taken[m] = 1; q.msg = m; q.done = true;
    if (q.type != msgs[m].type) fail(fmt("rank %d receives %s where rank %d sent %s (tag %d)", q.rank, q.type.c_str(), msgs[m].src, msgs[m].type.c_str(), msgs[m].tag));
    if (msgs[m].count >= 0 && msgs[m].count > q.count) fail(fmt("rank %d receives %ld elements where rank %d sent %ld", q.rank, q.count, msgs[m].src, msgs[m].count));
    for (auto &s : reqs) if (s.send && s.msg == m) s.done = true;
}
static long h_send(int dst, int tag, const char *type, long count, const char *d, size_t l, int sync) {
    if (dst < 0 || dst >= W) fail(fmt("rank %d sends to rank %d of %d", cur, dst, W));
    msgs.push_back({cur, dst, tag, type, count, std::string(d, l), rk[cur].nsend++, (bool)sync}); taken.push_back(0);
    reqs.push_back({true, false, false, cur, dst, tag, type, count, (int)msgs.size() - 1});
    long me = (long)reqs.size() - 1;
    for (size_t r = 0; r < reqs.size(); r++)
        if (!reqs[r].send && !reqs[r].done && reqs[r].peer >= 0 && fits(msgs.back(), reqs[r].peer, reqs[r].tag, reqs[r].rank)) { match((long)r, (int)msgs.size() - 1); break; }
    rk[cur].pos++;
    return me;
}
static long h_recv(int src, int tag, const char *type, long count) {
    if (src >= W || (src < 0 && src != -2)) fail(fmt("rank %d receives from rank %d of %d", cur, src, W));
    reqs.push_back({false, false, false, cur, src, tag, type, count, -1}); rk[cur].nrecv++;
    if (src >= 0) for (size_t m = 0; m < msgs.size(); m++) if (!taken[m] && fits(msgs[m], src, tag, cur)) { match((long)reqs.size() - 1, (int)m); break; }
    rk[cur].pos++;
    return (long)reqs.size() - 1;
}
static void give(Req &q, int *s, int *t, long *c, const char **d, size_t *l) {
    q.consumed = true;
    *s = q.send ? q.rank : msgs[q.msg].src; *t = q.tag; *c = 0; *d = ""; *l = 0;
    if (!q.send) { Msg &m = msgs[q.msg]; *t = m.tag; *c = m.count < 0 ? 1 : m.count; *d = m.data.data(); *l = m.data.size(); }
}
static int h_wait(long r, int *s, int *t, long *c, const char **d, size_t *l) {
    rk[cur].req = r;
    yield(WAIT);
    if (rk[cur].unwind) return 1;
    if (!reqs[r].send && !reqs[r].done) match(r, rk[cur].choice);
    rk[cur].pos++;
    give(reqs[r], s, t, c, d, l);
    rk[cur].buf.assign(*d, *l); *d = rk[cur].buf.data();
    return 0;
}
static int h_test(long r, int *s, int *t, long *c, const char **d, size_t *l) {
    rk[cur].req = r;
    yield(TEST);
    if (rk[cur].unwind) return 1;
    if (!reqs[r].send && !reqs[r].done && rk[cur].choice >= 0) match(r, rk[cur].choice);
    if (!reqs[r].done) return 2;
    rk[cur].pos++;
    give(reqs[r], s, t, c, d, l);
    rk[cur].buf.assign(*d, *l); *d = rk[cur].buf.data();
    return 0;
}
static int firstmsg(int r, int src, int tag) { for (size_t m = 0; m < msgs.size(); m++) if (!taken[m] && fits(msgs[m], src, tag, r)) return (int)m; return -1; }
static int h_probe(int src, int tag, int block, int *os, int *ot, long *oc) {
    rk[cur].a = src; rk[cur].b = tag; rk[cur].block = block;
    yield(PROBE);
    if (rk[cur].unwind) return 1;
    int m = rk[cur].choice;
    if (m < 0) return 2;
    rk[cur].pos++;
    *os = msgs[m].src; *ot = msgs[m].tag; *oc = msgs[m].count;
    return 0;
}
static int h_coll(const char *kind, int root, const char *type, const char *d, size_t l) {
    int k = rk[cur].ncoll++;
    if ((int)colls.size() <= k) colls.push_back({kind, root, type, std::vector<std::string>(W), std::vector<bool>(W)});
    Coll &c = colls[k];
    if (c.kind != kind || c.root != root || c.type != type) fail(fmt("ranks are in different collective operations: %s from %d (%s), and on rank %d %s from %d (%s)", c.kind.c_str(), c.root, c.type.c_str(), cur, kind, root, type));
    if (root < 0 || root >= W) fail("collective operation with a wrong root");
    c.data[cur].assign(d, l); c.in[cur] = true;
    yield(COLL);
    if (rk[cur].unwind) return 1;
    rk[cur].pos++;
    return 0;
}
static void h_coll_get(int r, const char **d, size_t *l) { auto &s = colls[rk[cur].ncoll - 1].data[r]; *d = s.data(); *l = s.size(); }
static uint64_t h_draw() { uint64_t k = used++; return k < script.size() ? script[k] : dflt; }
static int h_armed() { return 1; }
static void h_note(const char *s) { lastnote = s; }
static mc_ops ops = {h_send, h_recv, h_wait, h_test, h_probe, h_coll, h_coll_get, h_draw, h_armed, h_note};
static void entry() {
    int r = cur;
    rk[r].rc = lib[r].run(prog, &outs[r]);
    rk[r].st = DONE;
    for (;;) swapcontext(&rk[r].c, &mainc);
}
struct Tr { int rank, choice; bool early; };
static bool operator==(const Tr &a, const Tr &b) { return a.rank == b.rank && a.choice == b.choice && a.early == b.early; }
static bool all_in(const Coll &c) { for (int i = 0; i < W; i++) if (!c.in[i]) return false; return true; }
static void enabled(std::vector<Tr> &t) {
    for (int r = 0; r < W; r++) {
        Rank &k = rk[r];
        auto wild = [&](int src, int tag) { for (int s = 0; s < W; s++) if (src == -2 || src == s) { int m = firstmsg(r, s, tag); if (m >= 0) t.push_back({r, m, false}); } };
        switch (k.st) {
        case START: t.push_back({r, -1, false}); break;
        case WAIT: { Req &q = reqs[k.req]; if (q.done) t.push_back({r, -1, false}); else if (q.send) { if (!msgs[q.msg].sync) t.push_back({r, -1, true}); } else if (q.peer == -2) wild(-2, q.tag); break; }
        case TEST: { Req &q = reqs[k.req]; size_t n = t.size(); if (!q.done && !q.send && q.peer == -2) wild(-2, q.tag); if (t.size() == n) t.push_back({r, -1, false}); break; }
        case PROBE: { size_t n = t.size(); wild(k.a, k.b); if (t.size() == n && !k.block) t.push_back({r, -1, false}); break; }
        case COLL: { Coll &c = colls[k.ncoll - 1];
            if (all_in(c)) t.push_back({r, -1, false});
            else if (c.kind == "bcast" || c.kind == "scatter") { if (r == c.root) t.push_back({r, -1, true}); else if (c.in[c.root]) t.push_back({r, -1, false}); }
            else if (c.kind == "gather") { if (r != c.root) t.push_back({r, -1, true}); }
            break; }
        case DONE: break;
        }
    }
}
static std::string skey() {
    std::string s;
    for (int r = 0; r < W; r++) s += fmt("%d,%ld,%d|", rk[r].st, rk[r].pos, rk[r].ncoll);
    for (size_t m = 0; m < msgs.size(); m++) if (!taken[m]) s += fmt("m%d,%d,%d,%d|", msgs[m].src, msgs[m].dst, msgs[m].tag, msgs[m].seq);
    for (size_t r = 0; r < reqs.size(); r++) if (!reqs[r].done && !reqs[r].send) s += fmt("r%d,%d,%d|", reqs[r].rank, reqs[r].peer, reqs[r].tag);
    return s;
}
static struct Cap : std::streambuf {
    std::string s;
    int overflow(int c) override { s += (char)c; return c; }
    std::streamsize xsputn(const char *p, std::streamsize n) override { s.append(p, n); return n; }
} cap_;
static void printed(const PProg &p) {   // the whole vector, in order, as printed by the ranks together
    bool any = false; Vec d(1 << p.n);
    if (p.init == 0) d[0] = 1; else if (p.init == 1) d[(1 << p.n) - 1] = 1; else for (int i = 0; i < 1 << p.n; i++) d[i] = p.v[i];
    for (int i = 0; i < p.nops; i++) { if (p.ops[i].kind <= POp::FUSE) d = mulv(omat(p.ops[i], p.n), d); else if (p.ops[i].kind == POp::PRINT) any = true; else return; }
    if (!any) return;
    std::istringstream in(cap_.s); std::string l; Vec g;
    int L = (1 << p.n) / W;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        if (l == "(all 0)") { g.resize(g.size() + L); continue; }
        std::string t; for (char c : l) t += isdigit((unsigned char)c) || strchr("+-.e", c) ? c : ' ';
        const char *q = t.c_str(); char *e; double re = strtod(q, &e);
        double im = strtod(e, &e); g.push_back({re, im});
    }
    if (g.size() != d.size()) fail(fmt("%zu amplitudes printed instead of %zu: %s", g.size(), d.size(), cap_.s.substr(0, 600).c_str()));
    for (size_t i = 0; i < d.size(); i++) if (std::abs(g[i] - d[i]) > 2e-5) fail(fmt("amplitude %zu is printed as %g%+gi instead of %g%+gi", i, g[i].real(), g[i].imag(), d[i].real(), d[i].imag()));
    ctx().evals++;
}
static const size_t STK = 1 << 18;
static void begin(const PProg &p) {
    cap_.s.clear();
    prog = &p; msgs.clear(); taken.clear(); reqs.clear(); colls.clear(); used = 0;
    for (int r = 0; r < W; r++) {
        Rank &k = rk[r];
        if (!k.stack) { k.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
        getcontext(&k.c); k.c.uc_stack.ss_sp = k.stack; k.c.uc_stack.ss_size = STK; k.c.uc_link = nullptr;
        makecontext(&k.c, entry, 0);
        k.st = START; k.pos = 0; k.ncoll = 0; k.unwind = false; k.rc = 0; k.nsend = k.nrecv = 0; k.choice = -1;
    }
}
static void step(const Tr &t) { cur = t.rank; rk[cur].choice = t.choice; swapcontext(&mainc, &rk[cur].c); if (rk[t.rank].st == DONE && rk[t.rank].rc == 2) fail("exception on a rank: " + lastnote); ctx().transitions++; }
static void stop_all() { for (int r = 0; r < W; r++) if (rk[r].st != DONE && rk[r].st != START) { rk[r].unwind = true; cur = r; swapcontext(&mainc, &rk[r].c); } }
static bool finished() { for (int r = 0; r < W; r++) if (rk[r].st != DONE) return false; return true; }
static std::string blocked() {
    std::string s;
    static const char *n[] = {"not started", "waits", "tests", "probes", "is in a collective operation", "is finished"};
    for (int r = 0; r < W; r++) { s += fmt(" rank %d %s", r, n[rk[r].st]); if (rk[r].st == WAIT) s += fmt(" for its %s rank %d tag %d", reqs[rk[r].req].send ? "message to" : "message from", reqs[rk[r].req].peer, reqs[rk[r].req].tag); s += ";"; }
    return s;
}
static void printed(const PProg &p);
static void at_end() {
    for (size_t m = 0; m < msgs.size(); m++) if (!taken[m]) fail(fmt("a message from rank %d to rank %d (tag %d) is never received", msgs[m].src, msgs[m].dst, msgs[m].tag));
    for (auto &q : reqs) if (!q.consumed) fail(fmt("rank %d never completes a request (%s rank %d, tag %d)", q.rank, q.send ? "to" : "from", q.peer, q.tag));
    if (checking) { verify(*prog, W, outs); printed(*prog); }
}
// One execution. policy 0: lowest rank first, unbuffered; 1: highest first, everything buffered; 2: round robin
static void execute(const PProg &p, int policy) {
    begin(p);
    long spins = 0; int rr = 0;
    while (!finished()) {
        std::vector<Tr> t; enabled(t);
        bool normal = false; for (auto &x : t) if (!x.early) normal = true;
        if (!normal) fail("deadlock:" + blocked());
        Tr pick = t[0];
        if (policy == 0) { for (auto &x : t) if (!x.early && rk[x.rank].st != TEST) { pick = x; goto ok; } for (auto &x : t) if (!x.early) { pick = x; break; } }
        else if (policy == 1) { pick = t.back(); if (rk[pick.rank].st == TEST) pick = t[rr++ % t.size()]; }
        else { for (int d = 0; d < W; d++) for (auto &x : t) if (!x.early && x.rank == (rr + d) % W) { pick = x; rr = (x.rank + 1) % W; goto ok; } }
    ok:
        step(pick);
        if (++spins > 2000000) fail("no progress:" + blocked());
    }
    at_end();
}
// Every schedule: all reachable states of the communication, each transition taken once, by re-execution.
// `reduce`: a step that completes something addressed to one rank by name commutes with every step of the other ranks and
// is never disabled by one, so it is taken alone (a persistent set); only receptions from anyone and polls then branch, and
// completion of sends before they are received is left to the unreduced explorations.
static void narrow(std::vector<Tr> &t) {
    std::vector<Tr> u;
    for (auto &x : t) if (!x.early) { St s = rk[x.rank].st; if (s == START || s == COLL || (s == WAIT && reqs[rk[x.rank].req].done)) { t.assign(1, x); return; } u.push_back(x); }
    t = u;
}
static long explore(const PProg &p, long cap, bool reduce) {
    std::set<std::string> seen;
    std::vector<std::vector<Tr>> work{{}};
    long runs = 0;
    while (!work.empty()) {
        std::vector<Tr> pre = work.back(); work.pop_back();
        begin(p); runs++;
        for (auto &t : pre) step(t);
        for (;;) {
            if (finished()) { at_end(); break; }
            std::vector<Tr> t; enabled(t);
            bool normal = false; for (auto &x : t) if (!x.early) normal = true;
            if (!normal) { std::string s; for (auto &x : pre) s += fmt("%d%s ", x.rank, x.early ? "b" : ""); fail("deadlock:" + blocked() + " (order of ranks: " + s + ")"); }
            if (!seen.insert(skey()).second) { stop_all(); break; }
            if (reduce) narrow(t);
            for (size_t i = t.size(); i-- > 1;) { auto q = pre; q.push_back(t[i]); work.push_back(q); }
            pre.push_back(t[0]);
            step(t[0]);
        }
        if ((long)seen.size() > cap) { ctx().extra["programs_cut_at_state_cap"]++; break; }
        if (runs % 64 == 0) for (int r = 0; r < W; r++) lib[r].reset();
    }
    ctx().extra["schedule_states"] += (long)seen.size();
    ctx().extra["executions"] += runs;
    return runs;
}
typedef std::map<std::string, double> Dist;
static uint64_t MAXD = ~0ull;
static std::string outcome(const PProg &p) { execute(p, 0); ctx().extra["executions"]++; std::string s; for (int i = 0; i < outs[0].nout; i++) { if (outs[0].kind[i] == POp::ALL) s += outs[0].s[i]; if (outs[0].kind[i] == POp::MEAS) s += outs[0].s[i][0]; } return s; }
// exact distribution over all values of all draws, by bisection (draws of ranks that do not matter are recognised)
static Dist dist(const PProg &p, std::vector<uint64_t> &pre, int grid, int prec) {
    script = pre; dflt = 1ull << 63;
    std::string r = outcome(p);
    if (used <= pre.size()) return Dist{{r, 1.0}};
    if (pre.size() > 40) fail("one measurement takes more than 40 random draws");
    auto F = [&](uint64_t x) { pre.push_back(x); Dist d = dist(p, pre, grid, prec); pre.pop_back(); return d; };
    auto same = [](const Dist &a, const Dist &b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || std::abs(i->second - j->second) > 1e-6) return false; return true; };
    Dist out; auto put = [&](const Dist &d, double w) { for (auto &x : d) out[x.first] += w * x.second; };
    uint64_t lo = 0; Dist dlo = F(0);
    for (int k = 1; k <= grid; k++) {
        uint64_t hi = k == grid ? MAXD : (MAXD / grid) * k; Dist dhi = F(hi);
        uint64_t a = lo, b = hi; Dist da = dlo;
        while (!same(da, dhi)) {
            uint64_t l = a, h = b;
            while (h - l > (MAXD >> prec)) { uint64_t m = l + (h - l) / 2; if (same(F(m), da)) l = m; else h = m; }
            put(da, std::ldexp((double)(l - a), -64));
            a = h; da = h == b ? dhi : F(h);
            if (h == b) break;
        }
        put(da, std::ldexp((double)(b - a), -64));
        lo = hi; dlo = dhi;
    }
    return out;
}
static Dist reference(const PProg &p) {   // of the outcomes, by branching
    std::vector<std::pair<std::string, Vec>> st{{"", Vec(1 << p.n)}};
    for (int i = 0; i < 1 << p.n; i++) st[0].second[i] = p.v[i];
    for (int i = 0; i < p.nops; i++) {
        const POp &o = p.ops[i];
        std::vector<std::pair<std::string, Vec>> nx;
        for (auto &s : st) {
            if (o.kind <= POp::FUSE) nx.push_back({s.first, mulv(omat(o, p.n), s.second)});
            else if (o.kind == POp::MEAS) for (int b = 0; b < 2; b++) { Vec v = s.second; for (size_t x = 0; x < v.size(); x++) if ((int)((x >> o.q) & 1) != b) v[x] = 0; if (norm2v(v) > 1e-15) nx.push_back({s.first + (b ? "1" : "0"), v}); }
            else if (o.kind == POp::ALL) for (size_t x = 0; x < s.second.size(); x++) { std::string t; for (int q = p.n - 1; q >= 0; q--) t += (x >> q) & 1 ? '1' : '0'; Vec v = s.second; double f = std::norm(v[x]) / norm2v(v); for (auto &y : v) y *= std::sqrt(f); if (norm2v(v) > 1e-15) nx.push_back({s.first + t, v}); }
            else nx.push_back(s);
        }
        st = nx;
    }
    Dist d; for (auto &s : st) d[s.first] += norm2v(s.second);
    return d;
}
static void born(const PProg &p, int grid, int prec) {
    std::vector<uint64_t> pre;
    checking = true;
    Dist g = dist(p, pre, grid, prec), w = reference(p);
    double tol = 8 * std::ldexp(1.0, -prec) + 1e-9;
    for (auto &x : g) { double q = w.count(x.first) ? w[x.first] : 0; if (std::abs(x.second - q) > tol) fail(fmt("outcome %s has probability %.7g instead of %.7g", x.first.c_str(), x.second, q)); }
    for (auto &x : w) if (x.second > tol && !g.count(x.first)) fail(fmt("outcome %s never occurs but has probability %.7g", x.first.c_str(), x.second));
    ctx().evals++;
    script.clear();
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    int shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str());
    bool quick = ctx().tier != "thorough";
    setenv("MC_SAVE", (a["out"] + ".saved").c_str(), 1);
    std::string part = a["part"], dir = a["lib"];
    for (int r = 0; r < 8; r++) {
        std::string f = dir + fmt("/rank%d.so", r);
        void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
        lib[r] = {h, (void (*)(const mc_ops *, int, int))dlsym(h, "mc_rank_init"), (void (*)())dlsym(h, "mc_rank_reset"), (int (*)(const PProg *, POut *))dlsym(h, "mc_rank_run")};
        for (int q = 0; q < r; q++) if (lib[q].run == lib[r].run) { fprintf(stderr, "ranks share code\n"); return 3; }
    }
    long item = 0;
    int cpu = a.count("cpu") ? atoi(a["cpu"].c_str()) : 600;
    watchdog(cpu);
    auto world = [&](int w) { W = w; for (int r = 0; r < W; r++) lib[r].init(&ops, r, W); std::cout.rdbuf(&cap_); };
    std::function<void(const PProg &)> todo;
    Sink sink = [&](const PProg &p, const char *what) {
        if (item++ % shards != shard) return;
        at(fmt("%s: ", what) + show(p, W));
        todo(p);
        done();
        if (item / shards % 200 == 0) for (int r = 0; r < W; r++) lib[r].reset();
    };
    auto runall = [&](const PProg &p) { for (int pol = 0; pol < 3; pol++) { execute(p, pol); ctx().extra["executions"]++; } };
    int maxn = quick ? 4 : 6;
    if (part == "place") { todo = runall; for (int w : {1, 2, 4, 8}) { world(w); for (int n = w == 8 ? 4 : w == 4 ? 3 : 2; n <= maxn; n++) fam_place(n, w, !quick || n < 4, sink); } }
    else if (part == "seq") { todo = runall; for (int w : {2, 4, 8}) { world(w); for (int n : {w == 8 ? 4 : 3, w == 8 ? 5 : 4}) fam_seq(n, w, quick ? 3 : n > 3 ? 3 : 4, sink); } world(2); fam_seq(2, 2, quick ? 3 : 4, sink); }
    else if (part == "sched") { todo = [&](const PProg &p) { explore(p, quick ? 30000 : 400000, W == 8); }; for (int w : {2, 4, 8}) { world(w); for (int n : {w == 8 ? 4 : w == 4 ? 3 : 2, w == 8 ? 4 : 4}) fam_sched(n, w, w < 4 || !quick, sink); } }
    else if (part == "save") { todo = runall; for (int w : {1, 2, 4, 8}) { world(w); for (int n : {w == 8 ? 4 : w == 4 ? 3 : 2, w == 8 ? 5 : 4}) fam_save(n, w, !quick, sink); } }
    else if (part == "ssched") {   // sending, under every schedule
        todo = [&](const PProg &p) { explore(p, 400000, W == 8); };
        for (int w : {2, 4}) { world(w); fam_save(w == 4 ? 3 : 2, w, false, [&](const PProg &p, const char *what) { for (int i = 0; i < p.nops; i++) if (p.ops[i].kind == POp::XFER || p.ops[i].kind == POp::ROT) { if (w == 4 && p.nops > 4) return; sink(p, what); return; } }); }
    }
    else if (part == "print") { todo = [&](const PProg &p) { runall(p); if (W < 8) explore(p, 400000, false); }; for (int w : {1, 2, 4, 8}) { world(w); for (int n = w == 8 ? 4 : w == 4 ? 3 : 2; n <= (quick ? 5 : 7); n++) fam_print(n, w, sink); } }
    else if (part == "msched") { todo = [&](const PProg &p) { explore(p, quick ? 30000 : 400000, W == 8); }; for (int w : {2, 4}) { world(w); for (int n : {w == 4 ? 3 : 2, 4}) fam_meas_sched(n, w, sink); } }
    else if (part == "meas") {
        todo = [&](const PProg &p) { for (uint64_t d : {(uint64_t)0, (uint64_t)1 << 62, (uint64_t)1 << 63, (uint64_t)3 << 62, MAXD}) { dflt = d; script.clear(); execute(p, d & 1 ? 1 : 0); ctx().extra["executions"]++; } };
        for (int w : {1, 2, 4, 8}) { world(w); for (int n : {w == 8 ? 4 : w == 4 ? 3 : 2, w == 8 ? 5 : 4}) fam_meas(n, w, w == 8 || n > 4 ? quick ? 2 : 3 : quick ? 3 : n > 3 ? 3 : 4, sink); }
    }
    else if (part == "born") {
        todo = [&](const PProg &p) { bool all = false; for (int i = 0; i < p.nops; i++) all |= p.ops[i].kind == POp::ALL; born(p, all ? 2 : 4, all ? (quick ? 9 : 12) : 16); };
        for (int w : {1, 2, 4, 8}) {
            world(w);
            for (int n : {w == 8 ? 4 : w == 4 ? 3 : 2, w == 8 ? 5 : w == 4 ? 4 : 3})
                for (auto &v : starts(n, w)) {
                    for (int q = 0; q < n; q++) for (int q2 = -1; q2 < n; q2++) { PBuild b(n, 2); b.vec(v).add(mop(POp::MEAS, q)); if (q2 >= 0) b.add(op(POp::RING, unit(1, 3), {q2})).add(mop(POp::MEAS, (q + q2) % n)); if (q2 >= 0 && w > 2 && quick) continue; sink(b.p, "Born rule"); }
                    if (w < 8 && n - (w == 4 ? 2 : w == 2) <= (quick ? 1 : 2)) { PBuild b(n, 2); b.vec(v).add(mop(POp::ALL)); sink(b.p, "Born rule"); }
                }
        }
    }
    for (int r = 0; r < 8; r++) unlink((a["out"] + fmt(".saved.%d", r)).c_str());
    finish();
}
