// Multi-threaded mode: every schedule of workers and tasks that differs from a base schedule in a bounded number of decisions.
#include "mpiref.hpp"
#include "mtprog.hpp"
#include "mtrt.hpp"
using namespace mc;
extern "C" { int mcrng_armed = 1; static uint64_t draws_; uint64_t mcrng_next(void) { return (draws_ += 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull; } }
static const PProg *prog; static POut *out;
static std::string title;
static const char *bname[] = {"keep running", "round robin", "steal first", "highest worker first"};
static std::string tell(const std::string &d) { return title + fmt(" [%d workers, %s, decisions changed: %s]", mt::W, bname[mt::base_], d.empty() ? "none" : d.c_str()); }
static void body() { mt_run(prog, out); }
static void finished() {
    if (const char *t = mt_after()) fail(t);
    verify(*prog, 1, out);
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    int shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str());
    bool quick = ctx().tier != "thorough";
    std::string part = a["part"];
    out = (POut *)mmap(0, sizeof(POut), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mt::describe = tell;
    long item = 0;
    bool first = true;
    auto run = [&](const PProg &p, const char *what, int w, int base, int budget) {
        if (item++ % shards != shard) return;
        if (first) { mt::prewarm(mt::MAXW, mt_warm); first = false; }
        title = fmt("%s: ", what) + show(p, 1); at(title);
        prog = &p; memset(out, 0, sizeof *out);
        // a process of its own per program: its tables start empty
        int fd[2]; if (pipe(fd)) _exit(3);
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            mt_prepare(&p);
            mt::Totals t;
            mt::explore(w, base, budget, 2000000, body, finished, t);
            if (write(fd[1], &t, sizeof t) != sizeof t) _exit(3);
            _exit(0);
        }
        close(fd[1]);
        mt::Totals t; bool got = read(fd[0], &t, sizeof t) == sizeof t; close(fd[0]);
        int st; while (waitpid(c, &st, 0) < 0) {}
        if (WIFSIGNALED(st)) { at(title); fail(fmt("killed by signal %d", WTERMSIG(st))); }
        if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        if (!got) { fprintf(stderr, "no totals\n"); _exit(3); }
        ctx().extra["schedules"] += t.executions; ctx().transitions += t.decisions; ctx().evals += t.executions;
        ctx().extra["longest_schedule"] = std::max(ctx().extra["longest_schedule"], t.longest);
        if (t.cut) ctx().extra["programs_cut_at_schedule_cap"]++;
        if (a.count("verbose")) fprintf(stderr, "%ld executions, longest %ld: %s\n", t.executions, t.longest, tell("").c_str());
        state(title + fmt("%d %d", w, base));
        at(title); done();
    };
    // programs
    auto onegate = [&](int n, bool all, const std::function<void(const PProg &)> &f) {
        std::vector<POp> ops;
        G z = perm4({0, 1}); z[1][1] = -1; G pj = perm4({0, 1}); pj[0][0] = 0;
        for (int kind : {POp::RING, POp::SUM}) {
            for (int q = 0; q < n; q++) {
                ops.push_back(op(kind, unit(1, 1), {q})); if (all) { ops.push_back(op(kind, perm4({1, 0}), {q})); ops.push_back(op(kind, z, {q})); ops.push_back(op(kind, pj, {q})); }
                for (int c = 0; c < n; c++) if (c != q) { ops.push_back(op(kind, perm4({1, 0}), {q}, {{c, 1}})); if (all) ops.push_back(op(kind, unit(1, 2), {q}, {{c, 0}})); }
            }
            for (auto &t : tuples(n, 2)) { ops.push_back(op(kind, unit(2, 2), t)); if (all) ops.push_back(op(kind, perm4({0, 2, 1, 3}), t)); }
            if (n >= 3) ops.push_back(op(kind, unit(3, 5), {0, 1, 2}));
        }
        { POp o{}; o.kind = POp::ADD; Vec v = densevec(n, 9); for (size_t i = 0; i < v.size(); i++) o.m[i] = v[i]; ops.push_back(o); for (size_t i = 0; i < v.size(); i++) o.m[i] = i % 3 ? 0.0 : v[i]; ops.push_back(o); }
        std::vector<Vec> st = {densevec(n, 1), Vec(1 << n, std::pow(2.0, -n / 2.0))}; { Vec b(1 << n); b[(1 << n) - 1] = 1; st.push_back(b); st.push_back(densevec(n, 4, 0x5ul)); }
        for (auto &v : st) for (auto &o : ops) { PBuild b(n, 2); b.vec(v); if (o.kind == POp::ADD) b.add(op(POp::RING, unit(1, 1), {0})); b.add(o).add(mop(POp::VEC)); f(b.p); if (!all && &v == &st[1]) break; }
    };
    if (part == "deep") {       // smallest programs, most deviations
        for (int w : {2, 3}) for (int base = 0; base < mt::NBASE; base++) onegate(1, true, [&](const PProg &p) { run(p, "one gate", w, base, quick ? 2 : 3); });
        if (!quick) for (int base = 0; base < mt::NBASE; base++) onegate(2, false, [&](const PProg &p) { run(p, "one gate", 2, base, 2); });
    } else if (part == "one") {
        for (int w : {2, 3, 4}) for (int base = 0; base < mt::NBASE; base++) for (int n : {2, 3}) { if (quick && (w == 4 || (n == 3 && w != 3))) continue; onegate(n, n == 2 && (w == 2 || !quick), [&](const PProg &p) { run(p, "one gate", w, base, 1); }); }
    } else if (part == "seq") {  // sequences
        std::function<void(int, int, std::vector<POp>, const std::vector<POp> &, const std::function<void(const PProg &)> &)> rec = [&](int n, int depth, std::vector<POp> s, const std::vector<POp> &c, const std::function<void(const PProg &)> &f) {
            if (depth == 0) { PBuild b(n, 2); b.vec(densevec(n, 1)); for (auto &o : s) b.add(o); b.add(mop(POp::VEC)); f(b.p); return; }
            for (auto &o : c) { auto t = s; t.push_back(o); rec(n, depth - 1, t, c, f); }
        };
        for (int n : {1, 2, 3}) for (int meas = 0; meas < 2; meas++) {
            int h = n - 1;
            std::vector<POp> c{op(POp::RING, unit(1, 1), {h}), op(POp::RING, perm4({1, 0}), {0}), mop(POp::GC), mop(POp::GCM)};
            if (n > 1) { c.push_back(op(POp::RING, perm4({1, 0}), {0}, {{h, 1}})); c.push_back(op(POp::RING, unit(2, 1), {0, h})); }
            if (meas) c.push_back(mop(POp::MEAS, h));   // of normalized states only
            else { POp o{}; o.kind = POp::ADD; Vec v = densevec(n, 9); for (size_t i = 0; i < v.size(); i++) o.m[i] = v[i]; c.push_back(o); c.push_back(op(POp::SUM, unit(1, 4), {0})); }
            auto wanted = [&](const PProg &p) { if (!meas) return true; for (int i = 0; i < p.nops; i++) if (p.ops[i].kind == POp::MEAS) return true; return false; };
            for (int w : {2, 3}) for (int base = 0; base < mt::NBASE; base++)
                for (int d = 2; d <= (n == 1 ? (quick ? 3 : 4) : quick ? 2 : 3); d++)
                    rec(n, d, {}, c, [&](const PProg &p) { if (wanted(p)) run(p, "sequence", w, base, n == 1 && d == 2 ? 1 : !quick && n == 2 && d == 2 ? 1 : 0); });
        }
    } else if (part == "gc") {   // gates, a collection, gates: what threads remember must not outlive the nodes
        for (mt::reuse = 1; mt::reuse <= 3; mt::reuse++) for (int n : {2, 3}) {
            int h = n - 1;
            std::vector<POp> g{op(POp::RING, unit(1, 1), {h}), op(POp::RING, perm4({1, 0}), {0}), op(POp::RING, unit(2, 1), {0, h}), op(POp::RING, perm4({1, 0}), {0}, {{h, 1}}), op(POp::SUM, unit(1, 4), {0})};
            if (n == 2 || !quick) { g.push_back(op(POp::RING, perm4({1, 0}), {h}, {{0, 1}})); g.push_back(op(POp::SUM, unit(1, 2), {h})); g.push_back(op(POp::RING, perm4({0, 2, 1, 3}), {h, 0})); }
            for (int w : {2, 3, 4}) for (int base = 0; base < mt::NBASE; base++) {
                if (quick && (w == 4 || (n == 3 && w == 2) || mt::reuse == 3)) continue;
                for (int kind : {POp::GC, POp::GCM})
                    for (size_t i = 0; i < g.size(); i++) for (size_t j = 0; j < g.size(); j++)
                        for (auto &v : {densevec(n, 1), densevec(n, 4, 0x5ul)}) for (const char *shape : {"gch", "ggch", "gcch", "ggcch", "gcchccg", "gchchcg"}) {
                            PBuild b(n, 2); b.vec(v);
                            for (const char *s = shape; *s; s++) b.add(*s == 'g' ? g[i] : *s == 'h' ? g[j] : mop(kind));
                            b.add(mop(POp::VEC));
                            run(b.p, fmt("gates around collections (memory reuse %d)", mt::reuse).c_str(), w, base, 0);
                        }
            }
        }
    } else if (part == "wide") { // more qubits, base schedules and one deviation in thorough
        for (int n : {4, 5, 6}) for (int w : {2, 3, 4}) for (int base = 0; base < mt::NBASE; base++) onegate(n, false, [&](const PProg &p) { run(p, "one gate", w, base, !quick && n == 4 ? 1 : 0); });
    }
    finish();
}
