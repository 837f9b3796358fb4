// The real worker threads: starting, using, stopping and starting them again, under every schedule within the bounds.
#include "mpiref.hpp"
#include "mtprog.hpp"
#include "mtbaton.hpp"
using namespace mc;
extern "C" { int mcrng_armed = 1; static uint64_t draws_; uint64_t mcrng_next(void) { return (draws_ += 0x9e3779b97f4a7c15ull) * 0xbf58476d1ce4e5b9ull; } }
int init_mt(int); void terminate_mt();
struct Act { enum K { START, STOP, RUN } k; int n; };   // RUN: program n
struct Case { std::vector<Act> a; std::vector<PProg> p; };
static const Case *cs; static POut outs[8]; static int base_; static std::string title;
static const char *bname[] = {"keep running", "round robin", "newest thread first"};
static std::string show(const Case &c) {
    std::string s;
    for (auto &x : c.a) s += x.k == Act::START ? fmt("start %d threads; ", x.n) : x.k == Act::STOP ? "stop; " : "[" + show(c.p[x.n], 1) + "] ";
    return s;
}
static void body() {
    for (auto &x : cs->a) {
        if (x.k == Act::START) { if (init_mt(x.n) != (x.n > 1 ? x.n : 1)) fail("a different number of threads was started"); if (bt::alive() != (x.n > 1 ? x.n - 1 : 0)) fail(fmt("%d threads run instead of %d", bt::alive() + 1, x.n > 1 ? x.n : 1)); }
        else if (x.k == Act::STOP) { terminate_mt(); if (bt::alive()) fail(fmt("%d threads still run", bt::alive())); }
        else {
            bt::undisturbed(true); mt_prepare(&cs->p[x.n]); bt::undisturbed(false);
            memset((void *)&outs[x.n], 0, sizeof(POut));
            mt_run(&cs->p[x.n], &outs[x.n]);
            bt::undisturbed(true);
            verify(cs->p[x.n], 1, &outs[x.n]);
            bt::undisturbed(false);
        }
    }
    if (const char *t = mt_after()) fail(t);
}
static bt::Shared *sh;
static void one(const std::vector<bt::Dev> &d) {
    std::string s; for (auto &x : d) s += fmt("%d:%d ", x.at, x.choice);
    at(title + fmt(" [%s, decisions changed: %s]", bname[base_], d.empty() ? "none" : s.c_str()));
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
        watchdog(30);
        signal(SIGALRM, mc::on_signal); alarm(300);
        atexit([] { fail("the library ends the process"); });
        bt::control(base_, d, sh, body); fflush(stdout); _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0) {}
    if (WIFSIGNALED(st)) fail(fmt("killed by signal %d", WTERMSIG(st)));
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
    ctx().extra["schedules"]++; ctx().transitions += sh->ndec; ctx().evals++;
    ctx().extra["longest_schedule"] = std::max<long>(ctx().extra["longest_schedule"], sh->ndec);
}
static void all(std::vector<bt::Dev> d, int budget, long step) {
    one(d);
    if (!budget) return;
    int n = sh->ndec; std::vector<unsigned char> c(sh->n, sh->n + n);
    for (int i = d.empty() ? 0 : d.back().at + 1; i < n; i += step)
        for (int k = 0; k + 1 < c[i]; k++) { auto e = d; e.push_back({i, k}); all(e, budget - 1, step); }
}
int main(int argc, char **argv) {
    auto a = init(argc, argv);
    int shard = atoi(a["shard"].c_str()), shards = atoi(a["shards"].c_str());
    bool quick = ctx().tier != "thorough";
    std::string part = a["part"];
    sh = (bt::Shared *)mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long item = 0;
    auto go = [&](const Case &c, int budget) {
        for (int b = 0; b < bt::NBASE; b++) {
            if (item++ % shards != shard) continue;
            cs = &c; base_ = b; title = show(c);
            all({}, budget, 1);
            if (a.count("verbose")) fprintf(stderr, "%d decisions, %ld schedules so far: %s %s\n", sh->ndec, ctx().extra["schedules"], bname[b], title.c_str());
            state(title + bname[b]); at(title + fmt(" [%s]", bname[b])); done();
        }
    };
    auto prog = [&](int n, int seed) { PBuild b(n, 2); b.vec(densevec(n, seed)).add(op(POp::RING, unit(1, seed), {n - 1})); if (seed % 2) b.add(op(POp::SUM, unit(1, seed + 1), {0})); b.add(mop(POp::VEC)); return b.p; };
    auto start = [](int n) { return Act{Act::START, n}; };
    Act stop{Act::STOP, 0}; auto run = [](int i) { return Act{Act::RUN, i}; };
    if (part == "life") {        // every sequence of starts and stops, with and without work in between
        std::vector<Act> al{start(1), start(2), start(3), start(4), stop, run(0), run(1)};
        for (int depth = 1; depth <= (quick ? 4 : 5); depth++) {
            std::vector<int> ix(depth, 0);
            for (;;) {
                Case c; c.p = {prog(1, 1), prog(2, 2)}; int st = 0; for (int i : ix) { c.a.push_back(al[i]); st += al[i].k == Act::START && al[i].n > 1; }
                if (st) { c.a.push_back(stop); go(c, 0); }
                int k = depth - 1; while (k >= 0 && ++ix[k] == (int)al.size()) ix[k--] = 0;
                if (k < 0) break;
            }
        }
    } else if (part == "dev") {  // the basic histories under every schedule with one (two) decisions changed
        for (int n : {2, 3}) {
            Case c; c.p = {prog(1, 1)}; c.a = {start(n), stop}; go(c, quick && n > 2 ? 1 : 2);
            c.a = {start(n), run(0), stop}; go(c, 1);
            c.a = {start(n), stop, start(5 - n), stop}; go(c, 1);
            { c.a = {start(n), run(0), stop, start(n), run(0), stop}; go(c, 1); c.a = {start(n), start(5 - n), run(0), stop}; go(c, 1); c.a = {start(4), run(0), stop}; go(c, 1); }
        }
    } else if (part == "work") { // gates on the real threads
        for (int n : {2, 3, 4}) for (int t : {2, 3, 4}) for (int seed = 1; seed < 5; seed++) { Case c; c.p = {prog(n, seed), prog(n, seed + 1)}; c.a = {start(t), run(0), run(1), stop, run(0)}; go(c, 0); if (!quick && n == 2 && seed < 3) { c.a = {start(t), run(0), stop}; go(c, 1); } }
    }
    finish();
}
