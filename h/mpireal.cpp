// The same programs on real processes under the real Boost.MPI: what the explorer's stand-in for it is checked against.
#define REAL_MPI
#include "mpirank.cpp"
#include "mpiref.hpp"
#include <boost/mpi/environment.hpp>
static uint64_t draw_;
extern "C" { int mcrng_armed = 1; uint64_t mcrng_next(void) { return draw_; } }
using namespace mc;
static struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } } null_;
int main(int argc, char **argv) {
    setenv("MC_REEXEC", "1", 1);
    auto a = init(argc, argv);
    boost::mpi::environment env(boost::mpi::threading::multiple);
    boost::mpi::communicator world;
    int w = world.size(), me = world.rank();
    world.barrier();
    if (me == 0) fclose(fopen(a["started"].c_str(), "w"));
    std::cout.rdbuf(&null_);
    if (a.count("save")) setenv("MC_SAVE", (a["save"] + fmt(".%d", w)).c_str(), 1);
    bool quick = ctx().tier != "thorough";
    watchdog(quick ? 200 : 2000);
    static POut outs[8];
    std::mt19937_64 mt(1);
    long item = 0;
    auto go = [&](const PProg &p, const char *what) {
        item++;
        at(fmt("real MPI, %s: ", what) + show(p, w));
        static const uint64_t D[] = {0, (uint64_t)1 << 62, (uint64_t)1 << 63, (uint64_t)3 << 62, ~0ull};
        draw_ = D[item % 5];
        try { run(p, outs[me], world, mt); } catch (std::exception &e) { fail(std::string("exception on a rank: ") + e.what()); }
        verify(p, w, outs, me);
        done();
        if (item % 200 == 0) { gc(std::vector<vEdge>{}, true); gc_mat(std::vector<mEdge>{}, true); probs.clear(); }
    };
    int n0 = w >= 4 ? 3 : 2;
    std::string part = a["part"];
    if (part == "place") fam_place(n0, w, false, go);
    if (part == "seq") fam_seq(n0 + 1, w, quick ? 2 : 3, go);
    if (part == "meas") fam_meas(n0, w, quick ? 2 : 3, go);
    if (part == "save") fam_save(n0, w, false, go);
    ctx().extra["programs_on_real_mpi"] = me == 0 ? item : 0;
    if (me) { ctx().out = "/dev/null"; ctx().states = 0; }
    world.barrier();
    watchdog(0);
    if (me == 0) {
        FILE *f = fopen(ctx().out.c_str(), "w");
        fprintf(f, "{\"states\":0,\"transitions\":0,\"evaluations\":%ld,\"traces_validated_against_impl\":%ld,\"programs_on_real_mpi\":%ld,\"samples\":[]}\n", ctx().evals, ctx().validated, item);
        fclose(f);
    }
    return 0;
}
