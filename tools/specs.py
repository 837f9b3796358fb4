"""What each check explores."""
import os, sys
from mc import *

Q = lambda tier, a, b: a if tier == "quick" else b


def cpp(prop, tier, exe, shards, tag="", cpu=600, **kw):
    jobs = []
    for i in range(shards):
        cmd = [exe, "--prop", prop, "--name", "%s%d" % (tag, i), "--tier", tier, "--out", "@OUT@", "--replay-dir", "@REPLAY@",
               "--shard", str(i), "--shards", str(shards), "--cpu", str(cpu)]
        for k, v in kw.items():
            cmd += ["--" + k, str(v)]
        jobs.append(Job("%s%d" % (tag, i), cmd, wall=850 if tier == "quick" else 5400))
    return jobs


ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=0"}


def c01(tier):
    x = explorer("c01", "small", SMALL)
    xa = explorer("c01", "asan", SMALL + ASAN)
    jobs = cpp("C01", tier, x, 8, "n", maxn=Q(tier, 6, 7))
    ja = cpp("C01", tier, xa, 8, "a", maxn=Q(tier, 4, 5))
    for j in ja:
        j.env = ASAN_ENV
    return jobs + ja, {"exhaustive": True, "bounds": "registers 1..%d, every target order, every control subset and sign" % Q(tier, 6, 7)}, \
        ["comparison tolerance 1e-12", "angles from a fixed grid of 12 values per parameter"]


MID = tables(12, 8192, 16, 16)


def asan(jobs):
    for j in jobs:
        j.env = ASAN_ENV
    return jobs


def c02(tier):
    a = dict(dm=3, dv=4, cap=900, big=4) if tier == "quick" else dict(dm=4, dv=5, cap=2500, big=5)
    jobs = cpp("C02", tier, explorer("alg", "mid", MID), 8, "n", cpu=Q(tier, 700, 5000), **a)
    jobs += asan(cpp("C02", tier, explorer("alg", "asan", SMALL + ASAN), 8, "a", cpu=Q(tier, 700, 5000), dm=2, dv=3, cap=Q(tier, 150, 400), big=Q(tier, 3, 4)))
    return jobs, {"exhaustive": True, "bounds": "all operation sequences up to the stated depths over the stated generators on 1..%d qubits; when more matrices or vectors than the cap are reached an evenly spaced subset is kept, then every pair is combined" % a["big"], "depth_matrices": a["dm"], "depth_vectors": a["dv"], "cap": a["cap"]}, ["comparison tolerance 1e-10 relative"]


def c04(tier):
    x = explorer("hist", "small", SMALL)
    jobs = []
    xt = explorer("hist", "t2", tables(12, 2, 2, 2))
    for n in (1, 2, 3):
        jobs += cpp("C04", tier, xt, 8, "r%d_" % n, cpu=Q(tier, 700, 5000), n=n, pool=Q(tier, 7, 9))
    for n in (1, 2, 3):
        d = 4 if tier == "quick" or n > 2 else 5
        jobs += cpp("C04", tier, x, 8, "n%d_" % n, cpu=Q(tier, 700, 5000), n=n, depth=d)
    if tier == "quick":
        jobs += asan(cpp("C04", tier, explorer("hist", "asan", SMALL + ASAN), 8, "a", n=2, depth=3))
    else:
        xa = explorer("hist", "asan", SMALL + ASAN)
        for n in (1, 2, 3):
            jobs += asan(cpp("C04", tier, xa, 8, "a%d_" % n, cpu=5000, n=n, depth=4 if n < 3 else 3))
    return jobs, {"exhaustive": True, "bounds": "every sequence of %s operations (gates, sums, products, swaps of two vectors and two matrices, collections with every argument shape, measurements) on 1..3 qubits" % Q(tier, "4", "5 (3 qubits: 4)")}, []


def c05(tier):
    jobs = []
    for nb, al, ac in ((1, 1, 1), (2, 2, 2), (5, 3, 3)):
        x = explorer("hist", "t%d" % nb, tables(12, nb, al, ac))
        jobs += cpp("C05", tier, x, 8, "t%d_" % nb, cpu=Q(tier, 700, 5000), len=Q(tier, 4, 5), fresh=7)
    jobs += cpp("C05", tier, explorer("hist", "mid", MID), 8, "m", cpu=Q(tier, 700, 5000), len=Q(tier, 4, 5), fresh=0)
    jobs += asan(cpp("C05", tier, explorer("hist", "asan1", tables(12, 2, 1, 1) + ASAN), 8, "a", cpu=Q(tier, 700, 5000), len=Q(tier, 3, 4), fresh=5))
    return jobs, {"exhaustive": True, "bounds": "every sequence of %d workloads out of 14, with unique tables of 1, 2, 5 and 8192 buckets" % Q(tier, 4, 5)}, []


def c06(tier):
    x = explorer("meas", "small", SMALL)
    jobs = []
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        jobs += cpp("C06", tier, x, 8, "n%d_" % n, cpu=Q(tier, 700, 5000), n=n, depth={1: 5, 2: 4, 3: 3, 4: 2, 5: 2}[n], cap=Q(tier, 120, 900) if n < 4 else Q(tier, 40, 150), grid=8, prec=Q(tier, 26, 34))
    return jobs, {"exhaustive": True, "bounds": "registers 1..%d; every random draw partitioned into the intervals on which the outcome is constant" % Q(tier, 4, 5)}, ["change points of the outcome lie on the bisection grid: an outcome confined to an interval shorter than 1/8 of a draw strictly between two equal grid values would be missed"]


def c07(tier):
    x = explorer("meas", "small", SMALL)
    jobs = []
    for n in (1, 2, 3, 4):
        jobs += cpp("C07", tier, x, 8, "n%d_" % n, cpu=Q(tier, 700, 5000), n=n, depth={1: 4, 2: 3, 3: 2, 4: 1}[n], cap=Q(tier, 60, 200) if n < 4 else Q(tier, 16, 40), left=Q(tier, 2, 3) if n < 4 else 2, prec=26)
    return jobs, {"exhaustive": True, "bounds": "registers 1..4, every history of %d measurements with a gate between" % Q(tier, 3, 4)}, ["as for measuring all qubits"]


WIDE = tables(100, 8192, 64, 64)


def c03(tier):
    jobs = []
    for v, fl in (("wide", WIDE), ("t2", tables(12, 2, 2, 2)), ("small", SMALL)):
        x = explorer("canon", v, fl)
        slow = v == "t2"
        for mat in (0, 1):
            for n in (1, 2, 3, 4):
                cap = Q(tier, 150 if slow else 3000, 600 if slow else 20000)
                jobs += cpp("C03", tier, x, 1, "%s%d%d_" % (v, mat, n), cpu=Q(tier, 700, 5000), n=n, cap=cap, depth=10, mat=mat, gcs=3)
    jobs += cpp("C03", tier, explorer("wide", "wide", WIDE), 8, "w", cpu=60, lo=1, hi=100)
    return jobs, {"exhaustive": True, "bounds": "exact states and operators on 1..4 qubits: closure under the generators up to the cap, recomputed after 3 collections; structured families on every width 1..100, 3 gate orders"}, ["minimality is required only where all amplitudes are exact; elsewhere rounding may keep two nodes that differ in the last bit"]


def c08(tier):
    x = explorer("wide", "wide", WIDE)
    jobs = cpp("C08", tier, x, 8, "w", cpu=Q(tier, 700, 5000), lo=1, hi=100, step=1, depth=Q(tier, 2, 4))
    # one process with the shipped table sizes
    jobs += cpp("C08", tier, explorer("wide", "shipped", []), 1, "shipped", cpu=Q(tier, 700, 5000), lo=1, hi=100, step=Q(tier, 11, 3), depth=2)
    return jobs, {"exhaustive": True, "bounds": "every width 1..100, 4 placements of 3 active qubits, 3 backgrounds, every sequence of %d of 10 operations" % Q(tier, 2, 4)}, ["amplitudes are read along complete diagram paths for all active patterns and 4 background patterns"]


def py(prop, tier, script, part, shards, cpu=600, opts=(), site=None):
    site = site or pysite()
    jobs = []
    for i in range(shards):
        cmd = [PY, V + "/py/%s.py" % script, "--prop", prop, "--name", "%s%s%d" % (script, part, i), "--tier", tier, "--out", "@OUT@", "--replay-dir", "@REPLAY@",
               "--site", site, "--part", part, "--shard", str(i), "--shards", str(shards), "--cpu", str(cpu)]
        for o in opts:
            cmd += ["--opt", o]
        jobs.append(Job("%s%s%d" % (script, part, i), cmd, wall=850 if tier == "quick" else 5400,
                        env={"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "QISKIT_PARALLEL": "FALSE"}))
    return jobs


def c09(tier):
    cpu = Q(tier, 700, 5000)
    jobs = py("C09", tier, "gates", "single", 8, cpu) + py("C09", tier, "gates", "sequences", 8, cpu) + py("C09", tier, "gates", "structure", 4, cpu) + py("C09", tier, "gates", "wide", 4, cpu)
    return jobs, {"exhaustive": True, "bounds": "every supported gate, control state and parameter grid point on every ordered placement up to %d qubits; every ordered pair of placed gates on 3 qubits" % Q(tier, 4, 5)}, ["parameters from a fixed grid", "one dense input state per placement (linearity), all its amplitudes different"]


def c10(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C10", tier, "classical", p, 8, cpu) for p in ("mapping", "shots", "formats")], []) + sum([py("C10", tier, "jobs", "numbers", 4, cpu)], [])
    return jobs, {"exhaustive": True, "bounds": "every list of up to %d measurements on up to 3 qubits and 3 bits, every register layout, all draws; every split of up to %d bits into registers; nine kinds of integers as shots and seeds" % (Q(tier, 3, 4), Q(tier, 5, 7))}, ["stabilizer states only: each random draw is split at 1/2 (single-draw exactness is C06/C07's subject)"]


def c11(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C11", tier, "classical", p, 8, cpu) for p in ("programs", "deep", "wide_programs")], [])
    return jobs, {"exhaustive": True, "bounds": "every program of up to %d operations out of 20 (13 at full length) on 2 qubits and 3 bits in two registers, all draws" % Q(tier, 4, 5)}, ["stabilizer states only, as for the counts"]


def c12(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C12", tier, "classical", p, 8, cpu) for p in ("exact_probs", "unstable_probs")], [])
    return jobs, {"exhaustive": True, "bounds": "every list of up to %d measurements on up to 3 qubits and 4 bits, two dense states" % Q(tier, 3, 4)}, []


def c13(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C13", tier, "primitives", p, 8, cpu) for p in ("sampler", "sampler_alike", "sampler_levels")], [])
    return jobs, {"exhaustive": True, "bounds": "every batch of up to 3 out of 10 circuit/parameter items, every history of three calls (batches of 1, 2, 2); every pair out of 13 circuits that are alike; every sequence of up to %d out of 8 operations at optimization levels 0 to 3" % Q(tier, 3, 4)}, ["sampled frequencies are compared within 7 standard deviations, under a fixed sequence of draws"]


def c14(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C14", tier, "primitives", p, 8, cpu) for p in ("estimator", "estimator_noise", "wide_observables", "many_terms", "estimator_alike", "estimator_levels")], [])
    return jobs, {"exhaustive": True, "bounds": "every batch of up to 2 (on a smaller pool: 3) circuit/parameter/observable items, histories of 12 calls; all Pauli strings on 3 and 4 qubits; pairs out of 9 circuits and 4 observables that are alike; every sequence of up to %d out of 8 operations at optimization levels 0 to 3" % Q(tier, 3, 4)}, []


def c15(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C15", tier, "jobs", p, 8, cpu) for p in ("histories", "limits", "primitives_bad")], [])
    return jobs, {"exhaustive": True, "bounds": "every history of up to %d requests out of 46 (42 of them bad), every bad circuit at every position of a batch; every history of up to %d requests to one Sampler (16 requests) or Estimator (14)" % (Q(tier, 2, 3), Q(tier, 2, 3))}, []


def c16(tier):
    cpu = Q(tier, 700, 5000)
    jobs = py("C16", tier, "jobs", "seeds", 8, cpu) + py("C16", tier, "jobs", "seed_options", 8, cpu)
    return jobs, {"exhaustive": True, "bounds": "9 seeded requests after every history of up to %d of 13 other jobs; every combination of places a seed can be given in" % Q(tier, 2, 3)}, []


def c17(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C17", tier, "merge", p, 8, cpu) for p in ("ops", "programs", "gates", "held")], []) + py("C17", tier, "merge", "refused", 2, cpu)
    return jobs, {"exhaustive": True, "bounds": "every placement of every supported gate up to %d qubits, every program of up to 3 placed gates on 2 qubits and %d on 3, collected never, after every gate and after every second; 9 merged operators on every ordered choice of up to %d qubits, every pair on 3" % Q(tier, (3, 2, 4), (4, 3, 5))}, ["parameters from a fixed grid"]


def mpi(prop, tier, parts, real):
    d = mpiworld()
    jobs = []
    for part in real:
        jobs.append(Job("real" + part, [sys.executable, V + "/tools/realmpi.py", d + "/real", "@OUT@", part, prop, tier, "@REPLAY@"], wall=Q(tier, 400, 3000)))
    for part, shards in parts:
        jobs += cpp(prop, tier, d + "/x", shards, part, cpu=Q(tier, 700, 5000), part=part, lib=d)
    return jobs


MPI_ASSUME = ["the stand-in for Boost.MPI: messages between two ranks with equal tags keep their order, a send may complete before or only when received, collective operations may or may not synchronize",
              "ranks share no memory and make no choice of their own, so the state of the communication identifies the state of the ranks"]


def c20(tier):
    return mpi("C20", tier, [("place", 8), ("seq", 8), ("sched", 8), ("print", 8)], ["place", "seq"]), \
        {"exhaustive": True, "bounds": "1, 2, 4 and 8 ranks, up to %d qubits: every gate shape on every placement, every sequence of %s operations, under three schedules each; 2 and 4 ranks: programs of 1 to 2 gates under every schedule (8 ranks: up to commuting steps)" % (Q(tier, 4, 6), Q(tier, "3", "3 to 4"))}, MPI_ASSUME


def c21(tier):
    return mpi("C21", tier, [("meas", 8), ("msched", 4), ("born", 8)], ["meas"]), \
        {"exhaustive": True, "bounds": "1, 2, 4 and 8 ranks: every sequence of %s operations, 6 distributions of the amplitudes over the ranks, 5 values of the draws; the exact distribution of outcomes for one and two measurements; 2 and 4 ranks under every schedule" % Q(tier, "2 to 3", "3 to 4")}, MPI_ASSUME + ["as for measuring all qubits in one process"]


def c22(tier):
    return mpi("C22", tier, [("save", 8), ("ssched", 8)], ["save"]), \
        {"exhaustive": True, "bounds": "1, 2, 4 and 8 ranks, up to 5 qubits: every start, every operation before and after, every pair of transfers"}, MPI_ASSUME


MT_PARTS = [("deep", 8), ("one", 8), ("seq", 8), ("wide", 8), ("gc", 8)]


def c18(tier):
    d = mtworld()
    jobs = []
    for part, shards in MT_PARTS:
        jobs += cpp("C18", tier, d + "/x", shards, part, cpu=Q(tier, 700, 5000), part=part)
    return jobs, \
        {"exhaustive": True, "bounds": "2 to %d workers, four base schedules: one gate (multiplied into the state or added to it) on 1 qubit with up to %d changed decisions, on 2 qubits with up to %d, on 3 with 1, up to 6 with none; sequences of %s operations" % (Q(tier, 3, 4), Q(tier, 2, 3), Q(tier, 1, 2), Q(tier, "2 to 3", "2 to 4"))}, \
        ["the stand-in for Boost.Fiber: a fiber may move to another worker at every suspension, futures hand over what was written before",
         "memory is sequentially consistent in the executions explored; orders the program does not force are reported as races by vector clocks"]


def c19(tier):
    d = mtrealworld()
    jobs = []
    for part, shards in [("life", 8), ("dev", 8), ("work", 8)]:
        jobs += cpp("C19", tier, d + "/x", shards, part, cpu=Q(tier, 700, 5000), part=part)
    jobs += py("C19", tier, "jobs", "threads", 4, Q(tier, 700, 5000), site=mtsite())
    return jobs, \
        {"exhaustive": True, "bounds": "all histories of up to %d starts (1 to 4 threads), stops and gate programs under three base schedules; basic histories with up to 2 changed decisions; all histories of %d jobs of 20 kinds, of 3 jobs of 5 kinds" % (Q(tier, 4, 5), Q(tier, 2, 3))}, \
        ["threads run one at a time, switching at calls of the threading library, atomic operations and system calls", "two CPUs are presented to the library", "histories of jobs run under the operating system's schedule"]


def c23(tier):
    cpu = Q(tier, 700, 5000)
    jobs = sum([py("C23", tier, "module", p, 8, cpu) for p in ("functions", "calls", "forms", "wide_forms")], [])
    return jobs, {"exhaustive": True, "bounds": "every gate-making function at every placement up to %d qubits; every sequence of up to %d calls of 14 to 17 kinds on 1 to 3 qubits with every outcome of the draws; every sequence of up to %d gates on 1 to 4 qubits printed and drawn" % Q(tier, (4, 4, 3), (5, 5, 4))}, ["parameters from a fixed grid", "two draw values"]


def c24(tier):
    cpu = Q(tier, 800, 5000)
    site = mpisite()
    jobs = sum([py("C24", tier, "dist", p, 8, cpu, site=site) for p in ("gates", "shots", "misc")], [])
    return jobs, {"exhaustive": True, "bounds": "1, 2, 4 and 8 ranks, 2 to 5 qubits, every exchange and swap mode: all gate sequences, measuring programs with all draws, job histories up to the stated lengths"}, ["parameters from a fixed grid", "message passing stands in for Boost.MPI and mpi4py"]


def c25(tier):
    cpu = Q(tier, 800, 5000)
    jobs = sum([py("C25", tier, "memory", p, 8, cpu, site=crowdedsite()) for p in ("calls", "jobs", "primitives", "long")], [])
    return jobs, {"exhaustive": True, "bounds": "histories of up to %s calls, %d jobs, %d primitive runs; jobs of %d blocks in %d doublings" % Q(tier, ("3", 2, 2, 2, 6), ("4", 3, 3, 3, 6))}, ["a leak shows within 10 repetitions or 6 doublings"]


def c26(tier):
    cpu = Q(tier, 800, 5000)
    jobs = sum([py("C26", tier, "flight", p, 8, cpu, site=tinysite()) for p in Q(tier, ("pairs", "triples", "transpiled"), ("pairs", "triples", "transpiled", "two"))], [])
    jobs += py("C26", tier, "flight", "workers", 8, cpu, site=tinymtsite())
    return jobs, {"exhaustive": True, "bounds": "schedules with up to %s; 13 kinds of jobs in pairs, %d in triples, 5 kinds with worker threads of the engine in pairs; 8 kinds of circuits of 1 to 3 gates" % Q(tier, ("1 deviation from the order of submission (at the first and last time a thread reaches a line)", 5), ("1 preemption and every choice where the running thread has to wait (2 deviations for 3 pairs)", 8))}, ["threads are switched at lines and at operations on locks and futures only (between the byte codes of a line nothing of the package is shared)"]


SPECS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26}


def setup():
    for k, s in SPECS.items():
        s("quick")
        print("built", k, flush=True)
    return 0
