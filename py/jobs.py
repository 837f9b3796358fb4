"""Jobs: every short history of good and bad requests; seeds."""
from common import *
import threading
from qiskit import QuantumCircuit, QuantumRegister, AncillaRegister, ClassicalRegister, transpile
from qiskit.circuit import Clbit, Qubit
from qiskit.circuit.library import Initialize, HGate
import qiskit.circuit.library as L
from qiskit.providers import JobStatus


def good():
    a = QuantumCircuit(2, 2, name="a"); a.x(0); a.measure([0, 1], [0, 1])
    b = QuantumCircuit(3, 3, name="b"); b.x(2); b.measure(2, 0); b.reset(2); b.measure(2, 1); b.x(1).c_if(0, 1); b.measure(1, 2)
    c = QuantumCircuit(1, 1, name="c"); c.h(0); c.h(0); c.measure(0, 0)
    return [(a, "01"), (b, "101"), (c, "0")]


def bad():
    """name -> (circuits, options); none of them may be evaluated."""
    g = [c for c, _ in good()]
    out = {}
    nm = QuantumCircuit(2, 2, name="nomeasure"); nm.h(0)
    big = QuantumCircuit(101, 1, name="big"); big.measure(0, 0)
    huge = QuantumCircuit(QuantumRegister(100), QuantumRegister(1), ClassicalRegister(1), name="huge"); huge.measure(0, 0)
    init = QuantumCircuit(1, 1, name="init"); init.initialize([0, 1], 0); init.measure(0, 0)
    ctl = QuantumCircuit(3, 1, name="ctl"); ctl.append(HGate().control(2), [0, 1, 2]); ctl.measure(0, 0)
    lib = QuantumCircuit(2, 1, name="qft"); lib.append(L.QFT(2), [0, 1]); lib.measure(0, 0)
    ecr = QuantumCircuit(2, 1, name="ecr"); ecr.ecr(0, 1); ecr.measure(0, 0)
    delay = QuantumCircuit(1, 1, name="delay"); delay.delay(5, 0); delay.measure(0, 0)
    par = QuantumCircuit(1, 1, name="unbound"); par.rx(__import__("qiskit").circuit.Parameter("t"), 0); par.measure(0, 0)
    ife = QuantumCircuit(2, 2, name="ifelse"); ife.measure(0, 0)
    with ife.if_test((ife.clbits[0], 1)) as els:
        ife.x(1)
    with els:
        ife.h(1)
    ife.measure(1, 1)
    iff = QuantumCircuit(2, 2, name="if"); iff.x(0); iff.measure(0, 0)
    with iff.if_test((iff.clbits[0], 1)):
        iff.x(1)
    iff.measure(1, 1)
    loop = QuantumCircuit(1, 1, name="for"); loop.measure(0, 0)
    with loop.for_loop(range(3)):
        loop.x(0)
    loop.measure(0, 0)
    wh = QuantumCircuit(1, 1, name="while"); wh.x(0); wh.measure(0, 0)
    with wh.while_loop((wh.clbits[0], 1)):
        wh.x(0); wh.measure(0, 0)
    anc = QuantumCircuit(QuantumRegister(99), AncillaRegister(2), ClassicalRegister(1), name="ancillas"); anc.measure(0, 0)
    loose = QuantumCircuit([Qubit() for _ in range(101)], [Clbit()], name="loose"); loose.measure(0, 0)
    for c in (nm, big, huge, anc, loose, init, ctl, lib, ecr, delay, par, ife, iff, loop, wh):
        out[c.name] = (c, {})
    cond = QuantumCircuit(1, 1, name="cond"); cond.measure(0, 0); cond.x(0).c_if(0, 1); cond.measure(0, 0)
    out["conditional exact"] = (cond, {"shots": None})
    t = __import__("qiskit").circuit.Parameter("t")
    rot = QuantumCircuit(1, 1, name="bound"); rot.rx(t, 0); rot.measure(0, 0)
    for k, binds in enumerate([[], [{t: 0.5}], [{t: 0.5}] * 3, [{t: 0.5}, None], {t: 0.5}, [{t: 0.5}, {}]]):
        out["parameter_binds %d" % k] = ([rot, rot], {"parameter_binds": binds})
    out["parameter_binds missing"] = ([rot], {"parameter_binds": []})
    for o in ({"use_bcast": True}, {"n_threads": "2"}, {"seed_simulator": "a"}, {"seed_simulator": -1}, {"shots": 2.5}, {"shots": "3"}):
        out["option %s" % o] = (g[0], o)
    for s in (0, -1, 1000001, 10 ** 9):
        out["shots %d" % s] = (g[0], {"shots": s})
    out["string"] = ("circuit", {})
    out["none"] = (None, {})
    out["tuple"] = ((g[0],), {})
    out["list with a string"] = ([g[0], "x"], {})
    out["list with a list"] = ([[g[0]]], {})
    return out


def submit(circs, **kw):
    with quiet():
        try:
            return backend().run(circs, **kw)
        except Exception as e:
            e._from_impl = True
            raise


def check_bad(name, circs, kw):
    Cov.transitions += 1
    job = submit(circs, **kw)
    r = job.result()
    need(r.success is False, lambda: "%s: job succeeded with %s" % (name, [x.data.to_dict() for x in r.results]))
    need(job.status() == JobStatus.ERROR, lambda: "%s: status %s" % (name, job.status()))
    need(r.results == [], lambda: "%s: a failed job has results" % name)
    need(isinstance(r.status, str) and len(r.status) > 0, lambda: "%s: no message" % name)
    for f in (job.submit, job.cancel):
        try:
            f()
            fail("%s of a failed job did nothing" % f.__name__)
        except RuntimeError:
            pass


def check_good(i, shots=None, memory=None, **kw):
    Cov.transitions += 1
    c, want = good()[i]
    if shots is not None:
        kw["shots"] = shots
    if memory is not None:
        kw["memory"] = memory
    job = submit(c, **kw)
    r = job.result()
    n = shots if shots is not None else 1024
    need(r.success and job.status() == JobStatus.DONE, lambda: "good circuit %d failed: %s" % (i, r.status))
    need(r.get_counts() == {want: n}, lambda: "good circuit %d: counts %s, expected %d times %s" % (i, r.get_counts(), n, want))
    need(("memory" in r.data(0)) == bool(memory), "memory option")
    if memory:
        need(r.get_memory() == [want] * n, "memory")
    need(r.job_id == job.job_id(), "job id")


def histories():
    B = bad()
    names = sorted(B)
    reqs = [("bad", nm) for nm in names] + [("good", 0, 5, True), ("good", 1, 3, None), ("good", 2, None, None), ("good", 0, 1, False)]

    def do(r):
        if r[0] == "bad":
            check_bad(r[1], *B[r[1]])
        else:
            check_good(*r[1:])
    for ln in (1, 2, opt("len", 2, 3)):
        for seq in itertools.product(reqs, repeat=ln):
            if not mine():
                continue
            at("history %s" % (seq,))
            for r in seq:
                do(r)
            for i in range(3):
                check_good(i, shots=2)
            check_good(0)
            Cov.states += 1
    # a bad circuit at every position of a batch
    for ln in (1, 2, 3):
        for pos in range(ln):
            for nm in names:
                c, kw = B[nm]
                if not isinstance(c, QuantumCircuit) or not mine():
                    continue
                at("batch of %d with %s at position %d" % (ln, nm, pos))
                batch = [good()[k][0] for k in range(ln)]
                batch[pos] = c
                check_bad(nm, batch, kw)
                check_good(pos, shots=2)
                Cov.states += 1
    sample("requests: %s" % names)


def limits():
    """Boundary values, options in every order; options of one run do not reach the next; set_options does."""
    if A.shard == 0:
        at("shots limits")
        c = good()[0][0]
        for n in (1, 2, 1023, 1024, 1025, 20000):
            check_good(0, shots=n)
        check_good(2, shots=1000000)
        c = QuantumCircuit(100, 100); c.x(99); c.measure(99, 99)
        r = submit(c, shots=1).result()
        need(r.success and r.get_counts() == {"1" + "0" * 99: 1}, "100 qubits")
    opts = [("shots", 3), ("shots", 8), ("memory", True), ("memory", False), ("seed_simulator", 5), ("show_progress", False), ("max_credits", 3), ("unknown_option", 1)]
    for seq in itertools.product([None] + opts, repeat=3):
        if not mine():
            continue
        at("runs with options %s" % (seq,))
        for o in seq:
            kw = dict([o]) if o else {}
            with quiet():
                r = backend().run(good()[1][0], **kw).result()
            Cov.transitions += 1
            n = kw.get("shots", 1024)
            need(r.success and r.get_counts() == {"101": n}, lambda: "options %s: %s" % (kw, r.get_counts()))
            need(("memory" in r.data(0)) == kw.get("memory", False), lambda: "memory with options %s" % kw)
        Cov.states += 1
    from qdd import QddProvider
    for seq in itertools.product([("set", "shots", 4), ("set", "memory", True), ("set", "shots", 0), ("set", "shots", -1), ("set", "shots", 1000001), ("set", "use_bcast", True), ("run", {}), ("run", {"shots": 6}), ("run", {"memory": False}), ("other", None)], repeat=opt("olen", 3, 4)):
        if not mine():
            continue
        at("options history %s" % (seq,))
        be, cur = QddProvider().get_backend(), {"shots": 1024, "memory": False}
        for s in seq:
            if s[0] == "set":
                be.set_options(**{s[1]: s[2]})
                cur[s[1]] = s[2]
                continue
            eff = dict(cur, **s[1]) if s[0] == "run" else {"shots": 1024, "memory": False}
            with quiet():
                r = (be.run(good()[0][0], **s[1]) if s[0] == "run" else QddProvider().get_backend().run(good()[0][0])).result()
            if not 0 < eff["shots"] <= 1000000 or eff.get("use_bcast"):
                need(not r.success and r.results == [] and isinstance(r.status, str) and r.status, lambda: "%s: not refused with %s" % (s, eff))
                continue
            need(r.success and r.get_counts() == {"01": eff["shots"]}, lambda: "%s: %s, expected %s" % (s, r.get_counts() if r.success else r.status, eff))
            need(("memory" in r.data(0)) == eff["memory"], "memory option")
        Cov.states += 1
    # parameter bindings: each circuit of the batch gets its own
    from qiskit.circuit import Parameter
    t, u = Parameter("t"), Parameter("u")
    for vals in itertools.product((0, math.pi), repeat=4):
        if not mine():
            continue
        at("parameter_binds %s" % (vals,))
        c1 = QuantumCircuit(2, 2); c1.rx(t, 0); c1.ry(u, 1); c1.measure([0, 1], [0, 1])
        c2 = QuantumCircuit(2, 2); c2.rx(u, 0); c2.ry(t, 1); c2.measure([0, 1], [0, 1])
        with quiet():
            r = backend().run([c1, c2], parameter_binds=[{t: vals[0], u: vals[1]}, {t: vals[2], u: vals[3]}], shots=3).result()
        b = [1 if v else 0 for v in vals]
        need(r.success and r.get_counts(0) == {"%d%d" % (b[1], b[0]): 3} and r.get_counts(1) == {"%d%d" % (b[2], b[3]): 3}, lambda: "%s" % r.get_counts())
        need(set(c1.parameters) == {t, u}, "the caller's circuit was changed")
        with quiet():    # the order of the entries means nothing
            r = backend().run([c1, c2], parameter_binds=[{u: vals[1], t: vals[0]}, {u: vals[3], t: vals[2]}], shots=3).result()
        need(r.success and r.get_counts(0) == {"%d%d" % (b[1], b[0]): 3} and r.get_counts(1) == {"%d%d" % (b[2], b[3]): 3}, lambda: "entries in another order: %s" % r.get_counts())
        Cov.states += 1


# ------------------------------------------------------------------ seeds
def seeds():
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    c1 = QuantumCircuit(3, 3); c1.h([0, 1, 2]); c1.measure(range(3), range(3))
    c2 = QuantumCircuit(2, 2); c2.h(0); c2.measure(0, 0); c2.h(0); c2.cx(0, 1); c2.measure([0, 1], [0, 1]); c2.reset(0); c2.h(0); c2.measure(0, 0)
    m = QuantumCircuit(2); m.h(0); m.ry(0.7, 1); m.measure_all()
    e = QuantumCircuit(2); e.h(0); e.ry(0.7, 1)
    H = SparsePauliOp.from_list([("ZZ", 1), ("XI", 0.5)])

    def mem(c, seed, n=20, sv=False):
        def f():
            with quiet():
                r = (sv_backend() if sv else backend()).run(c, shots=n, memory=True, **({} if seed is None else {"seed_simulator": seed})).result()
            need(r.success, lambda: "failed: %s" % r.status)
            out = [r.get_memory(k) for k in range(len(r.results))]
            if sv:
                out += [[complex(x) for x in r.data(k)["statevector"]] for k in range(len(r.results))]
            return out
        return f

    def samp(seed):
        def f():
            with quiet():
                return {k: v for k, v in Sampler().run([m, m], [[], []], shots=50, seed=seed).result().quasi_dists[1].items()}
        return f

    def samp_b(seed):
        def f():
            with quiet():
                return {k: v for k, v in Sampler(backend_options={"seed_simulator": seed}).run([m], [[]], shots=50).result().quasi_dists[0].items()}
        return f

    def est(seed):
        def f():
            with quiet():
                return list(Estimator(run_options={"shots": 50}).run([e], [H], [[]], seed=seed).result().values)
        return f
    probes = [("stable", mem(c1, 11)), ("unstable", mem(c2, 11)), ("batch", mem([c2, c1], 12)), ("seed 0", mem(c1, 0)), ("big seed", mem(c1, 2 ** 32 + 5)), ("statevector", mem(c2, 3, 5, True)),
              ("sampler", samp(4)), ("sampler backend option", samp_b(4)), ("estimator", est(5))]
    noise = probes + [("unseeded", mem(c1, None)), ("unseeded unstable", mem(c2, None, 7)), ("other seed", mem(c1, 99)), ("other seed unstable", mem(c2, 98, 3))]
    ref = {nm: f() for nm, f in probes}
    for nm, f in probes:
        for ln in range(0, opt("hist", 2, 3) + 1):
            for h in itertools.product(noise, repeat=ln):
                if not mine():
                    continue
                at("seeded %s after %s" % (nm, [x[0] for x in h]))
                for _, g in h:
                    g()
                got = f()
                need(got == ref[nm], lambda: "seeded run is not repeated: %s, first time %s" % (str(got)[:200], str(ref[nm])[:200]))
                Cov.states += 1
                Cov.transitions += ln + 1
    # different seeds: different randomness, in every kind of circuit
    for c in (c1, c2):
        res = [tuple(mem(c, s)()[0]) for s in range(1, 17)]
        at("sixteen seeds")
        need(len(set(res)) == 16, "different seeds give the same shots")
        need(all(len(set(r)) > 1 for r in res), "all shots of a run are equal")
    # unseeded runs are not repetitions of each other
    at("unseeded runs")
    res = [tuple(mem(c1, None)()[0]) for _ in range(8)]
    need(len(set(res)) == 8, "unseeded runs repeat each other")
    # equal seeds across processes
    if A.shard < 2:
        import subprocess
        code = "import sys;sys.path.insert(0,%r)\nfrom qiskit import QuantumCircuit\nfrom qdd import QddProvider\nc=QuantumCircuit(3,3);c.h([0,1,2]);c.measure(range(3),range(3))\nprint(QddProvider().get_backend().run(c,shots=20,memory=True,seed_simulator=11).result().get_memory())" % A.site
        at("seeded run in another process")
        o = subprocess.run([sys.executable, "-W", "ignore", "-c", code], stdout=subprocess.PIPE, text=True).stdout.strip()
        need(o == str(ref["stable"][0]), lambda: "another process: %s, this one %s" % (o, ref["stable"][0]))
    sample("probes %s after every history of up to %d of %d other jobs" % ([p[0] for p in probes], opt("hist", 2, 3), len(noise)))


def seed_options():
    """Every place a seed can be given in, and every combination of them: which one counts, and that it does."""
    from qdd import QddProvider
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    n = 6
    c = QuantumCircuit(n); c.h(range(n)); c.measure_all()
    e = QuantumCircuit(n)
    for q in range(n):
        e.ry(0.3 + 0.2 * q, q)
    H = SparsePauliOp.from_list([("IIIIIZ", 1), ("IIIIXI", 0.501), ("ZZIIII", 0.2503), ("IIZXII", 0.12507)])

    def bk(be, run):
        r = be.run(c, shots=12, memory=True, **run).result()
        need(r.success, lambda: "failed: %s" % r.status)
        return r.get_memory()

    def backend_way(opts, ro, run):
        be = QddProvider().get_backend()
        be.set_options(**opts)
        return bk(be, {**ro, **run})
    samp = lambda opts, ro, run: sorted(Sampler(backend_options=opts or None, run_options={"shots": 12, **ro}).run([c], [[]], **run).result().quasi_dists[0].items())
    est = lambda opts, ro, run: list(Estimator(backend_options=opts or None, run_options={"shots": 400, **ro}).run([e], [H], [[]], **run).result().values)
    noise = lambda opts, ro, run: list(Estimator(backend_options=opts or None, run_options={"shots": 400, **ro}, approximation=True).run([e], [H], [[]], **run).result().values)
    S = (0, 1, 7)
    for nm, way, names in (("backend", backend_way, ("seed_simulator",)), ("Sampler", samp, ("seed_simulator", "seed")), ("Estimator", est, ("seed_simulator", "seed")), ("Estimator with approximation", noise, ("seed",))):
        def get(*x):
            with quiet():
                return way(*x)
        ref = {}
        for s in range(12):
            ref[s] = get({} if nm.endswith("approximation") else {"seed_simulator": s}, {}, {"seed": s} if nm.endswith("approximation") else {})
        at("%s: twelve seeds" % nm)
        need(len({str(x) for x in ref.values()}) >= 11, "different seeds give the same result")
        opts = [{}] + ([{"seed_simulator": s} for s in S] if "seed_simulator" in names else [])
        ros = [{}] + [{k: s} for k in names for s in S]
        runs = [{}] + [{k: s} for k in names for s in S] + ([{"seed": None}] if "seed" in names else []) + ([{"seed_simulator": s, "seed": t} for s in S for t in S] if len(names) == 2 else [])
        for o in opts:
            for ro in ros:
                for run in runs:
                    if ro and run and set(ro) != set(run):
                        continue          # not said which one counts
                    if not mine():
                        continue
                    at("%s: backend options %s, run_options %s, run(%s)" % (nm, o, ro, run))
                    eff = {**o, **ro, **run}
                    given = {**ro, **run}
                    eff = given.get("seed_simulator", given.get("seed"))
                    eff = o.get("seed_simulator") if eff is None else eff
                    Cov.transitions += 2
                    if eff is None:
                        need(len({str(get(o, ro, run)) for _ in range(8)}) > 1, "unseeded runs repeat each other")
                    else:
                        for _ in range(2):
                            got = get(o, ro, run)
                            need(got == ref[eff], lambda: "%s, with the seed %s %s" % (got, eff, ref[eff]))
                    Cov.states += 1
    sample("every combination of seeds in the options of the backend, the primitive and the run")


# ------------------------------------------------------------------ kinds of numbers
def numbers():
    """Shots and seeds given as the different kinds of integers there are."""
    from qdd import QddProvider
    from qdd.qdd_sampler import Sampler
    kinds = [int] + [getattr(np, k) for k in ("int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8")]
    a = QuantumCircuit(2, 2, name="last"); a.h(0); a.cx(0, 1); a.measure([0, 1], [0, 1])
    b = QuantumCircuit(2, 2, name="again"); b.h(0); b.measure(0, 0); b.h(0); b.measure(0, 1)
    c = QuantumCircuit(1, 2, name="reset"); c.h(0); c.measure(0, 0); c.reset(0); c.h(0); c.measure(0, 1)
    d = QuantumCircuit(2, 2, name="condition"); d.h(0); d.measure(0, 0); d.x(1).c_if(0, 1); d.measure(1, 1)
    for be in ("qasm_simulator", "statevector_simulator"):
        for batch in ([a], [b], [c], [d], [a, b], [d, a], [c, b, d]):
            for shots in (1, 2, 3, 10, 100):
                for memory in (True, False):
                    ref = None
                    for k in kinds:
                        for ks in (int, k):
                            if not mine():
                                continue
                            at("%s: %s, %d shots given as %s, seed as %s, memory=%s" % (be, [x.name for x in batch], shots, k.__name__, ks.__name__, memory))
                            with quiet():
                                if ref is None:
                                    ref = QddProvider().get_backend(be).run(batch, shots=shots, memory=True, seed_simulator=5).result()
                                r = QddProvider().get_backend(be).run(batch, shots=k(shots), memory=memory, seed_simulator=ks(5)).result()
                            need(r.success, lambda: "failed: %s" % r.status)
                            for i in range(len(batch)):
                                got = r.get_counts(i)
                                need(sum(got.values()) == shots == r.results[i].shots, lambda: "%s for %d shots" % (got, shots))
                                need(got == ref.get_counts(i), lambda: "%s, with plain integers %s" % (got, ref.get_counts(i)))
                                need(not memory or r.get_memory(i) == ref.get_memory(i), "memory")
                            Cov.states += 1
                            Cov.transitions += len(batch)
                            Cov.traces_validated_against_impl += 1
    sample("every kind of integer as the number of shots")


# ------------------------------------------------------------------ the primitives
def primitives_bad():
    """Histories of requests to one primitive, most of them such that it cannot evaluate them."""
    from qdd.qdd_sampler import Sampler
    from qdd.qdd_estimator import Estimator
    from qiskit.circuit import Parameter
    from qiskit.quantum_info import SparsePauliOp
    t = Parameter("t")
    m = QuantumCircuit(1, 1, name="m"); m.x(0); m.measure(0, 0)
    p = QuantumCircuit(2, 1, name="p"); p.rx(t, 0); p.measure(0, 0)
    e = QuantumCircuit(2, name="e"); e.rx(t, 0); e.x(1)
    f = QuantumCircuit(2, name="f"); f.x(0)
    cf = QuantumCircuit(1, 1, name="cf"); cf.measure(0, 0)
    with cf.if_test((cf.clbits[0], 1)):
        cf.x(0)
    cf.measure(0, 0)
    big = QuantumCircuit(101, 1, name="big"); big.measure(0, 0)
    bige = QuantumCircuit(101, name="bige"); bige.x(0)
    ecr = QuantumCircuit(2, 1, name="ecr"); ecr.ecr(0, 1); ecr.measure(0, 0)
    ecre = QuantumCircuit(2, name="ecre"); ecre.ecr(0, 1)
    Z, ZZ, big_Z = SparsePauliOp("ZI"), SparsePauliOp("ZZ"), SparsePauliOp("Z" * 101)
    U = "upported"
    sampler = [("good", [m], [[]], {}), ("good with parameters", [p, m], [[math.pi], []], {})]
    sampler += [(U, [cf], [[]], {}), (U, [m, ecr], [[], []], {}), ("101 qubits", [big], [[]], {}), ("101 qubits", [m, big, p], [[], [], [0.5]], {}), ("", [e], [[0.1]], {}), ("", [p], [[]], {}), ("", [p], [[1, 2]], {}), ("", [p, m], [[1]], {}), ("", ["m"], [[]], {}),
                ("Shots=0", [m], [[]], {"shots": 0}), ("Shots=-1", [m, p], [[], [0.5]], {"shots": -1}), ("Shots=1000001", [m], [[]], {"shots": 1000001}), ("", [m], [[]], {"shots": 2.5}), ("", [m], [[]], {"shots": "3"})]
    est = [("good", [f], [ZZ], [[]], {}), ("good with parameters", [e, f], [Z, ZZ], [[math.pi], []], {})]
    est += [("", [e], [Z], [[]], {}), ("", [e], [Z], [[1, 2]], {}), ("", [e, f], [Z], [[1], []], {}), ("", [e], [SparsePauliOp("Z")], [[0.2]], {}), (U, [ecre], [ZZ], [[]], {}), (U, [f, ecre], [ZZ, ZZ], [[], []], {}), ("101 qubits", [bige], [big_Z], [[]], {}), ("101 qubits", [f, bige], [ZZ, big_Z], [[], []], {}),
            ("Shots=0", [f], [ZZ], [[]], {"shots": 0}), ("Shots=-1", [e], [ZZ], [[0.3]], {"shots": -1}), ("", [f], [ZZ], [[]], {"shots": "3"}), ("", [f], ["ZZ?"], [[]], {})]
    for nm, make, reqs in (("Sampler", lambda: Sampler(skip_transpilation=True, run_options={"shots": 7}), sampler), ("exact Sampler", lambda: Sampler(skip_transpilation=True, run_options={"shots": None}), sampler),
                           ("Estimator", lambda: Estimator(skip_transpilation=True, run_options={"shots": 7}), est), ("Estimator with approximation", lambda: Estimator(skip_transpilation=True, approximation=True, run_options={"shots": None}), est)):
        for ln in range(1, opt("plen", 2, 3) + 1):
            for seq in itertools.product(range(len(reqs)), repeat=ln):
                if not mine():
                    continue
                ob = make()
                for i in seq + (0, 1):
                    why, args, kw = reqs[i][0], reqs[i][1:-1], reqs[i][-1]
                    if why == "Shots=1000001" and "approximation" in nm:
                        continue
                    at("%s: requests %s, now %d (%s)" % (nm, seq, i, why))
                    Cov.transitions += 1
                    err = r = None
                    with quiet():
                        try:
                            r = ob.run(*args, **kw).result()
                        except Exception as x:
                            err = x
                    if not why.startswith("good"):
                        need(err is not None, lambda: "not refused: %s" % (r,))
                        need(len(str(err)) > 0 and (why in str(err)), lambda: "refused without its reason (%s): %s %s" % (why, type(err).__name__, err))
                    else:
                        need(err is None, lambda: "a good request failed: %s %s" % (type(err).__name__, err))
                        if "Sampler" in nm:
                            need([{k: round(v, 9) for k, v in d.items() if v > 1e-9} for d in r.quasi_dists] == [{1: 1.0}] * len(args[0]), lambda: "%s" % r.quasi_dists)
                        else:
                            need(np.allclose(r.values, [-1.0] * len(args[0])), lambda: "%s" % r.values)
                Cov.states += 1
                Cov.traces_validated_against_impl += 1
    sample("histories of requests to one Sampler or Estimator")


# ------------------------------------------------------------------ worker threads
def threads():
    """Every short history of jobs with different numbers of threads, refused ones among them; each history in a process of its own."""
    from qiskit.quantum_info import Statevector
    from qdd import pyQDD
    need(hasattr(pyQDD, "initMT"), "not built for threads")
    e = QuantumCircuit(5); e.h([0, 1]); e.cx(0, 2); e.rx(0.3, 3); e.cp(0.7, 1, 4); e.u(0.2, 0.4, 0.6, 4); e.swap(0, 3); e.ccx(0, 1, 2)
    want_e = np.asarray(Statevector(e).data)
    em = e.copy(); em.measure_all()
    prob = np.abs(want_e) ** 2
    ecr = bad()["ecr"][0]

    def tasks():
        return len(os.listdir("/proc/self/task"))
    base = tasks()

    def own():
        return threading.current_thread() is not threading.main_thread()

    def do(r):
        if len(r) == 2:
            return do_here(r)
        err = []                                # in a thread of the program's own

        def body():
            try:
                do_here(r[:2])
            except BaseException as e:
                err.append(e)
        t = threading.Thread(target=body)
        t.start()
        t.join()
        if err:
            raise err[0]

    def do_here(r):
        kind, nt = r
        kw = {} if nt is None else {"n_threads": nt}
        Cov.transitions += 1
        if kind == "batch":
            with quiet():
                res = backend().run([good()[0][0], good()[1][0], good()[2][0]], shots=2, **kw).result()
            need(res.success and res.get_counts() == [{good()[i][1]: 2} for i in range(3)], lambda: "batch: %s %s" % (res.status, res.success and res.get_counts()))
        elif kind == "vector":
            with quiet():
                res = sv_backend().run(e, **kw).result()
            need(res.success, lambda: "statevector failed: %s" % res.status)
            got = np.array([complex(x) for x in res.data(0)["statevector"]])
            need(np.allclose(got, want_e, atol=1e-6), lambda: "statevector %s, expected %s" % (got, want_e))
        elif kind == "exact":
            with quiet():
                res = backend().run(em, shots=None, **kw).result()
            need(res.success, lambda: "exact run failed: %s" % res.status)
            got = np.zeros(32)
            for k, v in res.data(0)["probabilities"].items():
                got[int(k, 16) if isinstance(k, str) else k] += v
            need(np.allclose(got, prob, atol=1e-6), lambda: "exact probabilities %s, expected %s" % (got, prob))
        elif kind == "refused":
            check_bad("ecr", ecr, dict(kw))
        elif kind == "refused late":
            check_bad("ecr", [good()[0][0], ecr], dict(kw))
        for _ in range(50):
            if tasks() == base + own():
                break
            time.sleep(0.02)
        need(tasks() == base + own(), lambda: "%d threads still run after the job" % (tasks() - base - own()))
    reqs = [(k, nt) for k in ("batch", "vector", "exact", "refused late") for nt in (None, 2, 3)] + [("refused", 2), ("batch", 5), ("vector", 1), ("batch", 0)]
    reqs += [("exact", None, "own"), ("exact", 2, "own"), ("batch", 3, "own"), ("refused late", 2, "own")]
    few = [("exact", 2), ("exact", 2, "own"), ("vector", None), ("refused late", 2, "own"), ("batch", 3)]
    for ln in (1, 2, 3):
        for seq in itertools.product(reqs if ln <= opt("len", 2, 3) else few, repeat=ln):
            if not mine():
                continue
            at("history of jobs (kind, n_threads, in a thread of its own): %s" % (seq,))
            sys.stdout.flush()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:                        # ends the process the ordinary way: static objects are destroyed
                rc = 3
                try:
                    for x in seq:
                        do(x)
                    os.write(w, b"done")
                    rc = 0
                except Stop:
                    rc = 1
                except BaseException as ex:
                    import traceback
                    traceback.print_exc()
                    if any("/qdd/" in f.filename for f in traceback.extract_tb(ex.__traceback__)) or getattr(ex, "_from_impl", False):
                        emit("exception %s: %s" % (type(ex).__name__, ex))
                        rc = 1
                sys.stdout.flush()
                ctypes.CDLL(None).exit(rc)
            os.close(w)
            got = os.read(r, 10)
            os.close(r)
            t0, st = time.time(), None
            while time.time() - t0 < 60:
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                time.sleep(0.001)
            else:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                fail("the process does not end")
            if os.WIFSIGNALED(st):
                fail("the process died with signal %d" % os.WTERMSIG(st))
            if os.WEXITSTATUS(st) == 1 and not got:
                raise Stop()
            if os.WEXITSTATUS(st) == 3 and not got:
                raise RuntimeError("the history could not be run")
            need(os.WEXITSTATUS(st) == 0 and got == b"done", lambda: "the process ended with status %d" % os.WEXITSTATUS(st))
            Cov.states += 1
            Cov.transitions += ln
            Cov.evaluations += 3 * ln
    sample("jobs: %s" % (reqs,))


def run():
    globals()[A.part]()


main(run)
