"""Memory: every short history of calls or jobs, repeated; what is in use must stop growing."""
from common import *
import gc as pygc, tempfile
from qiskit import QuantumCircuit

WARM, REPS = 8, 10


class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info


def used():
    i = LIBC.mallinfo2()
    return i.uordblks + i.hblkhd


@contextlib.contextmanager
def muted():
    sys.stdout.flush()
    old = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        os.dup2(old, 1)
        os.close(old)
        os.close(null)


def growth(once):
    """How much the memory in use grows with every repetition, in bytes; 0 if it comes to rest."""
    for warm, reps in ((3, 2), (WARM, REPS), (WARM, REPS)):
        for _ in range(warm):
            once()
        if warm == WARM:
            pygc.collect()
        d, m = [], used()
        for i in range(reps):
            once()
            d.append(used() - m)
            m += d[-1]
        if not all(x > 0 for x in d[-5:]):
            return 0
    return min(d)


def show_growth(g):
    return "every repetition leaves %d more bytes in use" % g


U3 = None


def kinds(n):
    from qdd import pyQDD as Q
    h = n - 1
    k = {
        "h": lambda s: s.update(e=Q.mv_multiply(Q.makeGate(n, "H", h), s["e"])),
        "ry": lambda s: s.update(e=Q.mv_multiply(Q.RY(n, 0, s["t"]), s["e"])),
        "u": lambda s: s.update(e=Q.mv_multiply(Q.unitary(n, U3, list(range(n))), s["e"])),
        "mm": lambda s: s.update(m=Q.mm_multiply(Q.RY(n, h, 1 - s["t"]), s["m"])),
        "use": lambda s: s.update(e=Q.mv_multiply(s["m"], s["e"])),
        "getVector": lambda s: Q.getVector(s["e"]),
        "getEigenVector": lambda s: s["e"].getEigenVector(),
        "getEigenMatrix": lambda s: s["m"].getEigenMatrix(n),
        "probabilities": lambda s: Q.probabilities(s["e"]),
        "measureAll": lambda s: s.update(e=Q.measureAll(s["e"], True)[0]),
        "measureOne": lambda s: Q.measureOne(s["e"], h),
        "collapse": lambda s: s.update(e=Q.measureOneCollapsing(s["e"], 0)[0]),
        "gc": lambda s: s.update(e=Q.gc(s["e"], True)),
        "gcm": lambda s: s.update(m=Q.gc_mat(s["m"], True)),
        "gc late": lambda s: s.update(e=Q.gc(s["e"], False)),
        "phase": lambda s: s.update(e=Q.applyGlobal(s["e"], 0.7), m=Q.applyGlobal(s["m"], 0.7)),
        "genDot": lambda s: (Q.genDot(s["e"]), Q.genDot(s["m"])) if hasattr(Q, "genDot") else None,
        "print": lambda s: (Q.printVector(s["e"]) if hasattr(Q, "printVector") else s["e"].printVector(), s["m"].printMatrix(n)),
        "refused": lambda s: refused(lambda: Q.makeGate(n, "NOGATE", 0)),
        "nodes": lambda s: Q.get_nNodes(s["e"]),
    }
    if n > 1:
        k["cx"] = lambda s: s.update(e=Q.mv_multiply(Q.CX(n, h, 0), s["e"]))
        k["iswap"] = lambda s: s.update(m=Q.mm_multiply(Q.ISWAP(n, 0, h), s["m"]))
        k["ctrl"] = lambda s: s.update(e=Q.mv_multiply(Q.makeGate(n, "H", 0, [h]), s["e"]))
    return k


def refused(f):
    try:
        f()
    except Exception:
        return
    fail("accepted")


def calls():
    """Histories of calls of the Python module."""
    from qdd import pyQDD as Q
    global U3
    for n in (1, 2, 3):
        r = np.random.RandomState(n)
        q, _ = np.linalg.qr(r.randn(1 << n, 1 << n) + 1j * r.randn(1 << n, 1 << n))
        U3 = [[complex(x) for x in row] for row in q]
        ks = kinds(n)
        few = [k for k in ks if k not in ("print", "genDot", "nodes", "refused", "measureOne", "getEigenVector", "getEigenMatrix", "gc late", "u", "phase")]
        for ln in range(1, opt("len", 2 if n != 2 else 3, 3 if n != 2 else 4) + 1):
            for seq in itertools.product(few if ln == (3 if QUICK else 4) else ks, repeat=ln):
                if not mine():
                    continue
                if ln == 4 and len(set(seq)) < 4:
                    continue
                at("repeated on %d qubits: %s" % (n, ", ".join(seq)))
                for forced in ((True,) if ln > 2 else (True, False)):
                    angle = itertools.count(1)

                    def once():
                        arm([], 0.3)
                        s = {"t": 0.01 * next(angle) if forced else 0.9, "e": Q.makeZeroState(n), "m": Q.makeGate(n, "I", 0)}
                        for x in seq:
                            ks[x](s)
                        s.clear()
                        if forced:
                            Q.gc([], True)
                            Q.gc_mat([], True)
                        disarm()
                        Cov.transitions += ln
                    with muted() if "print" in seq or "genDot" in seq else contextlib.nullcontext():
                        g = growth(once)
                    need(g == 0, lambda: show_growth(g))
                    Cov.states += 1
    sample("every history of %s" % sorted(kinds(2)))


def circuits():
    from qdd.qdd_gate import QDDGate
    from qdd import pyQDD
    from qiskit.circuit.library import UnitaryGate
    n = 3
    a = QuantumCircuit(n, n, name="terminal"); a.h(0); a.cx(0, 1); a.ry(0.3, 2); a.ccx(0, 1, 2); a.measure(range(n), range(n))
    b = QuantumCircuit(n, n, name="middle"); b.h(0); b.measure(0, 0); b.x(1).c_if(0, 1); b.reset(0); b.h(0); b.measure(1, 1); b.measure(0, 2)
    c = QuantumCircuit(n, n, name="swap"); c.rzz(0.3, 0, 1); c.swap(0, 2); c.h(1); c.append(UnitaryGate(np.eye(4)[[1, 0, 3, 2]]), [1, 2]); c.measure(range(n), range(n))
    e = QuantumCircuit(n, n, name="refused"); e.ecr(0, 1); e.measure(0, 0)
    f = QuantumCircuit(n, n, name="late refusal"); f.h(0); f.cx(0, 1); f.delay(3, 0); f.measure(0, 0)
    return [a, b, c, e, f]


def jobs():
    """Histories of jobs: backends, shots, exact, operators merged."""
    ks = {}
    for c in circuits():
        for lab, o in (("1 shot", dict(shots=1)), ("5 shots", dict(shots=5, memory=True)), ("exact", dict(shots=None))):
            for sv in (False, True):
                if sv and lab != "1 shot":
                    continue

                def f(c=c, o=o, sv=sv):
                    try:
                        with quiet():
                            r = (sv_backend() if sv else backend()).run(c, **o).result()
                        if r.success:
                            r.get_counts() if o["shots"] else r.data()
                    except Exception:
                        pass
                ks["%s %s%s" % (c.name, lab, " statevector" if sv else "")] = f
    un = QuantumCircuit(3); un.h(0); un.cx(0, 1); un.ccx(0, 1, 2)
    ks["merge"] = lambda: backend().merge_circuit(un, 2)

    def transpiled():
        from qiskit import transpile
        with quiet():
            backend().run(transpile(circuits()[2], backend()), shots=2).result()
    for ln in range(1, opt("len", 2, 3) + 1):
        for seq in itertools.product(ks, repeat=ln):
            if not mine():
                continue
            at("jobs repeated: %s" % ", ".join(seq))

            def once():
                arm([], 0.3)
                for x in seq:
                    ks[x]()
                disarm()
                Cov.transitions += ln
            g = growth(once)
            need(g == 0, lambda: show_growth(g))
            Cov.states += 1
    sample("every history of %s" % sorted(ks))


def primitives():
    """Histories of estimator and sampler runs."""
    from qdd.qdd_estimator import Estimator
    from qdd.qdd_sampler import Sampler
    from qiskit.quantum_info import SparsePauliOp
    c = QuantumCircuit(2); c.h(0); c.cx(0, 1); c.ry(0.3, 1)
    m = c.copy(); m.measure_all()
    ob = [SparsePauliOp.from_list([("XX", 1.0), ("ZI", 0.5)]), SparsePauliOp.from_list([("YI", 1.0)])]
    ks = {"estimator exact": lambda: Estimator(approximation=True).run(c, ob[0], shots=None).result(), "estimator 10": lambda: Estimator().run([c, c], ob, shots=10).result(),
          "sampler exact": lambda: Sampler().run(m, shots=None).result(), "sampler 10": lambda: Sampler().run([m, m], shots=10).result()}
    for ln in (1, 2) if QUICK else (1, 2, 3):
        for seq in itertools.product(ks, repeat=ln):
            if not mine():
                continue
            at("runs repeated: %s" % ", ".join(seq))

            def once():
                arm([], 0.3)
                with quiet():
                    for x in seq:
                        ks[x]()
                disarm()
                pygc.collect()
                Cov.transitions += ln
            g = growth(once)
            need(g == 0, lambda: show_growth(g))
            Cov.states += 1
    sample("every history of %s" % sorted(ks))


def long():
    """Ever longer jobs: with a low threshold of collection, the memory they leave behind is bounded."""
    from qdd import pyQDD as Q
    from qiskit.circuit.library import UnitaryGate
    rng = np.random.RandomState(3)
    angles = list(rng.rand(400) * 6)
    blocks = {"ry": lambda c, t: c.ry(t, 0), "rx": lambda c, t: c.rx(t, 2), "cx": lambda c, t: c.cx(0, 2), "cx'": lambda c, t: c.cx(2, 1), "rzz": lambda c, t: c.rzz(t, 0, 1),
              "crx": lambda c, t: c.append(UnitaryGate(np.array([[1, 0, 0, 0], [0, math.cos(t), 0, 1j * math.sin(t)], [0, 0, 1, 0], [0, 1j * math.sin(t), 0, math.cos(t)]])), [1, 2]),
              "measure": lambda c, t: c.measure(0, 0), "reset": lambda c, t: c.reset(1), "h": lambda c, t: c.h(1)}
    for seq in itertools.product(blocks, repeat=2 if QUICK else 3):
        if not mine():
            continue
        if not any(x in ("ry", "rx", "rzz", "crx") for x in seq):
            continue
        for how in ("1 shot", "3 shots", "merge"):
            if how == "merge" and ("measure" in seq or "reset" in seq):
                continue
            at("%s of ever more repetitions of %s" % (how, ", ".join(seq)))
            Q.set_gc_thr(200, 200)
            m = []
            for k in range(opt("doublings", 6, 8)):
                c = QuantumCircuit(3, 3)
                for r in range(8 << k):
                    for x in seq:
                        blocks[x](c, angles[r % 8])
                arm([], 0.3)
                if how == "merge":
                    backend().merge_circuit(c, 4)
                else:
                    c.measure(range(3), range(3))
                    with quiet():
                        r = backend().run(c, shots=int(how[0])).result()
                    need(r.success, "refused")
                    del r
                disarm()
                Cov.transitions += len(c.data)
                del c
                pygc.collect()
                m.append(used())
            # the last three jobs are each longer than all before them together; what is left behind for each
            # repetition is at least one allocation (the least takes 32 bytes; what the process allocates anyway is less in sum)
            need(any(m[k] - m[k - 1] < 24 * (8 << k - 1) for k in (len(m) - 3, len(m) - 2, len(m) - 1)), lambda: "the memory in use grows with the length of the job: %s" % m)
            Cov.states += 1
        Q.set_gc_thr(1 << 17, 1 << 17)
    sample("every sequence of %s, ever more often" % sorted(blocks))


main({"long": long, "calls": calls, "jobs": jobs, "primitives": primitives}[A.part])
