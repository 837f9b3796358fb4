"""Circuits merged into one operator, and merged operators used as gates."""
from gates import *        # gate library, prep, ideal, common
import subprocess
from qiskit import QuantumRegister, ClassicalRegister
from qiskit.circuit.library import HGate
import qiskit.circuit.library as L


def merged(c, freq):
    from qdd import pyQDD
    Cov.transitions += 1
    with quiet():
        return backend().merge_circuit(c, freq)


def matrix(m, n):
    return np.asarray(m.getEigenMatrix(n))


def unitary(c):
    n = c.num_qubits
    qi = {q: i for i, q in enumerate(c.qubits)}
    m = np.eye(1 << n, dtype=complex) * np.exp(1j * float(c.global_phase))
    for ins in c.data:
        if ins.operation.name in ("barrier", "measure"):
            continue
        u = gate_unitary(ins.operation)
        m = np.stack([apply(m[:, k], u, [qi[q] for q in ins.qubits]) for k in range(1 << n)], axis=1)
    return m


def gate_unitary(op):
    return op._ideal if op.name == "qdd" else gate_matrix(op)


def check_merge(c, label, freq, want=None):
    at("%s (gc_freq %d): %s" % (label, freq, show(c)))
    m = matrix(merged(c, freq), c.num_qubits)
    w = unitary(c) if want is None else want
    need(m.shape == w.shape and np.abs(m - w).max() < 1e-6, lambda: "merged operator is off by %g" % (np.abs(m - w).max() if m.shape == w.shape else -1))
    Cov.traces_validated_against_impl += 1


def qgate(c, freq=20):
    """The merged circuit as a gate, together with what it must do."""
    from qdd.qdd_gate import QDDGate
    g = QDDGate(c.num_qubits, merged(c, freq))
    g._ideal = unitary(c)
    return g


def ops():
    """Every library gate at every placement, alone."""
    for g in library(GRID1, [0.7, -1.2]):
        k = g.num_qubits
        for n in range(k, max(k, opt("maxn", 3, 4)) + 1):
            for qs in itertools.permutations(range(n), k):
                if not mine():
                    continue
                c = QuantumCircuit(n, global_phase=0.6)
                c.append(g, list(qs))
                check_merge(c, "gate %s ctrl_state=%s" % (g.name, getattr(g, "ctrl_state", None)), 20)
                Cov.states += 1
    sample("each gate alone, every placement up to %d qubits" % opt("maxn", 3, 4))


def alphabet(n):
    core = [HGate(), L.TGate(), L.RYGate(0.7), L.CXGate(), L.CPhaseGate(1.1, ctrl_state=0), L.SwapGate(), L.RZXGate(0.4), L.iSwapGate(), UnitaryGate(rand_unitary(2, 5))]
    if n > 2:
        core += [L.CCXGate(ctrl_state=1), L.CSwapGate(), UnitaryGate(rand_unitary(3, 7))]
    out = [(g, qs) for g in core for qs in itertools.permutations(range(n), g.num_qubits)]
    return out


def programs():
    """Every program of up to three placed gates, collected at every possible point."""
    from qdd import pyQDD
    for n, depth in ((2, 3), (3, 2 if QUICK else 3)):
        al = alphabet(n)
        if n == 3 and depth == 3:
            al = al[::2]
        us = [unitary_of(g, qs, n) for g, qs in al]
        for d in range(0, depth + 1):
            for w in itertools.product(range(len(al)), repeat=d):
                if not mine():
                    continue
                ph = (0.0, 1.3, -2.9)[sum(w) % 3]
                c = QuantumCircuit(n, global_phase=ph)
                want = np.eye(1 << n) * np.exp(1j * ph)
                for i in w:
                    c.append(al[i][0], list(al[i][1]))
                    want = us[i] @ want
                    if sum(w) % 2:
                        c.barrier()
                for freq, thr in ((20, 1 << 16), (1, 0), (2, 0)):
                    pyQDD.set_gc_thr(1 << 16, thr)
                    check_merge(c, "program of %d gates, collection threshold %d" % (d, thr), freq, want)
                Cov.states += 1
        sample("programs of up to %d of %d placed gates on %d qubits" % (depth, len(al), n))
    pyQDD.set_gc_thr(1 << 16, 1 << 16)


def unitary_of(g, qs, n):
    c = QuantumCircuit(n)
    c.append(g, list(qs))
    return unitary(c)


def inners():
    out = []
    a = QuantumCircuit(1, global_phase=0.5); a.h(0); a.t(0); out.append(a)
    b = QuantumCircuit(2); b.h(0); b.cx(0, 1); b.ry(0.3, 0); out.append(b)
    b = QuantumCircuit(2, global_phase=-1.1); b.t(1); b.u(0.3, 0.4, 0.5, 1); out.append(b)                 # does nothing to qubit 0
    b = QuantumCircuit(2); b.t(0); b.u(0.3, 0.4, 0.5, 0); out.append(b)                 # ... to qubit 1
    d = QuantumCircuit(3); d.ccx(0, 2, 1); d.cp(0.7, 2, 0); d.rzx(0.4, 1, 0); out.append(d)
    d = QuantumCircuit(3); d.append(UnitaryGate(rand_unitary(3, 3)), [2, 0, 1]); out.append(d)
    d = QuantumCircuit(3); d.swap(0, 2); out.append(d)
    out.append(QuantumCircuit(2))
    out.append(QuantumCircuit(2, global_phase=0.8))
    return out


def place(c, g, qs):
    c.append(g, list(qs))


def ideal_sv(c):
    return unitary(c)[:, 0]


def check_sv(c, label):
    at("%s: %s" % (label, show(c)))
    Cov.transitions += 1
    with quiet():
        r = sv_backend().run(c, shots=1).result()
    need(r.success, lambda: "job failed: %s" % r.status)
    v = np.asarray(r.get_statevector())
    w = ideal_sv(c)
    need(v.shape == w.shape and np.abs(v - w).max() < 1e-6, lambda: "statevector is off by %g" % np.abs(v - w).max())
    Cov.traces_validated_against_impl += 1


def both(c, label):
    check_merge(c, label, 20)
    check_sv(c, label)
    Cov.states += 1


def gates():
    """Merged operators as gates: alone, twice, between gates, nested, on every ordered choice of qubits of a wider register."""
    gs = [qgate(c) for c in inners()]
    for j, g in enumerate(gs):
        k = g.num_qubits
        for n in range(k, opt("maxn", 4, 5) + 1):
            for qs in itertools.permutations(range(n), k):
                if not mine():
                    continue
                c = QuantumCircuit(n, global_phase=0.3); place(c, g, qs)
                both(c, "merged gate %d alone" % j)
                c = prep(QuantumCircuit(n)); place(c, g, qs); c.h(n - 1); place(c, g, qs[::-1]); c.cx(0, n - 1) if n > 1 else None
                both(c, "merged gate %d twice, between gates" % j)
    for (i, g), (j, h) in itertools.product(enumerate(gs), repeat=2):
        n = 3
        for qs in itertools.permutations(range(n), g.num_qubits):
            for ps in itertools.permutations(range(n), h.num_qubits):
                if not mine():
                    continue
                c = QuantumCircuit(n); c.ry(0.7, 0); place(c, g, qs); place(c, h, ps)
                check_merge(c, "merged gates %d, %d" % (i, j), 20)
                if (len(qs), len(ps)) != (3, 3) or not QUICK:
                    o = qgate(c)
                    d = prep(QuantumCircuit(n + 1)); place(d, o, (2, 3, 0))
                    both(d, "merged gates %d, %d merged again" % (i, j))
    sample("%d merged operators, every ordered choice of qubits up to %d, every pair on three" % (len(gs), opt("maxn", 4, 5)))


def held():
    """Operators stay what they are while others are merged and circuits run, and a run result matches the merged operator."""
    cs = inners() + [prep(QuantumCircuit(3)), prep(QuantumCircuit(4), 2)]
    for order in itertools.permutations(range(len(cs)), 2 if QUICK else 3):
        if not mine():
            continue
        at("held operators %s" % (order,))
        hs = []
        for i in order:
            hs.append((cs[i], merged(cs[i], 1)))
            for c, m in hs:
                w = unitary(c)
                need(np.abs(matrix(m, c.num_qubits) - w).max() < 1e-6, lambda: "a held operator changed")
            check_sv(prep(QuantumCircuit(4), 3), "run while operators are held")
        for c, m in hs:
            need(np.abs(matrix(m, c.num_qubits) - unitary(c)).max() < 1e-6, lambda: "a held operator changed")
        Cov.states += 1


def refused():
    """What cannot be merged is refused, at every position of a circuit."""
    def reset(c): c.reset(1)
    def cond(c): c.x(0).c_if(0, 1)
    def cond0(c): c.x(0).c_if(c.cregs[0], 0)
    def qft(c): c.append(L.QFT(2), [0, 1])
    def ecr(c): c.ecr(0, 1)
    def init(c): c.initialize([0, 1], 1)
    def mch(c): c.append(HGate().control(1), [0, 1])
    def sub(c):
        s = QuantumCircuit(2); s.h(0); s.cx(0, 1)
        c.append(s.to_gate(), [0, 1])
    def ife(c):
        with c.if_test((c.clbits[0], 1)):
            c.x(1)
    def loop(c):
        with c.for_loop(range(2)):
            c.x(1)
    bad = [reset, cond, cond0, qft, ecr, init, mch, sub, ife, loop]
    for f in bad:
        for before, after, meas in itertools.product(range(3), range(2), range(2)):
            if not mine():
                continue
            c = QuantumCircuit(2, 2)
            for k in range(before):
                c.h(k)
            if meas:
                c.barrier()
            f(c)
            for k in range(after):
                c.cx(0, 1)
            at("refusal of %s: %s" % (f.__name__, show(c)))
            Cov.transitions += 1
            Cov.states += 1
            try:
                with quiet():
                    m = backend().merge_circuit(c)
            except (RuntimeError, AssertionError):
                Cov.evaluations += 1
            else:
                fail("%s was merged to %s" % (f.__name__, np.round(matrix(m, 2), 3).tolist()))
            # and the backend still merges
            check_merge(prep(QuantumCircuit(2)), "merging after a refusal", 20)
    from qdd.qdd_gate import QDDGate
    from qiskit.circuit.exceptions import CircuitError
    for p in (1.0, None, "x", np.eye(2)):
        at("merged gate made of %r" % (p,))
        try:
            QDDGate(1, p)
            fail("accepted")
        except CircuitError:
            Cov.evaluations += 1
    # known: collecting matrices invalidates operators that are still held
    if A.shard == 0:
        at("operator held across a collection of matrices")
        o = subprocess.run([sys.executable, "-W", "ignore", "-c", STALE % A.site], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
        if (not o or o[-1] != "intact") and not known("stale-operator"):
            fail("an operator that is still held is destroyed when matrices are collected")


STALE = """import sys
sys.path.insert(0, %r)
import numpy as np
from qiskit import QuantumCircuit
from qdd import QddProvider, pyQDD
b = QddProvider().get_backend()
c = QuantumCircuit(3); c.h(0); c.cx(0, 1); c.ry(0.7, 2); c.rzx(0.3, 2, 0)
m = b.merge_circuit(c)
w = np.array(m.getEigenMatrix(3))
pyQDD.set_gc_thr(65536, 0)
for k in range(6):
    d = QuantumCircuit(3)
    for q in range(3):
        d.rx(0.1 + k + q, q); d.rz(0.2 * k, q); d.cry(0.3 * k + q, q, (q + 1) %% 3)
    b.merge_circuit(d, 1)
print("intact" if np.abs(np.array(m.getEigenMatrix(3)) - w).max() < 1e-6 else "destroyed")
"""


def run():
    globals()[A.part]()


if __name__ == "__main__":
    main(run)
