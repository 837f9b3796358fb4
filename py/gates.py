"""Every supported gate on every placement, against its qiskit matrix (statevector backend)."""
from common import *
import qiskit.circuit.library as L
from qiskit import QuantumCircuit, QuantumRegister, AncillaRegister, ClassicalRegister, transpile
from qiskit.circuit import Qubit, Clbit
from qiskit.circuit.library import UnitaryGate
from qiskit.quantum_info import Operator

PI = math.pi
GRID1 = [0.0, 0.3, PI / 2, PI, -2.1, 2 * PI, 5.5, 1e-3, -9.8, 17.0, 100.3]
GRIDN = [0.0, 0.7, -PI / 2, 19.1]


def rand_unitary(k, seed):
    r = np.random.default_rng(seed)
    q, rr = np.linalg.qr(r.normal(size=(2 ** k, 2 ** k)) + 1j * r.normal(size=(2 ** k, 2 ** k)))
    return q * (np.diag(rr) / np.abs(np.diag(rr)))


def library(grid1, gridn):
    out = []
    for g in (L.HGate, L.IGate, L.SdgGate, L.SGate, L.SXdgGate, L.SXGate, L.TdgGate, L.TGate, L.XGate, L.YGate, L.ZGate, L.SwapGate, L.iSwapGate):
        out.append(g())
    for g, k in ((L.CXGate, 1), (L.CYGate, 1), (L.CZGate, 1), (L.CSXGate, 1), (L.CCXGate, 2), (L.C3XGate, 3), (L.C4XGate, 4), (L.CSwapGate, 1)):
        for cs in range(2 ** k):
            out.append(g(ctrl_state=cs))
    for k in (1, 2, 3, 4, 5):
        for cs in sorted({2 ** k - 1, 0, 1, 2 ** k - 2}):
            out.append(L.MCXGate(k, ctrl_state=cs))
    for g in (L.RXGate, L.RYGate, L.RZGate, L.PhaseGate, L.RXXGate, L.RYYGate, L.RZZGate, L.RZXGate):
        for t in grid1:
            out.append(g(t))
    for g in (L.CPhaseGate, L.CU1Gate, L.CRXGate, L.CRYGate, L.CRZGate):
        for t in grid1:
            for cs in (0, 1):
                out.append(g(t, ctrl_state=cs))
    for k in (1, 2, 3):
        for t in grid1[1:4]:
            out.append(L.MCPhaseGate(t, k))
            if k > 1:
                out.append(L.MCPhaseGate(t, k, ctrl_state=1))
    for a, b in itertools.product(gridn, repeat=2):
        out.append(L.RGate(a, b))
    for p in itertools.product(gridn, repeat=3):
        out.append(L.UGate(*p))
    for p in itertools.product(gridn[1:], repeat=3):
        for cs in (0, 1):
            out.append(L.CU3Gate(*p, ctrl_state=cs))
    for p in itertools.product(gridn[1:], repeat=4):
        for cs in (0, 1):
            out.append(L.CUGate(*p, ctrl_state=cs))
    for k in (1, 2, 3):
        for s in range(3):
            out.append(UnitaryGate(rand_unitary(k, s + 10 * k)))
    m = np.zeros((8, 8))
    for i in range(8):
        m[(3 * i + 5) % 8, i] = 1
    out.append(UnitaryGate(m))
    return out


def prep(circ, seed=1):
    """A state with all amplitudes different, from gates checked on their own."""
    n = circ.num_qubits
    for q in range(n):
        circ.ry(0.4 + 0.37 * q * seed, q)
        circ.rz(0.9 - 0.51 * q, q)
    for q in range(n - 1):
        circ.cx(q, q + 1)
        circ.ry(0.8 + 0.23 * q, q + 1)
    return circ


def ideal(circ):
    b = branches(circ)
    assert len(b) == 1
    return b[0].v


def check(circ, label, tol=1e-9):
    at("%s: %s" % (label, show(circ)))
    Cov.transitions += 1
    with quiet():
        res = sv_backend().run(circ, shots=1).result()
    need(res.success, lambda: "job failed: %s" % res.status)
    v = np.asarray(res.get_statevector())
    e = ideal(circ)
    need(v.shape == e.shape and np.abs(v - e).max() < tol, lambda: "statevector is off by %g" % (np.abs(v - e).max() if v.shape == e.shape else -1))
    Cov.traces_validated_against_impl += 1


def single():
    lib = library(GRID1, GRIDN)
    maxn = opt("maxn", 4, 5)
    for g in lib:
        k = g.num_qubits
        pn = len(g.params) > 1 and g.name != "unitary"
        for n in range(k, max(k, maxn if not pn else 3) + 1):
            for qs in itertools.permutations(range(n), k):
                if not mine():
                    continue
                c = prep(QuantumCircuit(n))
                c.append(g, list(qs))
                check(c, "single gate %s%s ctrl_state=%s" % (g.name, [x for x in g.params if not hasattr(x, "shape")], getattr(g, "ctrl_state", None)))
                Cov.states += 1
    sample("%d gate instances, every ordered placement on registers up to %d qubits" % (len(lib), maxn))


def sequences():
    """Every sequence of two gates (thorough: three on fewer gates)."""
    lib = library([0.7], [0.6, -1.1])
    seen, small = set(), []
    for g in lib:
        k = (g.name, getattr(g, "ctrl_state", None))
        if k not in seen and g.num_qubits <= 3:
            seen.add(k)
            small.append(g)
    n = 3
    pl = [(g, qs) for g in small for qs in itertools.permutations(range(n), g.num_qubits)]
    if QUICK:
        pl = pl[::2]
    for a in pl:
        for b in pl:
            if not mine():
                continue
            c = QuantumCircuit(n)
            c.h(0)
            c.ry(0.9, 1)
            c.ry(1.9, 2)
            c.append(a[0], list(a[1]))
            c.append(b[0], list(b[1]))
            check(c, "sequence of two gates")
            Cov.states += 1
    if not QUICK:
        core = [p for p in pl if p[0].name in ("h", "t", "cx", "ccx", "swap", "iswap", "ry", "cu", "unitary", "cswap", "rzx", "cp")][::2]
        for a, b, d in itertools.product(core, repeat=3):
            if mine():
                c = QuantumCircuit(n)
                for g in (a, b, d):
                    c.append(g[0], list(g[1]))
                check(c, "sequence of three gates")
                Cov.states += 1


def structure():
    """Registers, loose bits, ancillas, barriers, identities, global phases, transpiled circuits."""
    phases = [0.0, 0.4, -1.3, PI, 7.0]
    for ph in phases:
        for form in range(6):
            if not mine():
                continue
            if form == 0:
                c = QuantumCircuit(3, global_phase=ph)
            elif form == 1:
                c = QuantumCircuit(QuantumRegister(1, "b"), QuantumRegister(2, "a"), global_phase=ph)
            elif form == 2:
                c = QuantumCircuit([Qubit(), Qubit(), Qubit()], global_phase=ph)
            elif form == 3:
                c = QuantumCircuit(QuantumRegister(2, "a"), AncillaRegister(1, "z"), global_phase=ph)
            elif form == 4:
                q = [Qubit(), Qubit(), Qubit()]
                c = QuantumCircuit(q, QuantumRegister(bits=[q[2], q[0]], name="r"), global_phase=ph)
            else:
                c = QuantumCircuit(QuantumRegister(2, "a"), [Qubit()], global_phase=ph)
            prep(c)
            c.barrier()
            c.cx(2, 0)
            c.barrier(1)
            c.id(1)
            c.cp(0.3, 0, 2)
            c.append(L.CXGate(ctrl_state=0), [1, 2])
            check(c, "structure %d" % form)
    # circuits the user transpiles for the backend first
    n = 3
    gates = [L.ECRGate(), L.DCXGate(), L.CSGate(), L.CHGate(), L.RCCXGate(), L.CCZGate(), L.U1Gate(0.3), L.U2Gate(0.2, 0.4), L.U3Gate(0.1, 0.2, 0.3), L.XXPlusYYGate(0.4, 0.2),
             L.XXMinusYYGate(0.4, 0.1), L.CXGate(ctrl_state=0), L.CCXGate(ctrl_state=1), L.C3XGate(ctrl_state=5), L.MCXGate(3, ctrl_state=2), L.CU3Gate(0.3, 0.2, 0.1, ctrl_state=0), L.PhaseGate(0.3), L.QFT(3).to_gate(),
             L.MCXGate(5), L.C3SXGate(), L.PauliGate("XYZ"), L.HGate().control(2), L.CRYGate(0.4, ctrl_state=0)]
    for g in gates:
        for lvl in (0, 1, 2, 3):
            for perm in ((0, 1, 2), (2, 0, 1)):
                if not mine():
                    continue
                m = max(n, g.num_qubits)
                c = prep(QuantumCircuit(m, global_phase=0.3))
                qs = list(perm)[:g.num_qubits] if g.num_qubits <= 3 else list(range(m))[::-1]
                c.append(g, qs)
                at("transpile level %d of %s on %s" % (lvl, g.name, qs))
                try:
                    t = transpile(c, sv_backend(), optimization_level=lvl, seed_transpiler=1)
                except TypeError:
                    need(lvl >= 2, "transpilation failed")      # qiskit's own synthesis pass cannot handle some basis gates
                    continue
                at("%s on %s transpiled at level %d: %s" % (g.name, qs, lvl, show(t)))
                with quiet():
                    res = sv_backend().run(t, shots=1).result()
                need(res.success, lambda: "job failed: %s" % res.status)
                v = np.asarray(res.get_statevector())
                need(np.abs(v - ideal(t)).max() < 1e-9, "statevector differs from the transpiled circuit's")
                e = prep(QuantumCircuit(m))
                ev = apply(ideal(e), Operator(g).data, qs) * np.exp(0.3j)
                lay = t.layout.final_index_layout() if t.layout else list(range(m))
                if lay != list(range(m)):
                    w = np.zeros_like(v)
                    for i in range(len(v)):
                        j = sum(((i >> lay[b]) & 1) << b for b in range(m))
                        w[j] = v[i]
                    v = w
                # (qiskit's transpiler itself loses a global phase at levels 2 and 3)
                need(same_up_to_phase(v, ev), lambda: "transpiled circuit: statevector is off")
                Cov.states += 1
                Cov.transitions += 1
                Cov.traces_validated_against_impl += 1


def wide():
    """Permutation gates on wide registers: the counted string is the permuted basis state."""
    for n in (7, 33, 64, 99, 100):
        pos = sorted({0, 1, n // 2, n - 2, n - 1})
        for gname, k in (("x", 1), ("cx", 2), ("ccx", 3), ("swap", 2), ("cswap", 3), ("mcx", 5)):
            for qs in itertools.permutations(pos, k):
                if gname == "mcx" and qs[0] > qs[1]:
                    continue
                for inp in (0, 2 ** k - 1, 1, 2 ** (k - 1) - 1):
                    if not mine():
                        continue
                    c = QuantumCircuit(n, n)
                    bits = [0] * n
                    for i, q in enumerate(qs):
                        if (inp >> i) & 1:
                            c.x(q)
                            bits[q] = 1
                    if gname == "mcx":
                        c.mcx(list(qs[:-1]), qs[-1])
                        if all(bits[q] for q in qs[:-1]):
                            bits[qs[-1]] ^= 1
                    else:
                        getattr(c, gname)(*qs)
                        if gname.endswith("x"):
                            if all(bits[q] for q in qs[:-1]):
                                bits[qs[-1]] ^= 1
                        else:
                            a, b = qs[-2:]
                            if k == 2 or bits[qs[0]]:
                                bits[a], bits[b] = bits[b], bits[a]
                    c.measure(range(n), range(n))
                    at("width %d: %s on %s, input %d" % (n, gname, qs, inp))
                    with quiet():
                        r = backend().run(c, shots=2).result()
                    need(r.success, lambda: "job failed: %s" % r.status)
                    need(r.get_counts() == {bitstring(bits): 2}, lambda: "counts %s, expected %s" % (r.get_counts(), bitstring(bits)))
                    Cov.states += 1
                    Cov.transitions += 1


def run():
    {"single": single, "sequences": sequences, "structure": structure, "wide": wide}[A.part]()


if __name__ == "__main__":
    main(run)
