"""Distributed jobs: every short circuit on several ranks, against the dense reference, for every way of exchanging and swapping."""
from common import *
from world import World
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Clbit, Qubit
from qiskit.circuit.library import UnitaryGate
import qiskit.circuit.library as L

MODES = [dict(use_auto_swap=a, swap_ver=v, use_bcast=b) for a, v in ((False, "v1"), (True, "v1"), (True, "v2")) for b in (False, True)]


def haar(k, seed):
    r = np.random.RandomState(seed)
    q, _ = np.linalg.qr(r.randn(1 << k, 1 << k) + 1j * r.randn(1 << k, 1 << k))
    return q


_QG = {}


def op(name, n):
    """The gate of an item; the ones the engine is given as diagrams carry their matrix along."""
    from qdd.qdd_gate import QDDGate
    from qdd import pyQDD
    if name == "u2":
        return UnitaryGate(haar(2, 5))
    if name == "u3":
        return UnitaryGate(haar(3, 6))
    if name.startswith("qdd"):
        if (name, n) not in _QG:
            k = int(name[3])
            m = pyQDD.unitary(n, haar(k, 7 + k), list(range(k)))
            _QG[name, n] = m
        g = QDDGate(int(name[3]), _QG[name, n])
        g._ideal = haar(int(name[3]), 7 + int(name[3]))
        return g
    if name.startswith("ry"):
        return L.RYGate(0.4 + 0.3 * int(name[2:] or 0))
    if name.startswith("rz"):
        return L.RZGate(0.7)
    if name == "rzz":
        return L.RZZGate(0.9)
    if name.startswith("ccx"):
        return L.CCXGate(ctrl_state=int(name[3:]) if name[3:] else None)
    if name.startswith("cx0"):
        return L.CXGate(ctrl_state=0)
    return {"h": L.HGate, "x": L.XGate, "cx": L.CXGate, "cy": L.CYGate, "s": L.SGate, "swap": L.SwapGate, "iswap": L.iSwapGate, "cswap": L.CSwapGate}[name]()


def build(n, items, nc=0, phase=0.0, loose=False):
    """items: (name, qubits[, bits or condition])"""
    if loose:
        c = QuantumCircuit([Qubit() for _ in range(n)], [Clbit() for _ in range(nc)], global_phase=phase)
    else:
        c = QuantumCircuit(QuantumRegister(n, "q"), *([ClassicalRegister(nc, "c")] if nc else []), global_phase=phase)
    for it in items:
        name, qs = it[0], list(it[1])
        if name == "m":
            c.measure(qs[0], it[2])
        elif name == "r":
            c.reset(qs[0])
        elif name == "b":
            c.barrier(*qs)
        elif name.startswith("if"):     # x if bit b holds v
            g = op(name[2:], n).c_if(c.clbits[it[2]], it[3])
            c.append(g, qs)
        elif name.startswith("mif"):    # measured into bit it[2] if bit it[3] holds it[4]
            c.append(L.Measure().c_if(c.clbits[it[3]], it[4]), [qs[0]], [it[2]])
        elif name.startswith("rif"):
            c.reset(qs[0]).c_if(c.clbits[it[2]], it[3])
        else:
            c.append(op(name, n), qs)
    return c


def ideal(c):
    v = zero(c.num_qubits) * np.exp(1j * float(c.global_phase))
    for ins in c.data:
        if ins.operation.name in ("barrier", "measure"):
            continue
        m = ins.operation._ideal if ins.operation.name == "qdd" else gate_matrix(ins.operation)
        v = apply(v, m, [c.qubits.index(q) for q in ins.qubits])
    return v


_B = {}


def the(sv):
    if sv not in _B:
        _B[sv] = sv_backend() if sv else backend()
    return _B[sv]


def job(rank, size, a):
    """One job; what other ranks than 0 hand in is what 'other' says, since rank 0's circuit is the one that counts."""
    n, lists, kw, opts = a["n"], a["items"], a.get("kw", {}), a.get("opts", {})
    cs = [build(n, (a["other"] if rank and "other" in a else it), **kw) for it in lists]
    b = the(a.get("sv", False))
    with quiet():
        r = b.run(cs if len(cs) > 1 else cs[0], use_mpi=True, **opts).result()
    if not r.success:
        return {"success": False}
    out = []
    for x in r.results:
        d = x.data
        o = {}
        for k in ("counts", "memory", "probabilities", "statevector"):
            if hasattr(d, k):
                o[k] = getattr(d, k)
                if k == "counts" or k == "probabilities":
                    o[k] = dict(o[k])
                if k == "statevector":
                    o[k] = np.asarray(o[k])
        out.append(o)
    return {"success": True, "results": out}


def batch(rank, size, jobs):
    """Many exact jobs: only how far each is off comes back."""
    out = []
    for a, want in jobs:
        r = job(rank, size, a)
        if not r["success"]:
            out.append("refused")
            continue
        d = r["results"][0]
        sv, p = d["statevector"], d["probabilities"]
        if sv.shape != want.shape or not np.all(np.abs(sv - want) < 1e-9):
            out.append("rank %d: state %s instead of %s" % (rank, np.round(sv, 4), np.round(want, 4)))
            continue
        q = np.zeros(len(want))
        for k, x in p.items():
            q[int(k)] += x
        if not np.all(np.abs(q - np.abs(want) ** 2) < 1e-9):
            out.append("rank %d: probabilities %s instead of %s" % (rank, np.round(q, 4), np.round(np.abs(want) ** 2, 4)))
            continue
        out.append("")
    return out


FNS = {"job": job, "batch": batch}


def show_job(a, size):
    return "%d ranks, %d qubits, %s%s%s%s" % (size, a["n"], " | ".join("; ".join("%s %s" % (i[0], list(i[1:])) for i in l) for l in a["items"]), " %s" % a.get("kw") if a.get("kw") else "",
                                           " %s" % a.get("opts"), " (others: %s)" % (a["other"],) if "other" in a else "")


def pre(n):
    """A state without symmetries, made by gates that need no exchange of qubits when they come first."""
    return [("ry%d" % q, (q,)) for q in range(n)]


def alphabet(n, small):
    one = [("rz", (q,)) for q in range(n)]
    a = [("ry2", (q,)) for q in range(n)] + [("cx", p) for p in itertools.permutations(range(n), 2)]
    if small:
        return a
    a += [("b", tuple(range(n)))] + [("cx0", p) for p in itertools.permutations(range(n), 2) if p[0] > p[1]]
    a += [("u2", p) for p in itertools.permutations(range(n), 2)] + [("qdd2", p) for p in itertools.permutations(range(n), 2)]
    a += [("iswap", p) for p in itertools.combinations(range(n), 2)]
    t = list(itertools.permutations(range(n), 3))
    a += [("ccx", p) for p in t if p[0] < p[1]] + [("ccx1", p) for p in t if p[0] > p[1]] + [("u3", p) for p in t] + [("qdd3", p) for p in t[:: (1 if n < 4 else 3)]]
    a += [("cswap", p) for p in t[::2]]
    return a


def gates():
    """Every sequence of gates, in every mode: the state and the probabilities on every rank."""
    fam = [(1, 2, 2, False), (2, 2, 3, False), (2, 3, 2, False), (4, 3, 2, False), (2, 4, 1, False), (4, 4, 1, False), (8, 4, 1, False), (1, 3, 2, True),
           (2, 3, 3, True), (4, 3, 3, True), (4, 4, 2, True), (2, 4, 2, True), (8, 4, 2, True)]
    if not QUICK:
        fam = [(1, 2, 3, False), (2, 2, 4, False), (2, 3, 2, False), (4, 3, 2, False), (2, 4, 2, False), (4, 4, 2, False), (8, 4, 2, False), (1, 3, 3, True),
               (2, 3, 4, True), (4, 3, 4, True), (4, 4, 3, True), (2, 4, 3, True), (8, 4, 3, True), (4, 5, 2, True), (8, 5, 2, True)]
    for size, n, depth, small in fam:
        w = World(size, FNS)
        al = alphabet(n, small)
        pend, texts = [], []

        def flush():
            if not pend:
                return
            at("batch from: " + texts[0])
            res, _ = w.run("batch", pend)
            for r in range(size):
                need(res[r][0] == "ok", lambda: "rank %d: %s" % (r, res[r][1]))
                for x, t in zip(res[r][1], texts):
                    if x:
                        at(t)
                    need(not x, x)
            Cov.states += len(pend)
            pend.clear()
            texts.clear()

        for seq in itertools.product(al, repeat=depth):
            if not mine():
                continue
            items = pre(n) + list(seq)
            phase = 0.3 if len(_QG) % 2 else -1.1
            c = build(n, items, phase=phase)
            want = ideal(c)
            sample(show(c))
            for m in MODES:
                a = {"n": n, "items": [items], "kw": {"phase": phase}, "opts": dict(m, shots=None), "sv": True}
                pend.append((a, want))
                texts.append(show_job(a, size))
                Cov.transitions += len(items)
            if len(pend) >= 60:
                flush()
        flush()
        w.close()


def final_states(c):
    """For every value of the classical bits, the states a job may leave behind with it."""
    want = {}
    for b in branches(c):
        want.setdefault(bitstring(b.c), []).append(b.v)
    done = set()
    for ins in c.data:
        if getattr(ins.operation, "condition", None) is not None or ins.operation.name == "reset":
            return want
        if ins.operation.name == "measure":
            done |= set(ins.qubits)
        elif ins.operation.name != "barrier" and done & set(ins.qubits):
            return want
    for k in want:      # nothing follows the measurements: the state they find may be reported instead
        want[k].append(ideal(c))
    return want


def check_shots(w, size, n, nc, items, opts, shots=1, kw=None, other=None, sv=False):
    a = {"sv": sv, "n": n, "items": [items], "kw": dict(kw or {}, nc=nc), "opts": dict(opts, shots=shots, memory=True)}
    if other is not None:
        a["other"] = other
    at(show_job(a, size))
    c = build(n, items, nc, **(kw or {}))
    one = dist((bitstring(b.c), b.w) for b in branches(c))
    want = {}
    for t in itertools.product(one, repeat=shots):
        want[t] = math.prod(one[x] for x in t)
    left = final_states(c) if sv else {}
    two = (0.25, 0.75)
    root = two if size <= 2 else tuple((2 * i + 1) / (2 * size) for i in range(size))
    got, tot = {}, 0.0
    for p, res in w.all_scripts("job", a, [root] + [two] * (size - 1)):
        for r in range(size):
            need(res[r][0] == "ok" and res[r][1]["success"], lambda: "rank %d: %s" % (r, res[r][1]))
        d = [x[1]["results"][0] for x in res]
        states = [x.pop("statevector", None) for x in d]
        need(all(x == d[0] for x in d), lambda: "the ranks do not agree: %s" % [x["memory"] for x in d])
        need(d[0]["counts"] == {k: d[0]["memory"].count(k) for k in set(d[0]["memory"])} or all(int(k, 16) >= 0 for k in d[0]["counts"]), "counts")
        k = tuple(format(int(x, 0), "0%db" % nc) if x.startswith("0x") else x for x in d[0]["memory"])
        for v in states if sv else []:
            need(any(same_up_to_phase(v, u) for u in left.get(k[-1], [])), lambda: "state %s reported with bits %s" % (np.round(v, 3), k))
        got[k] = got.get(k, 0.0) + p
        tot += p
        Cov.transitions += 1
    if abs(tot - 1) > 1e-9:
        raise RuntimeError("executions counted wrongly: %s" % tot)
    need(close(got, want), lambda: "distribution %s, expected %s" % (got, want))
    Cov.states += 1


def shots():
    """Measurements, resets and conditions in the middle and at the end: the distribution over all values of all draws."""
    fam = [(2, 2, 2, 3), (2, 3, 2, 2), (4, 3, 2, 2)] if QUICK else [(2, 2, 2, 4), (2, 3, 2, 3), (4, 3, 2, 3), (4, 4, 2, 2), (1, 2, 2, 3)]
    for size, n, nc, depth in fam:
        w = World(size, FNS)
        al = [("h", (q,)) for q in range(n)] + [("cx", p) for p in itertools.permutations(range(n), 2)]
        al += [("m", (q,), q % nc) for q in range(n)] + [("r", (q,)) for q in range(n)] + [("ifx", (q,), b, b) for q in range(n) for b in range(nc)]
        al += [("ifcx", (n - 1, 0), 0, 1), ("mif", (n - 1,), 1, 0, 1)]
        ends = [[("m", (q,), q % nc) for q in range(n)], [("m", (n - 1,), 0)], [("m", (0,), 1), ("m", (n - 1,), 0)]]
        k = 0
        for d in range(depth + 1):
            for seq in itertools.product(al, repeat=d):
                if sum(i[0] == "h" for i in seq) == 0 and d == depth:
                    continue
                if not mine():
                    continue
                k += 1
                items = [("h", (n - 1,))] + list(seq) + ends[k % 3]
                sample(str(items))
                if QUICK:
                    modes = [MODES[(k * 5 + j) % 6] for j in range(2)]
                else:
                    modes = MODES
                for m in modes:
                    check_shots(w, size, n, nc, items, m, sv=k % 2 == 0)
        w.close()


def misc():
    """Several circuits in a job, several shots, histories with refused jobs, circuits of which only rank 0 has the right one, loose bits."""
    for size, n in ((1, 2), (2, 2), (2, 3), (4, 3), (8, 4)):
        w = World(size, FNS)
        bell = [("h", (0,))] + [("cx", (q, q + 1)) for q in range(n - 1)]
        mall = [("m", (q,), q) for q in range(n)]
        lists = [bell + mall, [("x", (n - 1,))] + mall, [("x", (0,)), ("cx", (0, n - 1))] + mall, [("h", (n - 1,)), ("m", (n - 1,), 0), ("ifx", (0,), 0, 1), ("m", (0,), 1)],
                 [("h", (n - 1,)), ("x", (0,)), ("m", (n - 1,), 0), ("mif", (0,), 1, 0, 1)]]
        for m in MODES:
            for it in lists:
                for kw in ({}, {"loose": True}):
                    for other in (None, [("m", (0,), 0)], [("r", (0,)), ("m", (0,), 0)]):
                        if not mine():
                            continue
                        check_shots(w, size, n, n, it, m, 1, kw, other, sv=other is None and not kw)
                        if size < 4 and n < 3:
                            check_shots(w, size, n, n, it, m, 2, kw, other)
            # histories of jobs: refused ones change nothing for the ones after them
            kinds = {"ok": {"n": n, "items": [[("x", (n - 1,))] + mall], "kw": {"nc": n}, "opts": dict(m, shots=3)},
                     "two": {"n": n, "items": [[("x", (0,))] + mall, [("x", (n - 1,)), ("cx", (n - 1, 0))] + mall], "kw": {"nc": n}, "opts": dict(m, shots=2)},
                     "exact": {"n": n, "items": [[("x", (n - 1,)), ("cx", (n - 1, 0))]], "opts": dict(m, shots=None), "sv": True},
                     "cond": {"n": n, "items": [[("x", (0,)), ("m", (0,), 0), ("ifx", (n - 1,), 0, 1)] + mall], "kw": {"nc": n}, "opts": dict(m, shots=2)},
                     "cond exact": {"n": n, "items": [[("x", (0,)), ("m", (0,), 0), ("ifx", (n - 1,), 0, 1)] + mall], "kw": {"nc": n}, "opts": dict(m, shots=None)}}
            few = {"n": max(1, int(math.log2(size))), "items": [[("x", (0,)), ("m", (0,), 0)]], "kw": {"nc": 1}, "opts": dict(m, shots=2)}
            if size > 1:
                kinds["too few qubits"] = few
            one = "1" + "0" * (n - 1)
            want = {"ok": [{one: 3}], "two": [{"0" * (n - 1) + "1": 2}, {"1" + "0" * (n - 2) + "1": 2}], "cond": [{"1" + "0" * (n - 2) + "1": 2}]}
            for h in itertools.product(kinds, repeat=2 if QUICK else 3):
                if not mine():
                    continue
                for i, k in enumerate(h):
                    at("history %s: %s" % (list(h[:i + 1]), show_job(kinds[k], size)))
                    res, _ = w.run("job", kinds[k])
                    if k in ("too few qubits", "cond exact"):
                        need(all(r[0] == "exception" or not r[1]["success"] for r in res), lambda: "%s is accepted: %s" % (k, res))
                        continue
                    need(all(r[0] == "ok" and r[1]["success"] for r in res), lambda: "refused: %s" % (res,))
                    for r in res:
                        if k == "exact":
                            sv = r[1]["results"][0]["statevector"]
                            need(len(sv) == 1 << n and abs(sv[(1 << (n - 1)) + 1] - 1) < 1e-9, lambda: "state %s" % sv)
                        else:
                            got = [x["counts"] for x in r[1]["results"]]
                            got = [{(format(int(a, 0), "0%db" % n) if a.startswith("0x") else a): b for a, b in x.items()} for x in got]
                            need(got == want[k], lambda: "counts %s, expected %s" % (got, want[k]))
                    Cov.transitions += 1
                Cov.states += 1
        w.close()


main({"gates": gates, "shots": shots, "misc": misc}[A.part])
