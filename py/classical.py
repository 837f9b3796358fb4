"""Counts, memory and classical control: every measurement map and every short program with measurements, resets and
conditions, over all values of all random draws."""
from common import *
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Qubit, Clbit


def layouts(m):
    """Ways to hold m classical bits: one register, split registers (names not in alphabetical order), loose bits."""
    out = [lambda: [ClassicalRegister(m, "c")], lambda: [[Clbit() for _ in range(m)]]]
    if m > 1:
        out.append(lambda: [ClassicalRegister(1, "z"), ClassicalRegister(m - 1, "a")])
    if m > 2:
        out.append(lambda: [ClassicalRegister(m - 1, "z"), ClassicalRegister(1, "a")])
        out.append(lambda: [ClassicalRegister(1, "r%d" % (9 - i)) for i in range(m)])
    return out


def text(circ, c):
    return grouped(circ, c) if circ.cregs else bitstring(c)


def run_job(circ, sv=False, **kw):
    with quiet():
        res = (sv_backend() if sv else backend()).run(circ, **kw).result()
    Cov.transitions += 1
    need(res.success, lambda: "job failed: %s" % res.status)
    return res


def check_result(circ, res, shots, memory):
    counts = res.get_counts()
    need(sum(counts.values()) == shots, lambda: "%s do not add up to %d shots" % (counts, shots))
    need(res.results[0].shots == shots, "reported shots")
    mem = None
    if memory:
        mem = res.get_memory()
        need(len(mem) == shots, lambda: "memory has %d entries for %d shots" % (len(mem), shots))
        d = {}
        for x in mem:
            d[x] = d.get(x, 0) + 1
        need(d == dict(counts), lambda: "memory %s and counts %s disagree" % (mem, counts))
    return counts, mem


def exact(circ, shots=1, sv=False, limit=1 << 12):
    """The exact distribution of the memory of a job, over all values of all draws (each draw halves: stabilizer states)."""
    got = {}
    for script, res in all_scripts(lambda: run_job(circ, sv, shots=shots, memory=True), limit=limit):
        _, mem = check_result(circ, res, shots, True)
        key = tuple(mem)
        got[key] = got.get(key, 0.0) + 0.5 ** len(script)
        Cov.outcomes.add(key)
        Cov.evaluations += 1
        if sv:
            got.setdefault("states", {}).setdefault(mem[-1], []).append(np.asarray(res.get_statevector()))
    return got


def check_exact(circ, shots=1):
    at("shots=%d: %s" % (shots, show(circ)))
    one = dist((text(circ, b.c), b.w) for b in branches(circ))
    want = {}
    for t in itertools.product(one, repeat=shots):
        want[t] = math.prod(one[x] for x in t)
    got = exact(circ, shots)
    need(close(got, want), lambda: "distribution %s, expected %s" % (got, want))
    Cov.states += 1
    Cov.traces_validated_against_impl += 1


def terminal(circ):
    """Measurements come last on their qubits, nothing is conditional or reset."""
    done = set()
    for ins in circ.data:
        if getattr(ins.operation, "condition", None) is not None or ins.operation.name == "reset":
            return False
        if ins.operation.name == "measure":
            done |= set(ins.qubits)
        elif ins.operation.name != "barrier" and done & set(ins.qubits):
            return False
    return True


def check_states(circ):
    """Statevector backend: the state left behind belongs to the classical bits reported with it."""
    at("statevector: %s" % show(circ))
    want = {}
    for b in branches(circ):
        want.setdefault(text(circ, b.c), []).append(b.v)
    if terminal(circ):
        # nothing follows the measurements: the state they find may be reported instead of the collapsed one
        v = zero(circ.num_qubits)
        for ins in circ.data:
            if ins.operation.name not in ("measure", "barrier"):
                v = apply(v, gate_matrix(ins.operation), [circ.qubits.index(q) for q in ins.qubits])
        for k in want:
            want[k].append(v)
    got = exact(circ, 1, sv=True).pop("states")
    for k, vs in got.items():
        for v in vs:
            need(k in want and any(same_up_to_phase(v, w) for w in want[k]), lambda: "state %s reported with bits %s" % (np.round(v, 3), k))
    need(set(got) == set(want), lambda: "reported bits %s, expected %s" % (sorted(got), sorted(want)))


def preps(n):
    out = []
    for b in range(1 << n):
        out.append([("x", (q,)) for q in range(n) if (b >> q) & 1])
    if n > 1:
        out.append([("h", (0,))] + [("cx", (q, q + 1)) for q in range(n - 1)])
        out.append([("h", (n - 1,)), ("x", (0,)), ("cx", (n - 1, 0))])
    for q in range(n):
        out.append([("h", (q,))])
    return out


def mapping():
    """Every list of measurements (qubit -> bit, bits reused and left out, qubits repeated)."""
    maxlen = opt("maxlen", 3, 4)
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            pairs = list(itertools.product(range(n), range(m)))
            for ln in range(1, maxlen + 1):
                for seq in itertools.product(pairs, repeat=ln):
                    if ln == 4 and n + m > 4:
                        continue
                    for li, lay in enumerate(layouts(m)):
                        if QUICK and ln == 3 and n == 3 and m == 3 and li not in (0, 2):
                            continue
                        if not mine():
                            continue
                        for pr in preps(n):
                            sup = any(g == "h" for g, _ in pr)
                            if sup and (ln > 2 or li > 2) and n == 3 and QUICK:
                                continue
                            c = QuantumCircuit(QuantumRegister(n, "q"), *lay())
                            for g, a in pr:
                                getattr(c, g)(*a)
                            for q, b in seq:
                                c.measure(q, b)
                            check_exact(c)
    sample("all measurement lists up to length %d on up to 3 qubits and 3 bits" % maxlen)


def shots():
    """Numbers of shots, memory on and off, several circuits per job; shots are independent of each other."""
    for n in (1, 2, 3):
        for pr in preps(n):
            for form in range(3):
                if not mine():
                    continue
                c = QuantumCircuit(n, n)
                for g, a in pr:
                    getattr(c, g)(*a)
                if form == 1:
                    c.barrier()
                c.measure(range(n), range(n))
                if form == 2:
                    c.x(0)          # the state changes after the measurement: shot-by-shot execution
                check_exact(c, 2)
                if n == 1:
                    check_exact(c, 3)
                    check_exact(c, 4)
                sup = {text(c, b.c) for b in branches(c)}
                for k in (1, 2, 7, 100, 1024):
                    for mem in (False, True):
                        at("%d shots, memory %s: %s" % (k, mem, show(c)))
                        res = run_job(c, shots=k, memory=mem)
                        counts, _ = check_result(c, res, k, mem)
                        need(set(counts) <= sup, lambda: "impossible outcome in %s" % counts)
                        if not mem:
                            need("memory" not in res.data(0), "memory returned without being asked for")
                res = run_job(c)
                check_result(c, res, 1024, False)
    # batches: every circuit keeps its own result, order and name
    pool = []
    for i, (n, bits) in enumerate(((1, [1]), (2, [0, 1]), (3, [1, 0, 1]), (2, [1, 1]), (1, [0]))):
        c = QuantumCircuit(n, n, name="circ%d" % i)
        for q, b in enumerate(bits):
            if b:
                c.x(q)
        c.measure(range(n), range(n))
        if i == 3:
            c.reset(0)
        pool.append((c, bits))
    for ln in (1, 2, 3):
        for sel in itertools.product(range(5), repeat=ln):
            if not mine():
                continue
            at("batch %s" % (sel,))
            res = run_job([pool[i][0] for i in sel], shots=3, memory=True)
            need(len(res.results) == ln, "number of results")
            for k, i in enumerate(sel):
                c, bits = pool[i]
                need(res.get_counts(k) == {bitstring(bits): 3}, lambda: "circuit %d of the batch: %s" % (k, res.get_counts(k)))
                need(res.get_memory(k) == [bitstring(bits)] * 3, "memory")
                need(res.results[k].header.name == "circ%d" % i, "name")
            Cov.states += 1


def formats():
    """Every split of up to 5 bits into registers; every basis state of 3 qubits measured into all of them, shifted."""
    def splits(m):
        if m == 0:
            yield []
            return
        for k in range(1, m + 1):
            for r in splits(m - k):
                yield [k] + r
    for m in range(1, opt("fbits", 5, 7) + 1):
        for sp in splits(m):
            for order in (0, 1):
                for bits in range(8):
                    for shift in range(m):
                        if not mine():
                            continue
                        regs = [ClassicalRegister(k, ("r%d" % i) if order == 0 else ("r%d" % (9 - i))) for i, k in enumerate(sp)]
                        c = QuantumCircuit(QuantumRegister(2, "b"), QuantumRegister(1, "a"), *regs)
                        want = [0] * m
                        for q in range(3):
                            if (bits >> q) & 1:
                                c.x(q)
                        for q in range(3):
                            c.measure(q, (q + shift) % m)
                            want[(q + shift) % m] = (bits >> q) & 1
                        at("format %s shift %d bits %d" % (sp, shift, bits))
                        res = run_job(c, shots=2, memory=True)
                        need(res.get_counts() == {grouped(c, want): 2}, lambda: "counts %s, expected %s" % (res.get_counts(), grouped(c, want)))
                        need(res.get_memory() == [grouped(c, want)] * 2, "memory")
                        Cov.states += 1


# ------------------------------------------------------------------ programs with measurements inside
def ops():
    """Name -> function that appends the operation to the circuit (2 qubits; registers a[1], b[2])."""
    def cond(f):
        def g(c):
            f(c, c.cregs[0], c.cregs[1])
        return g
    o = {
        "h0": lambda c: c.h(0), "h1": lambda c: c.h(1), "x1": lambda c: c.x(1), "cx01": lambda c: c.cx(0, 1),
        "m0a0": lambda c: c.measure(0, 0), "m1b0": lambda c: c.measure(1, 1), "m0b1": lambda c: c.measure(0, 2), "m1a0": lambda c: c.measure(1, 0),
        "r0": lambda c: c.reset(0), "r1": lambda c: c.reset(1),
        "x0?a0": cond(lambda c, a, b: c.x(0).c_if(a[0], 1)),
        "x1?!a0": cond(lambda c, a, b: c.x(1).c_if(a[0], 0)),
        "x1?b=2": cond(lambda c, a, b: c.x(1).c_if(b, 2)),
        "h0?b=1": cond(lambda c, a, b: c.h(0).c_if(b, 1)),
        "x0?b=0": cond(lambda c, a, b: c.x(0).c_if(b, 0)),
        "x0?a=1": cond(lambda c, a, b: c.x(0).c_if(a, 1)),
        "m1b0?a=1": cond(lambda c, a, b: c.measure(1, 1).c_if(a, 1)),
        "m0a0?b1": cond(lambda c, a, b: c.measure(0, 0).c_if(b[1], 1)),
        "r0?b0": cond(lambda c, a, b: c.reset(0).c_if(b[0], 1)),
        "cx10?b=3": cond(lambda c, a, b: c.cx(1, 0).c_if(b, 3)),
    }
    return o


def program(names, o):
    c = QuantumCircuit(QuantumRegister(2, "q"), ClassicalRegister(1, "a"), ClassicalRegister(2, "b"))
    for nme in names:
        o[nme](c)
    return c


def programs():
    o = ops()
    names = list(o)
    depth = opt("depth", 4, 5)
    core = ["h0", "h1", "x1", "cx01", "m0a0", "m1b0", "m0b1", "r0", "x0?a0", "x1?b=2", "h0?b=1", "m1b0?a=1", "cx10?b=3"]
    for ln in range(1, depth + 1):
        alpha = names if ln < depth else core
        for seq in itertools.product(alpha, repeat=ln):
            if not any(s.startswith("m") for s in seq):
                continue
            # prune programs equal to shorter ones: leading measurements/resets of |0>, trailing unmeasured gates at full depth
            if ln == depth and not seq[-1].startswith("m") and "?" not in seq[-1]:
                continue
            if not mine():
                continue
            c = program(seq, o)
            check_exact(c)
            if ln <= 2:
                check_exact(c, 2)
            if ln <= 3:
                check_states(c)
    sample("all programs up to length %d over %d operations, e.g. %s" % (depth, len(names), "; ".join(names[4:9])))


def deep():
    """Longer programs of one shape: prepare, measure, condition, measure, condition, measure; also teleportation."""
    o = ops()
    A1, A2 = ["h0", "x1", "cx01"], ["m0a0", "m0b1", "m1b0", "m1a0"]
    A3 = ["x0?a0", "x1?b=2", "h0?b=1", "x1?!a0", "x0?b=0", "r0", "r0?b0", "cx10?b=3", "x0?a=1", "m0a0?b1", "m1b0?a=1"]
    for seq in itertools.product(A1, A1, A2, A3, A2, A3, A2):
        if QUICK and (seq[0] == seq[1] or seq[2] == seq[4]):
            continue
        if not mine():
            continue
        check_exact(program(seq, o))
    for prep in itertools.product(("h", "x", "s", "id", "z"), repeat=3):
        for form in (0, 1, 2):
            if not mine():
                continue
            c = QuantumCircuit(QuantumRegister(3, "q"), ClassicalRegister(1, "m1"), ClassicalRegister(1, "m0"), ClassicalRegister(2, "out"))
            for g in prep:
                getattr(c, g)(0)
            c.h(1); c.cx(1, 2); c.cx(0, 1); c.h(0)
            c.measure(0, 1); c.measure(1, 0)
            if form == 0:
                c.x(2).c_if(c.cregs[0], 1); c.z(2).c_if(c.cregs[1], 1)
            elif form == 1:
                c.x(2).c_if(c.clbits[0], 1); c.z(2).c_if(c.clbits[1], True)
            else:
                c.cx(1, 2); c.cz(0, 2)
            for g in reversed(prep):
                getattr(c, g + "dg" if g == "s" else g)(2)
            c.measure(2, 2 if form else 3)
            at("teleportation %s %d" % (prep, form))
            got = exact(c)
            need(all(k[0].split(" ")[0] == "00" for k in got), lambda: "teleported state is not restored: %s" % got)
            check_exact(c)


def wide_programs():
    """Wide registers of classical bits: conditions on a register at every offset and value."""
    for off in range(0, 4):
        for size in (1, 2, 3):
            for have in range(2 ** size):
                for val in range(2 ** size):
                    if not mine():
                        continue
                    regs = [ClassicalRegister(off, "pad")] if off else []
                    regs += [ClassicalRegister(size, "k"), ClassicalRegister(1, "out")]
                    c = QuantumCircuit(QuantumRegister(size + 1, "q"), *regs)
                    k = c.cregs[-2]
                    for i in range(size):
                        if (have >> i) & 1:
                            c.x(i)
                        c.measure(i, k[i])
                    c.x(size).c_if(k, val)
                    c.measure(size, c.cregs[-1][0])
                    check_exact(c)
                    need(list(exact(c))[0][0].split(" ")[0] == ("1" if have == val else "0"), "condition on a register value")


# ------------------------------------------------------------------ exact probabilities
def angles(n, k):
    c = QuantumCircuit(n)
    for q in range(n):
        c.ry(0.5 + 0.7 * q + 0.3 * k, q)
        c.rz(0.4 * k - q, q)
    for q in range(n - 1):
        c.cx(q, q + 1)
        c.ry(0.9 - 0.2 * q + 0.1 * k, q)
    return c


def exact_probs():
    maxlen = opt("maxlen", 3, 4)
    for n in (1, 2, 3):
        for m in (1, 2, 3, 4):
            pairs = list(itertools.product(range(n), range(m)))
            for ln in range(1, maxlen + 1):
                for seq in itertools.product(pairs, repeat=ln):
                    if m == 4 and ln > 2 or ln == 4 and n + m > 4:
                        continue
                    for k in range(2):
                        for form in range(3):
                            if not mine():
                                continue
                            c = QuantumCircuit(QuantumRegister(n, "q"), *layouts(m)[2 if form == 2 and m > 1 else 0]())
                            c.compose(angles(n, k), inplace=True)
                            for i, (q, b) in enumerate(seq):
                                if form == 1 and i:
                                    c.barrier()
                                c.measure(q, b)
                            check_probs(c)
    # deterministic and unentangled states, wide classical registers
    for n in range(1, opt("pn", 9, 12) + 1):
        for k in range(3):
            if mine():
                c = angles(n, k)
                c.measure_all()
                check_probs(c)
            if mine():
                c = QuantumCircuit(n, n + k)
                c.h(0)
                for q in range(n - 1):
                    c.cx(q, q + 1)
                c.measure(range(n), range(n - 1 + k, k - 1, -1))
                check_probs(c)
    sample("exact probabilities of all measurement lists up to length %d, barriers between or not" % maxlen)


def check_probs(c):
    at("exact probabilities: %s" % show(c))
    res = run_job(c, shots=None)
    p = res.data(0)["probabilities"]
    p = {(int(k, 16) if isinstance(k, str) else int(k)): float(x) for k, x in p.items()}
    want = dist((sum(b << i for i, b in enumerate(br.c)), br.w) for br in final_branches(c))
    need(close(p, want), lambda: "probabilities %s, expected %s" % ({k: round(x, 6) for k, x in p.items() if abs(x) > 1e-12}, {k: round(x, 6) for k, x in want.items()}))
    Cov.states += 1
    Cov.traces_validated_against_impl += 1


def final_branches(c):
    """branches(c) for circuits whose measurements come last: read the bits off the final state."""
    n = c.num_qubits
    v = zero(n)
    src = {}
    for ins in c.data:
        if ins.operation.name == "measure":
            src[c.clbits.index(ins.clbits[0])] = c.qubits.index(ins.qubits[0])
        elif ins.operation.name != "barrier":
            v = apply(v, gate_matrix(ins.operation), [c.qubits.index(q) for q in ins.qubits])
    for i, a in enumerate(v):
        w = abs(a) ** 2
        if w > 0:
            yield Branch(w, None, [(i >> src[b]) & 1 if b in src else 0 for b in range(c.num_clbits)])


def finding_predictions(c):
    """What the recorded finding yields: no collapse at measurements, one random outcome at resets, bits independent."""
    live = [(zero(2), [1.0] * 3)]
    for ins in c.data:
        qs = [c.qubits.index(q) for q in ins.qubits]
        nxt = []
        for v, p0 in live:
            if ins.operation.name == "measure":
                p0 = list(p0)
                p0[c.clbits.index(ins.clbits[0])] = project(v, qs[0], 0)[0]
                nxt.append((v, p0))
            elif ins.operation.name == "reset":
                for b in (0, 1):
                    p, w = project(v, qs[0], b)
                    if p > 1e-9:
                        nxt.append((apply(w, XM, qs) if b else w, p0))
            else:
                nxt.append((apply(v, gate_matrix(ins.operation), qs), p0))
        live = nxt
    return [{i: math.prod((1 - p0[j]) if (i >> j) & 1 else p0[j] for j in range(3)) for i in range(8)} for _, p0 in live]


def unstable_probs():
    """Measurements and resets inside the circuit with shots=None: correct, or exactly the recorded finding."""
    alpha = ["h0", "h1", "x1", "cx01", "m0a0", "m1b0", "m0b1", "r0"]
    o = ops()
    for ln in range(1, opt("depth", 5, 6) + 1):
        for seq in itertools.product(alpha, repeat=ln):
            if not any(s.startswith("m") for s in seq):
                continue
            if ln >= 5 and seq.count("r0") > 1:
                continue
            if not mine():
                continue
            c = program(seq, o)
            last_gate = max([i for i, s in enumerate(seq) if not s.startswith("m")], default=-1)
            first_m = min(i for i, s in enumerate(seq) if s.startswith("m"))
            at("exact probabilities: %s" % show(c))
            want = dist((sum(b << i for i, b in enumerate(br.c)), br.w) for br in branches(c))
            Cov.states += 1
            for script, res in all_scripts(lambda: run_job(c, shots=None)):
                p = {int(k): float(x) for k, x in res.data(0)["probabilities"].items()}
                if close(p, want):
                    continue
                why = lambda: "probabilities %s, expected %s" % ({k: round(x, 6) for k, x in p.items() if abs(x) > 1e-12}, want)
                need(any(close(p, f) for f in finding_predictions(c)), why)
                need((last_gate > first_m and known("exact-mid-circuit")) or ("r0" in seq and known("exact-reset")), why)


def run():
    globals()[A.part]()


main(run)
