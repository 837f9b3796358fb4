"""Sampler and Estimator: every batch up to a length over a pool of circuits, parameters and observables, and every
history of two such calls, against dense expectation values."""
from common import *
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
from qiskit.circuit import Parameter, ParameterVector
from qiskit.quantum_info import SparsePauliOp, Pauli, Operator


def call(f):
    with quiet():
        try:
            return f().result()
        except Exception as e:
            e._from_impl = True
            raise


# ------------------------------------------------------------------ Sampler
def sampler_pool():
    """(circuit, list of parameter vectors); measured in various ways."""
    a, b, t = Parameter("b"), Parameter("a"), ParameterVector("t", 2)
    out = []
    c = QuantumCircuit(2, name="fixed")
    c.ry(0.8, 0); c.cx(0, 1); c.ry(0.5, 1); c.measure_all()
    out.append((c, [[]]))
    c = QuantumCircuit(1, 1, name="one")
    c.ry(a, 0); c.measure(0, 0)
    out.append((c, [[0.4], [1.9]]))
    c = QuantumCircuit(QuantumRegister(2), ClassicalRegister(1, "y"), ClassicalRegister(1, "x"), name="two")   # parameters sorted by name: a, b
    c.ry(a, 0); c.ry(b, 1); c.cx(0, 1); c.measure(0, 1); c.measure(1, 0)
    out.append((c, [[0.3, 1.1], [1.1, 0.3], [2.5, -0.7]]))
    c = QuantumCircuit(3, 2, name="part")
    c.ry(t[0], 0); c.ry(t[1], 2); c.cx(2, 1); c.measure(1, 0)
    out.append((c, [[0.3, 1.2], [2.0, 0.6]]))
    c = QuantumCircuit(2, name="fixed2")
    c.x(1); c.h(0); c.measure_all()
    out.append((c, [[]]))
    c = QuantumCircuit(2, 3, name="expr")
    c.ry(2 * a + 0.1, 0); c.rz(a * b, 0); c.ry(b, 1); c.measure([0, 1], [2, 0])
    out.append((c, [[0.3, 1.1]]))
    return out


def ideal_dist(circ, vals):
    c = circ.assign_parameters(vals) if len(vals) else circ
    n = c.num_qubits
    v, src = zero(n), {}
    for ins in c.data:
        if ins.operation.name == "measure":
            src[c.clbits.index(ins.clbits[0])] = c.qubits.index(ins.qubits[0])
        elif ins.operation.name != "barrier":
            v = apply(v, gate_matrix(ins.operation), [c.qubits.index(q) for q in ins.qubits])
    return dist((sum(((i >> q) & 1) << b for b, q in src.items()), abs(x) ** 2) for i, x in enumerate(v))


def check_sampler(s, items, pool, exact, shots, label):
    circs = [pool[i][0] for i, j in items]
    vals = [pool[i][1][j] for i, j in items]
    at("%s batch %s shots=%s" % (label, [(pool[i][0].name, pool[i][1][j]) for i, j in items], shots))
    Cov.transitions += 1
    kw = {} if shots == "ctor" else {"shots": None if exact else shots}
    r = call(lambda: s.run(circs, vals, **kw))
    need(len(r.quasi_dists) == len(items) and len(r.metadata) == len(items), "number of results")
    for k, (i, j) in enumerate(items):
        want = ideal_dist(*[pool[i][0], pool[i][1][j]])
        q = {int(x): float(y) for x, y in r.quasi_dists[k].items()}
        if exact:
            need(close(q, want), lambda: "entry %d: %s, expected %s" % (k, {x: round(y, 6) for x, y in q.items() if y > 1e-12}, {x: round(y, 6) for x, y in want.items()}))
            need(r.metadata[k]["shots"] is None, "metadata shots")
        else:
            n = 1024 if shots == "ctor" else shots
            need(abs(sum(q.values()) - 1) < 1e-9, "probabilities do not add up")
            need(all(abs(y * n - round(y * n)) < 1e-6 for y in q.values()), "frequencies are not multiples of 1/shots")
            need(r.metadata[k]["shots"] == n, lambda: "metadata shots %s" % r.metadata[k]["shots"])
            # a deterministic test of the association: no impossible outcome, and frequencies within 7 standard deviations
            for x in set(q) | set(want):
                p = want.get(x, 0.0)
                need(abs(q.get(x, 0.0) - p) <= 7 * math.sqrt(max(p * (1 - p), 0) / n) + 10.0 / n + 1e-12, lambda: "entry %d: outcome %d has frequency %g, expected %g" % (k, x, q.get(x, 0), p))
                need(p > 1e-12 or q.get(x, 0) == 0, "impossible outcome")
    Cov.states += 1
    Cov.traces_validated_against_impl += 1


def sampler():
    from qdd.qdd_sampler import Sampler
    pool = sampler_pool()
    items = [(i, j) for i in range(len(pool)) for j in range(len(pool[i][1]))]
    L = opt("batch", 3, 3)
    for skip in (False, True):
        for exact in (True, False):
            for ln in range(1, L + 1):
                for sel in itertools.product(items, repeat=ln):
                    if not exact and ln == 3 and QUICK:
                        continue
                    if not mine():
                        continue
                    s = Sampler(skip_transpilation=skip)
                    # sampled with the package's own generator, made repeatable: fixed equidistributed draws
                    if exact:
                        check_sampler(s, sel, pool, True, None, "fresh skip=%s" % skip)
                    else:
                        spread(lambda: check_sampler(s, sel, pool, False, 256, "fresh skip=%s" % skip))
            # two calls on one sampler
            base = items if exact else items[::2]
            for x in base:
                for y in base:
                    for z in base[::2]:
                        if not mine():
                            continue
                        s = Sampler(skip_transpilation=skip)
                        f = lambda: (check_sampler(s, [x], pool, exact, 64, "call 1"), check_sampler(s, [y, z], pool, exact, 64, "call 2"), check_sampler(s, [x, z], pool, exact, 128, "call 3"))
                        f() if exact else spread(f)
    # options of the constructor and of the call
    for x in items:
        for ctor in (None, 100, "none"):
            for kw in ("none", 50, "absent"):
                if not mine():
                    continue
                ro = None if ctor is None else {"shots": None if ctor == "none" else ctor}
                s = Sampler(run_options=ro)
                at("Sampler(run_options=%s).run(shots=%s)" % (ro, kw))
                args = {} if kw == "absent" else {"shots": None if kw == "none" else kw}
                r = call(lambda: s.run([pool[x[0]][0]], [pool[x[0]][1][x[1]]], **args))
                eff = (None if kw == "none" else kw) if kw != "absent" else (None if ctor == "none" else ctor if ctor else 1024)
                need(r.metadata[0]["shots"] == eff, lambda: "ran with shots=%s instead of %s" % (r.metadata[0]["shots"], eff))
                Cov.states += 1
    sample("Sampler batches up to %d of %d items, e.g. %s" % (L, len(items), [(pool[i][0].name, pool[i][1][j]) for i, j in items[:3]]))


def alike(measured):
    """Ways to make circuits that a careless cache would take for one another: equal names, equal gates, equal parameters.
    Each is a function that makes its circuit anew, and parameter values for it."""
    a, b, t = Parameter("a"), Parameter("b"), ParameterVector("t", 2)

    def mk(ops, pars=(a, b), reads=((0, 0), (1, 1)), name="same", phase=0.0, regs=None):
        def f():
            if not measured:
                c = QuantumCircuit(2, name=name, global_phase=phase)
            elif regs:
                c = QuantumCircuit(QuantumRegister(2, "q"), *[ClassicalRegister(n, x) for x, n in regs], name=name, global_phase=phase)
            else:
                c = QuantumCircuit(2, 2, name=name, global_phase=phase)
            for g, *x in ops:
                getattr(c, g)(*[pars[y] if y in (-1, -2) else y for y in x])
            if measured:
                for q, cl in reads:
                    c.measure(q, cl)
            return c
        return f
    base = [("ry", -1, 0), ("ry", -2, 1), ("cx", 0, 1)]
    out = [(mk(base), [0.3, 1.1]), (mk([("ry", -2, 0), ("ry", -1, 1), ("cx", 0, 1)]), [0.3, 1.1]), (mk(base[:2] + [("cx", 1, 0)]), [0.3, 1.1]), (mk(base, t), [0.3, 1.1]),
           (mk(base, t), [1.1, 0.3]), (mk(base, phase=0.5), [0.3, 1.1]), (mk([("ry", 0.3, 0), ("ry", 1.1, 1), ("cx", 0, 1)]), []), (mk([("ry", 1.1, 0), ("ry", 0.3, 1), ("cx", 0, 1)]), []),
           (mk(base, name="other"), [0.3, 1.1])]
    if measured:
        out += [(mk(base, reads=((0, 1), (1, 0))), [0.3, 1.1]), (mk(base, reads=((0, 0),)), [0.3, 1.1]), (mk(base, reads=((1, 0),), regs=(("x", 1), ("y", 1))), [0.3, 1.1]),
                (mk(base, reads=((0, 0), (1, 1)), regs=(("y", 1), ("x", 1))), [0.3, 1.1])]
    return out


def sampler_alike():
    """One sampler, circuits that are hard to tell apart, in one batch and one after the other; circuits the caller changes afterwards."""
    from qdd.qdd_sampler import Sampler
    pool = alike(True)
    for skip in (False, True):
        for sel in itertools.permutations(range(len(pool)), 2 if QUICK else 3):
            if not mine():
                continue
            s = Sampler(skip_transpilation=skip)
            for batch in [sel[:1], sel[1:2], sel, sel[::-1], sel[:1]]:
                check_sampler(s, [(k, 0) for k in range(len(batch))], [(pool[i][0](), [pool[i][1]]) for i in batch], True, None, "alike skip=%s %s" % (skip, batch))
        for i, (f, vals) in enumerate(pool):
            for change in ("x", "ry", "swap"):
                if not mine():
                    continue
                s, c = Sampler(skip_transpilation=skip), f()
                check_sampler(s, [(0, 0)], [(c, [vals])], True, None, "before the change")
                data = [(x.operation, x.qubits, x.clbits) for x in c.data]
                c.data.clear()
                getattr(c, change)(*(([] if change == "x" else [0.7] if change == "ry" else [1]) + [0]))
                for o, q, cl in data:
                    c.append(o, q, cl)
                check_sampler(s, [(0, 0)], [(c, [vals])], True, None, "after a change (%s) of circuit %d" % (change, i))
                check_sampler(s, [(0, 0), (1, 0)], [(f(), [vals]), (c, [vals])], True, None, "the former circuit again")
    sample("samplers with every pair of %d circuits that are alike" % len(pool))


def estimator_alike():
    """One estimator, circuits and observables that are hard to tell apart; circuits and observables the caller changes afterwards."""
    from qdd.qdd_estimator import Estimator
    pool = alike(False)
    obs = [[("XZ", 1.0), ("ZI", 2.0)], [("XZ", 2.0), ("ZI", 1.0)], [("ZI", 2.0), ("XZ", 1.0)], [("ZX", 1.0), ("IZ", 2.0)]]
    first = len(OBS)
    OBS.extend(obs)
    every = [(i, o) for i in range(len(pool)) for o in range(len(obs))]
    for skip in (False, True):
        mk = lambda: Estimator(run_options={"shots": None}, approximation=True, skip_transpilation=skip)
        for x in every:
            for y in every:
                if (x[0] == y[0]) == (x[1] == y[1]) and (QUICK or x == y):
                    continue
                if not mine():
                    continue
                e = mk()
                for batch in [(x,), (y,), (x, y), (y, x), (x,)]:
                    p = [(pool[i][0](), [pool[i][1]]) for i, o in batch]
                    it = [(k, 0, first + o) for k, (i, o) in enumerate(batch)]
                    compare(check_estimator(e, it, p, "alike skip=%s" % skip), it, p)
        for i, (f, vals) in enumerate(pool):
            if not mine():
                continue
            e, c = mk(), f()
            it = [(0, 0, first)]
            compare(check_estimator(e, it, [(c, [vals])], "before the change"), it, [(c, [vals])])
            c.h(0)
            for o in (first, first + 3):
                it = [(0, 0, o), (1, 0, o)]
                for p in ([(f(), [vals]), (c, [vals])], [(c, [vals]), (f(), [vals])]):
                    compare(check_estimator(e, it, p, "after a change of circuit %d" % i), it, p)
            # an observable that the caller changes
            at("observable changed after use, circuit %d" % i)
            e, c, o = mk(), f(), SparsePauliOp.from_list(obs[0])
            for k in (0, 1, 0, 1):
                r = call(lambda: e.run([c], [o], [vals]))
                w, _ = expect(c, vals, obs[k])
                need(abs(complex(r.values[0]) - w) < 1e-8, lambda: "%s, expected %s" % (r.values[0], w))
                if k == 0:
                    o.coeffs = np.array([2.0, 1.0])
                else:
                    o = SparsePauliOp.from_list(obs[0])
            Cov.states += 1
    del OBS[first:]
    sample("estimators with pairs of %d circuits and %d observables that are alike" % (len(pool), len(obs)))


def spread(f):
    """Runs f with the package's draws replaced by a fixed low-discrepancy sequence (so frequencies are close to exact)."""
    phi = 0.6180339887498949
    n = 1 << 15
    arm([(0.137 + 0.754877666 * i + phi * i * i) % 1.0 for i in range(2048)], 0.5) if False else arm(_SEQ, 0.5)
    try:
        f()
    finally:
        d = draws()
        disarm()
    if d > len(_SEQ):
        raise RuntimeError("sequence too short: %d" % d)


_SEQ = list(np.random.default_rng(20240501).random(20000))


# ------------------------------------------------------------------ Estimator
def est_pool(stab=False):
    """Circuits with parameter vectors."""
    a, b = Parameter("b"), Parameter("a")
    out = []
    if stab:
        c = QuantumCircuit(2, name="bellx"); c.h(0); c.cx(0, 1); c.x(0)
        out.append((c, [[]]))
        c = QuantumCircuit(2, name="par"); c.h(0); c.p(a, 0); c.h(1)
        out.append((c, [[0.0], [math.pi / 2], [math.pi]]))
        c = QuantumCircuit(2, name="par2"); c.rx(a, 0); c.ry(b, 1)
        out.append((c, [[0.0, math.pi], [math.pi / 2, 0.0]]))
    else:
        c = QuantumCircuit(2, name="fixed"); c.ry(0.8, 0); c.cx(0, 1); c.rx(0.5, 1); c.rz(0.3, 0)
        out.append((c, [[]]))
        c = QuantumCircuit(2, name="par"); c.ry(a, 0); c.rx(1.1, 1); c.cx(1, 0)
        out.append((c, [[0.4], [1.9]]))
        c = QuantumCircuit(2, name="par2"); c.ry(a, 0); c.rx(b, 1); c.cx(0, 1); c.rz(a, 1)
        out.append((c, [[0.3, 1.2], [1.2, 0.3]]))
        c = QuantumCircuit(2, name="meta", metadata={"mine": 1}); c.rx(0.7, 0); c.ry(-0.4, 1)
        out.append((c, [[]]))
    return out


OBS = [[("II", 1.5)], [("IZ", 1)], [("ZI", 1), ("XX", 0.5), ("ZZ", 0.7), ("IX", -0.3)], [("XX", 1), ("ZI", -2)], [("II", 1), ("IZ", 2), ("XI", 3)], [("YZ", 1), ("II", 0.5), ("XI", 0.25), ("ZY", -1)],
       [("XX", 0.3), ("YY", 0.4), ("ZZ", -0.5)], [("IY", 2), ("IY", 1)]]


def expect(circ, vals, obs):
    c = circ.assign_parameters(vals) if len(vals) else circ
    v = zero(c.num_qubits)
    for ins in c.data:
        v = apply(v, gate_matrix(ins.operation), [c.qubits.index(q) for q in ins.qubits])
    return float(sum(co * np.vdot(v, Pauli(p).to_matrix() @ v).real for p, co in obs)), \
        float(sum(co ** 2 * (1 - np.vdot(v, Pauli(p).to_matrix() @ v).real ** 2) for p, co in merged(obs)))


def merged(obs):
    return obs


def op(o):
    return SparsePauliOp.from_list(OBS[o])


def check_estimator(e, items, pool, label, **kw):
    circs = [pool[i][0] for i, j, o in items]
    vals = [pool[i][1][j] for i, j, o in items]
    at("%s batch %s %s" % (label, [(pool[i][0].name, pool[i][1][j], OBS[o]) for i, j, o in items], kw))
    Cov.transitions += 1
    r = call(lambda: e.run(circs, [op(o) for i, j, o in items], vals, **kw))
    need(len(r.values) == len(items) and len(r.metadata) == len(items), "number of results")
    return r


def compare(r, items, pool):
    for k, (i, j, o) in enumerate(items):
        w, _ = expect(pool[i][0], pool[i][1][j], OBS[o])
        need(abs(complex(r.values[k]) - w) < 1e-8, lambda: "entry %d: %s, expected %s" % (k, r.values[k], w))
    Cov.states += 1
    Cov.traces_validated_against_impl += 1


def items_of(pool, obs):
    return [(i, j, o) for i in range(len(pool)) for j in range(len(pool[i][1])) for o in obs]


def estimator():
    from qdd.qdd_estimator import Estimator
    pool = est_pool()
    every = items_of(pool, range(len(OBS)))
    few = items_of(pool[:3], (1, 5, 0))
    for skip in (False, True):
        for grp in (True, False):
            mk = lambda: Estimator(run_options={"shots": None}, approximation=True, skip_transpilation=skip, abelian_grouping=grp)
            lab = "exact skip=%s grouping=%s" % (skip, grp)
            for x in every:
                if mine():
                    compare(check_estimator(mk(), [x], pool, lab), [x], pool)
            for x in itertools.product(every, repeat=2):
                if QUICK and skip != grp and hash(x) % 3:
                    continue
                if mine():
                    compare(check_estimator(mk(), x, pool, lab), x, pool)
            for x in itertools.product(few, repeat=3):
                if QUICK and skip != grp:
                    continue
                if mine():
                    compare(check_estimator(mk(), x, pool, lab), x, pool)
            for x in few:                # histories on one estimator: repeated batches hit its cache
                for y in few:
                    if not mine():
                        continue
                    e = mk()
                    # the same circuits and observables in another pairing
                    w, v = (x[0], x[1], y[2]), (y[0], y[1], x[2])
                    for b in ([x, y], [y], [x, y], [y, x], [x], [w, v], [v, w], [x, v], [w, y], [x, w, v], [x, v, w]):
                        compare(check_estimator(e, b, pool, lab + " history"), b, pool)
                    # same circuits and observables, other parameter values
                    z = [(i, (j + 1) % len(pool[i][1]), o) for i, j, o in (x, y)]
                    compare(check_estimator(e, z, pool, lab + " history"), z, pool)
    sample("Estimator batches of 1, 2 (%d items) and 3 (%d items)" % (len(every), len(few)))


def estimator_noise():
    """Normal approximation and sampling."""
    from qdd.qdd_estimator import Estimator
    pool = est_pool()
    every = items_of(pool, range(len(OBS) - 1))
    for x in every:
        for shots in (100, 4096):
            for seed in (1, 7):
                if not mine():
                    continue
                e = Estimator(run_options={"shots": shots}, approximation=True)
                r = check_estimator(e, [x], pool, "normal approximation", seed=seed)
                w, var = expect(pool[x[0]][0], pool[x[0]][1][x[1]], OBS[x[2]])
                m = r.metadata[0]
                need(m["shots"] == shots, lambda: "metadata shots %s" % m["shots"])
                need(abs(complex(m["variance"]).real - var) < 1e-8, lambda: "variance %s, expected %s" % (m["variance"], var))
                sd = math.sqrt(var / shots)
                need(abs(r.values[0] - w) <= 6 * sd + 1e-9, lambda: "value %s is not within 6 standard errors of %s" % (r.values[0], w))
                r2 = check_estimator(e, [x], pool, "normal approximation", seed=seed)
                need(r2.values[0] == r.values[0], "same seed, other value")
                r3 = check_estimator(Estimator(approximation=True), [x], pool, "normal approximation, shots at run", seed=seed, shots=shots)
                need(r3.metadata[0]["shots"] == shots and r3.values[0] == r.values[0], "shots given to run() instead of the constructor")
                Cov.states += 1
    # sampling: averaged over all values of all draws, the estimate is the exact expectation value
    pool = est_pool(stab=True)
    every = items_of(pool, range(len(OBS)))
    for skip in (False, True):
        for grp in (True, False):
            def one(items):
                tot = [0.0] * len(items)
                e = Estimator(run_options={"shots": 1}, abelian_grouping=grp, skip_transpilation=skip)
                for script, r in all_scripts(lambda: check_estimator(e, items, pool, "sampling grouping=%s skip=%s" % (grp, skip))):
                    for k in range(len(items)):
                        tot[k] += 0.5 ** len(script) * complex(r.values[k]).real
                        if any(set(p) != {"I"} for p, _ in OBS[items[k][2]]):
                            need(r.metadata[k]["shots"] in (1, None), "metadata shots")
                for k, (i, j, o) in enumerate(items):
                    w, _ = expect(pool[i][0], pool[i][1][j], OBS[o])
                    need(abs(tot[k] - w) < 1e-8, lambda: "entry %d: mean over all draws %g, expected %g" % (k, tot[k], w))
                Cov.states += 1
                Cov.traces_validated_against_impl += 1
            for x in every:
                if mine():
                    one([x])
            for x in every:
                for y in every:
                    ex = lambda z: len({frozenset(p.replace("I", "") for p, _ in OBS[z[2]])}) and len(OBS[z[2]])
                    if ex(x) + ex(y) > (3 if QUICK else 5):
                        continue
                    if mine():
                        one([x, y])
    # number of shots
    for x in every:
        if mine():
            for shots in (1, 10, 333):
                e = Estimator(run_options={"shots": shots})
                r = check_estimator(e, [x], pool, "sampling")
                ident = all(set(p) == {"I"} for p, _ in OBS[x[2]])
                w, var = expect(pool[x[0]][0], pool[x[0]][1][x[1]], OBS[x[2]])
                lastid = set(OBS[x[2]][-1][0]) == {"I"}
                need(ident or lastid or r.metadata[0]["shots"] == shots, lambda: "metadata shots %s" % r.metadata[0]["shots"])
                if var < 1e-12:
                    need(abs(r.values[0] - w) < 1e-8, lambda: "eigenstate: %s, expected %s" % (r.values[0], w))
                Cov.states += 1
    for kw in ({}, {"run_options": None}, {"run_options": {}}, {"run_options": {"shots": None}}):
        for x in every[::3]:
            if mine():
                at("Estimator(approximation=True, **%s)" % kw)
                try:
                    e = Estimator(approximation=True, **kw)
                except Exception as ex:
                    fail("constructor failed: %r" % ex)
                compare(check_estimator(e, [x], pool, "no shots given"), [x], pool)


def level_circuits(regs):
    """Every sequence of a few operations, with parameters that transpilation may cancel out, drop or move."""
    a, b = Parameter("a"), Parameter("b")
    ops = [("ry", a, 0), ("rx", b, 1), ("rz", b, 0), ("rz", -b, 0), ("rz", a, 1), ("swap", 0, 1), ("cx", 0, 1), ("ry", a + b, 1)]
    for ln in range(1, opt("seq", 3, 4) + 1):
        for seq in itertools.product(range(len(ops)), repeat=ln):
            c = QuantumCircuit(QuantumRegister(2, "q"), *[ClassicalRegister(n, x) for x, n in regs], name="seq%s" % (seq,))
            for i in seq:
                g, *x = ops[i]
                getattr(c, g)(*x)
            v = {a: 0.3, b: 1.1}
            w = {a: 2.0, b: -0.4}
            ps = list(c.parameters)
            yield c, [[v[x] for x in ps], [w[x] for x in ps]]


LEVELS = [{"optimization_level": k, "seed_transpiler": 5} for k in range(4)]


def sampler_levels():
    """The transpilation options of the Sampler: every optimization level on every sequence of operations."""
    from qdd.qdd_sampler import Sampler
    for c, vals in level_circuits([("c", 2)]):
        c.measure([0, 1], [1, 0])
        for o in LEVELS:
            if mine():
                pool = [(c, vals)]
                s = Sampler(transpile_options=o)
                check_sampler(s, [(0, 0), (0, 1)], pool, True, None, "transpile_options=%s" % o)
                spread(lambda: check_sampler(s, [(0, 1)], pool, False, 64, "transpile_options=%s" % o))
    sample("Sampler at optimization levels 0 to 3, every sequence of up to %d operations out of 8" % opt("seq", 3, 4))


def estimator_levels():
    """The transpilation options of the Estimator, and circuits that have classical registers of their own."""
    from qdd.qdd_estimator import Estimator
    first = len(OBS)
    OBS.extend([[("ZI", 1.0), ("IX", 0.5), ("XY", -0.7), ("YZ", 0.3), ("ZZ", 0.8)], [("II", 0.2), ("ZZ", 1.0), ("XX", 0.6)]])
    for k, regs in enumerate([[], [("c", 1)], [("c", 2), ("meas", 2)], [("meas", 1), ("c0", 2), ("c1", 3)]]):
        for c, vals in level_circuits(regs):
            if k > 1 and len(c.data) > 2 and QUICK:
                continue
            for o in LEVELS + [None]:
                if k and o and o["optimization_level"] != 1 + len(c.data) % 3:
                    continue
                if QUICK and len(c.data) == 3 and o not in LEVELS[2:]:
                    continue
                if not mine():
                    continue
                pool = [(c, vals)]
                lab = "registers %s transpile_options=%s" % (regs, o)
                e = Estimator(run_options={"shots": None}, approximation=True, skip_transpilation=o is None, transpile_options=o)
                it = [(0, 0, first), (0, 1, first), (0, 1, first + 1)]
                compare(check_estimator(e, it, pool, lab), it, pool)
                if len(c.data) == 1:      # sampled
                    e = Estimator(run_options={"shots": 256}, skip_transpilation=o is None, transpile_options=o)

                    def f():
                        r = check_estimator(e, it[2:], pool, lab + " sampled")
                        w, var = expect(pool[0][0], vals[1], OBS[first + 1])
                        need(abs(float(r.values[0]) - w) <= 7 * math.sqrt(var / 256) + 0.1, lambda: "%s, expected about %s" % (r.values[0], w))
                    spread(f)
    del OBS[first:]
    sample("Estimator at optimization levels 0 to 3, every sequence of up to %d operations out of 8, four sets of classical registers" % opt("seq", 3, 4))


def wide_observables():
    """Observables on a few qubits of wider registers."""
    from qdd.qdd_estimator import Estimator
    for n in (3, 4, 5):
        c = QuantumCircuit(n)
        for q in range(n):
            c.ry(0.4 + 0.5 * q, q)
        for q in range(n - 1):
            c.cx(q, q + 1)
            c.rx(0.3 * q - 0.7, q)
        ps = ["".join(x) for x in itertools.product("IXYZ", repeat=n)]
        if n == 5:
            ps = [p for p in ps if p.count("I") >= 3 or p.count("I") == 0 and len(set(p)) == 1]
        for p in ps:
            if not mine():
                continue
            OBS.append([(p, 1.0), ("I" * (n - 1) + "Z", 0.5)])
            pool = [(c, [[]])]
            it = [(0, 0, len(OBS) - 1)]
            for skip in (False, True):
                e = Estimator(run_options={"shots": None}, approximation=True, skip_transpilation=skip)
                compare(check_estimator(e, it, pool, "Pauli string"), it, pool)
            OBS.pop()


def many_terms():
    """Observables of many terms that are measured together, and on more qubits than fit into a byte."""
    from qdd.qdd_estimator import Estimator
    for n, sampled in ((3, False), (4, False), (8, False), (9, False), (10, False), (9, True), (17, True), (20, True)):
        strings = lambda P: ["".join(P if q in sel else "I" for q in range(n)) for w in range(1, min(n, 2 if n > 4 else 4) + 1) for sel in itertools.combinations(range(n), w)]
        mixed = ["".join("ZX"[(q + k) % 2] if (q * 7 + k * 3) % 5 < 2 else "I" for q in range(n)) for k in range(12)]
        for name, ps in (("Z", strings("Z")), ("X", strings("X")), ("Y", strings("Y")), ("Z and X", strings("Z") + strings("X")), ("mixed", mixed)):
            for grp in (True, False):
                if sampled and "X" in name or not grp and (n > 4 or len(ps) > 20) or name in ("mixed", "Y") and sampled:
                    continue
                for rev in (False, True):
                    if not mine():
                        continue
                    obs = [(x, round(0.3 + 0.71 * ((k * 37) % 101) / 101, 6)) for k, x in enumerate(ps[::-1] if rev else ps)]
                    c = QuantumCircuit(n)
                    th = [(math.pi * ((q * 5 + 1) % 3 % 2) if sampled else 0.35 + 0.47 * q) for q in range(n)]
                    for q in range(n):
                        c.ry(th[q], q)
                    val = {"I": lambda t: 1.0, "Z": math.cos, "X": math.sin, "Y": lambda t: 0.0}
                    w = sum(co * math.prod(val[ch](th[n - 1 - i]) for i, ch in enumerate(x)) for x, co in obs)
                    at("%d qubits, %d terms (%s), grouping=%s, sampled=%s" % (n, len(obs), name, grp, sampled))
                    e = Estimator(run_options={"shots": 16 if sampled else None}, approximation=not sampled, abelian_grouping=grp)
                    r = call(lambda: e.run([c], [SparsePauliOp.from_list(obs)], [[]]))
                    need(abs(complex(r.values[0]) - w) < 1e-7, lambda: "%s, expected %s" % (r.values[0], w))
                    Cov.states += 1
                    Cov.transitions += 1
                    Cov.traces_validated_against_impl += 1
    sample("observables of up to %d terms on up to 20 qubits" % 210)


def run():
    globals()[A.part]()


main(run)
