"""The engine's own Python module: every function as documented by its name, sequences of calls, printed and drawn forms."""
from common import *
import tempfile, re, cmath

I1 = np.eye(2, dtype=complex)
S2 = 1 / math.sqrt(2)


def rx(t):
    return np.array([[math.cos(t / 2), -1j * math.sin(t / 2)], [-1j * math.sin(t / 2), math.cos(t / 2)]])


def ry(t):
    return np.array([[math.cos(t / 2), -math.sin(t / 2)], [math.sin(t / 2), math.cos(t / 2)]])


def rz(t):
    return np.diag([cmath.exp(-0.5j * t), cmath.exp(0.5j * t)])


def um(t, f, l, g=0):
    return cmath.exp(1j * g) * np.array([[math.cos(t / 2), -cmath.exp(1j * l) * math.sin(t / 2)], [cmath.exp(1j * f) * math.sin(t / 2), cmath.exp(1j * (f + l)) * math.cos(t / 2)]])


X, Y, Z = np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]).astype(complex)
SX = 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]])
NAMED = {"I": I1, "H": S2 * np.array([[1, 1], [1, -1]], complex), "X": X, "Y": Y, "Z": Z, "S": np.diag([1, 1j]), "Sdag": np.diag([1, -1j]), "T": np.diag([1, cmath.exp(0.25j * math.pi)]),
         "Tdag": np.diag([1, cmath.exp(-0.25j * math.pi)]), "SX": SX, "SXdag": SX.conj().T, "V": rx(math.pi / 2), "Vdag": rx(-math.pi / 2)}
SWAP = np.eye(4)[[0, 2, 1, 3]].astype(complex)
ISWAP = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])
GRID = [0, 0.3, -1.1, math.pi / 2, math.pi, 2 * math.pi, 5.0]


def rot(a, b, t):       # exp(-i t/2 a x b), a on the high bit
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * np.kron(a, b)


def haar(k, seed):
    r = np.random.RandomState(seed)
    q, _ = np.linalg.qr(r.randn(1 << k, 1 << k) + 1j * r.randn(1 << k, 1 << k))
    return q


def lift(n, m, ts, cs=()):
    """The matrix m on the qubits ts (ts[0] the low bit), controlled by cs being 1."""
    out = np.zeros((1 << n, 1 << n), complex)
    for k in range(1 << n):
        e = np.zeros(1 << n, complex)
        e[k] = 1
        out[:, k] = apply(e, m, ts) if all((k >> c) & 1 for c in cs) else e
    return out


def operator(m, n):
    return np.asarray(m.getEigenMatrix(n))


def close(a, b, tol=2e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < tol))


def tl(m):
    return [complex(x) for x in np.asarray(m).reshape(-1)]


def rows(m):
    return [[complex(x) for x in r] for r in np.asarray(m)]


def expect(label, m, n, want):
    at(label)
    Cov.states += 1
    Cov.transitions += 1
    got = operator(m, n)
    need(close(got, want), lambda: "operator differs by %g" % (np.abs(got - want).max() if got.shape == want.shape else -1))


def functions():
    """Every function that makes a gate or a matrix, at every placement."""
    from qdd import pyQDD as Q
    maxn = opt("maxn", 4, 5)
    # matrices
    if A.shard == 0:
        for t in GRID:
            for nm, f, w in (("rxmat", Q.rxmat, rx), ("rymat", Q.rymat, ry), ("rzmat", Q.rzmat, rz), ("p", Q.p, lambda a: np.diag([1, cmath.exp(1j * a)])), ("u1", Q.u1, lambda a: np.diag([1, cmath.exp(1j * a)]))):
                at("%s(%g)" % (nm, t))
                need(close(f(t), w(t).reshape(-1)), "matrix differs")
            for nm, f, w in (("rxxmat", Q.rxxmat, rot(X, X, t)), ("ryymat", Q.ryymat, rot(Y, Y, t)), ("rzzmat", Q.rzzmat, rot(Z, Z, t)), ("rzxmat", Q.rzxmat, rot(X, Z, t))):
                at("%s(%g)" % (nm, t))
                need(close(f(t), w), "matrix differs")
            for s in GRID:
                at("u2, r(%g, %g)" % (t, s))
                need(close(Q.u2(t, s), um(math.pi / 2, t, s).reshape(-1)), "u2 differs")
                c, d = math.cos(t / 2), -1j * math.sin(t / 2)
                need(close(Q.r(t, s), [c, d * cmath.exp(-1j * s), d * cmath.exp(1j * s), c]), "r differs")
                for l in GRID:
                    at("u3, u(%g, %g, %g)" % (t, s, l))
                    need(close(Q.u3(t, s, l), um(t, s, l).reshape(-1)), "u3 differs")
                    for g in (0.4, -2.0):
                        need(close(Q.u(t, s, l, g), um(t, s, l, g).reshape(-1)), "u differs")
        need(close(Q.swapmat(), SWAP) and close(Q.iswapmat(), ISWAP), "swapmat, iswapmat")
    # unknown names are refused
    if A.shard == 1:
        for nm in ("", "x", "h", "CX", "Hadamard", "sdag", "U", "XX", "I "):
            for f in (lambda: Q.makeGate(2, nm, 0), lambda: Q.makeGate(2, nm, 0, [1])):
                for again in range(2):
                    at("makeGate with the unknown name %r" % nm)
                    try:
                        f()
                        fail("a gate nobody defined is made")
                    except (IndexError, KeyError, ValueError, RuntimeError):
                        pass
                    Cov.states += 1
        for nm in NAMED:
            expect("makeGate(1, %s, 0)" % nm, Q.makeGate(1, nm, 0), 1, NAMED[nm])
    W = haar(1, 7)
    one = dict(NAMED, any=W)
    for n in range(1, maxn + 1):
        for t in range(n):
            rest = [q for q in range(n) if q != t]
            if mine():
                for a in (0.3, math.pi, -2.5):
                    expect("RX(%d, %d, %g)" % (n, t, a), Q.RX(n, t, a), n, lift(n, rx(a), [t]))
                    expect("RY(%d, %d, %g)" % (n, t, a), Q.RY(n, t, a), n, lift(n, ry(a), [t]))
                    expect("RZ(%d, %d, %g)" % (n, t, a), Q.RZ(n, t, a), n, lift(n, rz(a), [t]))
                for c in rest:
                    expect("CX(%d, %d, %d)" % (n, t, c), Q.CX(n, t, c), n, lift(n, X, [t], [c]))
            for k in range(n):
                for cs in itertools.permutations(rest, k):
                    if not mine():
                        continue
                    for nm, m in one.items():
                        if nm != "any":
                            g = Q.makeGate(n, nm, t, list(cs)) if cs else Q.makeGate(n, nm, t)
                            expect("makeGate(%d, %s, %d, %s)" % (n, nm, t, list(cs)), g, n, lift(n, m, [t], cs))
                        g = Q.makeGate(n, tl(m), t, list(cs)) if cs else Q.makeGate(n, tl(m), t)
                        expect("makeGate(%d, matrix of %s, %d, %s)" % (n, nm, t, list(cs)), g, n, lift(n, m, [t], cs))
        U2, U3 = haar(2, 5), haar(3, 6)
        for a, b in itertools.permutations(range(n), 2):
            rest = [q for q in range(n) if q not in (a, b)]
            if mine():
                for t in (0.3, math.pi, -2.5):
                    for nm, f, m in (("RXX", Q.RXX, rot(X, X, t)), ("RYY", Q.RYY, rot(Y, Y, t)), ("RZZ", Q.RZZ, rot(Z, Z, t)), ("RZX", Q.RZX, rot(X, Z, t))):
                        expect("%s(%d, %d, %d, %g)" % (nm, n, a, b, t), f(n, a, b, t), n, lift(n, m, [b, a]))
                expect("SWAP(%d, %d, %d)" % (n, a, b), Q.SWAP(n, a, b), n, lift(n, SWAP, [b, a]))
                expect("ISWAP(%d, %d, %d)" % (n, a, b), Q.ISWAP(n, a, b), n, lift(n, ISWAP, [b, a]))
                for c in rest:
                    expect("CSWAP(%d, %d, %d, %d)" % (n, a, b, c), Q.CSWAP(n, a, b, c), n, lift(n, SWAP, [b, a], [c]))
            for k in range(n - 1):
                for cs in itertools.permutations(rest, k):
                    if not mine():
                        continue
                    for m in (U2, ISWAP, np.diag([1, 1j, -1, 1])):
                        g = Q.makeTwoQubitGate(n, rows(m), a, b, list(cs)) if cs else Q.makeTwoQubitGate(n, rows(m), a, b)
                        expect("makeTwoQubitGate(%d, .., %d, %d, %s)" % (n, a, b, list(cs)), g, n, lift(n, m, [b, a], cs))
        for k in range(1, min(n, 3) + 1):
            U = haar(k, 4 + k)
            if mine():
                expect("unitary(%d, %d qubits)" % (n, k), Q.unitary(n, rows(U)), n, lift(n, U, list(range(k))))
            for ts in itertools.permutations(range(n), k):
                if mine():
                    expect("unitary(%d, .., %s)" % (n, ts), Q.unitary(n, rows(U), list(ts)), n, lift(n, U, list(ts)))
        for al in GRID:
            if mine():
                at("applyGlobal(%g) on %d qubits" % (al, n))
                g = Q.mm_multiply(Q.makeGate(n, tl(W), 0), Q.makeGate(n, "H", n - 1))
                want = lift(n, W, [0]) @ lift(n, NAMED["H"], [n - 1])
                v = Q.mv_multiply(g, Q.makeZeroState(n))
                expect("applyGlobal", Q.applyGlobal(g, al), n, cmath.exp(1j * al) * want)
                need(close(Q.getVector(Q.applyGlobal(v, al)), cmath.exp(1j * al) * want[:, 0]), "applyGlobal of a vector")
                need(close(Q.getVector(v), want[:, 0]) and close(operator(g, n), want), "applyGlobal changes its argument")
                Cov.states += 1
    sample("every function making gates, all placements up to %d qubits" % maxn)


# ------------------------------------------------------------------ sequences of calls
class World:
    def __init__(self, n):
        from qdd import pyQDD as Q
        self.Q, self.n = Q, n
        self.e, self.v = Q.makeZeroState(n), zero(n)
        self.f, self.w = self.e, self.v                     # a second vector
        self.m, self.M = Q.makeGate(n, "I", 0), np.eye(1 << n, dtype=complex)
        self.obs = []

    def collapse(self, v, q, b):
        p, r = project(v, q, b)
        need(p > 1e-9, lambda: "impossible outcome %d of qubit %d" % (b, q))
        return r

    def check(self):
        Q, n = self.Q, self.n
        need(close(Q.getVector(self.e), self.v), lambda: "getVector %s, expected %s" % (Q.getVector(self.e), self.v))
        need(close(np.asarray(self.e.getEigenVector()).reshape(-1), self.v), "getEigenVector differs")
        need(close(Q.probabilities(self.e), np.abs(self.v) ** 2), lambda: "probabilities %s of %s" % (Q.probabilities(self.e), self.v))
        need(close(Q.getVector(self.f), self.w), "another vector changed")
        need(close(operator(self.m, n), self.M), "an operator changed")
        for q in range(n):
            e, p = Q.measureOne(self.e, q)
            need(abs(p - project(self.v, q, 0)[0]) < 1e-6 and close(Q.getVector(e), self.v), lambda: "measureOne %d: %g" % (q, p))


def step(w, o):
    Q, n = w.Q, w.n
    k = o[0]
    if k == "gate":
        g, m = o[1](Q, n)
        w.e, w.v = Q.mv_multiply(g, w.e), m @ w.v
    elif k == "merge":
        g, m = o[1](Q, n)
        w.m, w.M = Q.mm_multiply(g, w.m), m @ w.M
    elif k == "use":
        w.e, w.v = Q.mv_multiply(w.m, w.e), w.M @ w.v
    elif k == "swap":
        w.e, w.v, w.f, w.w = w.f, w.w, w.e, w.v
    elif k == "copy":
        w.f, w.w = Q.applyGlobal(w.e, 0), w.v      # an object of its own: measuring changes the one it is given
    elif k == "gc":
        w.e, w.f = Q.gc([w.e, w.f], True)
    elif k == "gc1":
        w.e = Q.gc(w.e, True)
        w.f, w.w = Q.applyGlobal(w.e, 0), w.v      # an object of its own: measuring changes the one it is given
    elif k == "gcM":
        w.m = Q.gc_mat(w.m, True)
    elif k == "gcMM":
        a, b, c = Q.gc_mat([w.m, Q.makeGate(n, "H", 0), w.m], True)
        need(close(operator(a, n), w.M) and close(operator(b, n), lift(n, NAMED["H"], [0])), "collected operators")
        w.m = c
    elif k == "all":
        before = w.v
        e, r = Q.measureAll(w.e, o[1])
        need(isinstance(r, str) and len(r) == n and set(r) <= {"0", "1"}, lambda: "outcome %r" % (r,))
        need(abs(before[int(r, 2)]) ** 2 > 1e-9, lambda: "impossible outcome %s" % r)
        w.obs.append(r)
        w.e = e
        if o[1]:
            w.v = np.eye(1 << n)[int(r, 2)].astype(complex)
    elif k == "one":
        e, r = Q.measureOneCollapsing(w.e, o[1])
        need(r in ("0", "1"), lambda: "outcome %r" % (r,))
        w.v = w.collapse(w.v, o[1], int(r))
        w.obs.append(r)
        w.e = e
    elif k == "phase":
        w.e, w.v = Q.applyGlobal(w.e, 0.7), cmath.exp(0.7j) * w.v


def alphabet(n):
    h = n - 1
    al = {
        "ry": ("gate", lambda Q, n: (Q.RY(n, 0, 0.9), lift(n, ry(0.9), [0]))),
        "h": ("gate", lambda Q, n: (Q.makeGate(n, "H", n - 1), lift(n, NAMED["H"], [n - 1]))),
        "merge ry": ("merge", lambda Q, n: (Q.RY(n, n - 1, 0.4), lift(n, ry(0.4), [n - 1]))),
        "use": ("use",), "swap": ("swap",), "copy": ("copy",), "gc": ("gc",), "gc1": ("gc1",), "gcM": ("gcM",), "gcMM": ("gcMM",), "all": ("all", False), "all!": ("all", True),
        "one 0": ("one", 0), "phase": ("phase",)}
    if n > 1:
        al["cx"] = ("gate", lambda Q, n: (Q.CX(n, n - 1, 0), lift(n, X, [n - 1], [0])))
        al["merge iswap"] = ("merge", lambda Q, n: (Q.ISWAP(n, 0, n - 1), lift(n, ISWAP, [0, n - 1])))
        al["one h"] = ("one", h)
    return al


def calls():
    from qdd import pyQDD as Q
    for n in (1, 2, 3):
        al = alphabet(n)
        for ln in range(1, opt("len", 4 if n == 2 else 3, 5 if n == 1 else 4 + (n == 2)) + 1):
            for seq in itertools.product(al, repeat=ln):
                if not mine():
                    continue
                if ln > 3 and any(seq[i] == seq[i + 1] for i in range(ln - 1)):
                    continue
                if QUICK and ln > 3 and sum(x.startswith("gc") for x in seq) > 1:
                    continue
                at("calls on %d qubits: %s" % (n, ", ".join(seq)))

                def run():
                    w = World(n)
                    for s in seq:
                        with captured():
                            step(w, al[s])
                        Cov.transitions += 1
                    w.check()
                    return tuple(w.obs)
                seen = [r for _, r in all_scripts(run, alphabet=(0.02, 0.98))]
                if seq[0] in ("ry", "h") and seq[1:2] in (("one 0",), ("all",)) and n == 1:
                    need(len({r[0] for r in seen}) == 2, "the outcome does not depend on the draw")
                Cov.states += 1
    # seeds
    if A.shard == 0:
        for seed in (0, 1, 2 ** 40 + 3):
            at("seed(%d)" % seed)
            r = []
            for again in range(2):
                Q.seed(seed)
                e = Q.makeZeroState(3)
                for q in range(3):
                    e = Q.mv_multiply(Q.makeGate(3, "H", q), e)
                o = [Q.measureAll(e, False)[1] for _ in range(12)]
                o += [Q.measureOneCollapsing(Q.mv_multiply(Q.makeGate(1, "H", 0), Q.makeZeroState(1)), 0)[1] for _ in range(12)]
                r.append(o)
            need(r[0] == r[1], "equal seeds give different outcomes")
            need(len(set(r[0])) > 3, "outcomes do not vary")
            Cov.states += 1
    sample("calls: %s" % sorted(alphabet(2)))


# ------------------------------------------------------------------ printed and drawn forms
@contextlib.contextmanager
def captured():
    """What the engine writes to standard output."""
    sys.stdout.flush()
    out = []
    with tempfile.TemporaryFile() as f:
        old = os.dup(1)
        os.dup2(f.fileno(), 1)
        try:
            yield out
        finally:
            os.dup2(old, 1)
            os.close(old)
        f.seek(0)
        out.append(f.read().decode())


NUM = r"\(([^ ()]+) , ([^ ()]+)\)"


def numbers(s):
    return [complex(float(a), float(b)) for a, b in re.findall(NUM, s)]


def graph(dot):
    """Nodes and edges of a drawing, the root first."""
    need(dot.startswith("digraph") and dot.rstrip().endswith("}"), "not a drawing")
    nodes, edges, root, term, rw = {}, {}, None, None, None
    for l in dot.splitlines()[1:-1]:
        m = re.match(r'\s*(\d+) -> (\d+) \[label="(\d)' + NUM + r'"\]$', l)
        if m:
            k = (m.group(1), int(m.group(3)))
            need(k not in edges, "an edge is drawn twice")
            edges[k] = (m.group(2), complex(float(m.group(4)), float(m.group(5))))
            continue
        m = re.match(r'\s*(\d+) \[label="Term w=' + NUM + r'"\]$', l)
        if m:
            need(term is None, "two terminal nodes")
            term, rw = m.group(1), complex(float(m.group(2)), float(m.group(3)))
            continue
        m = re.match(r'\s*(\d+) \[label="q(-?\d+)"\]$', l)
        need(m is not None, lambda: "cannot read the line %r" % l)
        need(m.group(1) not in nodes, "a node is drawn twice")
        nodes[m.group(1)] = int(m.group(2))
        root = root or m.group(1)
    need(term is not None, "no terminal node")
    return nodes, edges, root, term, rw


def dot_vector(dot, n):
    nodes, edges, root, term, rw = graph(dot)

    def val(x, lev):
        if lev == 0:
            need(x == term, "a path does not end at the terminal node")
            return np.ones(1, complex)
        need(x in nodes, "an edge to a node that is not drawn")
        out = []
        for b in (0, 1):
            to, w = edges[(x, b)]
            out.append(w * val(to, lev - 1) if w else np.zeros(1 << (lev - 1), complex))
        return np.concatenate(out)
    return rw * val(root, n), len(nodes)


def dot_matrix(dot, n):
    nodes, edges, root, term, rw = graph(dot)

    def val(x, lev):
        if lev == 0:
            return np.ones((1, 1), complex)
        if x == term or nodes[x] < lev - 1:                # identity on this qubit
            return np.kron(np.eye(2), val(x, lev - 1))
        need(nodes[x] == lev - 1, "a node on the wrong level")
        d = 1 << (lev - 1)
        bl = []
        for i in range(4):
            if (x, i) in edges:
                to, w = edges[(x, i)]
                bl.append(w * val(to, lev - 1))
            else:
                bl.append(np.zeros((d, d), complex))
        return np.block([[bl[0], bl[1]], [bl[2], bl[3]]])
    return rw * val(root, n), len([x for x in nodes if x != term])


def minimal(v):
    """Number of different parts (up to a factor) of a vector of exactly representable entries."""
    seen = set()

    def part(v):
        if len(v) == 1 or not np.any(v):
            return
        nz = v[np.nonzero(np.abs(v) > 1e-9)[0][0]]
        k = (len(v), tuple(np.round(v / nz, 6) + 0.0))
        if k in seen:
            return
        seen.add(k)
        part(v[:len(v) // 2])
        part(v[len(v) // 2:])
    v = np.asarray(v)
    part(np.where(np.abs(v) > 1e-9, v, 0))
    return len(seen)


def gates_for(n):
    gs = []
    for t in range(n):
        gs.append(("H%d" % t, lambda Q, n, t=t: (Q.makeGate(n, "H", t), lift(n, NAMED["H"], [t]))))
        gs.append(("X%d" % t, lambda Q, n, t=t: (Q.makeGate(n, "X", t), lift(n, X, [t]))))
        gs.append(("U%d" % t, lambda Q, n, t=t: (Q.makeGate(n, tl(haar(1, 3)), t), lift(n, haar(1, 3), [t]))))
        for c in range(n):
            if c != t:
                gs.append(("CX%d%d" % (t, c), lambda Q, n, t=t, c=c: (Q.CX(n, t, c), lift(n, X, [t], [c]))))
    if n > 1:
        gs.append(("UU", lambda Q, n: (Q.makeTwoQubitGate(n, rows(haar(2, 9)), 0, n - 1), lift(n, haar(2, 9), [n - 1, 0]))))
    return gs


def forms():
    from qdd import pyQDD as Q
    for n in (1, 2, 3, 4):
        gs = gates_for(n)
        for ln in range(0, (opt("flen", 3, 4) if n < 3 else opt("flen", 2, 3)) + 1):
            for seq in itertools.product(gs, repeat=ln):
                if not mine():
                    continue
                at("%d qubits: %s" % (n, " ".join(x[0] for x in seq)))
                e, v, g, M = Q.makeZeroState(n), zero(n), Q.makeGate(n, "I", 0), np.eye(1 << n, dtype=complex)
                for _, f in seq:
                    o, m = f(Q, n)
                    e, v, g, M = Q.mv_multiply(o, e), m @ v, Q.mm_multiply(o, g), m @ M
                with captured() as out:
                    e.printVector()
                need(close(numbers(out[0]), v, 1e-4) and len(out[0].split("\n")) >= 1 << n, lambda: "printVector: %s" % out[0])
                with captured() as out:
                    e.printVector_sparse()
                got = sparse_state(out[0])
                for i in range(1 << n):
                    need(abs(got.get(i, 0) - v[i]) < (1e-4 if i in got else 2e-3), lambda: "printVector_sparse: amplitude %d is %s, not %s" % (i, got.get(i), v[i]))
                    need(i not in got or abs(v[i]) > 5e-4, lambda: "printVector_sparse shows the amplitude %d" % i)
                with captured() as out:
                    g.printMatrix(n)
                lines = [l for l in out[0].splitlines() if l.strip()]
                need(len(lines) == 1 << n and all(close(numbers(l), M[i], 1e-4) for i, l in enumerate(lines)), lambda: "printMatrix: %s" % out[0])
                with captured() as out:
                    d = Q.genDot(e)
                vec, k = dot_vector(d, n)
                need(close(vec, v, 1e-4), lambda: "the drawn vector is %s, not %s" % (vec, v))
                need(k == Q.get_nNodes(e), lambda: "%d nodes drawn, get_nNodes says %d" % (k, Q.get_nNodes(e)))
                if not any(x[0][0] == "U" for x in seq):
                    need(k == minimal(v), lambda: "%d nodes for a state of %d different parts" % (k, minimal(v)))
                with captured():
                    d = Q.genDot(g)
                mat, k = dot_matrix(d, n)
                need(close(mat, M, 1e-4), lambda: "the drawn operator is %s, not %s" % (mat, M))
                Cov.states += 1
                Cov.transitions += 5
    sample("states and operators of sequences of gates, printed in three ways and drawn")


def sparse_state(text):
    """The amplitudes that printVector_sparse shows."""
    got = {}
    for l in text.splitlines():
        m = re.match(r"([01]+): " + NUM + "$", l)
        need(m is not None and int(m.group(1), 2) not in got, lambda: "printVector_sparse: %s" % l)
        got[int(m.group(1), 2)] = complex(float(m.group(2)), float(m.group(3)))
    return got


def wide_forms():
    """States with few amplitudes on registers wider than an integer."""
    from qdd import pyQDD as Q
    for n in (29, 30, 31, 32, 33, 34, 40, 62, 63, 64, 65, 66, 99, 100):
        pos = sorted({p for p in (0, 1, 15, 28, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, n - 2, n - 1) if p < n})
        for k in range(0, opt("wsets", 2, 3) + 1):
            for ones in itertools.combinations(pos, k):
                for extra in ("", "H", "GHZ"):
                    if not mine():
                        continue
                    at("%d qubits, ones at %s %s" % (n, ones, extra))
                    e, w = Q.makeZeroState(n), {sum(1 << p for p in ones): 1.0}
                    for p in ones:
                        e = Q.mv_multiply(Q.makeGate(n, "X", p), e)
                    if extra:
                        free = [p for p in pos if p not in ones]
                        t = free[(len(ones) * 7 + sum(ones)) % len(free)]
                        e = Q.mv_multiply(Q.makeGate(n, "H", t), e)
                        i = next(iter(w))
                        j = i | 1 << t
                        if extra == "GHZ":
                            for p in pos:
                                if p != t:
                                    e = Q.mv_multiply(Q.CX(n, p, t), e)
                                    j ^= 1 << p
                        w = {i: 0.5 ** 0.5, j: 0.5 ** 0.5}
                    with captured() as out:
                        e.printVector_sparse()
                    got = sparse_state(out[0])
                    need(set(got) == set(w) and all(abs(got[i] - w[i]) < 1e-4 for i in w), lambda: "printVector_sparse: %s, expected %s" % (got, w))
                    _, bits = Q.measureAll(e, False)
                    need(len(bits) == n and int(bits, 2) in w, lambda: "measureAll: %s" % bits)
                    Cov.states += 1
                    Cov.transitions += len(ones) + 1
                    Cov.traces_validated_against_impl += 1
    sample("states of up to 100 qubits, shown as lists of their amplitudes")


def run():
    globals()[A.part]()


main(run)
