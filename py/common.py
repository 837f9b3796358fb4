"""Shared parts of the explorers that drive the Python package: dense reference model, scripted random draws,
reporting, crash and hang containment."""
import argparse, ctypes, io, itertools, json, math, mmap, os, resource, signal, sys, time, warnings, contextlib
import numpy as np

warnings.filterwarnings("ignore")
ap = argparse.ArgumentParser()
for a in ("prop", "name", "tier", "out", "replay-dir", "site", "part"):
    ap.add_argument("--" + a, default="")
ap.add_argument("--shard", type=int, default=0)
ap.add_argument("--shards", type=int, default=1)
ap.add_argument("--cpu", type=float, default=600)
ap.add_argument("--opt", action="append", default=[])
A = ap.parse_args()
OPT = dict(o.split("=", 1) for o in A.opt)
QUICK = A.tier != "thorough"
TRACE = mmap.mmap(-1, 1 << 16)


def opt(k, q, t=None):
    if k in OPT:
        return type(q)(OPT[k])
    return q if QUICK or t is None else t


class Cov:
    states = transitions = evaluations = traces_validated_against_impl = 0
    extra = {}
    samples = []
    outcomes = set()


_k = -1


def mine():
    """Deals the work items out to the shards, in order."""
    global _k
    _k += 1
    return _k % A.shards == A.shard


def at(text):
    b = text.encode(errors="replace")[:60000]
    TRACE.seek(0)
    TRACE.write(b + b"\0")


def where():
    TRACE.seek(0)
    return TRACE.read(60001).split(b"\0")[0].decode(errors="replace")


def emit(what):
    path = os.path.join(A.replay_dir or "/tmp", "%s.%s.%d.txt" % (A.prop, A.name, os.getpid()))
    with open(path, "w") as f:
        f.write("property: %s\nwhat: %s\ntrace: %s\ncommand: %s\n" % (A.prop, what, where(), " ".join(sys.argv)))
    print("VIOLATION-DETAIL what=%s trace=%s" % (str(what).replace("\n", " | ")[:900], where().replace("\n", " | ")[:900]))
    print("VIOLATION property=%s replay=%s" % (A.prop, path), flush=True)


def known_lines():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    r = {}
    for l in open(p):
        if l.startswith("KNOWN-FINDING: property=%s [" % A.prop):
            r[l.split("[", 1)[1].split("]", 1)[0]] = l.strip()
    return r


_KNOWN = None


def known(key):
    """True (and prints the line) if the failure with this key is a listed finding."""
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = known_lines()
    if key in _KNOWN:
        if _KNOWN[key]:
            print(_KNOWN[key], flush=True)
            _KNOWN[key] = ""
        Cov.extra["known_finding_hits"] = Cov.extra.get("known_finding_hits", 0) + 1
        return True
    return False


class Stop(BaseException):
    pass


def fail(what):
    emit(what)
    raise Stop()


def need(cond, what):
    Cov.evaluations += 1
    if not cond:
        fail(what() if callable(what) else what)


def sample(s, every=1):
    Cov.samples.append(str(s)[:300])
    if len(Cov.samples) > 40:
        del Cov.samples[1:20]


def main(fn):
    """Runs fn in a child process so that a crash or hang of the code under test is a verdict."""
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            soft = int(A.cpu)
            resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 5))
            signal.signal(signal.SIGXCPU, signal.SIG_DFL)
            load()
            fn()
            r = {"states": Cov.states, "transitions": Cov.transitions, "evaluations": Cov.evaluations,
                 "traces_validated_against_impl": Cov.traces_validated_against_impl or Cov.transitions, "samples": Cov.samples[-6:]}
            r.update(Cov.extra)
            if Cov.outcomes:
                r["distinct_outcomes"] = len(Cov.outcomes)
            json.dump(r, open(A.out, "w"))
            rc = 0
        except Stop:
            rc = 1
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            traceback.print_exc()
            # an exception out of the package (or out of qiskit through the package) is a verdict; one of ours is not
            if any("/qdd/" in f.filename or "/qiskit/result/" in f.filename or "/qiskit/primitives/" in f.filename for f in tb) or getattr(e, "_from_impl", False):
                emit("exception %s: %s" % (type(e).__name__, e))
                rc = 1
            else:
                rc = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    t0 = time.time()
    st = None
    while time.time() - t0 < A.cpu * 3:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        time.sleep(0.02)
    else:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        emit("no progress within the time limit")
        os._exit(1)
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == 9:
            print("killed")
            os._exit(9)
        emit("no progress within the CPU-time limit" if os.WTERMSIG(st) == signal.SIGXCPU else "the process died with signal %d" % os.WTERMSIG(st))
        os._exit(1)
    os._exit(os.WEXITSTATUS(st))


# ------------------------------------------------------------------ the package under test
LIB = None


def load():
    global LIB
    sys.path.insert(0, A.site)
    import qdd
    from qdd import pyQDD
    if not pyQDD.__file__.startswith(A.site) or not qdd.__file__.startswith(A.site):
        raise RuntimeError("wrong package")
    LIB = ctypes.CDLL(pyQDD.__file__)
    LIB.mcrng_arm.argtypes = [ctypes.c_void_p, ctypes.c_uint64, ctypes.c_uint64]
    LIB.mcrng_draws.restype = ctypes.c_uint64


def arm(script, default):
    """Every draw of the package from now on: the scripted values (floats in [0,1)), then the default."""
    n = len(script)
    buf = (ctypes.c_uint64 * max(n, 1))(*[int(x * 2.0 ** 64) for x in script])
    LIB.mcrng_arm(buf, n, int(default * 2.0 ** 64))


def draws():
    return LIB.mcrng_draws()


def disarm():
    LIB.mcrng_disarm()


def all_scripts(run, alphabet=(0.25, 0.75), limit=1 << 14):
    """Every execution of run() over all values of all its draws: yields (draw script, result)."""
    stack = [[]]
    n = 0
    while stack:
        s = stack.pop()
        arm(s, alphabet[0])
        r = run()
        d = draws()
        disarm()
        full = s + [alphabet[0]] * (d - len(s))
        for i in range(len(s), d):
            for a in alphabet[1:]:
                stack.append(full[:i] + [a])
        n += 1
        if n > limit:
            raise RuntimeError("too many executions")
        yield full, r


@contextlib.contextmanager
def quiet():
    """The package prints stack traces for refused jobs."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


_prov = None


def provider():
    global _prov
    if _prov is None:
        from qdd import QddProvider
        _prov = QddProvider()
    return _prov


def backend():
    return provider().get_backend()


def sv_backend():
    return provider().get_backend("statevector_simulator")


# ------------------------------------------------------------------ dense reference model
def apply(state, mat, qs):
    """mat acts on qs, qs[0] being the least significant index bit."""
    n = int(round(math.log2(len(state))))
    k = len(qs)
    t = np.asarray(state).reshape([2] * n)
    axes = [n - 1 - q for q in reversed(qs)]        # most significant first
    m = np.asarray(mat).reshape([2] * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), axes))
    t = np.moveaxis(t, list(range(k)), axes)
    return np.ascontiguousarray(t).reshape(-1)


def zero(n):
    v = np.zeros(1 << n, dtype=complex)
    v[0] = 1
    return v


def gate_matrix(inst):
    from qiskit.circuit import ControlledGate
    if isinstance(inst, ControlledGate) and inst.name.startswith("mc"):
        k = inst.num_ctrl_qubits
        base = np.asarray(inst.base_gate.to_matrix())
        m = np.eye(2 ** inst.num_qubits, dtype=complex)
        idx = [inst.ctrl_state + (t << k) for t in range(len(base))]
        m[np.ix_(idx, idx)] = base
        return m
    return np.asarray(inst.to_matrix())


class Branch:
    __slots__ = ("w", "v", "c")

    def __init__(self, w, v, c):
        self.w, self.v, self.c = w, v, c


def project(v, q, b):
    n = int(round(math.log2(len(v))))
    idx = (np.arange(len(v)) >> q) & 1
    r = np.where(idx == b, v, 0)
    p = float(np.vdot(r, r).real)
    return p, (r / math.sqrt(p) if p > 1e-12 else r)


def cond_true(inst, c, circ):
    if getattr(inst, "condition", None) is None:
        return True
    creg, val = inst.condition
    bits = [creg] if not hasattr(creg, "__len__") else list(creg)
    return sum(c[circ.clbits.index(b)] << i for i, b in enumerate(bits)) == int(val)


XM = np.array([[0, 1], [1, 0]])


def branches(circ):
    """All (probability, final state, classical bits) of the circuit, by the textbook rules."""
    n = circ.num_qubits
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    bs = [Branch(1.0, zero(n) * np.exp(1j * float(circ.global_phase)), [0] * circ.num_clbits)]
    for ins in circ.data:
        op, qs, cs = ins.operation, [qi[q] for q in ins.qubits], [ci[c] for c in ins.clbits]
        nb = []
        for b in bs:
            if op.name == "barrier" or not cond_true(op, b.c, circ):
                nb.append(b)
            elif op.name in ("measure", "reset"):
                for o in (0, 1):
                    p, v = project(b.v, qs[0], o)
                    if p < 1e-9:
                        continue
                    c = list(b.c)
                    if op.name == "measure":
                        c[cs[0]] = o
                    elif o:
                        v = apply(v, XM, qs)
                    nb.append(Branch(b.w * p, v, c))
            else:
                nb.append(Branch(b.w, apply(b.v, gate_matrix(op), qs), b.c))
        bs = nb
    return bs


def bitstring(c):
    return "".join(str(x) for x in reversed(c))


def grouped(circ, c):
    """The classical bits as qiskit writes them: registers separated by blanks, the last one first."""
    at_ = {b: i for i, b in enumerate(circ.clbits)}
    return " ".join("".join(str(c[at_[b]]) for b in reversed(list(r))) for r in reversed(circ.cregs))


def dist(pairs):
    d = {}
    for k, p in pairs:
        d[k] = d.get(k, 0.0) + p
    return d


def close(a, b, tol=1e-9):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol for k in set(a) | set(b))


def same_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and abs(abs(np.vdot(a, b)) - 1) < tol and abs(np.vdot(a, a).real - 1) < tol


def show(circ):
    return "; ".join("%s%s%s q%s c%s" % (i.operation.name, list(i.operation.params) if i.operation.params and i.operation.name not in ("unitary", "qdd") else "",
                     "?" + str(i.operation.condition) if getattr(i.operation, "condition", None) is not None else "",
                     [circ.qubits.index(q) for q in i.qubits], [circ.clbits.index(c) for c in i.clbits]) for i in circ.data)
