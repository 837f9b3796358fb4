"""C26: jobs in flight at the same time.  The Sampler and the Estimator run each job in a thread of its own; programs may call
backends from threads, too.  Here all those threads are real, but only the one that has the baton runs: every line of the package
and every operation on a lock or a future is a point at which the explorer decides who goes on, so every schedule with a bounded
number of preemptions is executed.  Oracle: every job gives what it gives alone."""
from common import *
import _thread, threading, concurrent.futures, time, itertools, math
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, AncillaRegister
from qiskit.circuit import Parameter, Qubit, Clbit
from qiskit.quantum_info import SparsePauliOp
import qiskit.primitives.primitive_job as PJ

REAL_LOCK = _thread.allocate_lock
REAL_THREAD = threading.Thread
W = None
ME = threading.local()


class Killed(BaseException):
    pass


class Task:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.baton = REAL_LOCK()
        self.baton.acquire()
        self.state = "ready"        # ready, blocked (until can()), away (in something the explorer does not see), done
        self.can = self.late = None
        self.result = self.error = None


class World:
    """One execution under one schedule: {number of the point: task to go on with}; elsewhere the running task goes on."""

    def __init__(self, plan):
        self.plan, self.tasks, self.step, self.cur, self.log = plan, [], 0, None, []
        self.over = REAL_LOCK()
        self.over.acquire()
        self.guard = REAL_LOCK()
        self.dead = None
        self.beat = 0
        self.where = None           # the line of the package last reported
        self.en = None              # the tasks that can go on, if nothing has changed since it was computed

    def spawn(self, fn, name):
        self.en = None
        t = Task(fn, name)
        t.id = len(self.tasks)
        self.tasks.append(t)

        def body():
            t.baton.acquire()
            ME.task = t
            try:
                if self.dead:
                    raise Killed()
                t.result = fn()
            except Killed:
                pass
            except BaseException as e:
                t.error = e
            finally:
                ME.task = None
                with self.guard:
                    back = self.cur is not t
                    t.state, self.en = "done", None
                    if not back:
                        self.pick(t, True)
        th = REAL_THREAD(target=body, daemon=True)
        th._start_new = None
        th.start()
        return t

    def enabled(self):
        e = [t.id for t in self.tasks if t.state == "ready" or (t.state == "blocked" and t.can())]
        if not e:
            for t in self.tasks:
                if t.state == "blocked" and t.late:
                    return [t.id]
        return e

    def pick(self, me, leaving):
        """Decides who goes on (with the guard held); hands the baton over."""
        self.beat += 1
        e = self.enabled()
        if not e:
            self.cur = None
            if all(t.state == "done" for t in self.tasks):
                self.over.release()
            elif not any(t.state == "away" for t in self.tasks):
                self.dead = "deadlock: " + "; ".join("%s is %s" % (t.name, t.state) for t in self.tasks)
                self.over.release()
            return
        stay = me is not None and me.id in e and not leaving
        nxt = me.id if stay else e[0]
        if len(e) > 1 or self.step in self.plan:
            k = self.step
            self.step += 1
            if k in self.plan and self.plan[k] in e:
                nxt = self.plan[k]
            self.log.append((tuple(e), nxt, stay, self.where))
        t = self.tasks[nxt]
        t.state, t.can, t.late = "ready", None, False
        self.cur = t
        self.en = tuple(e)
        if t is not me:
            t.baton.release()

    def point(self, me, can=None, late=False):
        """The running task is about to go on (or can only go on when can() is true)."""
        self.beat += 1
        if not can and self.en is not None and self.cur is me and me.state == "ready":
            if len(self.en) == 1:
                return
            if self.step not in self.plan:
                self.step += 1
                self.log.append((self.en, me.id, True, self.where))
                return
        with self.guard:
            self.en = None
            if self.dead:
                raise Killed()
            if me.state == "away":      # it had been given up on; it goes on when somebody hands it the baton
                me.state, me.can = ("blocked", can) if can else ("ready", None)
                if self.cur is None:
                    self.pick(None, False)
            else:
                if can:
                    me.state, me.can, me.late = "blocked", can, late
                self.pick(me, False)
            if self.cur is me:
                while me.baton.acquire(False):
                    pass
                return
        me.baton.acquire()
        if self.dead:
            raise Killed()

    def run(self, fn):
        global W
        W = self
        main = self.spawn(fn, "main")
        with self.guard:
            self.pick(None, True)
        last, since = -1, time.time()
        while not self.over.acquire(True, 0.5):
            with self.guard:
                if self.beat != last:
                    last, since = self.beat, time.time()
                elif self.cur is not None and time.time() - since > 5:
                    self.cur.state = "away"
                    self.cur = self.en = None
                    self.pick(None, True)
                    since = time.time()
                elif time.time() - since > 40:
                    self.dead = "hangs: " + "; ".join("%s is %s" % (t.name, t.state) for t in self.tasks)
                    break
        if self.dead:
            for t in self.tasks:
                if t.state != "done":
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
        W = None
        return main


def task():
    return getattr(ME, "task", None) if W is not None else None


def changed():
    w = W
    if w is not None:
        w.en = None


def hook():
    t = task()
    if t is not None:
        W.point(t)


def reached(code, line):
    t = task()
    if t is not None:
        W.where = (id(code), line)
        W.point(t)


MON = sys.monitoring
TOOL = 4


def watch_lines():
    """Every line of the package reports."""
    MON.use_tool_id(TOOL, "flight")
    MON.register_callback(TOOL, MON.events.LINE, reached)
    seen = set()

    def codes(c):
        if c not in seen:
            seen.add(c)
            MON.set_local_events(TOOL, c, MON.events.LINE)
            for x in c.co_consts:
                if hasattr(x, "co_code"):
                    codes(x)
    for name, m in list(sys.modules.items()):
        if (name == "qdd" or name.startswith("qdd.")) and str(getattr(m, "__file__", "")).endswith(".py"):
            for f in functions(m):
                codes(f.__code__)


def functions(m):
    import types
    out, todo, seen = [], list(vars(m).values()), set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [f for f in (x.fget, x.fset, x.fdel) if f]
        elif isinstance(x, types.FunctionType):
            if x.__code__.co_filename == m.__file__:
                out.append(x)
            todo += [c.cell_contents for c in (x.__closure__ or ()) if callable(getattr(c, "cell_contents", None))]
            todo.append(getattr(x, "__wrapped__", None))
        elif isinstance(x, type) and x.__module__ == m.__name__:
            todo += list(vars(x).values())
    return out


class CLock:
    """A lock whose holders and waiters the explorer knows."""
    reentrant = False

    def __init__(self):
        self._l, self._owner, self._n = REAL_LOCK(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._n += 1
            return True
        t = task()
        if t is None:
            r = self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        else:
            hook()
            r = self._l.acquire(False)
            while not r and blocking:
                late = timeout is not None and timeout >= 0
                W.point(t, lambda: not self._l.locked(), late)
                r = self._l.acquire(False)
                if late and not r:
                    break
        if r:
            self._owner, self._n = me, 1
            changed()
        return r

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._n -= 1
            if self._n:
                return
        self._owner = None
        self._l.release()
        changed()
        if W is not None and not W.dead:
            hook()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _is_owned(self):
        return self._owner == _thread.get_ident() if self.reentrant else self._l.locked()


class CRLock(CLock):
    reentrant = True

    def _release_save(self):
        s = self._n
        self._n, self._owner = 0, None
        self._l.release()
        changed()
        return s

    def _acquire_restore(self, n):
        self.acquire()
        self._n = n


class CFuture:
    def __init__(self, t):
        self.t = t

    def result(self, timeout=None):
        me = task()
        if me is not None:
            W.point(me, lambda: self.t.state == "done", timeout is not None)
        if self.t.state != "done":
            raise concurrent.futures.TimeoutError()
        if self.t.error is not None:
            raise self.t.error
        return self.t.result

    def exception(self, timeout=None):
        try:
            self.result(timeout)
        except BaseException as e:
            return e

    def done(self):
        hook()
        return self.t.state == "done"

    def running(self):
        return not self.done()

    def cancelled(self):
        return False

    def cancel(self):
        return False


class CExecutor:
    def __init__(self, *a, **k):
        pass

    def submit(self, fn, *a, **k):
        if task() is None:
            f = REAL_EXEC(1)
            return f.submit(fn, *a, **k)
        t = W.spawn(lambda: fn(*a, **k), "job %d" % len(W.tasks))
        f = CFuture(t)
        hook()
        return f

    def shutdown(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


REAL_EXEC = concurrent.futures.ThreadPoolExecutor


class CThread:
    """A thread of the program's own."""

    def __init__(self, fn):
        self.t = W.spawn(fn, "thread %d" % len(W.tasks))
        hook()

    def join(self):
        return CFuture(self.t).result()


def take_over():
    """Called before the package is imported: its locks are ours."""
    PJ.ThreadPoolExecutor = CExecutor
    concurrent.futures.ThreadPoolExecutor = CExecutor
    threading.Lock, threading.RLock = CLock, CRLock


# ------------------------------------------------------------------ exploring
FREE = 1 if QUICK else 0         # what it costs to go on with another task than the first, where the running one cannot go on


def explore(name, make, expect, bound, split=False, cap=10 ** 9):
    """Every schedule with up to `bound` deviations from the default; split: dealt out to the shards by the first deviation.  make() returns the program (a function); it returns {job: outcome}."""
    stack = [({}, 0, 0)]
    n = 0
    while stack:
        plan, used, first = stack.pop()
        w = World(plan)
        at("%s; schedule %s" % (name, plan))
        pyQDD_reset()
        with quiet():
            fn = make()
            m = w.run(fn)
        need(w.dead is None, lambda: w.dead)
        if m.error is not None:
            if isinstance(m.error, (Stop, KeyboardInterrupt)):
                raise m.error
            fail("exception %s: %s" % (type(m.error).__name__, m.error))
        for k, want in expect.items():
            need(same(m.result[k], want), lambda: "job %s gives %s, alone it gives %s" % (k, m.result[k], want))
        n += 1
        Cov.states += 1
        Cov.transitions += len(w.log)
        Cov.traces_validated_against_impl += 1
        if not plan:
            Cov.extra["points"] = max(Cov.extra.get("points", 0), len(w.log))
        times = {}
        for k, x in enumerate(w.log):
            times.setdefault((x[1], x[3]), []).append(k)
        for k in range(len(w.log) - 1, first - 1, -1):
            e, took, stay, where = w.log[k]
            if QUICK and stay and k in times[took, where][1:-1]:
                continue            # the line comes again and again: its first and last time only
            cost = 1 if stay else FREE
            if used + cost > bound:
                continue
            for o in e:
                if o != took and (not split or plan or mine()):
                    stack.append(({**plan, k: o}, used + cost, k + 1))
        if n >= cap:
            raise RuntimeError("too many schedules")
    Cov.extra["schedules"] = Cov.extra.get("schedules", 0) + n
    sample("%s: %d schedules" % (name, n))
    return n


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.floating, np.complexfloating)):
        return abs(a - b) < 1e-9
    return a == b


def pyQDD_reset():
    from qdd import pyQDD
    pyQDD.set_gc_thr(1, 1 << 16)     # every gate collects


t = Parameter("t")


def circuits():
    r = {}
    c = QuantumCircuit(2, name="bell"); c.h(0); c.cx(0, 1); c.measure_all(); r["bell"] = c
    c = QuantumCircuit(QuantumRegister(1, "a"), QuantumRegister(2, "b"), ClassicalRegister(2, "m"), name="regs"); c.ry(0.7, 2); c.cx(2, 0); c.measure([0, 1], [1, 0]); r["regs"] = c
    c = QuantumCircuit([Qubit(), Qubit()], [Clbit(), Clbit()], name="loose"); c.x(1); c.ry(1.1, 0); c.measure([0, 1], [0, 1]); r["loose"] = c
    c = QuantumCircuit(2, 2, name="mid"); c.h(0); c.measure(0, 0); c.x(1).c_if(0, 1); c.measure(1, 1); r["mid"] = c
    c = QuantumCircuit(1, name="par"); c.rx(t, 0); c.measure_all(); r["par"] = c
    c = QuantumCircuit(1, name="one"); c.ry(0.9, 0); c.measure_all(); r["one"] = c
    c = QuantumCircuit(3, name="ghz"); c.ry(0.4, 0); c.cx(0, 1); c.cx(1, 2); c.measure_all(); r["ghz"] = c
    c = QuantumCircuit(6, name="wide"); c.h([0, 3, 5]); c.cx(0, 4); c.ry(0.6, 1); c.cx(5, 2); c.measure_all(); r["wide"] = c
    c = QuantumCircuit(2, name="bad"); c.h(0); c.ecr(0, 1); c.measure_all(); r["bad"] = c
    for n in ("bell", "one", "regs"):
        c = r[n].remove_final_measurements(inplace=False); c.name = n + "-e"; r[n + "-e"] = c
    c = QuantumCircuit(2, name="par-e"); c.ry(t, 0); c.cx(0, 1); r["par-e"] = c
    return r


C = None


class Objects:
    """Samplers, estimators and backends, made when first asked for."""

    def __init__(self):
        from qdd import QddProvider
        from qdd.qdd_sampler import Sampler
        from qdd.qdd_estimator import Estimator
        self.made = {}
        self.how = {"S": lambda: Sampler(skip_transpilation=True, run_options={"shots": None}), "N": lambda: Sampler(skip_transpilation=True, run_options={"shots": 6}),
                    "W": lambda: Sampler(skip_transpilation=True, run_options={"shots": None}, backend_options={"n_threads": 2}), "X": lambda: QddProvider().get_backend(),
                    "T": lambda: Sampler(run_options={"shots": None}),
                    "E": lambda: Estimator(skip_transpilation=True, approximation=True), "F": lambda: Estimator(skip_transpilation=True, run_options={"shots": 20}),
                    "B": lambda: QddProvider().get_backend(), "M": lambda: QddProvider().get_backend(), "V": lambda: QddProvider().get_backend("statevector_simulator")}

    def __getitem__(self, k):
        if k not in self.made:
            self.made[k] = self.how[k[0]]()
        return self.made[k]


OBS = {"Z": SparsePauliOp("Z"), "ZZ": SparsePauliOp.from_list([("ZZ", 1), ("XX", 0.5)]), "XIZ": SparsePauliOp.from_list([("XIZ", 1), ("IZI", -0.25)])}


def submit(o, spec):
    """Starts one job; returns a function that waits for its outcome.  A job that fails has its error for an outcome."""
    key, cn, *rest = spec
    cs = [C[x] for x in cn.split("+")]
    n = len(cs)

    def told(f):
        try:
            return f()
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    if key[0] in "SNTW":
        vals = [[rest[0]] if rest else []] * n
        j = o[key].run(cs, vals, **({"seed": 7} if key[0] == "N" else {}))
        return lambda: told(lambda: [{k: v for k, v in d.items() if v > 1e-9} for d in j.result().quasi_dists])
    if key[0] in "EF":
        vals = [[rest[1]] if len(rest) > 1 else []] * n
        j = o[key].run(cs, [OBS[rest[0]]] * n, vals, **({"seed": 7} if key[0] == "F" else {}))
        return lambda: told(lambda: [float(x) for x in j.result().values])
    if key[0] in "BX":
        r = o[key].run(cs, shots=5, seed_simulator=7, memory=True, **({"n_threads": 3} if key[0] == "X" else {})).result()
        out = [r.get_memory(i) for i in range(n)] if r.success else "failed: %s" % r.status
        return lambda: out
    if key[0] == "V":
        r = o[key].run(cs, shots=3).result()
        out = [[complex(x) for x in r.results[i].data.statevector] for i in range(n)] if r.success else "failed: %s" % r.status
        return lambda: out
    if key[0] == "M":               # merged, and used at once by the same thread
        from qdd.qdd_gate import QDDGate
        m = o[key].merge_circuit(cs[0])
        out = [[complex(x) for x in row] for row in m.getEigenMatrix(cs[0].num_qubits)]
        return lambda: out
    raise ValueError(key)


def expectation(spec):
    def make():
        o = Objects()
        return lambda: submit(o, spec)()
    pyQDD_reset()
    w = World({})
    with quiet():
        m = w.run(make())
    need(w.dead is None and m.error is None, lambda: "alone: %s %s" % (w.dead, m.error))
    return m.result


def scenario(specs, threads):
    """All jobs started, then all their outcomes read; `threads`: each by a thread of the program's own."""
    def make():
        o = Objects()
        for s in specs:
            o[s[0]]

        def fn():
            if threads:
                ts = [CThread(lambda s=s: submit(o, s)()) for s in specs]
                return {i: x.join() for i, x in enumerate(ts)}
            js = [submit(o, s) for s in specs]
            return {i: j() for i, j in enumerate(js)}
        return fn
    return make


KINDS = [("S1", "one"), ("S1", "loose"), ("S1", "par", 0.8), ("S2", "regs"), ("S1", "bad"), ("N1", "bell"), ("N1", "one+mid"), ("E1", "one-e", "Z"), ("E1", "par-e", "ZZ", 0.5), ("F1", "regs-e", "XIZ"), ("B1", "mid+one"), ("V1", "bell-e"), ("M1", "bell-e")]
FEW = {("S1", "one"), ("S2", "regs"), ("E1", "one-e", "Z"), ("N1", "bell")}
_exp = {}


def alone(s):
    if s not in _exp:
        _exp[s] = expectation(s)
    return _exp[s]


def go(specs, th, bound, split=False):
    exp = {i: alone(s) for i, s in enumerate(specs)}
    explore("%s: %s" % ("threads" if th else "jobs in flight", " and ".join(map(str, specs))), scenario(specs, th), exp, bound, split)


def pairs():
    """Two jobs, every kind with every kind, on the same object where they can be."""
    for a, b in itertools.product(KINDS, repeat=2):
        for th in (False, True):
            if th and (not QUICK and a > b or (a[0] == b[0] and a[0][0] in "SNEF")):
                continue        # one primitive called by two threads at a time is not claimed
            if QUICK and th and not any(k[0][0] in "BVM" for k in (a, b)) and not {a, b} <= FEW:
                continue        # their jobs have threads of their own either way
            if not th and a[0][0] in "BVM":
                continue        # these are over when the call returns
            if mine():
                go([a, b], th, 1)


def triples():
    """Three jobs; and jobs that the program has transpiled."""
    short = [("S1", "one"), ("S1", "loose"), ("N1", "mid"), ("E1", "one-e", "Z"), ("B1", "mid")]
    if not QUICK:
        short += [("S1", "bad"), ("F1", "one-e", "Z"), ("M1", "one-e")]
    for abc in itertools.product(short, repeat=3):
        if abc[0][0][0] in "BVM" or abc[1][0][0] in "BVM" or QUICK and len(set(abc)) < 3:
            continue
        if mine():
            go(list(abc), False, 1)


def two():
    """Up to two deviations."""
    global FREE
    FREE = 1
    for a, b in [(("S1", "one"), ("S1", "loose")), (("N1", "one"), ("N1", "one")), (("E1", "one-e", "Z"), ("S1", "one"))]:
        go([a, b], False, 2, True)


def transpiled():
    for a, b in itertools.product([("T1", "one"), ("T1", "bell"), ("T2", "par", 0.8)], repeat=2):
        if mine():
            go([a, b], False, 1)


def workers():
    """Jobs that use worker threads of the engine, with jobs that do not."""
    kinds = [("W1", "wide"), ("W2", "one"), ("X1", "wide"), ("S1", "wide"), ("W1", "bad")]
    for a, b in itertools.product(kinds, repeat=2):
        for th in (False, True):
            if th and a[0] == b[0] and a[0][0] in "WS" or not th and a[0][0] == "X" or not any(k[0][0] in "WX" for k in (a, b)):
                continue
            if mine():
                go([a, b], th, 1)


def main_():
    global C
    C = circuits()
    keep = os.dup(1)
    null = os.open("/dev/null", os.O_WRONLY)
    sys.stdout = os.fdopen(keep, "w")
    os.dup2(null, 1)            # collections report on the C++ standard output
    {"pairs": pairs, "triples": triples, "two": two, "transpiled": transpiled, "workers": workers}[A.part]()


_load = load


def load_():
    take_over()
    _load()
    import qdd.qdd_backend, qdd.qdd_sampler, qdd.qdd_estimator, qdd.qdd_provider
    watch_lines()


import common
common.load = load_
main(main_)
