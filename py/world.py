"""Several ranks, a process each, running the package built for MPI; a command is carried out by all of them."""
import ctypes, pickle, socket, sys, types
from multiprocessing import Pipe
import common
from common import *


class Comm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def bcast(self, obj, root=0):
        b = pickle.dumps(obj) if self.rank == root else b""
        o, n = ctypes.c_void_p(), ctypes.c_size_t()
        if common.LIB.mcw_bcast(b, len(b), root, ctypes.byref(o), ctypes.byref(n)):
            raise RuntimeError("the broadcast does not come about")
        return obj if self.rank == root else pickle.loads(ctypes.string_at(o, n.value))

    def barrier(self):
        if common.LIB.mcw_barrier():
            raise RuntimeError("the barrier does not come about")

    Barrier = barrier


def join(rank, size, fds):
    L = common.LIB
    L.mcw_finish.restype = ctypes.c_char_p
    L.mcw_bcast.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
    L.mcw_init(rank, size, (ctypes.c_int * size)(*fds))
    m, mpi = types.ModuleType("mpi4py"), types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = Comm(rank, size)
    m.MPI = mpi
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = m, mpi


class World:
    """All ranks: self.run(fn name, argument) has every rank carry out the function and returns (results, complaint)."""

    def __init__(self, size, functions):
        self.size, self.fns, self.pipes, self.pids = size, functions, [], []
        mesh = [[-1] * size for _ in range(size)]
        keep = []
        for a in range(size):
            for b in range(a + 1, size):
                s, t = socket.socketpair()
                keep += [s, t]
                mesh[a][b], mesh[b][a] = s.fileno(), t.fileno()
        for r in range(size):
            me, it = Pipe()
            pid = os.fork()
            if pid == 0:
                me.close()
                for p in self.pipes:
                    p.close()
                for a in range(size):
                    for b in range(size):
                        if a != r and mesh[a][b] >= 0:
                            os.close(mesh[a][b])
                try:
                    self.serve(r, it, mesh[r])
                except (EOFError, BrokenPipeError, KeyboardInterrupt):
                    pass
                except BaseException:
                    import traceback
                    traceback.print_exc()
                os._exit(0)
            it.close()
            self.pipes.append(me)
            self.pids.append(pid)
        for s in keep:
            s.close()

    def serve(self, rank, pipe, fds):
        join(rank, self.size, fds)
        while True:
            name, arg, script, default = pipe.recv()
            arm(script[rank] if script else [], default[rank] if default else 0.25)
            try:
                r = ("ok", self.fns[name](rank, self.size, arg))
            except Exception as e:
                r = ("exception", "%s: %s" % (type(e).__name__, str(e)[:300]))
            d = draws()
            disarm()
            w = common.LIB.mcw_finish().decode()
            pipe.send((r, d, w))

    def run(self, name, arg, script=None, default=None):
        out = []
        for p in self.pipes:
            p.send((name, arg, script, default))
        for r, p in enumerate(self.pipes):
            try:
                if not p.poll(300):
                    fail("rank %d does not come back" % r)
                out.append(p.recv())
            except (EOFError, ConnectionResetError):
                fail("rank %d died: %s" % (r, os.waitpid(self.pids[r], 0)[1]))
        for r, (_, _, w) in enumerate(out):
            if w:
                fail("rank %d: %s (%s)" % (r, w, [o[0] if o[0][0] != "ok" else "ok" for o in out]))
        return [o[0] for o in out], [o[1] for o in out]

    def all_scripts(self, name, arg, alphabets, limit=1 << 14):
        """Every execution over all values of all draws of all ranks: yields (weight, results)."""
        stack, seen, n = [[[] for _ in range(self.size)]], set(), 0
        while stack:
            s = stack.pop()
            res, d = self.run(name, arg, s, [a[0] for a in alphabets])
            full = [s[r] + [alphabets[r][0]] * (d[r] - len(s[r])) for r in range(self.size)]
            for r in range(self.size):
                for i in range(len(s[r]), d[r]):
                    for a in alphabets[r][1:]:
                        stack.append([full[q] if q < r else full[q][:i] + [a] if q == r else s[q] for q in range(self.size)])
            used = tuple(tuple(full[r][:d[r]]) for r in range(self.size))
            if used in seen:
                continue
            seen.add(used)
            n += 1
            if n > limit:
                raise RuntimeError("too many executions")
            yield 1.0 / math.prod(len(alphabets[r]) ** d[r] for r in range(self.size)), res

    def close(self):
        for p in self.pipes:
            p.close()
        for p in self.pids:
            os.waitpid(p, 0)
