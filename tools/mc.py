"""Orchestrator of the model checks: builds the explorers against /repo's working tree, runs their shards,
merges what they covered into evidence/<id>.json and reports violations."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(V, "build"))
OUT = os.environ.get("MC_OUT", os.path.join(V, "out"))
EVID = os.environ.get("MC_EVID", os.path.join(V, "evidence"))
NPROC = int(os.environ.get("MC_JOBS", "8"))
EIGEN = "/usr/include/eigen3"


class CheckError(Exception):
    pass


def sha(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_files(*pats):
    r = []
    for p in pats:
        r += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(x for x in set(r) if os.path.isfile(x))


def contents(files):
    out = []
    for f in files:
        out.append(f)
        with open(f, "rb") as fh:
            out.append(fh.read())
    return out


def built(name, key_parts, make):
    """Directory build/<name>-<hash of everything that goes in>, made by make(dir) if absent."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (name, sha(key_parts)))
    with open(os.path.join(BUILD, name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "OK")):
            for old in glob.glob(os.path.join(BUILD, name + "-*")):
                if os.path.isdir(old) and os.path.basename(old).rsplit("-", 1)[0] == name:
                    shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d)
            make(d)
            open(os.path.join(d, "OK"), "w").close()
    return d


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


HEADERS = ("include/*.h", "include/*.hpp")


def tables(nq, nb, alloc, alloc_cache):
    return ["-DQDD_VERIF_TABLES", "-DQDD_VERIF_NQUBITS=%d" % nq, "-DQDD_VERIF_NBUCKETS=%d" % nb,
            "-DQDD_VERIF_ALLOC=%d" % alloc, "-DQDD_VERIF_ALLOC_CACHE=%d" % alloc_cache]


SMALL = tables(12, 64, 16, 16)
CXX = ["-std=c++17", "-O1", "-g1", "-DNDEBUG", "-DEIGEN_DONT_VECTORIZE", "-w"]


def engine(variant, flags, h=V + "/h"):
    """dd.cpp of the working tree compiled for the explorers (and the flags an explorer needs to link it)."""
    fl = CXX + list(flags) + ["-include", h + "/mc_rng.h", "-I" + REPO + "/include", "-I" + EIGEN, "-I" + h]
    src = repo_files("src/dd.cpp", *HEADERS)
    key = contents(src + [h + "/mc_rng.h", h + "/mc_rng_impl.inc", h + "/rng.cpp"]) + fl

    def make(d):
        ps = [subprocess.Popen(["g++"] + fl + ["-c", s, "-o", d + "/" + o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
              for s, o in ((REPO + "/src/dd.cpp", "dd.o"), (h + "/rng.cpp", "rng.o"))]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot compile dd.cpp:\n" + o[-6000:])
    return built("dd-" + variant, key, make), fl


def explorer(name, variant, flags):
    d, fl = engine(variant, flags)
    h = V + "/h"
    src = [h + "/%s.cpp" % name, h + "/mc.hpp", h + "/ddx.hpp", h + "/mc_rng.h"]
    key = contents(src + [d + "/dd.o"]) + fl

    def make(e):
        run(["g++"] + fl + [src[0], d + "/dd.o", d + "/rng.o", "-o", e + "/x"])
    return built("%s-%s" % (name, variant), key, make) + "/x"


PY = "/opt/vp/venv/bin/python"
PYB = "/opt/vp/deps/pybind11-2.10.3/pybind11/include"


def pyinfo():
    return subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True).stdout.split()


def pysite(variant="py", flags=(), mt=False, h=V + "/h", own=(), sizes=(100, 8192, 64, 64)):
    """A site directory with the package of the working tree: its Python files and an extension built for the explorers."""
    flags = tables(*sizes) + list(flags)
    inc = pyinfo()
    fl = CXX + ["-fPIC", "-fvisibility=hidden"] + list(flags) + ["-include", h + "/mc_rng.h", "-I" + REPO + "/include", "-I" + EIGEN, "-I" + PYB, "-I" + inc[0]]
    src = repo_files("src/dd.cpp", "qdd/bindings.cpp", *(["src/task.cpp"] if mt else []), *HEADERS)
    mts = [(REPO + "/src/task.cpp", "task.o", [])] if mt else []
    mts += [(f, os.path.basename(f) + ".o", []) for f in own if f.endswith(".cpp")]
    key = contents(src + list(own) + [h + "/mc_rng.h", h + "/mc_rng_impl.inc", h + "/rng.cpp"]) + fl

    def make(d):
        ps = [subprocess.Popen(["g++"] + fl + x + ["-c", s, "-o", d + "/" + o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
              for s, o, x in ((REPO + "/src/dd.cpp", "dd.o", []), (REPO + "/qdd/bindings.cpp", "bind.o", []), (h + "/rng.cpp", "rng.o", ["-fvisibility=default"])) + tuple(mts)]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot compile the extension:\n" + o[-6000:])
        run(["g++", "-shared", d + "/dd.o", d + "/bind.o", d + "/rng.o"] + [d + "/" + o for _, o, _ in mts] + ["-o", d + "/pyQDD" + inc[1]] + (["-lboost_fiber", "-lboost_context", "-ltbb", "-lpthread"] if mt else ["-lboost_serialization"] if own else []))
    ext = built("ext-" + variant, key, make)
    pys = repo_files("qdd/*.py")

    def make2(d):
        os.makedirs(d + "/qdd")
        for f in pys:
            shutil.copy(f, d + "/qdd/")
        shutil.copy(ext + "/pyQDD" + inc[1], d + "/qdd/")
    return built("site-" + variant, contents(pys + [ext + "/pyQDD" + inc[1]]), make2)


def tinysite():
    """Tables so small that collecting after every gate costs nothing."""
    return pysite("pytiny", sizes=(8, 64, 16, 16))


def tinymtsite():
    return pysite("pytinymt", ["-DisMT"], mt=True, sizes=(8, 64, 16, 16))


def crowdedsite():
    """Few buckets, so that nodes collide."""
    return pysite("pycrowd", sizes=(100, 8, 64, 64))


def mtsite():
    return pysite("pymt", ["-DisMT"], mt=True)


def mpisite(h=V + "/h"):
    """The package built for MPI, over message passing between processes of our own."""
    return pysite("pympi", ["-DisMPI", "-fno-gnu-unique", "-I" + h + "/mpishim", "-I" + h], own=[h + "/pyworld.cpp"] + sorted(glob.glob(h + "/mpishim/**/*.hpp", recursive=True)))


def mpiworld(h=V + "/h"):
    """The engine built for MPI: eight copies for the explorer's own message passing, the explorer, and a driver for real MPI."""
    fl = [f for f in CXX if f != "-DNDEBUG"] + ["-DisMPI"] + SMALL + ["-include", h + "/mc_rng.h"]
    inc = ["-I" + REPO + "/include", "-I" + EIGEN, "-I" + h]
    own = fl + ["-fPIC", "-fvisibility=hidden", "-fno-gnu-unique", "-I" + h + "/mpishim"] + inc
    hs = [h + "/" + f for f in ("mc.hpp", "mc_rng.h", "mpiprog.hpp", "mpirank.cpp", "mpiref.hpp", "mpix.cpp", "mpireal.cpp")]
    hs += sorted(glob.glob(h + "/mpishim/**/*.hpp", recursive=True))
    key = contents(repo_files("src/dd.cpp", *HEADERS) + hs) + own

    def make(d):
        real = ["mpicxx"] + fl + inc
        dd = REPO + "/src/dd.cpp"
        ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, OMPI_CXX="g++")) for c in (
            ["g++"] + own + ["-c", dd, "-o", d + "/d.o"], ["g++"] + own + ["-c", h + "/mpirank.cpp", "-o", d + "/r.o"],
            ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I" + h, h + "/mpix.cpp", "-o", d + "/x", "-ldl"],
            real + ["-c", dd, "-o", d + "/rd.o"], real + ["-c", h + "/mpireal.cpp", "-o", d + "/rr.o"])]
        for p in ps:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError("cannot compile the engine for MPI:\n" + o[-6000:])
        run(["g++", "-shared", "-Wl,-Bsymbolic", d + "/r.o", d + "/d.o", "-o", d + "/rank0.so", "-lboost_serialization"])
        for i in range(1, 8):
            shutil.copy(d + "/rank0.so", d + "/rank%d.so" % i)
        run(["mpicxx", d + "/rr.o", d + "/rd.o", "-o", d + "/real", "-lboost_mpi", "-lboost_serialization"])
    return built("mpi", key, make)


def build_all(cmds, what):
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    outs = [p.communicate()[0] for p in ps]
    for p, o in zip(ps, outs):
        if p.returncode:
            raise CheckError("cannot compile %s:\n%s" % (what, o[-6000:]))


def mtflags(h):
    return CXX + ["-DisMT"] + tables(8, 8, 8, 8) + ["-include", h + "/mc_rng.h", "-I" + h, "-I" + REPO + "/include", "-I" + EIGEN]


def mtworld(h=V + "/h"):
    """The multi-threaded engine on the explorer's own fibers and worker threads (h/mtshim), every access to memory reported."""
    fl = ["-fno-pie"] + mtflags(h) + ["-DMC_MTSHIM", "-femulated-tls", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-I" + h + "/mtshim"]
    own = ["g++", "-fno-pie", "-std=c++17", "-g1", "-w", "-I" + h]
    hs = [h + "/" + f for f in ("mc.hpp", "mc_rng.h", "mpiprog.hpp", "mpiref.hpp", "mtprog.cpp", "mtprog.hpp", "mtrt.cpp", "mtrt.hpp", "mtx.cpp")]
    hs += sorted(glob.glob(h + "/mtshim/**/*.hpp", recursive=True))

    def make(d):
        build_all([["clang++"] + fl + ["-c", REPO + "/src/dd.cpp", "-o", d + "/dd.o"], ["clang++"] + fl + ["-c", h + "/mtprog.cpp", "-o", d + "/prog.o"],
                   own + ["-O2", "-c", h + "/mtrt.cpp", "-o", d + "/rt.o"], own + ["-O1", "-c", h + "/mtx.cpp", "-o", d + "/main.o"]], "the engine for the explorer's threads")
        run(["g++", "-no-pie", d + "/prog.o", d + "/dd.o", d + "/rt.o", d + "/main.o", "-o", d + "/x"])
    return built("mt", contents(repo_files("src/dd.cpp", *HEADERS) + hs) + fl, make)


def mtrealworld(h=V + "/h"):
    """The multi-threaded engine as it is, with its real threads, run one at a time in the order the explorer wants."""
    fl = mtflags(h)
    ts = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-mllvm", "-tsan-instrument-memintrinsics=0"]
    py = ["-I" + PYB, "-I" + pyinfo()[0]]
    own = ["g++", "-std=c++17", "-g1", "-w", "-I" + h]
    hs = [h + "/" + f for f in ("mc.hpp", "mc_rng.h", "mpiprog.hpp", "mpiref.hpp", "mtprog.cpp", "mtprog.hpp", "mtbaton.cpp", "mtbaton.hpp", "mtreal.cpp")]

    def make(d):
        cc = ["clang++"] + fl + ts
        build_all([cc + ["-c", REPO + "/src/dd.cpp", "-o", d + "/dd.o"], cc + ["-c", REPO + "/src/task.cpp", "-o", d + "/task.o"], cc + ["-c", h + "/mtprog.cpp", "-o", d + "/prog.o"],
                   ["g++", "-fPIC"] + fl + py + ["-c", REPO + "/qdd/bindings.cpp", "-o", d + "/bind.o"],
                   own + ["-O2", "-c", h + "/mtbaton.cpp", "-o", d + "/bat.o"], own + ["-O1", "-c", h + "/mtreal.cpp", "-o", d + "/main.o"]], "the engine with its real threads")
        run(["g++", "-no-pie"] + [d + "/%s.o" % n for n in ("prog", "dd", "task", "bind", "bat", "main")] + ["-o", d + "/x"] +
            ["-lboost_fiber", "-lboost_context", "-ltbb", "-ldl", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"])
    return built("mtreal", contents(repo_files("src/dd.cpp", "src/task.cpp", "qdd/bindings.cpp", *HEADERS) + hs) + fl + ts, make)


# ---------------------------------------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(line)
    return out


def known_keys(prop):
    """[key] in square brackets right after the property identifies the failing item."""
    ks = {}
    for l in known(prop):
        rest = l.split(" ", 2)[2]
        if rest.startswith("[") and "]" in rest:
            ks[rest[1:rest.index("]")]] = l
    return ks


# ---------------------------------------------------------------------------------------------- running
class Job:
    def __init__(self, name, cmd, env=None, wall=800, cwd=None, weight=1):
        self.name, self.cmd, self.env, self.wall, self.cwd, self.weight = name, cmd, env, wall, cwd, weight


def run_jobs(prop, tier, jobs, nproc=NPROC, max_fail=1):
    """Runs the shards.  A shard exits 0 (writes its partial result), 1 (printed a VIOLATION line)."""
    work = os.path.join(OUT, "%s.%d" % (prop, os.getpid()))
    replay = os.path.join(OUT, "replay")
    os.makedirs(work, exist_ok=True)
    os.makedirs(replay, exist_ok=True)
    for f in glob.glob(replay + "/%s.*" % prop):
        os.unlink(f)
    stop = threading.Event()
    res, viol, errs, kf = [], [], [], set()
    lock = threading.Lock()

    def one(j):
        if stop.is_set():
            return
        out = os.path.join(work, j.name + ".json")
        cmd = [c.replace("@OUT@", out).replace("@REPLAY@", replay).replace("@WORK@", work) for c in j.cmd]
        env = dict(os.environ)
        env.update(j.env or {})
        log = os.path.join(work, j.name + ".log")
        t0 = time.time()
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=j.cwd or work, start_new_session=True)
            try:
                while True:
                    try:
                        p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        if stop.is_set() or time.time() - t0 > j.wall:
                            raise
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "stopped" if stop.is_set() else "timeout"
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        text = open(log, errors="replace").read()
        with lock:
            for l in text.splitlines():
                if l.startswith("KNOWN-FINDING:"):
                    kf.add(l)
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                r["_job"] = j.name
                r["_wall"] = time.time() - t0
                res.append(r)
            elif rc == 1 and "VIOLATION property=" in text:
                viol.append(text)
                if len(viol) >= max_fail:
                    stop.set()
            elif rc != "stopped":
                errs.append("shard %s ended with %s\n%s" % (j.name, rc, text[-3000:]))
    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(work, ignore_errors=True)
    return res, viol, errs, kf


def merge(res):
    cov = {}
    samples = []
    for r in sorted(res, key=lambda r: r["_job"]):
        for k, v in r.items():
            if k.startswith("_"):
                continue
            if k == "samples":
                for s in v[-2:]:
                    if len(samples) < 12 and s not in samples:
                        samples.append(s)
            elif k.startswith("max_"):
                cov[k] = max(cov.get(k, 0), v)
            elif isinstance(v, (int, float)):
                cov[k] = cov.get(k, 0) + v
    cov["samples"] = samples or ["(none)"]
    return cov


def conclude(prop, tier, level, t0, res, viol, errs, kf, extra_cov=None, assumptions=()):
    cov = merge(res)
    for k in ("states", "transitions", "traces_validated_against_impl"):
        cov.setdefault(k, 0)
    cov.update(extra_cov or {})
    cov["shards"] = len(res)
    for l in sorted(kf):
        print(l)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(EVID, exist_ok=True)
    tmp = EVID + "/.%s.%d" % (prop, os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, EVID + "/%s.json" % prop)
    if viol:
        shown = False
        for t in viol:
            for l in t.splitlines():
                if "VIOLATION" in l:
                    if l.startswith("VIOLATION property=%s " % prop):
                        if shown:
                            continue
                        shown = True
                    print(l[:2000])
        if not shown:
            print("VIOLATION property=%s replay=none" % prop)
        return 1
    if errs:
        for e in errs[:3]:
            print("ERROR " + e)
        return 2
    print("%s %s: states=%d transitions=%d validated=%d in %.1fs" % (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0
