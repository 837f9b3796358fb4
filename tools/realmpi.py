#!/usr/bin/env python3
"""Runs the programs on real MPI processes, 2 and 4 of them: realmpi.py DRIVER OUT PART PROP TIER REPLAY."""
import json, os, shutil, subprocess, sys, tempfile
driver, out, part, prop, tier, replay = sys.argv[1:]
res = {"states": 0, "transitions": 0, "evaluations": 0, "traces_validated_against_impl": 0, "programs_on_real_mpi": 0, "samples": []}
env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_mpi_yield_when_idle="1", MC_REEXEC="1")
for np in (2, 4):
    failed = 0
    for attempt in range(4):
        tmp = tempfile.mkdtemp(prefix="mpi", dir="/tmp")   # session directory: the path must be short
        env["TMPDIR"] = tmp
        o = out + ".%d" % np
        started = os.path.join(tmp, "started")
        p = subprocess.run(["mpirun", "--oversubscribe", "--mca", "btl", "self,vader", "--mca", "orte_tmpdir_base", tmp, "-np", str(np), driver, "--prop", prop,
                            "--name", "real%s%d" % (part, np), "--tier", tier, "--out", o, "--replay-dir", replay, "--part", part, "--save", o + ".saved", "--started", started],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        up = os.path.exists(started)
        shutil.rmtree(tmp, ignore_errors=True)
        if "VIOLATION property=" in p.stdout:
            print(p.stdout)
            sys.exit(1)
        if p.returncode == 0 and os.path.exists(o):
            r = json.load(open(o))
            for k in res:
                if k != "samples":
                    res[k] += r[k]
            break
        failed += up
        if failed > 1:   # the processes ran, but did not come to their end
            print(p.stdout[-3000:])
            print("VIOLATION property=%s replay=none" % prop)
            sys.exit(1)
    else:
        res["real_mpi_did_not_start"] = 1
        print(p.stdout[-3000:])
json.dump(res, open(out, "w"))
