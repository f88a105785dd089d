import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C27", rule="random settings written to gen.vext, DOS.input and Slurm scripts (fresh files and files replaced in place), read back by an independent parser; scripts also through bash; distinct by (file, settings)",
          need={"vext": 200, "vext_types": 3, "dos": 200, "dos_defaults": 20, "jobs": 200, "unset": 100, "commands": 100, "replaced": 200, "scripts_run": 20, "refused": 30, "zero_gpus": 5})


def work(mon):
    import subprocess
    import numpy as np
    from matersdk.io.pwmat.input.gen_vext import GenVext
    from matersdk.io.pwmat.input.dos_input import DosInput
    from matersdk.hpc.slurm.job import Job

    def num(rng):
        t = int(rng.integers(0, 5))
        if t == 0:
            return int(rng.integers(-3, 4))
        if t == 1:
            return float(rng.normal() * 10.0 ** rng.integers(-12, 8))
        return [0.5, 0.0, 1e-5, -0.25, 1 / 3][int(rng.integers(0, 5))]

    def before(rng, path):
        if rng.random() < 0.5:
            open(path, "w").write("an older and much longer file\n" * 40)
            mon.hit("replaced")
        elif os.path.exists(path):
            os.remove(path)

    types = set()

    def vext(rng, k):
        path = os.path.join(mon.scratch, "gen.vext")
        before(rng, path)
        t = int(rng.integers(1, 4))
        ctr, det, add = [num(rng) for _ in range(3)], [num(rng) for _ in range({1: 3, 2: 6, 3: 2}[t])], bool(rng.integers(0, 2))
        what = "center %r type %d add %r detail %r" % (ctr, t, add, det)
        mon.sample(what)
        g = GenVext(ctr, t, add, *det)
        g.to(path)
        d, ok = {}, True
        txt = open(path).read()
        for l in txt.splitlines():
            k_, eq, v = l.partition("=")
            ok = ok and eq == "=" and k_.strip() not in d
            d[k_.strip()] = v.split()
        mon.check(ok and set(d) == {"VR_CENTER", "VR_TYPE", "VR_DETAIL", "ADD_VR"}, "vext:keys", lambda: "%r: %s" % (txt, what))
        mon.check([float(v) for v in d.get("VR_CENTER", [])] == [float(v) for v in ctr], "vext:center", lambda: "%r: %s" % (txt, what))
        mon.check(d.get("VR_TYPE") == [str(t)], "vext:type", lambda: "%r: %s" % (txt, what))
        mon.check([float(v) for v in d.get("VR_DETAIL", [])] == [float(v) for v in det], "vext:detail", lambda: "%r: %s" % (txt, what))
        mon.check(d.get("ADD_VR") == ["T" if add else "F"], "vext:add", lambda: "%r: %s" % (txt, what))
        mon.check(g.vr_center == ctr and g.vr_type == t and g.add_vr == add and list(g.as_param_lst) == det, "vext:object", what)
        mon.hit("vext")
        mon.hit("vext_types", t not in types)
        types.add(t)
        bad = int(rng.choice([0, 4, -1, 7]))
        try:
            GenVext(ctr, bad, add, *det)
            mon.fail("vext:bad-type", "type %d is accepted" % bad)
        except (AssertionError, ValueError):
            mon.hit("refused")
        mon.sig("vext", t, add, tuple(map(float, ctr)), tuple(map(float, det)))

    def dos(rng, k):
        path = os.path.join(mon.scratch, "DOS.input")
        before(rng, path)
        a, m, s, n = int(rng.integers(0, 2)), int(rng.integers(0, 2)), float(np.round(rng.uniform(0.001, 2), int(rng.integers(2, 6)))), int(rng.choice([1, 100, 4000, 20000, 123456]))
        grid = [int(v) for v in rng.integers(1, 30, size=3)]
        kw = {"mark_atoms": a, "mark_method": m, "ismear": s, "num_energies": n, "grid_interp": grid}
        want = dict(mark_atoms=0, mark_method=0, ismear=0.04, num_energies=4000, grid_interp=[6, 6, 6])
        if rng.random() < 0.3:
            kw = {q: v for q, v in kw.items() if rng.random() < 0.5}
            mon.hit("dos_defaults")
        want.update(kw)
        DosInput(**kw).to(path)
        L = open(path, encoding="utf-8").read().splitlines()
        what = "%r: %r" % (kw, L)
        if mon.check(len(L) == 5, "dos:lines", what):
            V = [l.split("#")[0].split() for l in L]
            mon.check(V[0] == [str(want["mark_atoms"])], "dos:atoms", what)
            mon.check(V[1] == [str(want["mark_method"])], "dos:method", what)
            mon.check(len(V[2]) == 2 and abs(float(V[2][0]) - want["ismear"]) < 5.1e-6 and V[2][1] == str(want["num_energies"]), "dos:smearing", what)
            mon.check(V[3] == [str(v) for v in want["grid_interp"]], "dos:grid", what)
            mon.check(V[4] == ["0"], "dos:tddft", what)
        mon.hit("dos")
        mon.sig("dos", str(sorted(want.items())))

    OPT = [("partition", "--partition="), ("name", "--job-name="), ("num_nodes", "--nodes="), ("num_tasks_per_node", "--ntasks-per-node="),
           ("threads_per_core", "--threads-per-core="), ("num_gpus", "--gres=gpu:"), ("num_gpus_per_task", "--gpus-per-task=")]

    def job(rng, k):
        v = {"partition": str(rng.choice(["cpu", "gpu-a100", "3080ti"])), "name": str(rng.choice(["relax", "scf_1", "MoS2-md", "x", "Li0.5Si.cfg", "0", "%d" % int(rng.integers(0, 10**9)),
                                                                                                                   "run_" + "".join(rng.choice(list("abcXYZ019_-.+="), int(rng.integers(20, 120))))]))}
        for q, _ in OPT[2:]:
            v[q] = int(rng.integers(1, 65)) if rng.random() < 0.8 else int(rng.choice([0, 0, 1, 128, 1000, 4096]))
        if v["num_gpus"] == 0:
            mon.hit("zero_gpus")
        if rng.random() < 0.5:
            for q, _ in OPT:
                if rng.random() < 0.3:
                    v[q] = None
                    mon.hit("unset")
        mark = "ran %d" % int(rng.integers(0, 10**6))
        lines = ["echo %s" % mark] if rng.random() < 0.5 else ["cd .", "X=1", "echo %s" % mark]
        cmd = "\n".join(lines)

        class J(Job):
            def attach_command(self):
                return cmd
        own = bool(rng.random() < 0.7)
        sub = os.path.join(mon.scratch, "sub")
        os.makedirs(sub, exist_ok=True)
        path = os.path.join(sub, "job.sh")
        before(rng, path)
        arg = path if rng.random() < 0.5 else "job.sh"
        os.chdir(sub)
        try:
            (J if own else Job)(**v).to(arg)
        finally:
            os.chdir(mon.scratch)
        txt = open(path).read()
        what = "%r command %r: %r" % (v, cmd if own else None, txt)
        L = txt.splitlines()
        mon.check(L[:1] == ["#!/bin/bash"], "job:shebang", what)
        dirs = [l[len("#SBATCH "):].strip() for l in L if l.startswith("#SBATCH ")]
        want = [o + str(v[q]) for q, o in OPT if v[q] is not None]
        mon.check(sorted(dirs) == sorted(want), "job:directives", lambda: "expected %s, got %s: %s" % (want, dirs, what))
        rest = [l for l in L[1:] if l.strip() and not l.startswith("#")]
        mon.check(rest == (lines if own else []), "job:command", what)
        first = next((i for i, l in enumerate(L) if l.strip() and not l.startswith("#")), len(L))
        mon.check(all(i < first for i, l in enumerate(L) if l.startswith("#SBATCH")), "job:directive-after-command", what)
        if own and rng.random() < 0.3:
            r = subprocess.run(["bash", "job.sh"], cwd=sub, capture_output=True, text=True, timeout=60)
            mon.check(r.returncode == 0 and r.stdout.strip() == mark and not r.stderr, "job:runs", lambda: "%s: %s" % (r, what))
            mon.hit("scripts_run")
        mon.hit("jobs"); mon.hit("commands", own)
        mon.sig("job", str(v), own)

    T = mon.thorough
    mon.run("vext", 8000 if T else 600, vext)
    mon.run("dos", 8000 if T else 600, dos)
    mon.run("job", 4000 if T else 400, job)


c.main(lambda k: k.run_py("inputs", work))
