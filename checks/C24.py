import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C24", rule="random REPORT and OUT.FERMI files (any number of bands and k-points, one or two spins, metals and semiconductors, degenerate and k-shared band edges) written by an independent writer and overwritten in place between readings; "
          "distinct by (spins, bands, k-points, kind, degeneracies)",
          assumptions=["the Fermi level lies at least 0.01 eV from every band edge, or 0.0003 eV where it is a multiple of 0.001 eV (OutFermi rounds it to 0.001 eV)"],
          need={"reports": 300, "two_spins": 80, "metals": 50, "semiconductors": 150, "shared_edges": 80, "direct": 30, "indirect": 80, "overwritten": 250, "ragged_last_line": 100, "full_last_line": 20, "large_reports": 15, "fine_energies": 150, "core_states": 40, "edges_at_fermi": 100, "barely_crossing": 10})


def work(mon):
    import numpy as np
    import pwmat
    from matersdk.io.pwmat.output.report import Report
    from matersdk.io.pwmat.output.outfermi import OutFermi

    def one(rng, k):
        d = mon.scratch
        rp, fp = os.path.join(d, "REPORT"), os.path.join(d, "OUT.FERMI")
        mon.hit("overwritten", os.path.exists(rp))
        nk, nb, ns = int(rng.integers(1, 9)), int(rng.integers(2, 17)), int(rng.integers(1, 3))
        if rng.random() < 0.04:
            nk, nb = int(rng.integers(9, 130)), int(rng.integers(5, 70))
            mon.hit("large_reports")
        nv = [int(rng.integers(1, nb)) for _ in range(ns)]
        if ns == 2 and rng.random() < 0.5:
            nv[1] = nv[0]
        ef = float("%.4f" % rng.uniform(-5, 8))
        g0 = 0.01                                 # the smallest distance of a state from the Fermi level
        if rng.random() < 0.4:
            ef, g0 = round(ef, 3), 0.0003
            mon.hit("edges_at_fermi")
        metal = bool(rng.random() < 0.25)
        E = np.zeros((ns, nk, nb))
        for q in range(ns):
            for i in range(nk):
                lo = -np.sort(rng.uniform(g0, 20, nv[q]))[::-1]
                hi = np.sort(rng.uniform(g0, 20, nb - nv[q]))
                E[q, i] = np.concatenate([lo, hi])
        dg = int(rng.choice([2, 4])) if g0 == 0.01 else 4               # edges as close as the file can tell apart
        mon.hit("fine_energies", dg == 4)
        E = np.round(E, dg)
        E[np.abs(E) < g0] = g0
        core = float(rng.choice([0, 0, 0, 1500]))
        for q in range(ns):
            for i in range(nk):
                E[q, i, :nv[q]] = -np.abs(E[q, i, :nv[q]]); E[q, i, nv[q]:] = np.abs(E[q, i, nv[q]:])
        if rng.random() < 0.5:                    # shared edges: repeated values at one k-point
            q, i = int(rng.integers(0, ns)), int(rng.integers(0, nk))
            if dg == 4:
                E = np.where(np.abs(E) < g0 + 0.002, np.sign(E) * (g0 + 0.002), E)
            t = rng.random()
            if t < 0.6:
                m = min(int(rng.integers(1, 4)), nb - nv[q])
                E[q, i, nv[q]:nv[q] + m] = g0
                if ns == 2 and rng.random() < 0.5:
                    E[1 - q, i, nv[1 - q]] = g0
            if t > 0.4:
                m = min(int(rng.integers(1, 4)), nv[q])
                E[q, i, nv[q] - m:nv[q]] = -g0
                if ns == 2 and rng.random() < 0.5:
                    E[1 - q, i, nv[1 - q] - 1] = -g0
        E = np.sort(E, axis=2)
        if metal:
            if nk == 1:
                nk, E = 2, np.concatenate([E, E], axis=1)
            q = int(rng.integers(0, ns))
            if g0 < 0.01 and rng.random() < 0.5:  # a flat band that only just crosses
                E[q, :, nv[q] - 1] = -0.0003; E[q, int(rng.integers(0, nk)), nv[q] - 1] = 0.0003
                mon.hit("barely_crossing")
            else:
                E[q, int(rng.integers(0, nk))] = np.sort(np.abs(E[q, 0]) + 0.02)     # at one k-point every state of this spin is empty
            metal = bool(any((E[q, :, b] < 0).any() and (E[q, :, b] > 0).any() for q in range(ns) for b in range(nb)))
        if core and not metal and min(nv) > 1:
            E[:, :, 0] -= core
            mon.hit("core_states")
        E = np.round(np.round(E, dg) + ef, 4)
        name = str(rng.choice(["atom.config", "final.config", "a b.config".replace(" ", "_")]))
        txt = " * PWmat job *\n PRECISION =    AUTO\n IN.ATOM %s %s\n JOB = NONSCF\n" % (str(rng.choice(["=", " = "])), name)
        order = [" NUM_BAND%s=%s%d\n" % (pwmat.sp(rng), pwmat.sp(rng), nb), " NUM_KPT %s=%s%d\n" % (pwmat.sp(rng), pwmat.sp(rng), nk), " SPIN = %d\n" % ns, " ECUT = 50.0\n"]
        for j in rng.permutation(4):
            txt += order[j]
        w = int(rng.integers(9 if not core else 12, 14))
        for q in range(ns):
            for i in range(nk):
                txt += " kpoint= %d  (x,y,z)= %.4f %.4f %.4f\n err of each states, A.U\n 0.12E-04  0.3E-05\n eigen energies, in eV\n" % (i + 1, *rng.random(3))
                for b in range(0, nb, 5):
                    txt += "".join("%*.4f" % (w, v) for v in E[q, i, b:b + 5]) + "\n"
        mon.hit("ragged_last_line" if nb % 5 else "full_last_line")
        with open(rp, "w") as g:
            g.write(txt)
        with open(fp, "w") as g:
            g.write(str(rng.choice([" Fermi Energy=   %.4f eV\n", "   E_Fermi(eV)=  %.4f   eV\n second line 3.0 eV\n", " fermi  level  %.4f  (eV)\n"])) % ef)
        what = "E_F %.4f spins %d k-points %d bands %d energies %s" % (ef, ns, nk, nb, E.tolist())
        r = Report(report_path=rp)
        mon.check(r.get_num_bands() == nb, "num_bands", lambda: "%s, file says %d: %s" % (r.get_num_bands(), nb, what))
        mon.check(r.get_num_kpts() == nk, "num_kpts", lambda: "%s, file says %d: %s" % (r.get_num_kpts(), nk, what))
        mon.check(r.get_in_atom() == name, "in_atom", lambda: "%s, file says %s" % (r.get_in_atom(), name))
        mon.check(abs(OutFermi(out_fermi_path=fp).get_efermi() - ef) <= 5.1e-4, "efermi", lambda: "%s, file says %s" % (OutFermi(out_fermi_path=fp).get_efermi(), ef))
        e = r.get_eigen_energies()
        up, dn = np.asarray(e["up"]), np.asarray(e["down"])
        mon.check(up.shape == (nk, nb) and np.array_equal(up, E[0]), "eigen:up", lambda: "%s: %s" % (up.tolist(), what))
        if ns == 2:
            mon.check(dn.shape == (nk, nb) and np.array_equal(dn, E[1]), "eigen:down", lambda: "%s: %s" % (dn.tolist(), what))
        else:
            mon.check(dn.size == 0, "eigen:no-down", lambda: "%s: %s" % (dn.tolist(), what))
        mon.hit("reports"); mon.hit("two_spins", ns == 2)
        cb, vb = r.get_cbm(out_fermi_path=fp), r.get_vbm(out_fermi_path=fp)
        if metal:
            mon.hit("metals")
            mon.check(cb is None and vb is None, "metal:edges", lambda: "%s %s: %s" % (cb, vb, what))
            g = r.get_bandgap(out_fermi_path=fp)
            mon.check(g == 0, "metal:gap", lambda: "%s: %s" % (g, what))
            return
        if not ((E > ef).any() and (E < ef).any()):
            return
        if not mon.check(cb is not None and vb is not None, "semiconductor:edges", lambda: "%s %s: %s" % (cb, vb, what)):
            return
        mon.hit("semiconductors")
        uniq = True
        ks = []
        edge = []
        for tag, got, states, pick in (("cbm", cb, E > ef, np.min), ("vbm", vb, E < ef, np.max)):
            x = float(pick(E[states]))
            edge.append(x)
            at = np.argwhere(np.abs(E - x) < 1e-9)
            kk = sorted(set(int(a[1]) for a in at))
            ks.append(kk)
            uniq = uniq and len(kk) == 1
            n = len(got["energies"])
            if not mon.check(n >= 1 and all(len(got[f]) == n for f in ("kpts", "bands", "spins")), tag + ":lists", lambda: "%s: %s" % (got, what)):
                return
            mon.check(all(abs(v - x) < 1e-6 for v in got["energies"]), tag + ":energy", lambda: "%s, expected %s: %s" % (got, x, what))
            st = list(zip([int(v) for v in got["kpts"]], [int(v) for v in got["bands"]], got["spins"]))
            k0 = st[0][0]
            want = sorted((int(a[1]) + 1, int(a[2]) + 1, ["up", "down"][int(a[0])]) for a in at if a[1] + 1 == k0)
            near = sorted((int(a[1]) + 1, int(a[2]) + 1, ["up", "down"][int(a[0])]) for a in np.argwhere(np.abs(E - x) < 0.0010001) if a[1] + 1 == k0)
            mon.check(k0 - 1 in kk and len(set(st)) == len(st) and set(want) <= set(st) <= set(near), tag + ":states", lambda: "%s, expected %s: %s" % (sorted(st), want or [(int(a[1]) + 1, int(a[2]) + 1) for a in at], what))
            mon.hit("shared_edges", len(want) > 1)
        g = r.get_bandgap(out_fermi_path=fp)
        mon.check(abs(g - (edge[0] - edge[1])) < 1e-6, "gap", lambda: "%s, expected %s: %s" % (g, edge[0] - edge[1], what))
        if uniq:
            t = r.get_bandgap_type(out_fermi_path=fp)
            direct = ks[0] == ks[1]
            mon.check(t == int(direct), "gap-type", lambda: "%s for k-points %s: %s" % (t, ks, what))
            mon.hit("direct" if direct else "indirect")
        mon.sig(ns, nb, nk, metal, tuple(map(tuple, ks)))
        mon.sample({"spins": ns, "k-points": nk, "bands": nb, "gap": round(edge[0] - edge[1], 4)})

    mon.run("report", 20000 if mon.thorough else 2000, one)


def body(c):
    c.run_py("report", work)


c.main(body)
