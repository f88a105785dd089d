import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C30", rule="random DOS.totalspin and fatbandstructure files (1-5 elements including ones whose symbols are prefixes of each other, several orbitals, repeated column names, both header forms) written by an independent writer; several readers alive on the same file, in any order of creation, use and release, beside files of the user; "
          "distinct by (elements, columns, rows)",
          need={"dos": 200, "prefix_elements": 100, "shared_file": 100, "user_bak": 20, "fatbands": 150, "fat_prefix": 60, "orbitals": 200, "lower_total": 50, "large_bands": 1, "four_thousand_energies": 1, "negative_densities": 20})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import gc
    import numpy as np
    import pandas as pd
    import pwmat
    from matersdk.io.pwmat.output.dostotalspin import Dostotalspin
    from matersdk.io.pwmat.output.fatabandstructureTxt import FatbandStructure
    EL = ["S", "Si", "Se", "Sr", "C", "Ca", "Cs", "Cu", "Cl", "N", "Na", "Ni", "O", "Os", "H", "He", "Mo", "B", "Ba", "I", "In", "P", "Pb", "As"]

    def elements(rng):
        n = int(rng.integers(1, 6))
        e = [str(x) for x in rng.choice(EL, size=n, replace=False)]
        if rng.random() < 0.5:
            a, b = [("S", "Si"), ("C", "Cs"), ("N", "Na"), ("O", "Os"), ("I", "In"), ("H", "He")][int(rng.integers(0, 6))]
            e = [a, b] + [x for x in e if x not in (a, b)][:2]
            e = [str(x) for x in rng.permutation(e)]
        pre = any(a != b and b.startswith(a) for a in e for b in e)
        return e, pre

    def dosfile(rng, path):
        e, pre = elements(rng)
        cols = []
        for x in e:
            cols += ["%s-%s" % (x, o) for o in ["s", "p", "d", "f"][:int(rng.integers(1, 5))]]
        if rng.random() < 0.3:
            cols.append(cols[int(rng.integers(0, len(cols)))])       # a second s channel, as in Mo-s ... Mo-s
        n = int(rng.integers(1, 30)) if rng.random() < 0.95 else int(rng.integers(100, 600)) if rng.random() < 0.7 else int(rng.integers(2000, 8000))
        mon.hit("four_thousand_energies", n >= 2000)
        total = str(rng.choice(["Total", "total"]))
        D = np.concatenate([np.sort(rng.uniform(-60, 20, (n, 1)), axis=0), rng.random((n, 1 + len(cols))) * 10.0 ** rng.integers(-3, 2)], axis=1)
        if rng.random() < 0.2:                    # broadening and interpolation overshoot below zero
            D[:, 1:] -= rng.random() * D[:, 1:].mean()
            mon.hit("negative_densities", (D[:, 1:] < 0).any())
        rows = [["%.4f" % r[0]] + ["%.6E" % v for v in r[1:]] for r in D]
        D = np.array([[float(v) for v in r] for r in rows])
        h = str(rng.choice(["# ", "#    ", ""])) + "    ".join(["Energy", total] + cols)
        txt = " " * int(rng.integers(0, 3)) + h + "\n" + "".join("  " + "   ".join(r) + "\n" for r in rows)
        with open(path, "w") as g:
            g.write(txt)
        return e, pre, cols, total, D, txt

    def judge(o, F, k):
        e, pre, cols, total, D, txt = F
        t = o.get_tdos()
        mon.check(list(t.columns) == ["Energy", total] and np.allclose(t.values, D[:, :2]), "tdos", lambda: "%s: %s" % (t.head(), txt[:300]))
        p = o.get_pdos_elements()
        mon.check(sorted(p.columns) == sorted(["Energy"] + e) and list(p.columns)[0] == "Energy" and len(p) == len(D), "pdos:columns", lambda: "%s: %s" % (list(p.columns), txt[:200]))
        for x in e:
            w = D[:, [2 + i for i, cname in enumerate(cols) if cname.split("-")[0] == x]].sum(axis=1)
            mon.check(x in p.columns and np.allclose(np.asarray(p[x]).reshape(len(D), -1)[:, 0], w), "pdos:element", lambda: "%s in %s: %s, expected %s" % (x, cols, np.asarray(p[x]).tolist()[:4], w.tolist()[:4]))
        mon.check(np.allclose(p["Energy"], D[:, 0]), "pdos:energy", txt[:200])
        q = o.get_pdos_orbitals()
        mon.check(q.shape == (len(D), 1 + len(cols)) and np.allclose(q.values, np.delete(D, 1, axis=1)) and list(q.columns)[0] == "Energy", "pdos:orbitals", lambda: "%s: %s" % (list(q.columns), txt[:200]))
        if len(set(cols)) == len(cols):
            mon.check(list(q.columns) == ["Energy"] + cols, "pdos:orbital-names", lambda: "%s, expected %s" % (list(q.columns), cols))
        mon.hit("dos"); mon.hit("prefix_elements", pre); mon.hit("lower_total", total == "total")

    def dos(rng, k):
        d = os.path.join(mon.scratch, "d%d" % k)
        os.makedirs(d)
        names = ["DOS.totalspin", "DOS.spinup"]
        files = {n: dosfile(rng, os.path.join(d, n)) for n in names}
        keep = {}
        if rng.random() < 0.3:                      # a file of the user beside it
            keep[names[0] + ".bak"] = "my own backup\n"
            open(os.path.join(d, names[0] + ".bak"), "w").write(keep[names[0] + ".bak"])
            mon.hit("user_bak")
        live = []
        for _ in range(int(rng.integers(2, 7))):
            t = rng.random()
            if t < 0.5 or not live:
                n = names[int(rng.random() < 0.3)]
                live.append((Dostotalspin(dos_totalspin_path=os.path.join(d, n)), n))
                mon.hit("shared_file", sum(1 for x in live if x[1] == n) > 1)
            elif t < 0.75:
                live.pop(int(rng.integers(0, len(live))))
                gc.collect()
            o, n = live[int(rng.integers(0, len(live)))] if live else (None, None)
            if o is not None:
                judge(o, files[n], k)
            o = None
        live.clear()
        gc.collect()
        left = sorted(os.listdir(d))
        mon.check(left == sorted(names + list(keep)), "files-left", lambda: "%s, expected %s" % (left, sorted(names + list(keep))))
        for n in names:
            mon.check(open(os.path.join(d, n)).read() == files[n][5], "input-modified", n)
        for n, v in keep.items():
            p = os.path.join(d, n)
            mon.check(os.path.exists(p) and open(p).read() == v, "user-file", "the user's %s was overwritten or removed" % n)
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)
        mon.sig("dos", tuple(files[names[0]][2]), len(files[names[0]][4])); mon.sample({"columns": files[names[0]][2]})

    def fat(rng, k):
        e, pre = elements(rng)
        cols = []
        for x in e:
            n = int(rng.integers(1, 5))
            cols += ["%s-%s" % (x, o) for o in [str(v) for v in rng.permutation(["3S", "3Px", "3Py", "3Pz", "4Dxy", "4Dx2-y2"])][:n]]
        nb, nk = int(rng.integers(2, 9)), int(rng.integers(1, 12))
        if rng.random() < 0.05:
            nb, nk = int(rng.integers(9, 120)), int(rng.integers(12, 60))
            mon.hit("large_bands")
        xs = np.cumsum(rng.random(nk))
        txt = "    " + "    ".join(["KPOINT", "ENERGY", "weight_tot"] + cols) + "\n"
        D = np.zeros((nb, nk, 3 + len(cols)))
        for b in range(nb):
            txt += " BAND%s%d\n" % (pwmat.sp(rng), b + 1)
            for i in range(nk):
                r = ["%.6f" % xs[i], "%.4f" % rng.uniform(-60, 20)] + ["%.6f" % v for v in rng.random(1 + len(cols))]
                D[b, i] = [float(v) for v in r]
                txt += "   " + "   ".join(r) + "\n"
            txt += "\n"
        path = os.path.join(mon.scratch, "fatbandstructure_1.txt")
        with open(path, "w") as g:
            g.write(txt)
        D[:, :, 0] /= 0.529177249
        f = FatbandStructure(fatbandstructure_txt_path=path)
        what = "columns %s bands %d k-points %d" % (cols, nb, nk)
        mon.check(f.num_bands == nb and f.num_kpoints == nk, "fat:numbers", lambda: "%s bands %s k-points: %s" % (f.num_bands, f.num_kpoints, what))
        mon.check(sorted(f.elements_lst) == sorted(e), "fat:elements", lambda: "%s: %s" % (f.elements_lst, what))
        head = ["KPOINT", "ENERGY", "weight_tot"]

        def frames(tag, L, cl, val):
            if not mon.check(len(L) == nb and all(isinstance(x, pd.DataFrame) for x in L), tag + ":frames", lambda: "%d of type %s: %s" % (len(L), type(L[0]), what)):
                return
            for b in range(nb):
                mon.check(sorted(L[b].columns) == sorted(cl), tag + ":columns", lambda: "%s, expected %s: %s" % (list(L[b].columns), cl, what))
                for j, cname in enumerate(cl):
                    if cname in L[b].columns:
                        g = np.asarray(L[b][cname], float)
                        mon.check(g.shape == (nk,) and np.allclose(g, val[b][:, j], rtol=1e-6, atol=1e-9), tag, lambda: "band %d column %s: %s, expected %s: %s" % (b + 1, cname, g.tolist(), val[b][:, j].tolist(), what))
        frames("fat:total", f.get_total_dfs_lst(), head + cols, D)
        el = np.stack([D[:, :, [3 + i for i, cn in enumerate(cols) if cn.split("-")[0] == x]].sum(axis=2) for x in e], axis=2)
        frames("fat:element", f.get_element_dfs_lst(), head + e, np.concatenate([D[:, :, :3], el], axis=2))
        for _ in range(2):
            i = int(rng.integers(0, len(cols)))
            nm = [cols[i], cols[i].lower(), cols[i].upper()][int(rng.integers(0, 3))]
            frames("fat:orbital", f.get_orbital_dfs_lst(orbital_name=nm), head + [cols[i]], np.concatenate([D[:, :, :3], D[:, :, 3 + i:4 + i]], axis=2))
            mon.hit("orbitals")
        mon.hit("fatbands"); mon.hit("fat_prefix", pre); mon.sig("fat", tuple(cols), nb, nk)

    mon.run("dos", 3000 if mon.thorough else 250, dos)
    mon.run("fat", 4000 if mon.thorough else 300, fat)


def body(c):
    c.run_py("spectra", work)


c.main(body)
