import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C26", rule="random structures (all cell families, left-handed cells, atoms outside the home cell) perturbed with random amplitudes (zero included), in memory and from folders on disk; the deformation, the rotation and every displacement are recovered from the result and judged, one by one and in distribution; "
          "distinct by (cell family, species sequence, amplitudes)",
          assumptions=["cell_pert_fraction at most 0.3, so that the deformation can be recovered uniquely"],
          need={"copies": 1500, "left_handed": 100, "no_deformation": 100, "no_displacement": 100, "displacements": 5000, "strains": 3000, "batches": 40, "files": 100, "refused": 100, "outside": 50, "seeded": 60, "many_copies": 3})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.adalearn.generator.perturbation import PerturbStructure, BatchPerturbStructure
    U, X = [], []                               # normalised strains and displacements over the whole run

    def recover(L, x, L2, x2):
        """Symmetric deformation, rotation and displacements that turn (L, x) into (L2, x2)."""
        Li = np.linalg.inv(L)
        w, v = np.linalg.eigh(Li @ L2 @ L2.T @ Li.T)
        P = v @ np.diag(np.sqrt(np.abs(w))) @ v.T
        Q = np.linalg.inv(P) @ Li @ L2
        return P, Q, x2 @ Q.T - x @ P

    def judge(L, x, z, d, f, a, what, tol):
        L2, x2 = np.array(d.lattice.matrix), np.array(d.cart_coords)
        if not mon.check([s.specie.Z for s in d] == [int(v) for v in z], "species", lambda: "%s: %s" % ([s.specie.Z for s in d], what)):
            return
        P, Q, dx = recover(L, x, L2, x2)
        sz = np.abs(L).max()
        cond = np.linalg.cond(L)
        t = tol * cond * 10
        if t > 1e-2:
            return
        mon.check(np.allclose(Q @ Q.T, np.eye(3), atol=t + 1e-9) and np.linalg.det(Q) > 0, "rotation", lambda: "%s det %r: %s" % (Q.tolist(), np.linalg.det(Q), what))
        e = P - np.eye(3)
        mon.check(np.abs(np.diag(e)).max() <= f + t and np.abs(e - np.diag(np.diag(e))).max() <= 0.5 * f + t, "deformation", lambda: "%s: %s" % (P.tolist(), what))
        low = np.abs([L2[0, 1], L2[0, 2], L2[1, 2]]).max()
        mon.check(low <= tol * sz * 10 + 1e-9 and L2[0, 0] > 0 and L2[1, 1] > 0, "lower-triangular", lambda: "%s: %s" % (L2.tolist(), what))
        mon.check(np.linalg.det(L2) * np.linalg.det(L) > 0, "handedness", lambda: "%s: %s" % (L2.tolist(), what))
        mon.check(np.abs(dx).max() <= 8 * a / np.sqrt(3) + t * (1 + np.abs(x).max()), "displacement", lambda: "%s for %r: %s" % (dx.tolist(), a, what))
        if f > 0 and t < 1e-4 * f:
            U.extend([[e[0, 0], e[1, 1], e[2, 2], 2 * e[1, 2], 2 * e[0, 2], 2 * e[0, 1]] / np.array(f)])
            mon.hit("strains", 6)
        if a > 0 and t * (1 + np.abs(x).max()) < 1e-4 * a:
            X.extend((dx * np.sqrt(3) / a).tolist())
            mon.hit("displacements", len(dx))
        return e, dx

    def setup(rng):
        s = gen.system(rng, 8, lo=2.5, hi=8.0)
        L, fr = s.lat.copy(), s.frac.copy()
        if rng.random() < 0.25:
            L[int(rng.integers(0, 3))] *= -1
        if rng.random() < 0.3:
            fr[int(rng.integers(0, s.n))] += rng.integers(-2, 3, size=3)
            mon.hit("outside")
        f = float(rng.choice([0.0, 0.01, 0.03, 0.1, 0.3]))
        a = float(rng.choice([0.0, 0.01, 0.1, 0.5]))
        return s, L, fr, f, a

    def one(rng, k):
        s, L, fr, f, a = setup(rng)
        n = int(rng.integers(1, 7)) if rng.random() < 0.97 else int(rng.integers(11, 30))
        what = "%d copies fraction %r distance %r of %s lattice %s %s" % (n, f, a, s.kind, L.tolist(), [(int(z), q.tolist()) for z, q in zip(s.z, fr)])
        mon.sample("%d copies fraction %r distance %r of %s %s" % (n, f, a, s.kind, s.z.tolist()))
        d = DStructure(lattice=L, species=[int(z) for z in s.z], coords=fr, coords_are_cartesian=False)
        seed = int(rng.integers(0, 2**31))
        np.random.seed(seed)
        p = PerturbStructure(d)
        out = p.perturb(pert_num=n, cell_pert_fraction=f, atom_pert_distance=a)
        mon.check(np.array_equal(d.lattice.matrix, L) and np.array_equal(d.frac_coords, fr) and [q.specie.Z for q in d] == s.z.tolist(), "modifies-original", what)
        if not mon.check(len(out) == n, "number", lambda: "%d structures: %s" % (len(out), what)):
            return
        es, dxs = [], []
        for q in out:
            mon.hit("copies"); mon.hit("left_handed", np.linalg.det(L) < 0); mon.hit("no_deformation", f == 0); mon.hit("no_displacement", a == 0)
            g = judge(L, fr @ L, s.z, q, f, a, what, 1e-12)
            if g:
                es.append(g[0]); dxs.append(g[1])
        if f > 0:
            mon.check(all(np.abs(u - v).max() > 1e-9 for i, u in enumerate(es) for v in es[:i]), "copies-alike:cell", what)
        if a > 0:
            mon.check(all(np.abs(u - v).max() > 1e-9 for i, u in enumerate(dxs) for v in dxs[:i]), "copies-alike:atoms", what)
            mon.check(all(np.abs(u[i] - u[j]).max() > 1e-9 for u in dxs for i in range(len(u)) for j in range(i)), "atoms-alike", what)
        if rng.random() < 0.2:
            np.random.seed(seed)
            o2 = PerturbStructure(d).perturb(n, f, a)
            mon.check(all(np.array_equal(u.lattice.matrix, v.lattice.matrix) and np.array_equal(u.cart_coords, v.cart_coords) for u, v in zip(out, o2)), "seeded", what)
            mon.hit("seeded")
        for bad in ((-0.01, a), (f, -0.01)):
            try:
                p.perturb(1, *bad)
                mon.fail("negative-accepted", "fraction %r distance %r" % bad)
            except RuntimeError:
                mon.hit("refused")
        mon.sig(s.kind, tuple(s.z.tolist()), f, a)

    def batch(rng, k):
        dirs, kept = [], []
        n = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(11, 25))
        mon.hit("many_copies", n > 10)
        f, a = float(rng.choice([0.0, 0.03, 0.1])), float(rng.choice([0.0, 0.1]))
        for i in range(int(rng.integers(1, 4))):
            s, L, fr, _, _ = setup(rng)
            fm = pwmat.frame(rng, L, s.z, fr, pwmat.style(rng, str(rng.choice(["plain", "md"]))), {})
            d = os.path.join(mon.scratch, "b%d_%d" % (k, i))
            os.makedirs(d)
            open(os.path.join(d, "atom.config"), "w").write(fm.text)
            old = bool(rng.random() < 0.3)
            if old:
                os.mkdir(os.path.join(d, "structures"))
                open(os.path.join(d, "structures", "0.config"), "w").write("old\n")
            dirs.append(d); kept.append(fm)
        BatchPerturbStructure.batch_perturb(Perturbed=dirs, pert_num=n, cell_pert_fraction=f, atom_pert_distance=a)
        mon.hit("batches")
        for d, fm in zip(dirs, kept):
            what = "%d copies fraction %r distance %r of %s" % (n, f, a, fm.text)
            mon.check(open(os.path.join(d, "atom.config")).read() == fm.text and sorted(os.listdir(d)) == ["atom.config", "structures"], "batch:input", lambda: "%s: %s" % (os.listdir(d), what))
            names = sorted(os.listdir(os.path.join(d, "structures")))
            if not mon.check(names == sorted("%d.config" % i for i in range(n)), "batch:files", lambda: "%s: %s" % (names, what)):
                continue
            seen = []
            for m in names:
                t = open(os.path.join(d, "structures", m)).read()
                q = DStructure.from_file(os.path.join(d, "structures", m), "pwmat")
                # rows come back by atomic number or in file order: match through the species-stable order
                o = np.argsort(np.array(fm.z), kind="stable")
                z = [s.specie.Z for s in q]
                idx = o if z == [fm.z[i] for i in o] and z != fm.z else np.arange(fm.n)
                judge(fm.lat, (fm.frac @ fm.lat)[idx], [fm.z[i] for i in idx], q, f, a, what, 3e-6)
                seen.append(t)
                mon.hit("files")
            if f > 0 or a > 0:
                mon.check(len(set(seen)) == len(seen), "batch:alike", what)
        for d in dirs:
            import shutil
            shutil.rmtree(d)
        mon.sig("batch", n, f, a, len(dirs))

    def statistics(rng, k):
        """Over the whole run: strains uniform in [-1, 1), displacements normal with unit variance, both unbiased (8 standard errors)."""
        u, x = np.array(U), np.array(X)
        if len(u) > 300:
            n = len(u)
            m, v = u.mean(axis=0), (u ** 2).mean(axis=0)
            mon.check(np.abs(m).max() < 8 * np.sqrt(1 / 3 / n), "strain-mean", lambda: "%s over %d" % (m, n))
            mon.check(np.abs(v - 1 / 3).max() < 8 * np.sqrt(4 / 45 / n), "strain-spread", lambda: "%s over %d" % (v, n))
            r = np.corrcoef(u.T) - np.eye(6)
            mon.check(np.abs(r).max() < 8 / np.sqrt(n), "strain-independence", lambda: "%s over %d" % (r, n))
        if len(x) > 300:
            n = len(x)
            m, v = x.mean(axis=0), (x ** 2).mean(axis=0)
            mon.check(np.abs(m).max() < 8 / np.sqrt(n), "displacement-mean", lambda: "%s over %d" % (m, n))
            mon.check(np.abs(v - 1).max() < 8 * np.sqrt(2 / n), "displacement-spread", lambda: "%s over %d" % (v, n))
            r = np.corrcoef(x.T) - np.eye(3)
            mon.check(np.abs(r).max() < 8 / np.sqrt(n), "displacement-independence", lambda: "%s over %d" % (r, n))

    T = mon.thorough
    mon.run("perturb", 8000 if T else 2000, one)
    mon.run("batch", 1500 if T else 200, batch)
    mon.run("statistics", 1, statistics)


c.main(lambda k: k.run_py("perturb", work))
