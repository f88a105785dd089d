import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C22", rule="random structures (all cell families, atoms outside the home cell), cutoffs below and beyond one cell, odd and even supercells; distinct by (cell family, species sequence, supercell, matrix)",
          need={"beside_a_pair": 20, "repeated": 200, "matrices": 300, "multi_edges": 100, "self_images": 100, "isolated": 50, "complete": 100, "even_refused": 50, "on_cutoff": 30, "fifty_edges": 10})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.feature.graph.edge import AdjacentMatrix

    def one(rng, k):
        if rng.random() < 0.2:
            a = float(rng.choice([2.0, 3.0, 4.0]))
            s = gen.Sys(np.eye(3) * a, [14, 8], [[0, 0, 0], [0.5, 0.5, 0]], "lattice")
            rcut, sc = a, [3, 3, 3]
        else:
            s = gen.system(rng, 8, lo=2.5, hi=7.0)
            sc = [int(x) for x in rng.choice([1, 3, 3, 5], size=3)]
            rcut = float(rng.uniform(0.5, 6.0))
            if rng.random() < 0.05:
                sc = [int(x) for x in rng.permutation([1, 3, int(rng.choice([7, 9]))])]
                rcut = float(rng.uniform(4, 14))
            elif rng.random() < 0.03:            # a dense graph: every image of a small cell is an edge
                s = gen.system(rng, 3, lo=2.5, hi=4.0, wide=False)
                sc, rcut = [5, 5, 5], float(rng.uniform(7, 16))
        fr = s.frac.copy()
        if rng.random() < 0.3:
            fr[int(rng.integers(0, s.n))] += rng.integers(-1, 2, size=3)
        pos = fr @ s.lat
        if s.kind != "lattice" and rng.random() < 0.4:
            r1 = gen.beside(rng, pos, s.lat, sc, 0.5, max(rcut, 6.0))
            if r1:
                rcut = r1
                mon.hit("beside_a_pair")
        d = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=fr, coords_are_cartesian=False)
        what = "rcut %.9f supercell %s %s lattice %s %s" % (rcut, sc, s.kind, s.lat.tolist(), [(int(z), f.tolist()) for z, f in zip(s.z, fr)])
        sc0, fr0 = list(sc), np.array(d.frac_coords)
        am = AdjacentMatrix(structure=d, rcut=rcut, scaling_matrix=sc)
        A = np.array(am.get_adjacent_matrix())
        if rng.random() < 0.5:
            mon.check(np.array_equal(A, np.asarray(am.get_adjacent_matrix())) and np.array_equal(A, np.asarray(AdjacentMatrix(structure=d, rcut=rcut, scaling_matrix=sc).get_adjacent_matrix())), "repeat", what)
            mon.hit("repeated")
        mon.check(list(sc) == sc0 and np.array_equal(d.frac_coords, fr0) and np.array_equal(d.lattice.matrix, s.lat) and [x.specie.Z for x in d] == s.z.tolist(), "input-changed", what)
        if not mon.check(A.shape == (s.n, s.n), "shape", lambda: "%s: %s" % (A.shape, what)):
            return
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float) @ s.lat
        lo, hi = np.zeros((s.n, s.n), int), np.zeros((s.n, s.n), int)
        for i in range(s.n):
            for j in range(s.n):
                q = np.linalg.norm(pos[j] - pos[i] + sh, axis=1)
                q = q[q > 1e-6] if i == j else q
                lo[i, j], hi[i, j] = (q < rcut - 1e-7).sum(), (q < rcut + 1e-7).sum()
        mon.check(bool(np.all((A >= lo) & (A <= hi))), "count", lambda: "%s, expected %s: %s" % (A.tolist(), lo.tolist(), what))
        mon.check(bool(np.all(A == A.T)), "symmetric", lambda: "%s: %s" % (A.tolist(), what))
        if s.kind == "lattice" and np.array_equal(fr, s.frac):
            mon.check(bool(np.all(np.diag(A) == np.diag(hi))), "cutoff-included", lambda: "%s: %s" % (A.tolist(), what))
            mon.hit("on_cutoff")
        mon.hit("matrices"); mon.hit("multi_edges", int((A > 1).any())); mon.hit("self_images", int((np.diag(A) > 0).any())); mon.hit("fifty_edges", int((A > 50).any())); mon.hit("isolated", int((A.sum(axis=1) == 0).any()))
        if np.all(fr > -1e-12) and np.all(fr < 1) and all(rcut < (q // 2) * h for q, h in zip(sc, gen.heights(s.lat))):
            full = gen.neighbours(gen.Sys(s.lat, s.z, fr), rcut)
            for i in range(s.n):
                mon.check(sum(1 for x in full[i] if not x[3]) <= A[i].sum() <= len(full[i]), "complete", lambda: "row %d %s, expected %d: %s" % (i, A[i].tolist(), len(full[i]), what))
            mon.hit("complete")
        # a supercell without a central cell is refused, not silently treated as a smaller one
        ev = list(sc)
        ev[int(rng.integers(0, 3))] = int(rng.choice([2, 4, 0, -1]))
        try:
            B = AdjacentMatrix(structure=d, rcut=rcut, scaling_matrix=ev).get_adjacent_matrix()
            mon.fail("even-accepted", "scaling %s gives %s: %s" % (ev, np.asarray(B).tolist(), what))
        except (AssertionError, ValueError):
            mon.hit("even_refused")
        mon.sig(s.kind, tuple(s.z), tuple(sc), tuple(A.ravel().astype(int).tolist()))
        mon.sample(what[:200])

    mon.run("adjacency", 20000 if mon.thorough else 2400, one)


def body(c):
    c.run_py("graph", work)


c.main(body)
