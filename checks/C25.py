import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C25", rule="random MOVEMENT trajectories and random, lattice-like and collinear structures through the displacement, diffraction, bond-length and bond-angle statistics, with 1, 2, 3 and many processors reported; "
          "distinct by (cell family, species sequence, frames, cutoff, species triple)",
          need={"trajectories": 30, "hundreds_of_frames": 1, "frame_pairs": 80, "single_frame": 3, "few_processors": 10, "bond_means": 60, "pair_bonds": 60, "bond_frames": 200,
                "angle_means": 200, "same_species_angles": 60, "mixed_angles": 30, "collinear": 40, "selected_angles": 200, "no_bonds": 5, "default_supercell": 5, "left_out": 100})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen, pwmat
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.io.pwmat.output.movement import Movement
    from matersdk.feature.avg.msd import Msd, MsdParallelFunction, DiffractionIntensity
    from matersdk.feature.avg.avgbond import AvgBond, PairBond
    from matersdk.feature.avg.avgangle import AvgAngle
    real_count = os.cpu_count

    def close(a, b, tol=1e-8):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))

    def bonds(lat, pos, z, z1, z2, sc, rcut):
        """Lengths of all z1-z2 bonds among the images of the supercell; None when one is too close to the cutoff to call."""
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float) @ lat
        out = []
        for i in range(len(z)):
            v = []
            if z[i] == z1:
                for j in range(len(z)):
                    if z[j] == z2:
                        w = pos[j] - pos[i] + sh
                        d = np.linalg.norm(w, axis=1)
                        if np.any(np.abs(d - rcut) < 1e-6):
                            return None
                        v += [x for x, y in zip(w, d) if 1e-9 < y <= rcut]
                out.append(np.array(v).reshape(-1, 3))
        return out

    def trajectory(rng, k):
        s = gen.system(rng, 8, lo=2.5, hi=7.0)
        t = rng.random()
        nf = int(rng.integers(1, 7)) if t < 0.9 else int(rng.integers(10, 30))
        nf = int(rng.integers(100, 140)) if k % 50 == 7 else nf
        mon.hit("hundreds_of_frames", nf >= 100)
        frames, text, props, st = pwmat.movement(rng, s, nf, jitter=float(rng.choice([0.0, 0.05, 1.0])))
        path = os.path.join(mon.scratch, "MOVEMENT")
        open(path, "w").write(text)
        x = [f.frac @ f.lat for f in frames]
        what = "%d frames of %s %s: %s" % (nf, s.kind, s.z.tolist(), text[:200])
        mon.sample("%d frames of %s %s" % (nf, s.kind, s.z.tolist()))
        cpus = int(rng.choice([1, 2, 3, 4, 8]))
        mon.hit("few_processors", cpus <= 2); mon.hit("single_frame", nf == 1); mon.hit("trajectories")
        os.cpu_count = lambda: cpus
        try:
            m = Msd(trajectory=Movement(movement_path=path))
            e = [((b - a) ** 2).sum() / s.n for a, b in zip(x, x[1:])]
            g = m.calc_msd()
            mon.check(len(g) == nf - 1 and close(g, e), "msd", lambda: "%s, expected %s, %d processors: %s" % (g, e, cpus, what))
            e0 = [(((b - b.mean(axis=0)) - (a - a.mean(axis=0))) ** 2).sum() / s.n for a, b in zip(x, x[1:])]
            g = m.calc_msd_sub_centroid()
            mon.check(len(g) == nf - 1 and close(g, e0), "msd:centroid", lambda: "%s, expected %s: %s" % (g, e0, what))
            mon.hit("frame_pairs", nf - 1)
            for _ in range(2):
                i, j = (int(v) for v in rng.integers(0, nf, size=2))
                a, b = m.structures_lst[i], m.structures_lst[j]
                mon.check(close(MsdParallelFunction.calc_msd_s(a, b), ((x[j] - x[i]) ** 2).sum() / s.n), "msd:pair", lambda: "frames %d %d: %s" % (i, j, what))
                r = (x[j] - x[j].mean(axis=0)) - (x[i] - x[i].mean(axis=0))
                mon.check(close(MsdParallelFunction.calc_msd_sub_centroid_s(a, b), (r ** 2).sum() / s.n), "msd:pair-centroid", lambda: "frames %d %d: %s" % (i, j, what))
            q = float(rng.uniform(0, 6))
            g = DiffractionIntensity(trajectory=Movement(movement_path=path), q=q).calc_di()
            mon.check(close(g, np.exp(-q * q * np.array(e) / 3)), "diffraction", lambda: "q %r: %s: %s" % (q, g, what))
            z1, z2 = (int(v) for v in rng.choice(s.z, size=2))
            sc = [int(v) for v in rng.choice([1, 3, 3], size=3)]
            for rcut in (float(rng.uniform(1.0, 6.0)), 0.2)[:1 if rng.random() < 0.8 else 2]:
                bl = [bonds(f.lat, y, s.z, z1, z2, sc, rcut) for f, y in zip(frames, x)]
                if any(b is None for b in bl):
                    continue
                ab = AvgBond(movement_path=path, element_1=gen.SYM[z1], element_2=gen.SYM[z2], rcut=rcut)
                g = ab.get_frames_avg_bond() if sc == [3, 3, 3] else ab.get_frames_avg_bond(scaling_matrix=sc)
                mon.hit("default_supercell", sc == [3, 3, 3])
                e = []
                for b in bl:
                    d = np.linalg.norm(np.concatenate(b), axis=1) if b else np.zeros(0)
                    e.append(d.mean() if len(d) else float("nan"))
                mon.hit("no_bonds", sum(v != v for v in e)); mon.hit("bond_frames", nf); mon.hit("bond_means")
                mon.check(len(g) == nf and close(g, e), "bond", lambda: "%d-%d within %r supercell %s: %s, expected %s, %d processors: %s" % (z1, z2, rcut, sc, g, e, cpus, what))
        finally:
            os.cpu_count = real_count
        i, j = (int(v) for v in rng.integers(0, s.n, size=2))
        g = PairBond(movement_path=path, atom1_idx=i, atom2_idx=j).get_frames_pair_bond()
        mon.check(close(g, [np.linalg.norm(y[j] - y[i]) for y in x]), "pair-bond", lambda: "atoms %d %d: %s: %s" % (i, j, g, what))
        mon.hit("pair_bonds")
        mon.sig(s.kind, tuple(s.z.tolist()), nf, cpus)

    def angle(a, b):
        """Degrees, well conditioned for every angle."""
        a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
        return np.degrees(2 * np.arctan2(np.linalg.norm(a - b), np.linalg.norm(a + b)))

    def angles(rng, k):
        t = rng.random()
        if t < 0.3:                             # lattices and chains: straight angles, symmetric neighbours
            a = float(rng.uniform(2.0, 4.0))
            m = np.diag([a, a * float(rng.choice([1, 1.3, 3])), a * float(rng.choice([1, 1.7, 3]))])
            if rng.random() < 0.5:
                q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
                m = m @ q
            zz = [14, 8] if rng.random() < 0.5 else [14, 14]
            s = gen.Sys(m, zz, [[0, 0, 0], [0.5, 0.5 * float(rng.integers(0, 2)), 0.5 * float(rng.integers(0, 2))]], "lattice")
            mon.hit("collinear")
        else:
            s = gen.system(rng, 5, lo=3.0, hi=6.0)
            s.z = rng.choice(rng.permutation(s.z)[:3], size=s.n)
        sc = [3, 3, 3] if rng.random() < 0.7 else [int(v) for v in rng.choice([1, 3], size=3)]
        rcut = float(rng.uniform(1.5, 5.5))
        z1, z2, z3 = (int(v) for v in rng.choice(s.z, size=3))
        if rng.random() < 0.4:
            z3 = z2
        elif rng.random() < 0.7:
            z3 = int(rng.choice([v for v in s.z if v != z2] or [z3]))
        pos = s.frac @ s.lat
        b2, b3 = bonds(s.lat, pos, s.z, z1, z2, sc, rcut), bonds(s.lat, pos, s.z, z1, z3, sc, rcut)
        what = "%d-%d-%d within %r supercell %s %s lattice %s %s" % (z2, z1, z3, rcut, sc, s.kind, s.lat.tolist(), [(int(z), f.tolist()) for z, f in zip(s.z, s.frac)])
        if b2 is None or b3 is None or sum(len(p) * len(q) for p, q in zip(b2, b3)) > 3000:
            return
        tri = []
        for p, q in zip(b2, b3):
            if z2 == z3:
                tri += [(p[i], p[j]) for i in range(len(p)) for j in range(i + 1, len(p))]
            else:
                tri += [(u, v) for u in p for v in q]
        A = np.array([angle(u, v) for u, v in tri])
        L = np.array([sorted([np.linalg.norm(u), np.linalg.norm(v)]) for u, v in tri]).reshape(-1, 2)
        d = DStructure(lattice=s.lat, species=[int(v) for v in s.z], coords=s.frac, coords_are_cartesian=False)
        nb = StructureNeighborsDescriptor.create("v1", d, rcut, sc)
        g = AvgBond.get_avg_bond_length(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2)
        e = np.concatenate([np.linalg.norm(p, axis=1) for p in b2]) if b2 else np.zeros(0)
        mon.check(close(g, e.mean() if len(e) else float("nan")), "bond:frame", lambda: "%s, expected %s: %s" % (g, e.mean() if len(e) else None, what))
        # arccos loses half the digits near 0 and 180 degrees
        T = 2e-5
        if len(A):
            g, h = AvgAngle.get_avg_bond(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2, atomic_number_3=z3)
            mon.check(abs(g - A.mean()) < T, "angle:mean", lambda: "%r, expected %r over %d angles: %s" % (float(g), A.mean(), len(A), what))
            o = 1 - 3 / 8 * np.sum((1 / 3 + np.cos(np.radians(A))) ** 2)
            mon.check(abs(h - o) < 1e-6 * len(A), "angle:order", lambda: "%r, expected %r: %s" % (float(h), o, what))
            mon.hit("angle_means"); mon.hit("same_species_angles", z2 == z3); mon.hit("mixed_angles", z2 != z3)
        st = float(rng.choice([90, 109.47, 180, 0, 60])) if rng.random() < 0.4 or not len(A) else float(rng.choice(A))
        ep = float(rng.uniform(0.5, 40))
        dev = np.abs(A - st)
        if len(A) and np.any(np.abs(dev - ep) < 1e-4):
            return
        g = np.asarray(AvgBond.get_bond_lengths_lst_according2angle(struct_neigh=nb, atomic_number_1=z1, atomic_number_2=z2, atomic_number_3=z3, angle_standard=st, angle_epsilon=ep))
        w = np.concatenate([A[:, None], L], axis=1)[dev < ep] if len(A) else np.zeros((0, 3))
        ok = g.shape == w.shape
        if ok and len(w):
            # as multisets: the order of equally distant neighbours is free
            use = np.ones(len(w), bool)
            for r in g:
                c_ = np.where(use & (np.abs(w - r) < [[T, 1e-7, 1e-7]]).all(axis=1))[0]
                if not len(c_):
                    ok = False
                    break
                use[c_[0]] = False
        mon.check(ok, "angle:selected", lambda: "%r +- %r: %s, expected %s: %s" % (st, ep, g.tolist(), w.tolist(), what))
        mon.hit("selected_angles", len(w)); mon.hit("left_out", int(len(A) - len(w)))
        mon.sig(s.kind, tuple(s.z.tolist()), round(rcut, 2), (z1, z2, z3))

    T_ = mon.thorough
    mon.run("trajectory", 700 if T_ else 110, trajectory)
    mon.run("angles", 6000 if T_ else 700, angles)


c.main(lambda k: k.run_py("avg", work))
