import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C32", rule="random collections of frames through the feature normaliser: statistics of random selections of frames, any order of species, neighbour species that differ from the centre species, absent species, equal features, saved and restored normalisers; "
          "distinct by (cell family, species, radii, sizes)",
          need={"collections": 100, "selections": 40, "repeated_frames": 20, "deviations": 200, "floor": 20, "structures": 100, "slots": 5000, "padded_slots": 2000, "other_neighbours": 40, "absent": 20, "restored": 30, "frames_at_once": 50, "equal_features": 30, "large_arrays": 10})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, dpse
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.data.struct_collection import StructCollection
    from matersdk.feature.deepmd.preprocess import TildeRNormalizer, TildeRPairNormalizer

    def dstr(s):
        d = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=s.frac, coords_are_cartesian=False)
        return d

    def snap(d):
        return (d.lattice.matrix.tolist(), [(x.specie.Z, x.frac_coords.tolist()) for x in d])

    def stats(x):
        """x: (n, 4) features of every slot, empty ones included."""
        x = x.reshape(-1, 4)
        if not len(x):
            return np.zeros(4), np.full(4, 0.01)
        a = x[:, 0].mean()
        ds = max(x[:, 0].std(), 0.01)
        da = max(x[:, 1:].std(), 0.01)
        return np.array([a, 0, 0, 0]), np.array([ds, da, da, da])

    def near(g, e, t=1e-8):
        # deviations close to the floor may fall on either side by rounding: both sides are 0.01 within 1e-9
        g, e = np.asarray(g, float).reshape(-1), np.asarray(e, float).reshape(-1)
        return g.shape == e.shape and bool(np.all(np.abs(g - e) <= t * (1 + np.abs(e))))

    def one(rng, k):
        s0 = gen.system(rng, 6, lo=2.5, hi=5.5)
        sc = [int(x) for x in rng.choice([1, 3, 3], size=3)]
        rcut = float(rng.uniform(1.5, 4.5))
        rs = rcut * float(rng.uniform(0.05, 0.95))
        nf = int(rng.integers(1, 6))
        fr = [gen.Sys(s0.lat * float(rng.uniform(0.97, 1.03)), s0.z, s0.frac + rng.normal(size=s0.frac.shape) * 0.01, s0.kind) for _ in range(nf)]
        if rng.random() < 0.1:
            fr = [s0] * nf
        envs = [dpse.Env(f, rcut, rs, sc) for f in fr]
        if not all(e.sharp for e in envs):
            return
        zs = sorted(set(s0.z.tolist()))
        ze = [int(z) for z in rng.permutation(zs)] if rng.random() < 0.5 else list(zs)
        zn = list(ze)
        t = rng.random()
        if t < 0.2:
            zn = [int(z) for z in rng.permutation(zs)]
        elif t < 0.4 and len(zs) > 1:
            if rng.random() < 0.5:
                ze = ze[:-1]
            else:
                zn = zn[1:]
        if rng.random() < 0.15:
            x = int(rng.choice([z for z in gen.POOL if z not in zs]))
            t = int(rng.integers(0, 3))
            if t != 0:
                ze.append(x)
            if t != 1:
                zn.append(x)
            mon.hit("absent")
        mon.hit("other_neighbours", zn != ze)
        sel = [max(e.width(ze, z) for e in envs) + int(rng.integers(0, 4)) for z in zn]
        if sum(sel) == 0:
            sel[0] = 1
        idx = [int(i) for i in (rng.permutation(nf)[:int(rng.integers(1, nf + 1))] if rng.random() < 0.6 else range(nf))]
        if rng.random() < 0.2:
            idx = idx + [idx[int(rng.integers(0, len(idx)))]]
            mon.hit("repeated_frames")
        mon.hit("selections", sorted(set(idx)) != list(range(nf)))
        what = "frames %s of %d, rcut %.6f smooth %.6f supercell %s centres %s neighbours %s sizes %s %r" % (idx, nf, rcut, rs, sc, ze, zn, sel, s0)
        ds = [dstr(f) for f in fr]
        before = [snap(d) for d in ds]
        col = StructCollection(ds, np.zeros(nf), np.zeros(nf), np.zeros(nf), np.zeros((nf, 9)))
        kw = dict(rcut=rcut, rcut_smooth=rs, center_atomic_numbers=ze, nbr_atomic_numbers=zn, max_num_nbrs=sel, scaling_matrix=sc)
        N = TildeRNormalizer.from_dp_labeled_system(dp_labeled_system=col, structure_indices=idx, **kw)
        mon.hit("collections")
        A, D = np.asarray(N.davgs), np.asarray(N.dstds)
        if not mon.check(A.shape == (len(ze), 4) and D.shape == (len(ze), 4), "stats:shape", lambda: "%s %s: %s" % (A.shape, D.shape, what)):
            return

        def full(env, zc, q, tail):
            cols = []
            for z, w in zip(zn, sel):
                p = env.pair(zc, z)
                a = np.zeros((len(p), w) + tail)
                for r, x in enumerate(p):
                    a[r, :len(x[1])] = x[q]
                cols.append(a)
            return np.concatenate(cols, axis=1)

        for a, zc in enumerate(ze):
            x = np.concatenate([full(envs[i], zc, 2, (4,)).reshape(-1, 4) for i in idx])
            ea, ed = stats(x)
            mon.check(near(A[a], ea), "mean", lambda: "centre %d: %s, expected %s: %s" % (zc, A[a].tolist(), ea.tolist(), what))
            mon.check(near(D[a], ed, 1e-6), "deviation", lambda: "centre %d: %s, expected %s: %s" % (zc, D[a].tolist(), ed.tolist(), what))
            mon.hit("deviations"); mon.hit("floor", bool((ed == 0.01).any()))
        if rng.random() < 0.35:
            p = os.path.join(mon.scratch, "norm.h5")
            if rng.random() < 0.5:
                with open(p, "w") as f:
                    f.write("older")
            N.to(hdf5_file_path=p)
            M = TildeRNormalizer.from_file(hdf5_file_path=p)
            for n, v in list(kw.items()) + [("davgs", A), ("dstds", D)]:
                g = np.asarray(getattr(M, n))
                mon.check(g.shape == np.asarray(v).shape and bool(np.all(g == np.asarray(v))), "restored:" + n, lambda: "%s, saved %s: %s" % (g.tolist(), v, what))
            os.remove(p)
            mon.hit("restored")
            if rng.random() < 0.6:
                N = M
        if rng.random() < 0.4:                  # any mean and deviation may be given
            A, D = rng.normal(size=(len(ze), 4)), 10 ** rng.uniform(-3, 1, size=(len(ze), 4))
            N = TildeRNormalizer(davgs=A.copy(), dstds=D.copy(), **kw)
        for i in ([int(rng.integers(0, nf))] if rng.random() < 0.7 else range(nf)):
            tR, tD = [np.asarray(x) for x in N.normalize(structure=ds[i])]
            rows = sum(len(envs[i].centres(z)) for z in ze)
            if not mon.check(tR.shape == (rows, sum(sel), 4) and tD.shape == (rows, sum(sel), 4, 3), "normalize:shape", lambda: "%s %s, expected (%d, %d): %s" % (tR.shape, tD.shape, rows, sum(sel), what)):
                return
            mon.hit("structures")
            tol = 1e-9 * (1 + 1 / (rcut - rs) ** 2)
            r = 0
            for a, zc in enumerate(ze):
                o = 0
                pairs = [envs[i].pair(zc, z) for z in zn]
                for q in range(len(envs[i].centres(zc))):
                    o = 0
                    for z, w, p in zip(zn, sel, pairs):
                        x = p[q]
                        n = len(x[1])
                        raw = tR[r, o:o + w] * D[a] + A[a]
                        dra = tD[r, o:o + w] * D[a][None, :, None]
                        e = dpse.slots(x, (raw[:n], dra[:n]), (2, 3), {2: 10 * tol, 3: 10 * tol})
                        mon.check(not e, "normalised", lambda: "frame %d row %d neighbours %d: after undoing the normalisation %s: %s" % (i, r, z, e, what))
                        mon.check(np.allclose(tR[r, o + n:o + w], -A[a] / D[a], rtol=1e-9, atol=1e-12) and not tD[r, o + n:o + w].any(), "empty-slots", lambda: "frame %d row %d neighbours %d: %s: %s" % (i, r, z, tR[r, o + n:o + w].tolist(), what))
                        mon.hit("slots", n); mon.hit("padded_slots", w - n)
                        o += w
                    r += 1
        mon.check([snap(d) for d in ds] == before, "modifies-structures", what)
        mon.sig(s0.kind, tuple(s0.z), round(rcut, 2), tuple(sel), tuple(idx))
        mon.sample(what[:200])

    def arrays(rng, k):
        """The normaliser of one centre species on plain arrays, one frame or several at once."""
        sh = tuple(int(v) for v in rng.integers(1, 6, size=int(rng.integers(2, 4))))
        if rng.random() < 0.02:                 # as many slots as a real collection has
            sh = tuple(int(v) for v in rng.integers(10, 40, size=2)) + (int(rng.integers(20, 120)),)
            mon.hit("large_arrays")
        x = rng.normal(size=sh + (4,)) * float(rng.choice([1e-3, 0.1, 1.0, 30.0])) + float(rng.choice([0.0, 0.5, -2.0]))
        if rng.random() < 0.3:
            x[rng.random(sh) < 0.5] = 0
        if rng.random() < 0.2:
            x[...] = rng.normal(size=4) if rng.random() < 0.5 else [float(rng.normal())] * 4
            mon.hit("equal_features")
        y = x.copy()
        P = TildeRPairNormalizer(tildeRs_array=x)
        ea, ed = stats(x)
        what = "shape %s %s" % (x.shape, np.round(x.reshape(-1, 4)[:3], 6).tolist())
        mon.check(near(P.davg, ea) and near(P.dstd, ed, 1e-5), "pair:stats", lambda: "%s %s, expected %s %s: %s" % (np.asarray(P.davg).tolist(), np.asarray(P.dstd).tolist(), ea.tolist(), ed.tolist(), what))
        A, D = rng.normal(size=4), 10 ** rng.uniform(-3, 1, size=4)
        s4 = (lambda v: v.reshape(1, 4)) if rng.random() < 0.5 else (lambda v: v)
        P = TildeRPairNormalizer(davg=s4(A.copy()), dstd=s4(D.copy())) if rng.random() < 0.7 else TildeRPairNormalizer(x, s4(A.copy()), s4(D.copy()))
        g = np.asarray(P.normalize(tildeRs_array=x))
        mon.check(g.shape == x.shape and np.allclose(g, (x - A) / D, rtol=1e-12, atol=1e-12), "pair:normalize", what)
        d = rng.normal(size=sh + (4, 3))
        d0 = d.copy()
        h = np.asarray(P.normalize_derivative(tildeR_derivatives_array=d))
        mon.check(h.shape == d.shape and np.allclose(h, d / D[:, None], rtol=1e-12, atol=1e-12), "pair:normalize-derivative", what)
        mon.check(np.array_equal(x, y) and np.array_equal(d, d0), "pair:modifies-input", what)
        mon.hit("frames_at_once", len(sh) == 3)
        try:
            TildeRPairNormalizer()
            mon.fail("pair:nothing-given", "a normaliser without features or statistics is accepted")
        except ValueError:
            pass
        mon.sig("arrays", sh)

    mon.run("collections", 6000 if mon.thorough else 1200, one)
    mon.run("arrays", 8000 if mon.thorough else 2000, arrays)


def body(c):
    c.run_py("normaliser", work)


c.main(body)
