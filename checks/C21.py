import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C21", rule="random structures through the Python DeepPot-SE features: every (centre, neighbour) species pair, cutoffs below, at and above the one the neighbours were searched with, neighbours exactly on both radii, padding sizes; "
          "distinct by (cell family, species sequence, radii, pair)",
          need={"pairs": 200, "slots": 2000, "inner": 200, "switching": 500, "beyond": 100, "on_cutoff": 20, "on_inner": 20, "padded_slots": 100, "absent": 20, "flat": 100, "too_small": 50, "repeated": 100})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor
    from matersdk.feature.deepmd.premise import DpFeaturePairPremiseDescriptor
    from matersdk.feature.deepmd.se_pair import DpseTildeRPairDescriptor
    from matersdk.feature.deepmd.se import DpseTildeRDescriptor

    def tilde(rc, rs, ro):
        """(n, 4) from relative coordinates (n, 3), complex allowed."""
        r = np.sqrt((rc * rc).sum(axis=1))
        u = (r - rs) / (ro - rs)
        sw = 1 - u ** 3 * (10 - 15 * u + 6 * u * u)
        sw = np.where(r.real <= rs, 1.0 + 0 * r, np.where(r.real >= ro, 0 * r, sw))
        return np.concatenate([(sw / r)[:, None], (sw / r ** 2)[:, None] * rc], axis=1)

    def deriv(rc, rs, ro):
        out = np.zeros((len(rc), 4, 3))
        for k in range(3):
            e = np.zeros(3, complex)
            e[k] = -1e-30j                      # moving the centre shortens the relative vector
            out[:, :, k] = tilde(rc + e, rs, ro).imag / 1e-30
        return out

    def one(rng, k):
        if rng.random() < 0.25:                 # distances that hit the radii exactly
            a = float(rng.choice([2.0, 3.0, 4.0]))
            z = rng.choice(gen.POOL, size=2, replace=False)
            s = gen.Sys(np.eye(3) * a, [z[0], z[int(rng.integers(0, 2))]], [[0, 0, 0], [0.5, 0, 0]] if rng.random() < 0.5 else [[0, 0, 0], [0.5, 0.5, 0.5]], "lattice")
            sc, ro = [3, 3, 3], a
            rs = float(rng.choice([a / 2, a / 4]))
            rn = ro if rng.random() < 0.7 else 1.3 * a
        else:
            s = gen.system(rng, 7, lo=2.5, hi=6.0)
            sc = [int(x) for x in rng.choice([1, 3, 3], size=3)]
            rn = float(rng.uniform(1.5, 5.0))
            ro = rn if rng.random() < 0.7 else rn * float(rng.uniform(0.6, 1.3))
            rs = ro * float(rng.uniform(0.05, 0.95)) if rng.random() < 0.95 else 0.0
        d = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=s.frac, coords_are_cartesian=False)
        nb = StructureNeighborsDescriptor.create("v1", structure=d, rcut=rn, scaling_matrix=sc, reformat_mark=True, coords_are_cartesian=True)
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float) @ s.lat
        allp = (s.pos[:, None] + sh[None]).reshape(-1, 3)
        allz = np.repeat(s.z, len(sh))
        o = np.argsort(s.z, kind="stable")
        zs = [int(z) for z in rng.permutation(sorted(set(s.z.tolist())))] + ([10] if rng.random() < 0.2 else [])
        what0 = "searched %.6f rcut %.6f smooth %.6f supercell %s %r" % (rn, ro, rs, sc, s)
        snap = lambda: [np.array(x) for x in (nb.key_nbr_atomic_numbers, nb.key_nbr_distances, nb.key_nbr_coords, d.frac_coords, d.lattice.matrix)]
        before = snap()
        feats = {}
        for zc in zs:
            for zn in zs:
                what = "centre %d neighbour %d %s" % (zc, zn, what0)
                p = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, ro, rs)
                an, dd, rc, R = [np.asarray(x) for x in (p.dp_feature_pair_an, p.dp_feature_pair_d, p.dp_feature_pair_rc, p.dp_feature_pair_tildeR)]
                cen = [i for i in o if s.z[i] == zc]
                W = an.shape[1]
                if not mon.check(an.shape == (len(cen), W) and dd.shape == an.shape and rc.shape == (len(cen), W, 3) and R.shape == (len(cen), W, 4), "shape", lambda: "%s %s %s %s: %s" % (an.shape, dd.shape, rc.shape, R.shape, what)):
                    continue
                mon.hit("pairs"); mon.hit("absent", not cen or W == 0)
                D = np.asarray(p.calc_derivative(W))
                eR, eD, most = np.zeros((len(cen), W, 4)), np.zeros((len(cen), W, 4, 3)), 0
                for r, i in enumerate(cen):
                    q = np.linalg.norm(allp - s.pos[i], axis=1)
                    may = np.where((q < rn + 1e-7) & (q > 1e-6) & (allz == zn))[0]
                    sure = int((q[may] < rn - 1e-7).sum())
                    n = int(np.count_nonzero(an[r]))
                    most = max(most, n)
                    if not mon.check(sure <= n <= len(may), "count", lambda: "row %d: %d neighbours, expected %d: %s" % (r, n, sure, what)):
                        return
                    mon.check(bool(np.all(an[r, :n] == zn)) and not an[r, n:].any() and not dd[r, n:].any() and not rc[r, n:].any(), "padding", lambda: "row %d %s: %s" % (r, an[r].tolist(), what))
                    mon.hit("padded_slots", W - n)
                    if n:
                        rel = allp[may] - s.pos[i]
                        e = np.abs(rc[r, :n][:, None] - rel[None]).max(axis=2)
                        j = e.argmin(axis=1)
                        mon.check(e.min(axis=1).max() < 1e-9 and len(set(j.tolist())) == n, "neighbours", lambda: "row %d %s: %s" % (r, rc[r].tolist(), what))
                        mon.check(np.allclose(dd[r, :n], q[may[j]], rtol=1e-11, atol=1e-9), "distance", lambda: "row %d %s: %s" % (r, dd[r].tolist(), what))
                        x = rc[r, :n].astype(complex)
                        eR[r, :n] = tilde(x, rs, ro).real
                        eD[r, :n] = deriv(x, rs, ro)
                        mon.hit("slots", n); mon.hit("inner", int((dd[r, :n] < rs).sum())); mon.hit("beyond", int((dd[r, :n] >= ro).sum()))
                        mon.hit("switching", int(((dd[r, :n] > rs) & (dd[r, :n] < ro)).sum()))
                        mon.hit("on_cutoff", int((np.abs(dd[r, :n] - ro) < 1e-12).sum())); mon.hit("on_inner", int((np.abs(dd[r, :n] - rs) < 1e-12).sum()))
                tol = 1e-9 * (1 + 1 / (ro - rs) ** 2)
                for nm, g, e in (("value", R, eR), ("derivative", D, eD)):
                    bad = g.shape != e.shape or not np.all(np.abs(g - e) <= tol * (1 + np.abs(e)))
                    if bad and g.shape == e.shape:
                        b = np.argwhere(~(np.abs(g - e) <= tol * (1 + np.abs(e))))[0]
                        mon.fail(nm, "slot %s at distance %.9f: %r, expected %r: %s" % (b.tolist(), dd[b[0], b[1]], float(g[tuple(b)]), float(e[tuple(b)]), what))
                    else:
                        mon.check(not bad, nm + ":shape", lambda: "%s: %s" % (g.shape, what))
                mon.check(W == most, "width", lambda: "%d columns for %d neighbours: %s" % (W, most, what))
                sel = W + (int(rng.integers(0, 4)) if rng.random() < 0.9 else int(rng.integers(20, 120)))
                for nm, g, e in (("get_tildeR", p.get_tildeR(sel), eR), ("calc_derivative", p.calc_derivative(sel), eD),
                                 ("expand_rc", DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nb).expand_rc(zc, zn, sel), rc)):
                    g = np.asarray(g)
                    f = np.zeros((len(cen), sel) + e.shape[2:])
                    f[:, :W] = e
                    mon.check(g.shape == f.shape and np.allclose(g, f, rtol=tol, atol=tol), nm, lambda: "padded to %d: %s: %s" % (sel, g.shape, what))
                if W > 2 and len(cen):
                    for nm, fn in (("get_tildeR", p.get_tildeR), ("calc_derivative", p.calc_derivative),
                                   ("expand_rc", lambda w: DpFeaturePairPremiseDescriptor.create("v1", structure_neighbors=nb).expand_rc(zc, zn, w))):
                        try:
                            fn(W - 1)
                            mon.fail(nm + ":too-small", "%d neighbours in %d slots are accepted: %s" % (W, W - 1, what))
                        except (ValueError, AssertionError, IndexError):
                            mon.hit("too_small")
                if rng.random() < 0.3:
                    q = DpseTildeRPairDescriptor.create("v1", nb, zc, zn, ro, rs)
                    same = lambda x, y: np.shape(x) == y.shape and np.allclose(x, y, rtol=tol, atol=tol)      # vectorised powers round by memory alignment
                    mon.check(same(q.dp_feature_pair_tildeR, R) and same(p.dp_feature_pair_tildeR, R) and same(p.calc_derivative(W), D), "repeat", what)
                    mon.hit("repeated")
                feats[zc, zn] = eR
                mon.sig(s.kind, tuple(s.z), round(rs, 3), round(ro, 3), zc, zn)
        sel = [max([feats[zc, zn].shape[1] for zc in zs]) + int(rng.integers(0, 3)) for zn in zs]
        g = np.asarray(DpseTildeRDescriptor.create("v1", nb, zs, zs, sel, ro, rs).get_tildeR())
        out = []
        for zc in zs:
            for zn, w in zip(zs, sel):
                f = np.zeros((feats[zc, zn].shape[0], w, 4))
                f[:, :feats[zc, zn].shape[1]] = feats[zc, zn]
                out.append(f.ravel())
        e = np.concatenate(out)
        mon.check(g.shape == e.shape and np.allclose(g, e, rtol=1e-8, atol=1e-9 * (1 + 1 / (ro - rs) ** 2)), "flat", lambda: "order %s sizes %s: %s" % (zs, sel, what0))
        mon.hit("flat")
        mon.check(all(np.array_equal(a, b) for a, b in zip(before, snap())), "input-changed", what0)
        mon.sample(what0[:200])

    mon.run("features", 8000 if mon.thorough else 1500, one)


def body(c):
    c.run_py("features", work)


c.main(body)
