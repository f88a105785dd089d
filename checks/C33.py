import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C33", rule="random structures through the preparation of model inputs and through inference with a saved model that records what it is given: any order of species, species of the model that the structure lacks, any slot numbers, unsorted structures; "
          "distinct by (cell family, species, radii, sizes)",
          need={"structures": 150, "slots": 5000, "padded_slots": 2000, "unsorted": 40, "other_order": 40, "absent": 20, "other_neighbours": 20, "inferences": 60, "reused": 20, "other_structure": 20, "pairs": 150, "too_small": 20})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import contextlib, io
    import numpy as np
    import torch
    import h5py
    torch.set_num_threads(1)
    import gen, dpse, standin
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.infer.pwmatmlff.deepmd.preprocess import InferPreprocessor
    from matersdk.infer.pwmatmlff.deepmd.inference import DpInfer
    from matersdk.infer.pwmatmlff.deepmd.inference_depre import FFInfer

    def snap(d):
        return (d.lattice.matrix.tolist(), [(x.specie.Z, x.frac_coords.tolist()) for x in d])

    def judge(env, ze, zn, sel, A, D, rc, tR, tD, li, na, tag, what):
        rows = sum(len(env.centres(z)) for z in ze)
        rc, tR, tD, li, na = [np.asarray(x) for x in (rc, tR, tD, li, na)]
        W = sum(sel)
        if not mon.check(rc.shape == (1, rows, W, 3) and tR.shape == (1, rows, W, 4) and tD.shape == (1, rows, W, 4, 3) and li.shape == (1, rows, W), tag + ":shape", lambda: "%s %s %s %s, expected (1, %d, %d): %s" % (rc.shape, tR.shape, tD.shape, li.shape, rows, W, what)):
            return
        want = [env.s.n] + [len(env.centres(z)) for z in ze]
        mon.check(na.shape == (1, len(want)) and na[0].tolist() == want, tag + ":counts", lambda: "%s, expected %s: %s" % (na.tolist(), want, what))
        t = 1e-8 * (1 + 1 / (env.rcut - env.rs) ** 2)
        r = 0
        for a, zc in enumerate(ze):
            pairs = [env.pair(zc, z) for z in zn]
            for q in range(len(env.centres(zc))):
                o = 0
                for z, w, p in zip(zn, sel, pairs):
                    x, n, u = p[q], len(p[q][1]), slice(o, o + w)
                    raw, dra = tR[0, r, u] * D[a] + A[a], tD[0, r, u] * D[a][None, :, None]
                    e = dpse.slots(x, (rc[0, r, u][:n], raw[:n], dra[:n], li[0, r, u][:n]), (0, 2, 3, 4), {0: 1e-9, 2: t, 3: t, 4: 1e-9})
                    mon.check(not e, tag + ":slots", lambda: "row %d neighbours %d (relative coordinates, feature, derivative, home atom): %s: %s" % (r, z, e, what))
                    mon.check(not rc[0, r, u][n:].any() and not li[0, r, u][n:].any() and not tD[0, r, u][n:].any() and np.allclose(tR[0, r, u][n:], -A[a] / D[a], rtol=1e-9, atol=1e-12), tag + ":empty-slots", lambda: "row %d neighbours %d: %s" % (r, z, what))
                    mon.hit("slots", n); mon.hit("padded_slots", w - n)
                    o += w
                r += 1

    def one(rng, k):
        s = gen.system(rng, 7, lo=2.5, hi=5.5)
        sc = [int(x) for x in rng.choice([1, 3, 3], size=3)]
        rcut = float(rng.uniform(1.5, 4.5))
        rs = rcut * float(rng.uniform(0.05, 0.95))
        env = dpse.Env(s, rcut, rs, sc)
        if not env.sharp:
            return
        # the same cell and atoms elsewhere, for objects that are used again
        s2 = gen.Sys(s.lat, s.z, s.frac + rng.normal(size=s.frac.shape) * 0.05, s.kind)
        env2 = dpse.Env(s2, rcut, rs, sc)
        if not env2.sharp:
            s2, env2 = s, env
        zs = sorted(set(s.z.tolist()))
        ze = [int(z) for z in rng.permutation(zs)] if rng.random() < 0.4 else list(zs)
        if rng.random() < 0.15:
            ze.insert(int(rng.integers(0, len(ze) + 1)), int(rng.choice([z for z in gen.POOL if z not in zs])))
            mon.hit("absent")
        zn = [int(z) for z in rng.permutation(ze)] if rng.random() < 0.3 else list(ze)
        if rng.random() < 0.1 and len(zn) > 1:
            zn = zn[:-1]
        mon.hit("other_order", ze != sorted(ze)); mon.hit("other_neighbours", zn != ze)
        sel = [max(env.width(ze, z), env2.width(ze, z)) + int(rng.integers(0, 4)) or 1 for z in zn]
        if rng.random() < 0.1:
            sel = [w + int(rng.integers(10, 60)) for w in sel]
        A, D = rng.normal(size=(len(ze), 4)), 10 ** rng.uniform(-3, 1, size=(len(ze), 4))
        d = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=s.frac, coords_are_cartesian=False)
        before = snap(d)
        what = "rcut %.6f smooth %.6f supercell %s centres %s neighbours %s sizes %s %r" % (rcut, rs, sc, ze, zn, sel, s)
        kw = dict(rcut=rcut, rcut_smooth=rs, scaling_matrix=sc, davg=A.copy(), dstd=D.copy(), center_atomic_numbers=list(ze), nbr_atomic_numbers=list(zn), max_num_nbrs=list(sel))
        if rng.random() < 0.3:
            kw["reformat_mark"] = True          # documented as the only value; False orders equidistant neighbours differently in the two halves
        mon.hit("structures"); mon.hit("unsorted", bool(np.any(np.diff(s.z) < 0)))
        if rng.random() < 0.6:
            p = InferPreprocessor(structure=d, **kw)
            order = [int(v) for v in rng.permutation(4)]        # the parts may be asked for in any order, also twice
            got = {}
            for q in order + order[:1]:
                got[q] = [p.expand_rc, p.expand_tildeR, p.expand_list_neigh, p.expand_natoms_img][q]()
            judge(env, ze, zn, sel, A, D, got[0], got[1][0], got[1][1], got[2], got[3], "inputs", what)
        else:
            path = os.path.join(mon.scratch, "model.pt")
            n = int(rng.integers(1, 5))
            out = [rng.normal(size=(1, 1)), rng.normal(size=(1, s.n, 1)), rng.normal(size=(1, s.n, 3)), rng.normal(size=(1, 9))]
            torch.save(standin.Model(n, *out), path)
            inf = DpInfer(pt_file_path=path, device="cpu", **kw)
            v, dv = env, d
            for rep in range(3 if rng.random() < 0.4 else 1):
                if rep:
                    mon.hit("reused")
                    if rng.random() < 0.5:
                        out = [x + 1 for x in out]
                        torch.save(standin.Model(n, *out), path)    # the model in the file is the one that counts
                    if rng.random() < 0.6:                          # another structure, or the same object with its atoms moved
                        v, w2 = (env2, s2) if v is env else (env, s)
                        if rng.random() < 0.5 or dv is d:
                            dv = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=w2.frac, coords_are_cartesian=False)
                        else:
                            for a in range(s.n):
                                dv.replace(a, species=int(s.z[a]), coords=w2.frac[a])
                            mon.hit("moved_in_place")
                        mon.hit("other_structure", env2 is not env)
                standin.seen.clear()
                with contextlib.redirect_stdout(io.StringIO()):
                    res = inf.infer(structure=dv)
                if not mon.check(len(standin.seen) == 1, "model-calls", lambda: "%d calls of the model: %s" % (len(standin.seen), what)):
                    return
                g = standin.seen[0]
                mon.check(all(x.dtype == torch.float64 for x in g[:4]) and not g[5], "model-state", lambda: "types %s, training %s: %s" % ([str(x.dtype) for x in g[:4]], g[5], what))
                judge(v, ze, zn, sel, A, D, *[x.detach().numpy() for x in g[:4]], np.asarray(g[4]), "infer", what)
                for nm, x, y in zip(("energy", "atomic energies", "forces", "virial"), res, (out[0][0], out[1][0], out[2][0], out[3].reshape(3, 3))):
                    mon.check(np.asarray(x).shape == y.shape and np.array_equal(np.asarray(x), y), "result:" + nm, lambda: "%s, the model gave %s: %s" % (np.asarray(x).tolist(), y.tolist(), what))
                mon.hit("inferences")
            os.remove(path)
        if rng.random() < 0.4:
            h = os.path.join(mon.scratch, "net.h5")
            w = rng.normal(size=(2, 3))
            with h5py.File(h, "w") as f:
                f.create_dataset("embedding_net.0.weights.weight0", data=w)
            sd = {int(z): env.width(zs, z) + int(rng.integers(0, 4)) for z in zs}
            F = FFInfer(hdf5_path=h, rcut=rcut, rcut_smooth=rs, max_num_nbrs_dict=sd, davgs_dict={}, dstds_dict={})
            os.remove(h)
            T = F.calc_tildeR(structure=d, scaling_matrix=sc)
            mon.check(set(T) == {"%d_%d" % (x, y) for x in zs for y in zs}, "pairs:keys", lambda: "%s: %s" % (sorted(T), what))
            t = 1e-8 * (1 + 1 / (rcut - rs) ** 2)
            for x in zs:
                for y in zs:
                    g, p = np.asarray(T["%d_%d" % (x, y)]), env.pair(x, y)
                    if not mon.check(g.shape == (len(p), sd[y], 4), "pairs:shape", lambda: "%d_%d: %s: %s" % (x, y, g.shape, what)):
                        continue
                    for r, v in enumerate(p):
                        e = dpse.slots(v, (g[r, :len(v[1])],), (2,), {2: t})
                        mon.check(not e and not g[r, len(v[1]):].any(), "pairs:slots", lambda: "%d_%d row %d: %s: %s" % (x, y, r, e, what))
                    mon.hit("pairs")
        if rng.random() < 0.15 and max(sel) > 1:
            a = int(np.argmax([env.width(ze, z) for z in zn]))
            if env.width(ze, zn[a]) > 1:
                kw["max_num_nbrs"][a] = env.width(ze, zn[a]) - 1
                p = InferPreprocessor(structure=d, **kw)
                for nm in ("expand_rc", "expand_tildeR", "expand_list_neigh"):
                    try:
                        getattr(p, nm)()
                        mon.fail("too-small:" + nm, "%d neighbours in %d slots are accepted: %s" % (env.width(ze, zn[a]), kw["max_num_nbrs"][a], what))
                    except (ValueError, AssertionError, IndexError):
                        mon.hit("too_small")
        mon.check(snap(d) == before, "modifies-structure", what)
        mon.sig(s.kind, tuple(s.z), round(rcut, 2), tuple(sel), tuple(ze))
        mon.sample(what[:200])

    mon.run("inference", 4000 if mon.thorough else 900, one)


def body(c):
    c.run_py("inference", work)


c.main(body)
