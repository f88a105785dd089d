import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C20", rule="random structures (all cell families, unsorted species, atoms outside the home cell, an atom at the origin, high-symmetry sites) through the Python neighbour finder, its counters and its index tables; "
          "distinct by (cell family, species sequence, supercell, number of neighbours)",
          need={"beside_a_pair": 20, "file_order": 10, "structures": 100, "complete": 20, "rows": 300, "ragged": 50, "ties": 30, "index_tables": 200, "origin_with_padding": 20, "absent_species": 30, "element_counts": 100, "unsorted": 50, "defaults": 5})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.neigh import StructureNeighborsDescriptor, StructureNeighborsUtils as U
    TOL = 1e-7

    def one(rng, k):
        s = gen.system(rng, 7, lo=2.5, hi=6.0)
        fr = s.frac.copy()
        if rng.random() < 0.3:
            fr -= fr[int(rng.integers(0, s.n))]          # an atom at the origin
        if rng.random() < 0.3:
            fr[int(rng.integers(0, s.n))] += rng.integers(-1, 2, size=3)
        sc = [int(x) for x in rng.choice([1, 3, 3, 3, 5], size=3)]
        if sc.count(5) > 1:
            sc[int(rng.integers(0, 3))] = 1
        lim = min([(q // 2) * h for q, h in zip(sc, gen.heights(s.lat)) if q > 1] or [3.0])
        rcut = float(rng.uniform(0.4, 1.6) * lim)
        if rng.random() < 0.15:
            rcut = float(round(rcut * 2) / 2) or 0.5
        if rng.random() < 0.4:
            r1 = gen.beside(rng, fr @ s.lat, s.lat, sc, 0.4 * lim, 1.6 * lim)
            if r1:
                rcut = r1
                mon.hit("beside_a_pair")
        dflt = rng.random() < 0.08
        if dflt:
            rcut, sc = 6.5, [3, 3, 3]
            mon.hit("defaults")
        d = DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=fr, coords_are_cartesian=False)
        pos = fr @ s.lat
        what = "rcut %.9f supercell %s %s lattice %s %s" % (rcut, sc, s.kind, s.lat.tolist(), [(int(z), f.tolist()) for z, f in zip(s.z, fr)])
        before = (d.lattice.matrix.tolist(), [(x.specie.Z, x.frac_coords.tolist()) for x in d])
        fmt = True
        if dflt:
            nb = StructureNeighborsDescriptor.create("v1", structure=d)
        elif rng.random() < 0.2:
            fmt = False
            nb = StructureNeighborsDescriptor.create("v1", structure=d, rcut=rcut, scaling_matrix=sc, reformat_mark=False)
        elif rng.random() < 0.7:
            nb = StructureNeighborsDescriptor.create("v1", structure=d, rcut=rcut, scaling_matrix=sc, reformat_mark=True, coords_are_cartesian=True)
        else:
            nb = StructureNeighborsDescriptor.create("v1", d, rcut, np.array(sc))
        mon.check(before == (d.lattice.matrix.tolist(), [(x.specie.Z, x.frac_coords.tolist()) for x in d]), "modifies-original", what)
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float) @ s.lat
        allp = (pos[:, None] + sh[None]).reshape(-1, 3)
        allz = np.repeat(s.z, len(sh))
        allj = np.repeat(np.arange(s.n), len(sh))
        o = np.argsort(s.z, kind="stable") if fmt else np.arange(s.n)
        mon.hit("file_order", not fmt and bool(np.any(np.diff(s.z) < 0)))
        an, dd, co = [np.asarray(x) for x in (nb.key_nbr_atomic_numbers, nb.key_nbr_distances, nb.key_nbr_coords)]
        mon.hit("structures"); mon.hit("unsorted", bool(np.any(np.diff(s.z) < 0)))
        W = an.shape[1]
        if not mon.check(an.shape == (s.n, W) and dd.shape == (s.n, W) and co.shape == (s.n, W, 3), "shape", lambda: "%s %s %s: %s" % (an.shape, dd.shape, co.shape, what)):
            return
        cnt, cnt_el, rows, sharp = [], [], [], True
        for r, i in enumerate(o):
            q = np.linalg.norm(allp - pos[i], axis=1)
            isself = q < 1e-6
            sure = (q < rcut - TOL) & ~isself
            may = (q < rcut + TOL) & ~isself
            sharp = sharp and sure.sum() == may.sum()
            cnt.append((int(sure.sum()), int(may.sum())))
            cnt_el.append({int(z): (int((sure & (allz == z)).sum()), int((may & (allz == z)).sum())) for z in set(s.z.tolist())})
            mon.check(an[r, 0] == s.z[i] and abs(dd[r, 0]) < 1e-9 and np.allclose(co[r, 0], pos[i], atol=1e-7), "centre", lambda: "row %d begins with %s %s, not with atom %d: %s" % (r, an[r, 0], co[r, 0].tolist(), i, what))
            n = int(np.count_nonzero(an[r])) - 1
            mon.check(bool(np.all(an[r, 1:n + 1] > 0)) and not an[r, n + 1:].any() and not dd[r, n + 1:].any() and not co[r, n + 1:].any(), "padding", lambda: "row %d: %s: %s" % (r, an[r].tolist(), what))
            if not mon.check(cnt[-1][0] <= n <= cnt[-1][1], "count", lambda: "row %d: %d neighbours, expected %s: %s" % (r, n, cnt[-1], what)):
                return
            mon.check(bool(np.all(np.diff(dd[r, :n + 1]) >= 0)), "order", lambda: "row %d distances %s: %s" % (r, dd[r].tolist(), what))
            mon.hit("ties", bool(n > 1 and np.any(np.diff(dd[r, 1:n + 1]) < 1e-9)))
            idx = []
            cand = np.where(may)[0]
            if n:
                e = np.abs(co[r, 1:n + 1][:, None] - allp[cand][None]).max(axis=2) + 9 * (an[r, 1:n + 1][:, None] != allz[cand][None])
                j = e.argmin(axis=1)
                mon.check(e.min(axis=1).max() < 1e-7 and len(set(j.tolist())) == n, "neighbours", lambda: "row %d: a listed neighbour is no image, or is listed twice: %s" % (r, what))
                mon.check(np.allclose(dd[r, 1:n + 1], q[cand[j]], atol=1e-7), "distance", lambda: "row %d: %s: %s" % (r, dd[r].tolist(), what))
                idx = (allj[cand[j]] + 1).tolist()
            rows.append((int(s.z[i]), idx, [int(x) for x in an[r, 1:n + 1]]))
            mon.hit("rows")
        mon.check(W == 1 + max(len(x[1]) for x in rows), "width", lambda: "%d columns for %s: %s" % (W, [len(x[1]) for x in rows], what))
        mon.hit("ragged", len(set(len(x[1]) for x in rows)) > 1)
        mon.sig(s.kind, tuple(s.z), tuple(sc), tuple(len(x[1]) for x in rows))
        mon.sample(what[:200])
        # a supercell that reaches beyond the cutoff shows the full periodic neighbourhood
        hs = gen.heights(s.lat)
        if np.all(fr > -1e-12) and np.all(fr < 1) and all(rcut < (q // 2) * h for q, h in zip(sc, hs)):
            full = gen.neighbours(gen.Sys(s.lat, s.z, fr), rcut)
            for r, i in enumerate(o):
                m = sum(1 for x in full[i] if not x[3])
                mon.check(m <= len(rows[r][1]) <= len(full[i]), "complete", lambda: "row %d: %d of %d periodic neighbours: %s" % (r, len(rows[r][1]), m, what))
            mon.hit("complete")
        # counters
        g = U.get_max_num_nbrs_real(d, rcut, sc)
        mon.check(max(x[0] for x in cnt) <= g <= max(x[1] for x in cnt), "max-count", lambda: "%s, expected %s: %s" % (g, max(cnt), what))
        none = gen.SYM[int(rng.choice([z for z in gen.ALL if z not in set(s.z.tolist())]))]
        els = [gen.SYM[z] for z in rng.permutation(sorted(set(s.z.tolist())))] + ([none] if rng.random() < 0.3 else [])
        ge = U.get_max_num_nbrs_real_element(d, rcut, els, sc)
        mon.check(list(ge) == els, "max-count-element:keys", lambda: "%s: %s" % (ge, what))
        for z in set(s.z.tolist()):
            a, b = max(x[z][0] for x in cnt_el), max(x[z][1] for x in cnt_el)
            mon.check(a <= ge[gen.SYM[z]] <= b, "max-count-element", lambda: "%s: %s, expected %d: %s" % (gen.SYM[z], ge, a, what))
        mon.check(ge.get(none, 0) == 0, "max-count-element:absent", lambda: "%s: %s" % (ge, what))
        mon.hit("element_counts")
        # index tables
        cs = [int(z) for z in rng.permutation(sorted(set(s.z.tolist())))]
        ns = [int(z) for z in rng.permutation(sorted(set(s.z.tolist())))]
        if rng.random() < 0.4:
            (cs if rng.random() < 0.5 else ns).append(gen.NUM[none])
            mon.hit("absent_species")
        mx = {z: max([sum(1 for q in x[2] if q == z) for x in rows]) for z in ns}
        sel = [mx[z] + int(rng.integers(0, 4)) for z in ns]
        at0 = bool(np.any(np.abs(fr - np.round(fr)).max(axis=1) < 1e-6))

        def want(zc, zn, w):
            out = []
            for x in rows:
                if x[0] == zc:
                    q = [j for j, z in zip(x[1], x[2]) if z == zn]
                    out.append(q + [0] * (w - len(q)))
            return np.array(out, int).reshape(len(out), w)

        for zc in cs:
            for zn, w in zip(ns, sel):
                real = max([sum(1 for q in x[2] if q == zn) for x in rows if x[0] == zc], default=0)
                t = np.asarray(U.get_nbrs_indices(nb, [zc], [zn], [w]) if w else U.get_nbrs_indices(nb, [zc], [zn]))
                ww = w if w else real
                e = want(zc, zn, ww)
                mon.check(t.shape == e.shape and bool(np.all(t == e)), "index-table", lambda: "centre %d neighbour %d size %d: %s, expected %s: %s" % (zc, zn, w, t.tolist(), e.tolist(), what))
                t = np.asarray(U.get_nbrs_indices(nb, [zc], [zn]))
                e = want(zc, zn, real)
                mon.check(t.shape == e.shape and bool(np.all(t == e)), "index-table:unpadded", lambda: "centre %d neighbour %d: %s, expected %s: %s" % (zc, zn, t.tolist(), e.tolist(), what))
                mon.hit("single_tables")
                mon.hit("origin_with_padding", at0 and bool((e == 0).any()))
        wide = [max([sum(1 for q in x[2] if q == zn) for x in rows if x[0] in cs], default=0) for zn in ns]
        t = np.asarray(U.get_nbrs_indices(nb, cs, ns))
        e = np.concatenate([np.concatenate([want(zc, zn, w) for zn, w in zip(ns, wide)], axis=1) for zc in cs], axis=0)
        mon.check(t.shape == e.shape and bool(np.all(t == e)), "index-table:default-size", lambda: "%s, expected %s: %s" % (t.tolist(), e.tolist(), what))
        mon.hit("index_tables"); mon.hit("origin_with_padding", at0 and bool((e == 0).any()))
        if all(sel):
            t = np.asarray(U.get_nbrs_indices(nb, cs, ns, sel))
            e = np.concatenate([np.concatenate([want(zc, zn, w) for zn, w in zip(ns, sel)], axis=1) for zc in cs], axis=0)
            mon.check(t.shape == e.shape and bool(np.all(t == e)), "index-table:merged", lambda: "%s, expected %s: %s" % (t.tolist(), e.tolist(), what))

    mon.run("neighbours", 8000 if mon.thorough else 500, one)


def body(c):
    c.run_py("finder", work)


c.main(body)
