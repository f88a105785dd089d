import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C19", rule="random structures (all cell families, unsorted species, atoms outside the home cell, vacancies, moments) through every editing and querying operation and random sequences of them; "
          "distinct by (cell family, species sequence, operation)",
          need={"supercells": 100, "unsorted_supercells": 50, "site_index": 500, "site_index_miss": 100, "key_atoms": 100, "reordered": 100, "with_moments": 30, "vacancies": 100, "natoms": 200, "vacuum_yes": 20, "vacuum_no": 20, "long_supercells": 20})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen
    from matersdk.io.publicLayer.structure import DStructure
    from pymatgen.core import Structure

    def snap(d):
        return (d.lattice.matrix.tolist(), [(str(x.specie), x.frac_coords.tolist()) for x in d])

    def dstruct(s, frac=None):
        return DStructure(lattice=s.lat, species=[int(z) for z in s.z], coords=s.frac if frac is None else frac, coords_are_cartesian=False)

    def atoms(d, nd=6):
        return sorted((x.specie.Z, *np.round(x.coords + 0.0, nd).tolist()) for x in d)

    def near(a, b, tol=1e-7):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))

    def supercell(rng, k):
        s = gen.system(rng, 6)
        fr = s.frac.copy()
        if rng.random() < 0.3:
            fr[int(rng.integers(0, s.n))] += rng.integers(-1, 2, size=3)
        d = dstruct(s, fr)
        pos = fr @ s.lat
        sc = [int(x) for x in rng.choice([1, 3, 3, 5], size=3)]
        if rng.random() < 0.05:
            sc = [int(x) for x in rng.permutation([1, 1 if s.n > 6 else 3, int(rng.choice([7, 9, 11, 13]))])]
            mon.hit("long_supercells")
        if sc.count(5) > 1:
            sc[0] = 1
        scm = np.array(sc) if rng.random() < 0.5 else sc
        before = snap(d)
        fmt = bool(rng.random() < 0.6)
        S = d.make_supercell_(scaling_matrix=scm, reformat_mark=fmt)
        what = "%r scaling %s sorted=%s" % (s, sc, fmt)
        mon.sig(s.kind, tuple(s.z), tuple(sc), fmt)
        mon.sample(what[:200])
        mon.check(snap(d) == before, "supercell:modifies-original", what)
        mon.check(type(S) is DStructure, "supercell:class", what)
        mon.check(near(S.lattice.matrix, np.diag(sc) @ s.lat), "supercell:lattice", lambda: "%s: %s" % (S.lattice.matrix.tolist(), what))
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float)
        want = [(int(z), p + t @ s.lat) for z, p in zip(s.z, pos) for t in sh]
        got = [(x.specie.Z, x.coords) for x in S]
        mon.check(len(got) == len(want), "supercell:count", lambda: "%d != %d: %s" % (len(got), len(want), what))
        wz = np.array([w[0] for w in want]); wp = np.array([w[1] for w in want])
        gz = np.array([g[0] for g in got]); gp = np.array([g[1] for g in got])
        if len(got) == len(want):
            dd = np.abs(gp[:, None, :] - wp[None]).max(axis=2) + 9 * (gz[:, None] != wz[None])
            j = dd.argmin(axis=1)
            mon.check(dd.min(axis=1).max() < 1e-7 and len(set(j.tolist())) == len(want), "supercell:atoms", lambda: "an image is missing, misplaced or repeated: %s" % what)
        if fmt:
            mon.check(bool(np.all(np.diff(gz) >= 0)), "supercell:sorted", lambda: "%s: %s" % (gz.tolist(), what))
        else:
            mon.check(near(gp[:s.n], pos) and gz[:s.n].tolist() == s.z.tolist(), "supercell:home-first", what)
        mon.hit("supercells" if fmt else "unsorted_supercells")
        # home atoms in the sorted supercell
        key = d.get_key_idxs(scaling_matrix=scm)
        T = d.make_supercell_(scaling_matrix=scm, reformat_mark=True) if rng.random() < 0.5 else d.make_supercell_(scaling_matrix=scm)
        mon.check(len(key) == s.n and list(key) == sorted(set(int(x) for x in key)), "key:indices", lambda: "%s: %s" % (list(key), what))
        o = np.argsort(s.z, kind="stable")
        mon.check([T[int(i)].specie.Z for i in key] == s.z[o].tolist() and near([T[int(i)].coords for i in key], pos[o], 1e-7), "key:home-atoms",
                  lambda: "%s: %s" % ([(T[int(i)].specie.Z, T[int(i)].coords.tolist()) for i in key], what))
        mon.hit("key_atoms")
        # every site maps back to its home atom
        for i in rng.integers(0, len(S), size=12):
            x = S[int(i)]
            r = d.get_site_index(site_coord=x.coords)
            if mon.check(1 <= r <= s.n, "site-index:range", lambda: "%s for a site of the supercell: %s" % (r, what)):
                o = (x.coords - pos[r - 1]) @ np.linalg.inv(s.lat)
                mon.check(near(o, np.round(o), 1e-6), "site-index", lambda: "site %s mapped to atom %d: %s" % (x.coords.tolist(), r, what))
            mon.hit("site_index")
            q = x.coords + rng.normal(size=3) * 0.2
            o = (q - pos) @ np.linalg.inv(s.lat)
            if np.abs(o - np.round(o)).max(axis=1).min() > 1e-4:
                mon.check(d.get_site_index(site_coord=q) == 0, "site-index:miss", lambda: "%s is no site: %s" % (q.tolist(), what))
                mon.hit("site_index_miss")
            u = rng.normal(size=3)
            q = x.coords + (u / np.linalg.norm(u)) @ s.lat * 10 ** rng.uniform(-5, -2)       # almost a site
            o = (q - pos) @ np.linalg.inv(s.lat)
            if np.abs(o - np.round(o)).max(axis=1).min() > 1e-6:
                mon.check(d.get_site_index(site_coord=q) == 0, "site-index:almost", lambda: "%s is no site: %s" % (q.tolist(), what))
                mon.hit("site_index_almost")

    def edit(rng, k):
        s = gen.system(rng, 12) if rng.random() < 0.97 else gen.crowd(rng, int(rng.integers(40, 130)))
        d = dstruct(s)
        mags = None
        if rng.random() < 0.5:
            mags = rng.normal(size=s.n).round(3).tolist()
            d.add_site_property("magmom", list(mags))
            mon.hit("with_moments")
        tagged = [(int(z), f.tolist(), mags[i] if mags else None) for i, (z, f) in enumerate(zip(s.z, s.frac))]
        what = "%r moments %s" % (s, mags)

        def is_(e, want, tag):
            ok = len(e) == len(want) and all(x.specie.Z == w[0] and near(x.frac_coords, w[1]) and (w[2] is None or abs(x.properties["magmom"] - w[2]) < 1e-9) for x, w in zip(e, want))
            mon.check(ok and near(e.lattice.matrix, s.lat), tag, lambda: "%s\n!= %s\n%s" % ([(x.specie.Z, x.frac_coords.tolist()) for x in e], want, what))
            mon.check(type(e) is DStructure, tag + ":class", str(type(e)))

        cent = d.get_centroid()
        mon.check(near(cent, s.pos.mean(axis=0), 1e-9), "centroid", lambda: "%s: %s" % (cent, what))
        zs = sorted(set(int(z) for z in s.z))
        na = d.get_natoms()
        mon.check(list(na) == [s.n] + [int((s.z == z).sum()) for z in zs], "natoms", lambda: "%s: %s" % (list(na), what))
        od = [int(z) for z in rng.permutation(zs)] + ([] if rng.random() < 0.5 else [92])
        na = d.get_natoms(atomic_numbers_order=od)
        mon.check(list(na) == [s.n] + [int((s.z == z).sum()) for z in od], "natoms:order", lambda: "%s for order %s: %s" % (list(na), od, what))
        mon.hit("natoms")
        before = snap(d)
        els = [gen.SYM[z] for z in rng.permutation(zs)]
        e = d.reformat_elements(elements_lst=els)
        want = [t for x in els for t in tagged if gen.SYM[t[0]] == x]
        is_(e, want, "reformat_elements")
        mon.check(snap(d) == before, "reformat_elements:modifies-original", what)
        mon.hit("reordered")
        d.reformat_elements_()
        is_(d, sorted(tagged, key=lambda t: t[0]), "reformat_elements_")
        mon.sig("edit", s.kind, tuple(s.z), tuple(els))
        # vacancies
        n = s.n
        vac = [bool(v) for v in rng.random(n) < rng.choice([0.0, 0.2, 0.5])]
        if all(vac):
            vac[0] = False
        v = DStructure(lattice=s.lat, species=["X0+" if w else int(z) for z, w in zip(s.z, vac)], coords=s.frac, coords_are_cartesian=False)
        v.remove_vacanies()
        is_(v, [(t[0], t[1], None) for t, w in zip(tagged, vac) if not w], "remove_vacanies")
        mon.hit("vacancies", sum(vac) > 0)
        # vacuum, in cells whose axes are along x, y, z
        a = rng.uniform(4, 40, 3)
        if rng.random() < 0.2:
            a[int(rng.integers(0, 3))] = 10.0
        f = rng.random((int(rng.integers(1, 9)), 3)) * rng.uniform(0.05, 1, 3)
        q = DStructure(lattice=np.diag(a), species=[6] * len(f), coords=f, coords_are_cartesian=False)
        gap = a - (f.max(axis=0) - f.min(axis=0)) * a
        if np.abs(gap - 10).min() > 1e-6:
            r = q.judge_vacuum_exist()
            mon.check([bool(x) for x in r] == [bool(g > 10) for g in gap], "vacuum", lambda: "%s for gaps %s" % (r, gap.tolist()))
            mon.hit("vacuum_yes", int((gap > 10).sum())); mon.hit("vacuum_no", int((gap <= 10).sum()))

    mon.run("supercell", 6000 if mon.thorough else 1600, supercell)
    mon.run("edit", 20000 if mon.thorough else 3000, edit)


def body(c):
    c.run_py("structure", work)


c.main(body)
