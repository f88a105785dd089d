import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C31", rule="all 118 elements in every run, in random company and order, through every place that turns a symbol into an atomic number or back: tables, atom.config, MOVEMENT, sorting, supercells, "
          "neighbour counts, datasets, collections, bond statistics; distinct by set of elements",
          need={"elements": 118, "tables": 118, "files": 118, "sorted": 118, "trajectories": 118, "datasets": 118, "collections": 118, "neighbour_counts": 118, "bonds": 118})


def work(mon):
    import contextlib, io, itertools, shutil, warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.io.pwmat.utils import parameters
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.io.publicLayer.neigh import StructureNeighborsUtils
    from matersdk.io.pwmat.output.movement import Movement
    from matersdk.data.infoset import InfoSet
    from matersdk.data.infosets import InfoSets
    from matersdk.data.struct_collection import StructCollection
    from matersdk.feature.avg.avgbond import AvgBond

    def tables(rng, k):
        a, b = parameters.atomic_number2specie, parameters.specie2atomic_number
        for z, s in gen.SYM.items():
            mon.check(a.get(z) == s, "table:symbol", lambda: "element %d is %s, not %r" % (z, s, a.get(z)))
            mon.check(b.get(s) == z, "table:number", lambda: "%s is element %d, not %r" % (s, z, b.get(s)))
            mon.hit("tables")
        mon.check(a.get(0) is not None and b.get(a[0]) == 0 and a[0] not in gen.NUM, "table:vacancy", str(a.get(0)))
        mon.check(len(set(a.values())) == len(a) and {v: q for q, v in a.items()} == dict(b), "table:inverse", "the two tables are not inverse to each other")

    mon.run("tables", 1, tables)

    def one(rng, k):
        # each block of ten cases is a random partition of the periodic table
        perm = np.random.default_rng([mon.seed, k // 10]).permutation(np.arange(1, 119))
        zs = [int(x) for x in perm[k % 10::10]]
        n = len(zs)
        for q in (zs if k < 10 else ()):
            mon.hit("elements")
        mon.sig(tuple(sorted(zs)))
        what = "elements %s" % [gen.SYM[z] for z in zs]
        mon.sample(what)
        L = 14.0
        lat = np.diag([L, L, L + 1]) + np.array([[0, 0, 0], [1.0, 0, 0], [0, 0.5, 0]])
        g = [p for p in itertools.product((0.05, 0.38, 0.71), repeat=3)]
        z2 = zs + [int(x) for x in rng.choice(zs, 3)]
        frac = np.array([g[i] for i in rng.permutation(27)[:len(z2)]]) + rng.normal(size=(len(z2), 3)) * 0.01
        s = gen.Sys(lat, z2, frac)
        top = os.path.join(mon.scratch, "e")
        shutil.rmtree(top, ignore_errors=True)
        os.makedirs(top)
        frames, text, props, st = pwmat.movement(rng, s, 2)
        path = os.path.join(top, "MOVEMENT")
        open(path, "w").write(text)
        f = frames[0]
        # a structure built from symbols, written, read
        d = DStructure(lat, [gen.SYM[z] for z in z2], frac)
        out = os.path.join(top, "atom.config")
        mags = [round(float(x), 2) for x in rng.normal(size=len(z2))]
        d.add_site_property("magmom", mags)
        d.to(file_path=out, file_format="pwmat", include_magnetic_moments=True)
        R = [l.split() for l in open(out).read().split("\n")]
        got = [int(r[0]) for r in R[6:6 + s.n]]
        mon.check(got == z2, "written", lambda: "%s != %s" % (got, z2))
        got = [int(r[0]) for r in R[7 + s.n:7 + 2 * s.n]]
        mon.check(got == z2, "written:magnetic", lambda: "%s != %s" % (got, z2))
        b = DStructure.from_file(file_path=out, file_format="pwmat")
        mon.check([str(x.specie) for x in b] == [gen.SYM[z] for z in z2], "read", lambda: "%s from %s" % ([str(x.specie) for x in b], z2))
        b = DStructure.from_str(str_content=f.text, str_format="pwmat")
        mon.check([str(x.specie) for x in b] == [gen.SYM[z] for z in z2], "read-text", lambda: "%s from %s" % ([str(x.specie) for x in b], z2))
        mon.hit("files", n)
        # order by atomic number
        o = np.argsort(z2, kind="stable")
        b = DStructure(lat, [gen.SYM[z] for z in z2], frac)
        b.reformat_elements_()
        mon.check([x.specie.Z for x in b] == [z2[i] for i in o] and np.allclose(b.frac_coords, frac[o], atol=1e-12), "sorted", lambda: "%s" % [str(x.specie) for x in b])
        b = DStructure(lat, [gen.SYM[z] for z in z2], frac)
        sup = b.make_supercell_(scaling_matrix=[1, 1, 3], reformat_mark=True)
        mon.check([x.specie.Z for x in sup] == sorted(z2 * 3), "sorted:supercell", lambda: "%s" % [str(x.specie) for x in sup])
        key = b.get_key_idxs(scaling_matrix=[1, 1, 3])
        mon.check([sup[int(i)].specie.Z for i in key] == sorted(z2), "key-indices", lambda: "%s" % [str(sup[int(i)].specie) for i in key])
        mon.hit("sorted", n)
        # trajectories
        m = Movement(movement_path=path)
        for q in range(2):
            t = m.get_frame_structure(idx_frame=q)
            mon.check([str(x.specie) for x in t] == [gen.SYM[z] for z in z2], "movement", lambda: "frame %d: %s from %s" % (q, [str(x.specie) for x in t], z2))
        mon.hit("trajectories", n)
        # datasets: alone, with a given order, in a folder
        order = zs + [int(x) for x in rng.choice([x for x in range(1, 119) if x not in zs], 2, replace=False)]
        rng.shuffle(order)
        for od in (False, order):
            inf = InfoSet.from_file(file_path=path, file_format="pwmat/movement", infosets_atomic_numbers=od)
            names = list(inf.formula_dict)
            mon.check([[names[int(t)] for t in row] for row in inf.types] == [[gen.SYM[z] for z in z2]] * 2, "dataset:types", lambda: "%s %s from %s" % (names, inf.types.tolist(), z2))
            mon.check({e: int(v) for e, v in inf.formula_dict.items() if v} == {gen.SYM[z]: z2.count(z) for z in zs}, "dataset:counts", lambda: "%s from %s" % (inf.formula_dict, z2))
            if od:
                mon.check(names == [gen.SYM[z] for z in order], "dataset:order", lambda: "%s != %s" % (names, order))
        sets = InfoSets.from_dir(dir_path=top, file_name="MOVEMENT", file_format="pwmat/movement")
        ds = os.path.join(top, "sets")
        os.makedirs(ds)
        sets.to_dir(dir_path=ds)
        dn = os.path.join(ds, os.listdir(ds)[0])
        tm = open(dn + "/type_map.raw").read().split()
        ty = np.load(dn + "/part.000/types.npy")
        mon.check(len(os.listdir(ds)) == 1 and [[tm[int(t)] for t in row] for row in ty] == [[gen.SYM[z] for z in z2]] * 2, "dataset:disk", lambda: "%s %s from %s" % (tm, ty.tolist(), z2))
        mon.hit("datasets", n)
        # collections
        sc = StructCollection.from_trajectory_s(trajectory_object=m)
        sc.to(dir_path=os.path.join(top, "dp"), set_size=2)
        tm = open(top + "/dp/type_map.raw").read().split()
        tp = [int(x) for x in open(top + "/dp/type.raw").read().split()]
        mon.check([tm[t] for t in tp] == [gen.SYM[z] for z in z2], "collection:types", lambda: "%s %s from %s" % (tm, tp, z2))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = repr(sc)
        S = {a.strip(" *-\t"): b_.strip() for a, b_ in (x.split(":", 1) for x in (buf.getvalue() + r).splitlines() if ":" in x)}
        mon.check(all(S.get(gen.SYM[z]) == str(z2.count(z)) for z in zs), "collection:summary", lambda: "%s from %s" % (S, z2))
        mon.hit("collections", n)
        # neighbours of each element
        rc = 5.2
        nb = gen.neighbours(s, rc)
        if not any(x[3] for at in nb for x in at):
            els = [gen.SYM[z] for z in zs]
            rng.shuffle(els)
            got = StructureNeighborsUtils.get_max_num_nbrs_real_element(structure=DStructure(lat, [gen.SYM[z] for z in z2], frac), rcut=rc, nbr_elements=els, scaling_matrix=[3, 3, 3])
            want = {e: max(sum(1 for x in at if gen.SYM[z2[x[0]]] == e) for at in nb) for e in els}
            mon.check({a: int(v) for a, v in got.items()} == want, "neighbour-counts", lambda: "%s != %s: %s" % (got, want, s))
            mon.hit("neighbour_counts", n)

    mon.run("elements", 1500 if mon.thorough else 120, one)

    def bonds(rng, k):
        # dimers: the mean bond of two named elements is their distance
        zs = [int(x) for x in np.random.default_rng([mon.seed, 77]).permutation(np.arange(1, 119))]
        a, b = zs[2 * (k % 59)], zs[2 * (k % 59) + 1]
        other = int(rng.choice([x for x in range(1, 119) if x not in (a, b)]))
        lat = np.eye(3) * 16.0
        r = float(rng.uniform(1.0, 2.5))
        u = rng.normal(size=3); u /= np.linalg.norm(u)
        pos = np.array([[5, 5, 5], np.array([5, 5, 5]) + r * u, np.array([5, 5, 5]) - 1.5 * r * u])
        z = [a, b, other]
        o = rng.permutation(3)
        s = gen.Sys(lat, [z[i] for i in o], pos[o] / 16.0)
        frames, text, props, st = pwmat.movement(rng, s, 1, jitter=0.0, cell_moves=False)
        path = os.path.join(mon.scratch, "MB")
        open(path, "w").write(text)
        os.cpu_count = lambda: 3
        try:
            for x, y, want in ((a, b, r), (b, a, r), (a, other, 1.5 * r)):
                got = AvgBond(movement_path=path, element_1=gen.SYM[x], element_2=gen.SYM[y], rcut=4.0).get_frames_avg_bond(scaling_matrix=[1, 1, 1])
                mon.check(len(got) == 1 and abs(float(got[0]) - want) < 1e-6, "bonds", lambda: "%s-%s: %s, expected %g" % (gen.SYM[x], gen.SYM[y], got, want))
        finally:
            os.cpu_count = real_count
        mon.hit("bonds", 2)

    real_count = os.cpu_count
    mon.run("bonds", 59, bonds)


def body(c):
    c.run_py("elements", work)


c.main(body)
