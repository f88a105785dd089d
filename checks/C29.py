import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C29", rule="random trajectories collected into a StructCollection, sliced, indexed, sampled and saved in both layouts with random set sizes (also over an existing folder), every array traced back to its frame; "
          "distinct by (frames, atoms, blocks, set size)",
          assumptions=["all frames have the same atoms in the same order"],
          need={"collections": 60, "saved": 60, "sets": 150, "frames_traced": 500, "subsets": 100, "images": 15, "neighbour_counts": 15, "rows_exact": 30, "few_processors": 4, "overwritten": 20, "without_virial": 15, "without_eatom": 15, "many_frames": 8, "empty_set": 5})


def work(mon):
    import contextlib, io, itertools, shutil, warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.data.struct_collection import StructCollection
    from matersdk.io.pwmat.output.movement import Movement

    real_count = os.cpu_count

    def same(a, b, tol=1e-9):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

    def is_(sc, frames, props, tag, what):
        ok = len(sc) == len(frames) == len(sc.structures_lst)
        ok = ok and all([x.specie.Z for x in d] == f.z and same(d.lattice.matrix, f.lat) and same(d.frac_coords, f.frac) for d, f in zip(sc.structures_lst, frames))
        mon.check(ok, tag + ":structures", what)
        mon.check(same(sc.total_energys_array, [f.energy[0] for f in frames]) and same(sc.potential_energys_array, [f.energy[1] for f in frames])
                  and same(sc.kinetic_energys_array, [f.energy[2] for f in frames]), tag + ":energies", what)
        if props["virial"]:
            mon.check(same(sc.virial_tensors_array, [f.virial for f in frames]), tag + ":virials", what)
        mon.check(sc.num_atoms == len(frames[0].z) and sc.atomic_numbers_lst == list(dict.fromkeys(frames[0].z)) and sc.an2na == {z: frames[0].z.count(z) for z in frames[0].z}, tag + ":composition", lambda: "%s %s: %s" % (sc.atomic_numbers_lst, sc.an2na, what))

    def counts(rng, sc, path, frames, what, pools):
        scale = [3, 3, 3]
        rc = float(rng.uniform(2, 4.5))
        h = min(gen.heights(f.lat).min() for f in frames)
        rc = min(rc, h * 0.98)
        per = [[[(j, r) for j, dd, r, mb in at if not mb] for at in gen.neighbours(gen.Sys(f.lat, f.z, f.frac), rc)] for f in frames]
        if not any(mb for f in frames for at in gen.neighbours(gen.Sys(f.lat, f.z, f.frac), rc) for _, _, _, mb in at):
            mx = max(len(at) for f in per for at in f)
            mon.check(Movement(movement_path=path).get_max_num_nbrs_real(rcut=rc, scaling_matrix=scale) == mx, "Movement:max-neighbours", what)
            mon.hit("neighbour_counts")
            if not pools:
                return
            got = sc.get_max_num_nbrs_real(rcut=rc)
            mon.check(int(got) == mx, "max-neighbours", lambda: "%s != %d at %g: %s" % (got, mx, rc, what))
            els = [gen.SYM[z] for z in dict.fromkeys(frames[0].z)]
            got = sc.get_max_num_nbrs_real_element(rcut=rc, nbr_elements=els, scaling_matrix=scale)
            want = {e: max(sum(1 for j, r in at if gen.SYM[frames[q].z[j]] == e) for q, f in enumerate(per) for at in f) for e in els}
            mon.check({a: int(b) for a, b in got.items()} == want, "max-neighbours-element", lambda: "%s != %s at %g: %s" % (got, want, rc, what))

    def one(rng, k, s=None, pools=False):
        s = s or gen.system(rng, 8)
        t = rng.random()
        nf = int(rng.integers(1, 9)) if t > 0.06 and not (pools and t < 0.25) else int(rng.integers(10, 14 if pools else 130))
        mon.hit("many_frames", nf >= 10); mon.hit("many_images", nf >= 10 and pools)
        frames, text, props, st = pwmat.movement(rng, s, nf, squeeze=0.5)
        path = os.path.join(mon.scratch, "MOVEMENT")
        open(path, "w").write(text)
        what = "%d frames of %s blocks %s" % (nf, s.z.tolist(), [p for p in props if props[p]])
        mon.sample(what)
        sc = StructCollection.from_trajectory_s(trajectory_object=Movement(movement_path=path))
        is_(sc, frames, props, "collect", what)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = repr(sc)
        L = {a.strip(" *-\t"): b.strip() for a, b in (x.split(":", 1) for x in (buf.getvalue() + r).splitlines() if ":" in x)}
        ok = L.get("Images Number") == str(nf) and L.get("Atoms Number") == str(s.n) and L.get("Virials Information") == str(bool(props["virial"])) and L.get("Energy Deposition") == str(bool(props["eatom"]))
        mon.check(ok and all(L.get(gen.SYM[z]) == str(frames[0].z.count(z)) for z in frames[0].z), "summary", lambda: "%s: %s" % (L, what))
        mon.hit("collections"); mon.hit("without_virial", not props["virial"]); mon.hit("without_eatom", not props["eatom"])
        for _ in range(3):
            idx = [int(i) for i in rng.integers(0, nf, size=int(rng.integers(1, 7)))]
            idx = np.array(idx) if rng.random() < 0.2 else idx
            sub = StructCollection.from_indices(struct_collection=sc, indices_lst=idx)
            is_(sub, [frames[i] for i in idx], props, "from_indices", "%s indices %s" % (what, idx))
            a, b = sorted(int(x) for x in rng.integers(0, nf + 1, size=2))
            if a < b:
                is_(sc[a:b], frames[a:b], props, "slice", "%s [%d:%d]" % (what, a, b))
            q = slice(*[None if rng.random() < 0.4 else int(rng.integers(-nf, nf + 1)) for _ in range(2)], None if rng.random() < 0.2 else int(rng.choice([-3, -2, -1, 1, 2, 3])))
            if frames[q]:
                is_(sc[q], frames[q], props, "slice", "%s %s" % (what, q))
                mon.hit("stepped_slices", q.step not in (None, 1))
            i = int(rng.integers(-nf, nf))
            is_(sc[i], [frames[i]], props, "item", "%s [%d]" % (what, i))
            mon.hit("subsets")
        for bad in ([nf], [0, nf + 3]):
            try:
                StructCollection.from_indices(struct_collection=sc, indices_lst=bad)
                mon.fail("from_indices:range", "%s accepted for %d frames" % (bad, nf))
            except IndexError:
                pass
        # deepmd layout
        src, ff = (sc, frames) if rng.random() < 0.6 else (sub, [frames[i] for i in idx])
        out = os.path.join(mon.scratch, "deepmd")
        if rng.random() < 0.5:
            shutil.rmtree(out, ignore_errors=True)
        mon.hit("overwritten", os.path.exists(out))
        n = len(ff)
        size = int(rng.integers(1, n + 3 if n < 100 or rng.random() < 0.5 else 4))
        if src is sc and not pools and n > size and rng.random() < 0.6:
            # a whole set without virials (atomic energies), in a collection which has them
            a = int(rng.integers(0, n // size)) * size
            if props["virial"] and rng.random() < 0.7:
                src.virial_tensors_array[a:a + size] = 0
                for f in ff[a:a + size]:
                    f.virial = np.zeros((3, 3))
                mon.hit("empty_set")
            if props["eatom"] and rng.random() < 0.7:
                for f, d in zip(ff[a:a + size], src.structures_lst[a:a + size]):
                    f.eatom = [0.0] * len(f.z)
                    for x in d.sites:
                        x.atomic_energy = np.zeros_like(x.atomic_energy)
                mon.hit("empty_set")
        src.to(dir_path=out, set_size=size)
        mon.sig(n, s.n, tuple(sorted(props.items())), size)
        tm = open(out + "/type_map.raw").read().split()
        tp = [int(x) for x in open(out + "/type.raw").read().split()]
        inv = {v: z for z, v in gen.SYM.items()}
        mon.check([inv.get(tm[t]) for t in tp] == ff[0].z and len(set(tm)) == len(tm), "deepmd:types", lambda: "%s %s: %s" % (tm, tp, what))
        names = sorted(x for x in os.listdir(out) if not x.endswith(".raw"))
        mon.check(names == ["set.%03d" % i for i in range(-(-n // size))], "deepmd:sets", lambda: "%s for %d frames in sets of %d: %s" % (names, n, size, what))
        data = {}
        want_files = {"cell", "atom_coord", "tot_energy", "atom_force"} | ({"virial"} if props["virial"] else set()) | ({"atom_energy"} if props["eatom"] else set())
        for q, nm in enumerate(names):
            arr = {x[:-4]: np.load(os.path.join(out, nm, x)) for x in os.listdir(os.path.join(out, nm))}
            mon.check(set(arr) == want_files, "deepmd:files", lambda: "%s != %s: %s" % (sorted(arr), sorted(want_files), what))
            mon.check(all(len(a) == min(size, n - q * size) for a in arr.values()), "deepmd:set-size", lambda: "%s: %s" % ({x: a.shape for x, a in arr.items()}, what))
            for x, a in arr.items():
                data.setdefault(x, []).append(a)
            mon.hit("sets")
        data = {x: np.concatenate(a) for x, a in data.items()}
        truth = {"cell": [f.lat.ravel() for f in ff], "atom_coord": [(f.frac @ f.lat).ravel() for f in ff], "tot_energy": [[f.energy[0]] for f in ff], "atom_force": [f.force.ravel() for f in ff],
                 "virial": [f.virial.ravel() for f in ff], "atom_energy": [f.eatom for f in ff]}
        for x in data:
            mon.check(same(data[x], truth[x]), "deepmd:" + x, lambda: "%s: %s" % (x, what))
        mon.hit("saved"); mon.hit("frames_traced", n)
        if not pools:
            if nf < 40 and rng.random() < 0.25:
                counts(rng, sc, path, frames, what, False)
            return
        # one folder per image, neighbours in parallel
        out = os.path.join(mon.scratch, "images")
        if rng.random() < 0.5:
            shutil.rmtree(out, ignore_errors=True)
        scale = [int(x) for x in rng.choice([1, 3, 3], size=3)] if rng.random() < 0.5 else [3, 3, 3]
        cpus = int(rng.choice([1, 2, 3, 8]))
        mon.hit("few_processors", cpus <= 2)
        os.cpu_count = lambda: cpus
        try:
            pooled(rng, sc, frames, props, s, nf, path, out, scale, what)
        finally:
            os.cpu_count = real_count

    def pooled(rng, sc, frames, props, s, nf, path, out, scale, what):
        rcut = 6.5
        if scale == [3, 3, 3] and rng.random() < 0.6:
            sc.save_all_info(dir_path=out)
        else:
            sc.save_all_info(dir_path=out, scaling_matrix=scale)
        sh0 = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in scale])), float)
        w = len(str(nf))
        for i, f in enumerate(frames):
            d = os.path.join(out, "%0*d" % (w, i))
            L = {x[:-4]: np.load(os.path.join(d, x)) for x in os.listdir(d) if x.endswith(".npy")}
            ok = same(L["box"], f.lat) and same(L["coord"], f.frac @ f.lat) and same(L["energy"], f.energy) and same(L["atomic_force"], f.force) and same(L["atomic_energy"], f.eatom) and list(L["atomic_number"]) == list(dict.fromkeys(f.z))
            mon.check(ok, "images:arrays", lambda: "frame %d: %s" % (i, what))
            mon.check(("virial" in L) == props["virial"] and (not props["virial"] or same(L["virial"], f.virial)), "images:virial", what)
            T = open(os.path.join(d, "atom.config")).read().split("\n")
            mon.check(int(T[0].split()[0]) == s.n and [int(r.split()[0]) for r in T[6:6 + s.n]] == f.z, "images:atom.config", lambda: "\n".join(T[:12]))
            g = gen.Sys(f.lat, f.z, f.frac)
            o = np.argsort(f.z, kind="stable")
            allp = (g.pos[:, None] + (sh0 @ np.asarray(f.lat))[None]).reshape(-1, 3)
            allz = np.repeat(f.z, len(sh0))
            R = L["nbrs_distances"]
            for row, a in enumerate(o):
                m = int((L["nbrs_atomic_numbers"][row] > 0).sum())
                mon.check(int(L["nbrs_atomic_numbers"][row, 0]) == f.z[a] and same(L["nbrs_coords"][row, 0], g.pos[a], 1e-6) and R[row, 0] == 0 and bool(np.all(np.diff(R[row, :m]) >= -1e-9)), "images:centre", what)
                q = np.linalg.norm(allp - g.pos[a], axis=1)
                lo, hi = int((q < rcut - 1e-6).sum()), int((q < rcut + 1e-6).sum())
                mon.check(lo <= m <= hi, "images:neighbours", lambda: "frame %d atom %d: %d atoms, expected %d within %g in %s: %s" % (i, a, m, lo, rcut, scale, what))
                if lo == hi == m:
                    near = np.where(q < rcut)[0]
                    ez = sorted(allz[near].tolist())
                    mon.check(sorted(int(x) for x in L["nbrs_atomic_numbers"][row, :m]) == ez and np.allclose(np.sort(q[near]), R[row, :m], atol=1e-6), "images:neighbour-rows", lambda: "frame %d atom %d: %s" % (i, a, what))
                    mon.hit("rows_exact")
                mon.check(all(abs(np.linalg.norm(L["nbrs_coords"][row, q] - g.pos[a]) - R[row, q]) < 1e-6 for q in range(m)) and not R[row, m:].any(), "images:distances", what)
            mon.hit("images")
        counts(rng, sc, path, frames, what, True)

    mon.run("collection", 2500 if mon.thorough else 700, one)
    mon.run("images", 120 if mon.thorough else 24, lambda rng, k: one(rng, k, s=gen.system(rng, 5, lo=4.5), pools=True))


def body(c):
    c.run_py("collection", work)


c.main(body)
