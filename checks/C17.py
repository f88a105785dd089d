import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C17", rule="random trajectories (header form, optional blocks, block order, frame lengths, unfinished last frame) written by an independent writer and read frame by frame in random order, all at once, "
          "and again after the file was replaced; distinct by (header, blocks, frames, atoms, unfinished)",
          assumptions=["all frames of a trajectory have the same atoms in the same order and the same optional blocks except velocities"],
          need={"files": 100, "frames": 300, "with_virial": 30, "with_eatom": 30, "with_magmom": 30, "without_force": 20, "unfinished": 30, "header_md": 20, "header_old": 20, "header_relax": 20, "replaced": 30, "long_trajectories": 15, "hundred_atoms": 8})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.io.pwmat.utils.mvextractor import MVExtractor
    from matersdk.io.pwmat.output.movement import Movement

    def same(a, b, tol=1e-12):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

    def one(rng, k, s=None):
        t = rng.random()
        big = s is not None
        s = s if big else gen.crowd(rng, int(rng.integers(90, 250))) if t < 0.02 else gen.system(rng, 9 if t > 0.06 else 3)
        nf = int(rng.integers(1, 7)) if not 0.02 <= t < 0.06 else int(rng.integers(9, 45))
        nf = int(rng.integers(100, 260)) if k % 450 == 11 and s.n < 20 else nf
        nf = 2 if big else nf
        mon.hit("long_trajectories", nf > 10); mon.hit("hundreds_of_frames", nf >= 100); mon.hit("hundred_atoms", s.n >= 100)
        part = bool(rng.random() < 0.3)
        frames, text, props, st = pwmat.movement(rng, s, nf, partial=part, permute=0.15)
        path = os.path.join(mon.scratch, "MOVEMENT" if rng.random() < 0.6 else "MOVEMENT%d" % k)
        mon.hit("replaced", os.path.exists(path))
        open(path, "w").write(text)
        mon.hit("files"); mon.hit("frames", nf); mon.hit("unfinished", part); mon.hit("header_" + st["header"])
        for p in ("virial", "eatom", "magmom"):
            mon.hit("with_" + p, props[p])
        mon.hit("without_force", not props["force"])
        mon.sig(st["header"], tuple(sorted(props.items())), nf, s.n, part)
        what = "blocks %s frames %d header %s unfinished=%s atoms %d\n%s" % ([p for p in props if props[p]], nf, st["header"], part, s.n, text[:300])
        mon.sample(what[:200])
        e = MVExtractor(movement_path=path)
        mon.check(e.get_num_frames() == nf, "MVExtractor:frames", lambda: "%s frames: %s" % (e.get_num_frames(), what))
        mon.check(list(e.get_chunksizes()) == [f.text.count("\n") for f in frames], "MVExtractor:chunksizes", lambda: "%s: %s" % (e.get_chunksizes(), what))
        mon.check(list(e.get_chunkslices()) == list(np.cumsum([0] + [f.text.count("\n") for f in frames])), "MVExtractor:chunkslices", what)
        labels = ["box", "types", "coords", "etot", "fatoms"] + [x for x, y in (("virial", "virial"), ("eatoms", "eatom"), ("magmoms", "magmom")) if props[y]]
        mon.check(list(e.get_info_labels()) == labels, "MVExtractor:labels", lambda: "%s != %s: %s" % (e.get_info_labels(), labels, what))

        def truth(f, l):
            return {"box": f.lat.ravel(), "types": f.z, "coords": f.frac.ravel(), "etot": [f.energy[0]], "fatoms": f.force.ravel(), "virial": f.virial.ravel(), "eatoms": f.eatom, "magmoms": f.magmom}[l]

        order = list(rng.permutation(nf))
        for i in order:
            f = frames[i]
            mon.check(e.get_frame_str(i) == f.text, "MVExtractor:frame-text", lambda: "frame %d of %s" % (i, what))
            info = e.get_frame_info(i)
            if mon.check(len(info) == len(labels), "MVExtractor:frame-info", lambda: "%d arrays for %s: %s" % (len(info), labels, what)):
                for l, a in zip(labels, info):
                    mon.check(same(a, truth(f, l)), "MVExtractor:frame-info:" + l, lambda: "frame %d %s %s != %s: %s" % (i, l, a, truth(f, l), what))
        allinfo = e.get_frames_info()
        if mon.check(len(allinfo) == len(labels), "MVExtractor:frames-info", lambda: "%d arrays for %s: %s" % (len(allinfo), labels, what)):
            for l, a in zip(labels, allinfo):
                w = [truth(f, l) for f in frames]
                mon.check(same(a, w), "MVExtractor:frames-info:" + l, lambda: "%s %s != %s: %s" % (l, np.asarray(a).tolist(), np.asarray(w).tolist(), what))
        m = Movement(movement_path=path)
        mon.check(list(m.get_chunksize()) == [f.text.count("\n") for f in frames], "Movement:chunksize", what)

        def st_is(d, f, tag):
            mon.check(same(d.get_atomic_force(), f.force) and same(d.get_atomic_energy(), f.eatom) and same(d.site_properties["magmom"], f.magmom), tag + ":site-properties", what)
            mon.check([x.specie.Z for x in d] == f.z and same(d.lattice.matrix, f.lat, 1e-9) and same(d.frac_coords, f.frac, 1e-9), tag, lambda: "%s\n%s" % (d, what))

        for i in order:
            f = frames[i]
            st_is(m.get_frame_structure(i), f, "Movement:frame-structure")
            mon.check(same(m.get_frame_energy(i), f.energy), "Movement:frame-energy", lambda: "%s != %s: %s" % (m.get_frame_energy(i), f.energy, what))
            mon.check(same(m.get_frame_virial(i), f.virial), "Movement:frame-virial", what)
            mon.check(same(m.get_frame_volume(i), abs(np.linalg.det(f.lat)), 1e-9), "Movement:frame-volume", what)
        ss = m.get_all_frame_structures()
        mon.check(len(ss) == nf, "Movement:structures", what)
        for d, f in zip(ss, frames):
            st_is(d, f, "Movement:structures")
        ss, et, ep, ek, v = m.get_all_frame_structures_info()
        mon.check(len(ss) == nf and same(et, [f.energy[0] for f in frames]) and same(ep, [f.energy[1] for f in frames]) and same(ek, [f.energy[2] for f in frames]), "Movement:info-energies", what)
        for d, f in zip(ss, frames):
            st_is(d, f, "Movement:info-structures")
        mon.check(same(v, [f.virial for f in frames]) if props["virial"] else np.size(v) == 0, "Movement:info-virial", what)
        mon.check(open(path).read() == text, "file-changed", what)

    mon.run("movement", 12000 if mon.thorough else 1800, one)
    mon.run("large", 3 if mon.thorough else 1, lambda rng, k: one(rng, k, s=gen.grid(rng, int(rng.integers(10000, 13000)))))


def body(c):
    c.run_py("movement", work)


c.main(body)
