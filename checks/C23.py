import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C23", rule="random crystals of all lattice systems and random cells: k-meshes for random densities, irreducible k-points, high-symmetry paths (two and three dimensional) written to HIGHK and gen.kpt, and random IN.KPT files with jumps, each file overwritten in place between uses; "
          "distinct by (kind, space group or cell family, mesh or path)",
          need={"meshes": 300, "mesh_vacuum": 30, "mesh_one": 30, "ir_meshes": 60, "ir_triclinic": 5, "ir_distorted": 20, "paths": 60, "segments": 500, "oblique_segments": 200, "paths_2d": 20, "inkpt": 200, "jumps": 100, "overwritten": 150, "default_density": 1, "hundred_kpoints": 1})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import itertools
    import numpy as np
    import gen, pwmat
    from pymatgen.core import Structure, Lattice
    from pymatgen.symmetry.analyzer import SpacegroupAnalyzer
    from pymatgen.symmetry.kpath import KPathSetyawanCurtarolo
    from matersdk.io.publicLayer.structure import DStructure
    from matersdk.calculation.kpoints.kmesh import KMesh
    from matersdk.calculation.kpoints.kpointsSampler import KPointsSampler
    from matersdk.calculation.kpath.kpathSampler import KpathSampler
    from matersdk.io.pwmat.input.inkpt import Inkpt

    BOHR = 0.529177249

    def recip(m):
        return 2 * np.pi * np.linalg.inv(np.asarray(m, float)).T

    def config(rng, path, lat, z, frac):
        f = pwmat.frame(rng, lat, z, frac, pwmat.style(rng, str(rng.choice(["plain", "md"]))), {})
        with open(path, "w") as g:
            g.write(f.text)
        return f

    def mesh(rng, k):
        path = os.path.join(mon.scratch, "atom.config")
        if rng.random() < 0.4:
            lat = np.diag(rng.uniform(3, 40, 3))
            frac = rng.random((int(rng.integers(1, 6)), 3)) * rng.uniform(0.05, 1, 3)
            z = [6] * len(frac)
            kind = "box"
        else:
            s = gen.system(rng, 5, lo=2.5, hi=6.5, wide=False)
            lat, z, frac, kind = s.lat, s.z, s.frac, s.kind
        f = config(rng, path, lat, z, frac)
        dens = float(rng.choice([0.01, 0.02, 0.03, 0.04, 0.1, 0.5])) if rng.random() < 0.5 else float(10 ** rng.uniform(-2.2, 0.3)) if rng.random() < 0.8 else float(10 ** rng.uniform(-5, -2))
        want = np.linalg.norm(recip(f.lat), axis=1) / (2 * np.pi * dens)
        km = KMesh(file_format="pwmat", file_path=path)
        got = np.asarray(km.get_kmesh(dens), float)
        vac = [False] * 3
        if kind == "box":
            pos = f.frac @ f.lat
            gap = np.diag(f.lat) - (pos.max(axis=0) - pos.min(axis=0))
            if np.abs(gap - 10).min() < 1e-6:
                return
            vac = gap > 10
        if np.abs(want - np.floor(want) - 0.5).min() < 1e-7:
            return
        e = np.where(vac, 1, np.maximum(1, np.round(want)))
        what = "density %r lattice %s atoms %s" % (dens, f.lat.tolist(), f.frac.tolist())
        mon.check(got.shape == (3,) and bool(np.all(got == e)), "mesh", lambda: "%s, expected %s: %s" % (got.tolist(), e.tolist(), what))
        mon.check(list(np.asarray(km.get_kmesh(0), float)) == [1, 1, 1], "mesh:zero-density", what)
        mon.hit("meshes"); mon.hit("mesh_vacuum", bool(np.any(vac))); mon.hit("mesh_one", bool(np.any(np.round(want) == 0)))
        mon.sig("mesh", kind, tuple(e.tolist()))

    def crystal(rng):
        a, b, cc = rng.uniform(3, 6, 3)
        t = int(rng.integers(0, 12))
        try:
            if t == 0:
                s = Structure.from_spacegroup("Fm-3m", Lattice.cubic(a), ["Cu"], [[0, 0, 0]])
            elif t == 1:
                s = Structure.from_spacegroup("Im-3m", Lattice.cubic(a), ["Cr"], [[0, 0, 0]])
            elif t == 2:
                s = Structure.from_spacegroup("Pm-3m", Lattice.cubic(a), ["O", "Si"], [[0, 0, 0], [0.5, 0.5, 0.5]])
            elif t == 3:
                s = Structure.from_spacegroup("P6_3/mmc", Lattice.hexagonal(a, cc * 2), ["Mo", "S"], [[1 / 3, 2 / 3, 0.25], [1 / 3, 2 / 3, 0.62]])
            elif t == 4:
                s = Structure.from_spacegroup("P4/mmm", Lattice.tetragonal(a, cc), ["Li"], [[0, 0, 0]])
            elif t == 5:
                s = Structure.from_spacegroup("I4/mmm", Lattice.tetragonal(a, cc), ["Li"], [[0, 0, 0]])
            elif t == 6:
                s = Structure.from_spacegroup("Pmmm", Lattice.orthorhombic(*sorted([a, b, cc])), ["C"], [[0, 0, 0]])
            elif t == 7:
                s = Structure.from_spacegroup("Immm", Lattice.orthorhombic(*sorted([a, b, cc])), ["C"], [[0, 0, 0]])
            elif t == 8:
                s = Structure.from_spacegroup("Cmmm", Lattice.orthorhombic(a, a * 1.3, cc), ["C"], [[0, 0, 0]])
            elif t == 9:
                s = Structure.from_spacegroup("R-3m", Lattice.hexagonal(a, cc * 2), ["Au"], [[0, 0, 0]])
            elif t == 10:
                s = Structure.from_spacegroup("P2/m", Lattice.monoclinic(a, b, cc, rng.uniform(95, 115)), ["O"], [[0, 0, 0]])
            else:
                q = gen.system(rng, 3, lo=3.5, hi=6.0, left=False, nmin=3, wide=False)
                s = Structure(q.lat, [int(z) for z in q.z], q.frac)
        except ValueError:
            return None
        if t < 11 and rng.random() < 0.85:
            s = SpacegroupAnalyzer(s).get_primitive_standard_structure()
        return DStructure(lattice=s.lattice, species=s.species, coords=s.frac_coords, coords_are_cartesian=False), t

    def ir(rng, k):
        x = crystal(rng)
        if x is None:
            return
        s, t = x
        km = [int(v) for v in rng.integers(1, 6 if rng.random() < 0.9 else 13, size=3)]
        shift = [int(v) for v in rng.integers(0, 2, size=3)]
        sym, ang = float(rng.choice([1e-5, 1e-3, 1e-2, 0.1])), float(rng.choice([5.0, 5.0, -1.0, 1.0]))
        if rng.random() < 0.4:                  # symmetric only within the tolerance, or only beyond it
            s = DStructure(lattice=s.lattice, species=s.species, coords=s.cart_coords + rng.normal(size=(len(s), 3)) * 10 ** rng.uniform(-4, -1), coords_are_cartesian=True)
            mon.hit("ir_distorted", len(s) > 1)
        p = KPointsSampler(structure=s, kmesh=np.array(km), is_shift=np.array(shift), symprec=sym, angle_tolerance=ang)
        got = p.get_kpoints()
        what = "mesh %s shift %s tolerances %g %g lattice %s %s" % (km, shift, sym, ang, s.lattice.matrix.tolist(), [(y.specie.Z, y.frac_coords.tolist()) for y in s])
        mon.check(p.get_num_kpoints() == len(got), "ir:number", what)
        mon.check(sum(int(w) for _, w in got) == km[0] * km[1] * km[2], "ir:weights", lambda: "%s: %s" % ([w for _, w in got], what))
        g = [((np.asarray(q) * km - np.array(shift) / 2)) for q, _ in got]
        mon.check(all(np.allclose(y, np.round(y), atol=1e-8) for y in g), "ir:on-mesh", lambda: "%s: %s" % ([q for q, _ in got], what))
        e = SpacegroupAnalyzer(Structure(s.lattice, s.species, s.frac_coords), symprec=sym, angle_tolerance=ang).get_ir_reciprocal_mesh(mesh=km, is_shift=shift)
        mon.check(len(e) == len(got) and all(np.allclose(a[0], b[0]) and a[1] == b[1] for a, b in zip(e, got)), "ir:same-as-analyser", what)
        if SpacegroupAnalyzer(s, symprec=sym, angle_tolerance=ang).get_space_group_number() in (1, 2):
            pts = {tuple(int(v) % n for v, n in zip(idx, km)) for idx in itertools.product(*[range(n) for n in km])}
            orb = {min(q, tuple((-v - h) % n for v, h, n in zip(q, shift, km))) for q in pts}
            mon.check(len(got) == len(orb), "ir:inversion-pairs", lambda: "%d points, expected %d: %s" % (len(got), len(orb), what))
            mon.hit("ir_triclinic")
        mon.hit("ir_meshes"); mon.sig("ir", t, tuple(km), tuple(shift), len(got))

    def kpath(rng, k):
        x = crystal(rng)
        if x is None:
            return
        s, t = x
        dim = 2 if rng.random() < 0.3 else 3
        base = KPathSetyawanCurtarolo(Structure(s.lattice, s.species, s.frac_coords), symprec=0.1, angle_tolerance=5, atol=1e-5)
        if base.kpath is None:                  # the analyser knows no path for this cell
            return
        pts = {("G" if n == "\\Gamma" else n): np.array(v, float) for n, v in base.kpath["kpoints"].items()}
        paths = [["G" if n == "\\Gamma" else n for n in q] for q in base.kpath["path"]]
        if dim == 2:
            pts = {n: v for n, v in pts.items() if v[2] == 0}
            paths = [[n for n in q if n in pts] for q in paths]
            paths = [q for q in paths if len(q) > 1]
            mon.hit("paths_2d")
        p = KpathSampler(structure=s, dimension=dim)
        what = "dimension %d lattice %s %s" % (dim, s.lattice.matrix.tolist(), s.formula)
        mon.check(set(p.kpoints) == set(pts) and all(np.allclose(p.kpoints[n], pts[n]) for n in pts), "path:points", lambda: "%s, expected %s: %s" % (p.kpoints, pts, what))
        mon.check([list(q) for q in p.kpaths] == paths, "path:order", lambda: "%s, expected %s: %s" % (p.kpaths, paths, what))
        p.HIGHK_file_path, p.gen_kpt_path = os.path.join(mon.scratch, "HIGHK"), os.path.join(mon.scratch, "gen.kpt")
        mon.hit("overwritten", os.path.exists(p.gen_kpt_path))
        dens = float(rng.choice([0.01, 0.02, 0.005]) if rng.random() < 0.5 else rng.uniform(0.004, 0.05))
        p.output_HIGHK_file()
        if dens == 0.01 and rng.random() < 0.5:
            p.output_gen_kpt()
            mon.hit("default_density")
        else:
            p.output_gen_kpt(density=dens)
        L = open(p.HIGHK_file_path).read().rstrip("\n").split("\n")[1:]
        got = {l.split()[3]: np.array([float(v) for v in l.split()[:3]]) for l in L}
        mon.check(len(L) == len(pts) and set(got) == set(pts) and all(np.allclose(got[n], pts[n], atol=6e-7) for n in pts), "HIGHK", lambda: "%s: %s" % (L, what))
        L = open(p.gen_kpt_path).read().rstrip("\n").split("\n")[1:]
        segs = [(q[i], q[i + 1]) for q in paths for i in range(len(q) - 1)]
        if not mon.check(len(L) == 3 * len(segs), "gen.kpt:length", lambda: "%d lines for %d segments: %s" % (len(L), len(segs), what)):
            return
        B = recip(s.lattice.matrix) / (2 * np.pi)
        for i, (u, v) in enumerate(segs):
            n, a, b = L[3 * i].strip(), L[3 * i + 1].split(), L[3 * i + 2].split()
            mon.check(a[3] == u and b[3] == v and np.allclose([float(y) for y in a[:3]], pts[u], atol=6e-7) and np.allclose([float(y) for y in b[:3]], pts[v], atol=6e-7), "gen.kpt:segment",
                      lambda: "segment %s-%s: %s: %s" % (u, v, L[3 * i:3 * i + 3], what))
            ratio = np.linalg.norm((pts[v] - pts[u]) @ B) / dens
            if not mon.check(n.isdigit(), "gen.kpt:count-format", lambda: "%r is no count: %s" % (n, what)):
                continue
            ok = int(n) == int(np.ceil(ratio)) or (abs(ratio - np.round(ratio)) < 1e-7 and abs(int(n) - ratio) < 1.5)
            mon.check(ok, "gen.kpt:count", lambda: "segment %s-%s has %s points, its length over the density is %r: %s" % (u, v, n, ratio, what))
            mon.hit("segments"); mon.hit("oblique_segments", bool(np.abs(np.sqrt((((pts[v] - pts[u]) * B) ** 2).sum()) / dens - ratio) > 1))
        mon.hit("paths"); mon.sig("path", t, dim, round(dens, 3)); mon.sample({"crystal": s.formula, "dimension": dim, "paths": paths})

    def inkpt(rng, k):
        path = os.path.join(mon.scratch, "IN.KPT")
        cfg = os.path.join(mon.scratch, "k.config")
        mon.hit("overwritten", os.path.exists(path))
        s = gen.system(rng, 4)
        f = config(rng, cfg, s.lat, s.z, s.frac)
        ks, names, w = [], {}, []
        npath = int(rng.integers(1, 4))
        starts = []
        short = rng.random() < 0.95
        mon.hit("hundred_kpoints", not short)
        for q in range(npath):
            starts.append(len(ks))
            nodes = rng.integers(-2, 3, size=(int(rng.integers(2, 5)), 3)) / rng.choice([2, 3, 4])
            for i in range(len(nodes) - 1):
                n = int(rng.integers(2, 6)) if short else int(rng.integers(20, 60))
                for m in range(n):
                    if m == 0:
                        names[len(ks)] = "P%d" % int(rng.integers(0, 30)) if rng.random() < 0.7 else "G"
                    ks.append(nodes[i] + (nodes[i + 1] - nodes[i]) * m / n)
            names[len(ks)] = str(rng.choice(["M", "K", "X_1"]))
            ks.append(nodes[-1])
        mon.hit("jumps", npath > 1)
        ws = ["%.8f" % v for v in rng.random(len(ks))]
        dg = int(rng.choice([6, 6, 8, 12]))
        rows = [["%.*f" % (dg, v) for v in kk] for kk in ks]
        txt = "%s%d\n%s2   0\n" % (pwmat.sp(rng), len(ks), pwmat.sp(rng))
        for i in range(len(ks)):
            txt += pwmat.sp(rng) + pwmat.sp(rng).join(rows[i] + [ws[i]] + ([names[i]] if i in names else [])) + "\n"
        with open(path, "w") as g:
            g.write(txt)
        K = np.array([[float(v) for v in r] for r in rows])
        p = Inkpt(in_kpt_path=path)
        what = txt[:400]
        mon.check(p.iflag == 2 and p.a0 == 0, "inkpt:flags", lambda: "%s %s: %s" % (p.iflag, p.a0, what))
        mon.check(p.get_num_kpts() == len(ks), "inkpt:number", lambda: "%s, file has %d: %s" % (p.get_num_kpts(), len(ks), what))
        mon.check(np.array_equal(p.get_kpt_coords_frac(), K), "inkpt:frac", what)
        cart = K @ recip(f.lat)
        mon.check(np.allclose(p.get_kpt_coords_A(cfg), cart, rtol=1e-9, atol=1e-9), "inkpt:cartesian", what)
        mon.check(np.allclose(p.get_kpt_coords_Bohr(cfg), cart * BOHR, rtol=1e-6, atol=1e-9), "inkpt:bohr", what)
        mon.check([float(v) for v in ws] == list(p.get_kpt_weights()), "inkpt:weights", what)
        h = p.get_hsp()
        mon.check(h["hsp"] == [names[i] for i in sorted(names)] and np.array_equal(np.array(h["coords_frac"]), K[sorted(names)]), "inkpt:points", lambda: "%s: %s" % (h, what))
        step = np.linalg.norm(np.diff(cart, axis=0), axis=1)
        for q in starts[1:]:
            step[q - 1] = 0                      # no length between the end of one path and the start of the next
        want = np.concatenate([[0], np.cumsum(step)])
        g = p.get_distance_from_gamma_A(cfg)
        mon.check(len(g) == len(want) and np.allclose(g, want, atol=1e-8), "inkpt:distance", lambda: "%s, expected %s: %s" % (g, want.tolist(), what))
        g = p.get_distance_from_gamma_bohr(cfg)
        mon.check(len(g) == len(want) and np.allclose(g, want * BOHR, rtol=1e-6, atol=1e-8), "inkpt:distance-bohr", what)
        mon.hit("inkpt"); mon.sig("inkpt", npath, len(ks)); mon.sample(txt[:160])

    T = mon.thorough
    mon.run("mesh", 12000 if T else 800, mesh)
    mon.run("ir", 4000 if T else 220, ir)
    mon.run("path", 3000 if T else 150, kpath)
    mon.run("inkpt", 8000 if T else 600, inkpt)


def body(c):
    c.run_py("kspace", work)


c.main(body)
