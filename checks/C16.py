import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C16", rule="random structures written as atom.config files by an independent writer in the keyword, number and header forms PWmat uses, read by every reader, written back, read again, "
          "and overwritten in place between reads; distinct by (cell family, atom count, header, blocks present)",
          assumptions=["the writer keeps 6 decimals of the fractional coordinates and 7 digits of the lattice"],
          need={"read": 200, "read_text": 200, "written": 200, "reread_after_overwrite": 100, "moments": 50, "moments_written": 30, "poscar": 30, "optional_blocks": 100, "hundred_atoms": 8, "ten_thousand_atoms": 1})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.io.pwmat.utils.acextractor import ACExtractor, ACstrExtractor
    from matersdk.io.publicLayer.structure import DStructure

    def same(a, b, tol=1e-12):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))

    def struct_is(s, lat, z, frac, tag, what, tol=1e-9):
        mon.check(len(s) == len(z) and [x.specie.Z for x in s] == list(z), tag + ":species", lambda: "%s != %s in %s" % ([x.specie.Z for x in s], list(z), what))
        mon.check(same(s.lattice.matrix, lat, tol), tag + ":lattice", lambda: "%s != %s in %s" % (s.lattice.matrix.tolist(), np.asarray(lat).tolist(), what))
        mon.check(same(s.frac_coords, frac, tol), tag + ":coords", lambda: "%s != %s in %s" % (s.frac_coords.tolist(), np.asarray(frac).tolist(), what))
        mon.check(type(s) is DStructure, tag + ":class", str(type(s)))

    def parse(path):
        """independent reader of what DStructure.to wrote"""
        L = open(path).read().split("\n")
        n = int(L[0].split()[0])
        k = [i for i, l in enumerate(L) if "LATTICE" in l.upper()][0]
        lat = [[float(x) for x in L[k + j].split()[:3]] for j in (1, 2, 3)]
        k = [i for i, l in enumerate(L) if "POSITION" in l.upper()][0]
        rows = [l.split() for l in L[k + 1:k + 1 + n]]
        rest = L[k + 1 + n:]
        mag = None
        if rest and "MAGNETIC" in rest[0].upper():
            mag = [(int(l.split()[0]), float(l.split()[1])) for l in rest[1:1 + n]]
            rest = rest[1 + n:]
        return n, np.array(lat), [int(r[0]) for r in rows], np.array([[float(x) for x in r[1:4]] for r in rows]), mag, [r for r in rows], [l for l in rest if l.strip()]

    def one(rng, k, s=None):
        path = "atom.config" if rng.random() < 0.7 else "f%d.config" % int(rng.integers(0, 3))
        path = os.path.join(mon.scratch, path)
        existed = os.path.exists(path)
        s = s if s is not None else gen.crowd(rng, int(rng.integers(90, 400))) if rng.random() < 0.02 else gen.system(rng, 14, species=None if rng.random() < 0.7 else list(rng.integers(1, 100, size=4)))
        if rng.random() < 0.03:     # slabs and wires in large boxes
            s.lat = s.lat * rng.choice([1.0, 40.0], size=(3, 1))
        mon.hit("hundred_atoms", s.n >= 100)
        st = pwmat.style(rng, str(rng.choice(["plain", "md", "old", "relax"])))
        props = {p: bool(rng.random() < 0.4) for p in ("virial", "magmom", "force", "velocity", "eatom")}
        if rng.random() < 0.3:      # atoms outside the home cell stay where they are
            s.frac[int(rng.integers(0, s.n))] += rng.integers(-2, 3, size=3) * (1 if rng.random() < 0.8 else 7)
        f = pwmat.frame(rng, s.lat, s.z, s.frac, st, props)
        with open(path, "w") as g:
            g.write(f.text)
        what = f.text[:600]
        mon.sig(s.kind, s.n, st["header"], tuple(sorted(props.items())))
        mon.sample({"header": f.text.split("\n")[0], "atoms": s.n, "blocks": [p for p in props if props[p]]})
        a = ACExtractor(file_path=path)
        tag = "ACExtractor" if not existed else "ACExtractor-overwritten-file"
        mon.check(a.get_num_atoms() == s.n and a.num_atoms == s.n, tag + ":count", lambda: "%s atoms, file has %d" % (a.num_atoms, s.n))
        mon.check(same(np.reshape(a.get_basis_vectors(), (3, 3)), f.lat) and same(np.reshape(a.basis_vectors, (3, 3)), f.lat), tag + ":lattice", lambda: "%s\n%s" % (a.basis_vectors, what))
        mon.check(list(a.get_types()) == f.z and list(a.types) == f.z, tag + ":types", lambda: "%s\n%s" % (a.types, what))
        mon.check(np.shape(a.get_coords()) == (3 * s.n,) and same(np.reshape(a.get_coords(), (-1, 3)), f.frac) and same(np.reshape(a.coords, (-1, 3)), f.frac), tag + ":coords", lambda: "%s\n%s" % (a.coords, what))
        mon.check(same(a.get_magmoms(), f.magmom), tag + ":magmoms", lambda: "%s != %s\n%s" % (a.get_magmoms(), f.magmom, what))
        mon.hit("read")
        mon.hit("reread_after_overwrite", existed)
        mon.hit("moments", props["magmom"])
        t = ACstrExtractor(atom_config_str=f.text)
        ok = t.get_num_atoms() == s.n and same(np.reshape(t.get_basis_vectors(), (3, 3)), f.lat) and list(t.get_types()) == f.z and same(np.reshape(t.get_coords(), (-1, 3)), f.frac)
        mon.check(ok, "ACstrExtractor:structure", what)
        if props["magmom"]:
            mon.check(same(t.get_magmoms(), f.magmom), "ACstrExtractor:magmoms", what)
        else:
            try:
                m = t.get_magmoms()
                mon.fail("ACstrExtractor:magmoms-absent", "moments %s from a text without moments" % m)
            except AttributeError:
                pass
        if st["header"] != "plain":
            mon.check(same(np.ravel(t.get_etot()), [f.energy[0]]), "ACstrExtractor:energy", lambda: "%s != %s\n%s" % (t.get_etot(), f.energy[0], what))
        mon.check(same(np.reshape(t.get_fatoms(), (-1, 3)), f.force), "ACstrExtractor:force", what)
        for nm, fn, want in (("virial", t.get_virial, f.virial.ravel()), ("eatom", t.get_eatoms, f.eatom)):
            if props[nm]:
                mon.check(same(fn(), want), "ACstrExtractor:" + nm, lambda: "%s\n%s" % (fn(), f.text))
            else:
                try:
                    v = fn()
                    mon.fail("ACstrExtractor:%s-absent" % nm, "%s from a text without it:\n%s" % (v, what))
                except AttributeError:
                    pass
            mon.hit("optional_blocks", props[nm])
        mon.hit("read_text")
        d = DStructure.from_file(file_path=path, file_format="pwmat")
        struct_is(d, f.lat, f.z, f.frac, "from_file", what)
        o = np.argsort(f.z, kind="stable")
        struct_is(DStructure.from_file(file_path=path, file_format="pwmat", sort=True), f.lat, [f.z[i] for i in o], f.frac[o], "from_file-sorted", what)
        struct_is(DStructure.from_str(str_content=f.text, str_format="pwmat"), f.lat, f.z, f.frac, "from_str", what)
        try:
            DStructure.from_str(str_content=f.text, str_format="vasp")
            mon.fail("from_str:unknown-format", "accepted")
        except ValueError:
            pass
        if s.n > 5000:              # writing so many takes minutes
            mon.hit("ten_thousand_atoms")
            return
        # write, parse independently, read back
        out = os.path.join(mon.scratch, "out%d.config" % int(rng.integers(0, 3)))
        mags = None
        if rng.random() < 0.4:
            mags = [round(float(x), 2) for x in rng.normal(size=s.n) * 3]
            d.add_site_property("magmom", mags)
        before = (d.lattice.matrix.copy(), d.frac_coords.copy())
        d.to(file_path=out, file_format="pwmat", include_magnetic_moments=mags is not None)
        n, lat, z, fr, mg, rows, rest = parse(out)
        w2 = open(out).read()[:600]
        mon.check(n == s.n and z == f.z and len(rows) == s.n, "to:atoms", w2)
        mon.check(not rest, "to:trailing", lambda: "%s in %s" % (rest[:3], w2))
        mon.check(bool(np.all(np.abs(lat - f.lat) <= 6e-7 * np.abs(f.lat) + 1e-12)), "to:lattice", lambda: "%s != %s" % (lat.tolist(), f.lat.tolist()))
        mon.check(bool(np.all(np.abs(fr - f.frac) <= 6e-7)), "to:coords", lambda: "%s != %s" % (fr.tolist(), f.frac.tolist()))
        if mags is not None:
            mon.check(mg is not None and [q[0] for q in mg] == f.z and same([q[1] for q in mg], mags, 1e-9), "to:magmoms", lambda: "%s != %s" % (mg, mags))
            mon.check(same(ACExtractor(file_path=out).get_magmoms(), mags, 1e-9), "to:magmoms-back", w2)
            mon.hit("moments_written")
        else:
            mon.check(mg is None, "to:magmoms-unasked", w2)
        mon.check(same(d.lattice.matrix, before[0], 0) and same(d.frac_coords, before[1], 0), "to:modifies", w2)
        b = DStructure.from_file(file_path=out, file_format="pwmat")
        struct_is(b, lat, f.z, fr, "read-back", w2)
        # a second trip is exact: what the text can hold is kept
        b.to(file_path=out, file_format="pwmat")
        n2, lat2, z2, fr2, mg2, _, _ = parse(out)
        mon.check(z2 == f.z and same(lat2, lat, 1e-9) and same(fr2, fr, 1e-9), "second-trip", w2)
        mon.hit("written")
        if k % 5 == 0:
            p = os.path.join(mon.scratch, "POSCAR")
            d.to(file_path=p, file_format="poscar" if rng.random() < 0.5 else "vasp")
            q = DStructure.from_file(file_path=p, file_format="vasp")
            mon.check(len(q) == s.n and (same(q.lattice.matrix, f.lat, 1e-6) or same(-q.lattice.matrix, f.lat, 1e-6)) and np.allclose(sorted([x.specie.Z for x in q]), sorted(f.z)), "poscar", open(p).read()[:400])
            mon.check(all(min(np.abs((np.array(x.frac_coords) - fr_ + 0.5) % 1 - 0.5).max() for zz, fr_ in zip(f.z, f.frac) if zz == x.specie.Z) < 1e-6 for x in q), "poscar:coords", open(p).read()[:400])
            mon.check(type(q) is DStructure, "poscar:class", str(type(q)))
            mon.hit("poscar")

    mon.run("file", 12000 if mon.thorough else 1800, one)
    mon.run("large", 3 if mon.thorough else 1, lambda rng, k: one(rng, k, s=gen.grid(rng, int(rng.integers(10000, 13000)))))


def body(c):
    c.run_py("atom_config", work)


c.main(body)
