import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C18", rule="random directory trees of trajectories (several compositions, the same composition in several files and atom orders, mixed optional blocks, other files beside them) collected and "
          "written with random part sizes, every frame traced from source to dataset; distinct by (files, compositions, frames, part size)",
          assumptions=["all frames of a trajectory have the same atoms in the same order and the same optional blocks except velocities"],
          need={"datasets": 60, "frames_traced": 500, "merged_sets": 30, "single_sets": 30, "parts": 150, "mixed_blocks": 5, "exact_multiple": 10, "single_files": 60, "default_part": 30, "second_write": 60, "long_trajectories": 2, "unfinished": 30})


def work(mon):
    import shutil, warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import gen, pwmat
    from matersdk.data.infoset import InfoSet
    from matersdk.data.infosets import InfoSets
    EXTRA = (("virial", "virial"), ("eatom", "eatom"), ("magmom", "magmom"))

    def fkey(a):
        return tuple(np.round(np.asarray(a, float).ravel(), 9).tolist())

    def truth(f, names):
        d = {"box": f.lat.ravel(), "types": f.z, "coord": f.frac.ravel(), "etot": [f.energy[0]], "fatom": f.force.ravel(), "virial": f.virial.ravel(), "eatom": f.eatom, "magmom": f.magmom}
        return tuple(fkey(d[n]) for n in names)

    def rows(info, names, elements):
        """frames of an InfoSet-like mapping, with types turned into atomic numbers"""
        out = []
        for i in range(len(info["box"])):
            r = []
            for n in names:
                v = info[n][i]
                if n == "types":
                    v = [elements[int(t)] for t in v]
                r.append(fkey(v))
            out.append(tuple(r))
        return out


    def one(rng, k):
        top = os.path.join(mon.scratch, "in%d" % k)
        shutil.rmtree(top, ignore_errors=True)
        comps = []
        for _ in range(int(rng.integers(1, 4))):
            comps.append([int(x) for x in rng.choice(gen.POOL if rng.random() < 0.8 else gen.ALL, size=int(rng.integers(1, 7)))])
        files = []
        long_ = bool(rng.random() < 0.012)
        mon.hit("long_trajectories", long_)
        if rng.random() < 0.03:
            comps[0] = [int(x) for x in rng.choice(gen.POOL, size=int(rng.integers(40, 130)))]
        name = str(rng.choice(["MOVEMENT", "movement", "Movement"]))
        common = {p: bool(rng.random() < 0.5) for p in ("virial", "eatom", "magmom", "force")}
        for q in range(int(rng.integers(1, 6))):
            z = list(comps[int(rng.integers(0, len(comps)))])
            if rng.random() < 0.5:
                rng.shuffle(z)
            lat, _ = gen.cell(rng)
            s = gen.Sys(lat, z, rng.random((len(z), 3)))
            props = common if rng.random() < 0.7 else {p: bool(rng.random() < 0.5) for p in common}
            nfr = int(rng.integers(1, 7))
            if long_ and q == 0:
                nfr = int(rng.integers(100, 130))
            part = bool(rng.random() < 0.1)
            mon.hit("unfinished", part)
            frames, text, props, st = pwmat.movement(rng, s, nfr, props=props, partial=part, permute=0.15)
            d = os.path.join(top, *[str(rng.choice(["a", "aa", "a a", "x.y", "MOVEMENT_dir"])) for _ in range(int(rng.integers(0, 4)))], "run%d" % q) if q or rng.random() < 0.7 else top
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "MOVEMENT" if rng.random() < 0.7 else "movement"), "w").write(text)
            if rng.random() < 0.5:
                open(os.path.join(d, "MOVEMENT.bak"), "w").write(text)
                open(os.path.join(d, "REPORT"), "w").write("not a trajectory\n")
            files.append((d, frames, props))
        what = "files %s" % [(os.path.relpath(d, top), sorted(f[0].z), len(f), [p for p in pr if pr[p]]) for d, f, pr in files]
        mon.sample(what)
        sets = InfoSets.from_dir(dir_path=top, file_name=name, file_format=str(rng.choice(["pwmat/movement", "PWMAT/MOVEMENT"])))
        groups = {}
        for d, f, pr in files:
            groups.setdefault(tuple(sorted(f[0].z)), []).append((d, f, pr))
        nf = sum(len(f) for d, f, pr in files)
        mon.sig(len(files), len(groups), nf, tuple(sorted(map(len, groups.values()))))
        mon.check(sets.get_num_frames() == nf, "num-frames", lambda: "%d != %d: %s" % (sets.get_num_frames(), nf, what))
        mon.check(len(sets.infoset_lst) == len(groups), "sets", lambda: "%d sets for %d compositions: %s" % (len(sets.infoset_lst), len(groups), what))
        mon.check(len(set(i.formula for i in sets.infoset_lst)) == len(sets.infoset_lst), "formula-unique", what)
        names0 = ["box", "types", "coord", "etot", "fatom"]

        def names_of(g):
            return names0 + [a for a, b in EXTRA if all(pr[b] for d, f, pr in g)]

        def in_file_order(got, g, names, tag):
            """got: rows; every file's frames contiguous and in order, nothing else"""
            want = [[truth(f, names) for f in fr] for d, fr, pr in g]
            pos = 0
            left = list(range(len(want)))
            while left and pos < len(got):
                hit = [w for w in left if got[pos:pos + len(want[w])] == want[w]]
                if not hit:
                    break
                left.remove(hit[0])
                pos += len(want[hit[0]])
            mon.check(not left and pos == len(got), tag, lambda: "%d of %d frames accounted for, %d source files missing: %s" % (pos, len(got), len(left), what))
            mon.hit("frames_traced", pos)

        for inf in sets.infoset_lst:
            el = [gen.NUM.get(e) for e in inf.formula_dict]
            z0 = tuple(sorted(el[int(t)] for t in inf.types[0]))
            g = groups.get(z0)
            if not mon.check(g is not None, "composition", lambda: "set %s has atoms %s: %s" % (inf.formula, z0, what)):
                continue
            mon.hit("merged_sets" if len(g) > 1 else "single_sets")
            mon.hit("mixed_blocks", len(set(tuple(sorted(pr.items())) for d, f, pr in g)) > 1)
            names = names_of(g)
            mon.check({a for a, b in EXTRA if getattr(inf, a + "_mark")} == set(names[5:]), "extra-blocks", lambda: "set %s: %s" % (inf.formula, what))
            mon.check(inf.num_frames == sum(len(f) for d, f, pr in g) == len(inf.box), "set-frames", lambda: "%s: %d: %s" % (inf.formula, inf.num_frames, what))
            mon.check({gen.NUM.get(e): int(n) for e, n in inf.formula_dict.items() if n} == {z: z0.count(z) for z in set(z0)}, "formula-dict", lambda: "%s for atoms %s: %s" % (inf.formula_dict, z0, what))
            in_file_order(rows({n: getattr(inf, n) for n in names}, names, el), g, names, "conservation")
        # on disk
        out = os.path.join(mon.scratch, "out%d" % k)
        os.makedirs(out)
        big = max(i.num_frames for i in sets.infoset_lst)
        t = rng.random()
        ps = False if t < 0.3 else (int(sets.infoset_lst[0].num_frames) if t < 0.5 else int(rng.integers(1, 4 if long_ else big + 3)))
        if ps is False and rng.random() < 0.5:
            if rng.random() < 0.5:
                sets.to_dir(dir_path=out)
            else:
                for inf in sets.infoset_lst:
                    inf.to_dir(dir_path=out)
            mon.hit("default_part")
        elif rng.random() < 0.3:
            for inf in sets.infoset_lst:
                inf.to_dir(dir_path=out, part_size=ps)
        else:
            sets.to_dir(dir_path=out, part_size=ps)
        if rng.random() < 0.3:
            snap = {os.path.join(r, x): open(os.path.join(r, x), "rb").read() for r, _, fs in os.walk(out) for x in fs}
            try:
                sets.to_dir(dir_path=out, part_size=1)
                mon.fail("overwrites", "a second dataset is written over the first: %s" % what)
            except FileExistsError:
                pass
            mon.check(snap == {os.path.join(r, x): open(os.path.join(r, x), "rb").read() for r, _, fs in os.walk(out) for x in fs}, "refused-but-changed", what)
            mon.hit("second_write")
        mon.check(len(os.listdir(out)) == len(groups), "dirs", lambda: "%s: %s" % (os.listdir(out), what))
        seen = set()
        for dn in sorted(os.listdir(out)):
            b = os.path.join(out, dn)
            tm = open(os.path.join(b, "type_map.raw")).read().split("\n")
            mon.check(tm[-1] == "" and len(set(tm[:-1])) == len(tm) - 1 and all(tm[:-1]), "type-map", lambda: "%r: %s" % (tm, what))
            el = [gen.NUM.get(e) for e in tm[:-1]]
            parts = sorted(p for p in os.listdir(b) if p != "type_map.raw")
            mon.check(parts == ["part.%03d" % i for i in range(len(parts))], "part-names", lambda: "%s: %s" % (parts, what))
            data, sizes, shapes = {}, [], set()
            for p in parts:
                fl = sorted(os.listdir(os.path.join(b, p)))
                shapes.add(tuple(fl))
                arr = {x[:-4]: np.load(os.path.join(b, p, x)) for x in fl}
                mon.check(len(set(len(a) for a in arr.values())) == 1, "part-consistent", lambda: "%s: %s" % ({x: a.shape for x, a in arr.items()}, what))
                sizes.append(len(arr["box"]))
                for x, a in arr.items():
                    data.setdefault(x, []).append(a)
                mon.hit("parts")
            n = sum(sizes)
            eff = ps if ps is not False else nf
            mon.check(sizes == [eff] * (n // eff) + ([n % eff] if n % eff else []), "part-sizes", lambda: "%s frames in parts %s, part size %s: %s" % (n, sizes, ps, what))
            mon.hit("exact_multiple", ps is not False and n % ps == 0)
            mon.check(len(shapes) == 1, "part-files", lambda: "%s: %s" % (shapes, what))
            data = {("magmom" if x.startswith("magmom") else x): np.concatenate(a) for x, a in data.items()}
            z0 = tuple(sorted(el[int(t)] for t in data["types"][0]))
            g = groups.get(z0)
            if not mon.check(g is not None and z0 not in seen, "disk-composition", lambda: "%s: %s" % (dn, what)):
                continue
            seen.add(z0)
            names = names_of(g)
            mon.check(set(data) == set(names), "disk-files", lambda: "%s != %s: %s" % (sorted(data), names, what))
            if set(data) == set(names):
                in_file_order(rows(data, names, el), g, names, "disk-conservation")
        mon.hit("datasets")
        # one file on its own, with the element order chosen by the caller
        d, fr, pr = files[int(rng.integers(0, len(files)))]
        path = [os.path.join(d, x) for x in os.listdir(d) if x.upper() == "MOVEMENT"][0]
        order = False
        if rng.random() < 0.6:
            order = [int(z) for z in dict.fromkeys(list(fr[0].z) + [int(x) for x in rng.choice(gen.POOL, 2)])]
            rng.shuffle(order)
        inf = InfoSet.from_file(file_path=path, file_format="pwmat/movement", infosets_atomic_numbers=order)
        el = [gen.NUM.get(e) for e in inf.formula_dict]
        mon.check(order is False or el == order, "single:order", lambda: "%s != %s" % (el, order))
        mon.check({gen.NUM.get(e): int(n) for e, n in inf.formula_dict.items() if n} == {z: fr[0].z.count(z) for z in set(fr[0].z)}, "single:formula-dict", str(inf.formula_dict))
        names = names_of([(d, fr, pr)])
        in_file_order(rows({n: getattr(inf, n) for n in names}, names, el), [(d, fr, pr)], names, "single:conservation")
        mon.hit("single_files")
        try:
            InfoSet.from_file(file_path=path, file_format="vasp/xdatcar")
            mon.fail("single:format", "unknown format accepted")
        except NameError:
            pass
        shutil.rmtree(top); shutil.rmtree(out)

    mon.run("dataset", 9000 if mon.thorough else 800, one)


def body(c):
    c.run_py("infosets", work)


c.main(body)
