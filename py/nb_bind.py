"""Worker of C03: runs under LD_PRELOAD=libasan with the sanitized extension module in argv --ext."""
import argparse, ctypes, gc, os, sys
ap = argparse.ArgumentParser()
for o in ("--out", "--state", "--tier", "--ext"):
    ap.add_argument(o)
ap.add_argument("--seed", type=int); ap.add_argument("--cases", type=int); ap.add_argument("--only")
a, _ = ap.parse_known_args()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, a.ext)
import numpy as np
import gen
from vplib import Mon
import nblist
assert os.path.dirname(os.path.abspath(nblist.__file__)) == os.path.abspath(a.ext)
live = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
live.restype = ctypes.c_size_t
mon = Mon(a.seed, a.tier)
WHAT = ["inum", "ilist", "numneigh", "firstneigh", "relative_coords", "types", "nghost"]


def refused(rng, s, arrs, rc, pbc, width, most, sort, cart, what):
    """Arguments that do not fit together raise; the sanitizer watches that nothing is read or written outside the arrays."""
    lat, z, x = arrs
    bad = [("few_coordinates", (lat, z, x[:-1], rc, pbc, width)), ("small_lattice", (lat[:2], z, x, rc, pbc, width)), ("no_atoms", (lat, z[:0], x[:0], rc, pbc, width)),
           ("two_columns", (lat, z, x[:, :2], rc, pbc, width)), ("two_flags", (lat, z, x, rc, pbc[:2], width)), ("zero_cutoff", (lat, z, x, 0.0, pbc, width)), ("many_atoms", (lat, np.concatenate([z, z, z]), x, rc, pbc, 3 * width))]
    if most > 0:
        bad += [("narrow_table", (lat, z, x, rc, pbc, int(rng.integers(0, most)))), ("narrow_table", (lat, z, x, rc, pbc, most - 1)), ("negative_width", (lat, z, x, rc, pbc, -1))]
    bad += [("unreadable", ("lattice", z, x, rc, pbc, width)), ("unreadable", (lat, ["C"] * s.n, x, rc, pbc, width)), ("unreadable", (lat, z, [[0.1, 0.2, 0.3], [0.1]], rc, pbc, width)),
            ("unreadable", (lat, z, None, rc, pbc, width)), ("unreadable", (lat, z, x, "far", pbc, width)), ("unreadable", (lat, z, x, rc, pbc, "wide")), ("unreadable", (lat, z, x, rc, None, width))]
    for i in rng.choice(len(bad), size=4, replace=False):
        name, args = bad[int(i)]

        def attempt():
            try:
                return nblist.find_info4mlff(*args, sort, cart)
            except Exception:
                return None
        r = attempt()
        if r is None:
            mon.hit("refused_" + name)
            mon.hit("refused")
        else:
            mon.fail("accepted:" + name, "%s returned a table of shape %s: %s" % (name, np.shape(r[3]), what))
            continue
        before = [sys.getrefcount(v) for v in args]
        attempt()
        after = [sys.getrefcount(v) for v in args]
        mon.check(all(q <= p for p, q in zip(before[:3], after[:3])), "refused:reference-kept", lambda: "%s: references to the arguments went from %s to %s: %s" % (name, before, after, what))
        gc.collect()
        b0 = live()
        for _ in range(8):
            attempt()
        gc.collect()
        b1 = live()
        mon.check(b1 - b0 < 600, "refused:leak", lambda: "%s: %d bytes stay allocated after 8 refused calls: %s" % (name, b1 - b0, what))
        mon.hit("refused_balance")


def case(rng, k):
    s = gen.system(rng, 7)
    pbc = [bool(rng.random() < 0.75) for _ in range(3)]
    if rng.random() < 0.15:     # atoms outside the home cell
        s = gen.Sys(s.lat, s.z, s.frac + rng.integers(-1, 2, size=s.frac.shape) * np.array(pbc), s.kind + "-unwrapped")
        mon.hit("outside")
    rcut = float(rng.uniform(1.0, 5.5)) if rng.random() < 0.9 else float(rng.integers(2, 6))
    want = gen.neighbours(s, rcut, pbc)
    width = max([len(w) for w in want] + [1]) + (0 if rng.random() < 0.4 else int(rng.integers(1, 12)))
    cart = bool(rng.random() < 0.5)
    z = s.z.astype([np.int32, np.int64, np.int16, np.uint8][int(rng.integers(0, 4))])
    f32 = False
    arrs, names = [], []
    for v in (s.lat, z, s.pos if cart else s.frac):
        b, nm = gen.layout(rng, v)
        arrs.append(b); names.append(nm + ":" + str(b.dtype))
    keep = [np.array(b) for b in arrs]
    rc = int(rcut) if rcut == int(rcut) else (np.float64(rcut) if rng.random() < 0.3 else rcut)
    sort = bool(rng.random() < 0.5)
    what = "%r rcut=%g pbc=%s width=%d cart=%s sort=%s layouts=%s" % (s, rcut, pbc, width, cart, sort, names)
    mon.sample(what)
    def flag(v):        # anything with a truth value
        t = int(rng.integers(0, 5))
        return v if t < 2 else (np.bool_(v) if t == 2 else (int(v) * int(rng.integers(1, 4)) if t == 3 else ([0] if v else [])))
    fl = [flag(q) for q in pbc], flag(sort), flag(cart)
    mon.hit("other_flags", sum(type(q) is not bool for q in fl[0] + list(fl[1:])) > 0)
    r = nblist.find_info4mlff(arrs[0], arrs[1], arrs[2], rc, fl[0], width, fl[1], fl[2])
    mon.sig(s.kind, tuple(pbc), s.n, width, tuple(names), sort, cart)
    mon.check(isinstance(r, tuple) and len(r) == 7, "shape", what)
    inum, ilist, num, first, rel, types, nghost = r
    mon.check(inum == s.n and list(ilist) == list(range(s.n)), "centres", lambda: "inum %s ilist %s: %s" % (inum, ilist, what))
    mon.check(list(types) == list(s.z), "types", lambda: "types %s: %s" % (types, what))
    mon.check(nghost == 0, "nghost", lambda: "nghost %s: %s" % (nghost, what))
    if not mon.check(num.shape == (s.n,) and first.shape == (s.n, width) and rel.shape == (s.n, width, 3), "shape", lambda: "%s %s %s: %s" % (num.shape, first.shape, rel.shape, what)):
        return
    for i in range(s.n):
        m = int(num[i])
        if not mon.check(0 <= m <= width, "count", lambda: "numneigh[%d]=%d: %s" % (i, m, what)):
            return
        e = gen.match(want[i], [(int(first[i, j]), rel[i, j]) for j in range(m)])
        mon.check(not e, "neighbours", lambda: "atom %d %s: %s" % (i, e, what))
        mon.hit("pairs", m)
        mon.check((first[i, m:] == -1).all() and (rel[i, m:] == 0).all(), "padding", lambda: "atom %d: %s" % (i, what))
        mon.hit("pad_slots", width - m)
        if sort:
            d = np.linalg.norm(rel[i, :m], axis=1)
            mon.check((np.diff(d) >= -1e-9).all(), "order", lambda: "atom %d distances %s: %s" % (i, d, what))
            mon.hit("sorted_lists")
    for b, o in zip(arrs, keep):
        mon.check((b == o).all(), "input-changed", what)
    for nm in names:
        mon.hit("layout_" + nm.split(":")[0])
    # the returned arrays are the caller's: they survive another call, may be written, and are released
    if k % 5 == 0:
        snap = [np.array(x) for x in r[1:6]]
        q = nblist.find_info4mlff(arrs[0], arrs[1], arrs[2], rc, pbc, width + 1, not sort, cart)
        for x in q[1:6]:
            x[...] = 77
        mon.check(all((x == y).all() for x, y in zip(r[1:6], snap)), "aliased", what)
        mon.hit("independence")
    if k % 3 == 0:
        refused(rng, s, arrs, rc, pbc, width, max(len(w) for w in want), sort, cart, what)
    if k % 10 == 0:
        def probe(n):
            for _ in range(n):
                nblist.find_info4mlff(arrs[0], arrs[1], arrs[2], rc, pbc, width + 600, sort, cart)
            gc.collect()
        probe(2)
        b0 = live()
        probe(6)
        b1 = live()
        mon.check(b1 - b0 < 2000, "leak", lambda: "%d bytes stay allocated after 6 calls whose results were dropped: %s" % (b1 - b0, what))
        mon.hit("leak_probes")


def large():
    """A structure too large for the stack: a line of atoms, each with its two neighbours."""
    n = 330000
    x = np.zeros((n, 3)); x[:, 0] = np.arange(n) * 1.5 + 0.5
    num, first, rel = nblist.find_info4mlff(np.diag([1.5 * n, 2.0, 2.0]), np.full(n, 6, np.int32), x, 2.0, [True, False, False], 2, True, True)[2:5]
    want = np.stack([np.roll(np.arange(n), 1), np.roll(np.arange(n), -1)], axis=1)
    mon.check((num == 2).all() and (np.sort(first, axis=1) == np.sort(want, axis=1)).all() and np.allclose(np.abs(rel[:, :, 0]), 1.5, atol=1e-6), "large-structure", "line of %d atoms" % n)
    mon.hit("large_structure")


for k in range(a.cases):
    if a.only is not None and int(a.only) != k:
        continue
    with open(a.state, "w") as f:
        f.write(str(k))
    mon.cur = k
    mon.evaluations += 1
    case(mon.rng("nb", k), k)
    if k == 3:
        large()
mon.dump(a.out)
os._exit(0)
