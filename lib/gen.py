"""Random periodic structures and a brute-force neighbour oracle (numpy)."""
import numpy as np

POOL = [1, 3, 6, 8, 14, 16, 24, 29, 42, 53, 79, 94]
SYM = dict(enumerate(("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn "
                      "Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm "
                      "Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split(), 1))
NUM = {v: k for k, v in SYM.items()}
ALL = list(range(1, 119))
EDGE = [0.0, 0.5, 0.25, 1 / 3, 2 / 3, 0.75, 0.999999, 1e-9]


def rotation(rng):
    q = rng.normal(size=4)
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def cell(rng, lo=2.5, hi=8.0, left=True):
    a, b, d = rng.uniform(lo, hi, 3)
    m = np.diag([a, b, d])
    t = int(rng.integers(0, 8))
    kind = ["cubic", "ortho", "hex", "mono", "tri", "tri-rot", "flat", "left"][t]
    if kind == "cubic":
        m = np.eye(3) * a
    elif kind == "hex":
        m[1] = [-a / 2, a * np.sqrt(3) / 2, 0]
    elif kind == "mono":
        m[2, 0] = d * rng.uniform(-0.6, 0.6)
    elif kind in ("tri", "tri-rot"):
        m[1, 0] = b * rng.uniform(-0.7, 0.7)
        m[2, :2] = d * rng.uniform(-0.7, 0.7, 2)
        if kind == "tri-rot":
            m = m @ rotation(rng).T
    elif kind == "flat":
        m[2, 2] = rng.uniform(1.5, 2.4)
        m[1, 0] = b * rng.uniform(-0.3, 0.3)
    elif kind == "left" and left:
        m = m[[1, 0, 2]]
        m[2, 0] += d * rng.uniform(-0.4, 0.4)
    return m, kind


def crowd(rng, n, species=None):
    """n atoms (many) on a jittered grid of a large cell."""
    m = int(np.ceil(n ** (1 / 3)))
    g = np.array([(x, y, z) for x in range(m) for y in range(m) for z in range(m)], float)[:n]
    lat = np.diag(rng.uniform(2.0, 3.0, 3) * m)
    lat[1, 0] = rng.uniform(-0.3, 0.3) * lat[0, 0]
    sp = species if species is not None else list(rng.choice(POOL, size=int(rng.integers(1, 6)), replace=False))
    return Sys(lat, [int(sp[int(rng.integers(0, len(sp)))]) for _ in range(n)], (g + rng.uniform(0.1, 0.9, g.shape)) / m, "crowd")


def heights(m):
    return 1.0 / np.linalg.norm(np.linalg.inv(m), axis=0)


IM27 = np.array([(x, y, z) for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (-1, 0, 1)], float)


class Sys:
    def __init__(self, lat, z, frac, kind=""):
        self.lat, self.z, self.frac, self.kind = lat, np.asarray(z, int), np.asarray(frac, float).reshape(-1, 3), kind
        self.n = len(self.z)
        self.pos = self.frac @ lat

    def __repr__(self):
        return "%s n=%d lattice=%s atoms=%s" % (self.kind, self.n, np.round(self.lat, 4).tolist(),
                                                [(int(a), np.round(f, 5).tolist()) for a, f in zip(self.z, self.frac)][:6])


def system(rng, nmax=8, dmin=0.9, species=None, lo=2.5, hi=8.0, left=True, nmin=1, grouped=False, edge=0.4, wide=True):
    m, kind = cell(rng, lo, hi, left)
    t = rng.random() if wide else 1
    if t < 0.05:                # slabs, wires, vacuum
        m = m.copy()
        m[int(rng.integers(0, 3))] *= rng.uniform(2, 5)
        kind += "-long"
    elif t < 0.08:              # more atoms
        m = m * rng.uniform(1.2, 1.7)
        nmax = 4 * nmax
        kind += "-many"
    if rng.random() < 0.08:     # short bonds
        dmin = min(dmin, 0.15)
        short = float(rng.choice([0.0, 0.5]))
    else:
        short = 0.0
    sp = species if species is not None else list(rng.choice(POOL if rng.random() < 0.85 else ALL, size=int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(4, 7)), replace=False))
    n = int(rng.integers(nmin, nmax + 1))
    fr, z = [], []
    for _ in range(60 * n):
        if len(z) >= n:
            break
        f = rng.random(3)
        if rng.random() < edge:
            for k in range(3):
                if rng.random() < 0.7:
                    f[k] = EDGE[int(rng.integers(0, 8))]
        if fr and short and rng.random() < short:       # right beside another atom
            u = rng.normal(size=3)
            f = fr[int(rng.integers(0, len(fr)))] + (u / np.linalg.norm(u) * rng.uniform(0.15, 0.6)) @ np.linalg.inv(m)
        if fr:
            d = (np.array(fr)[:, None, :] - f + IM27[None]) @ m
            if np.linalg.norm(d, axis=2).min() < dmin:
                continue
        fr.append(f)
        z.append(int(sp[int(rng.integers(0, len(sp)))]))
    if grouped:
        o = np.argsort(z, kind="stable")
        fr, z = [fr[i] for i in o], [z[i] for i in o]
    return Sys(m, z, np.array(fr), kind)


def grid(rng, n):
    """Many atoms, well apart: a jittered grid with holes."""
    m = int(np.ceil(n ** (1 / 3)))
    g = np.stack(np.meshgrid(*[np.arange(m)] * 3, indexing="ij"), -1).reshape(-1, 3)
    g = g[np.sort(rng.permutation(len(g))[:n])]
    lat = np.eye(3) * m * 2.5 + rng.normal(size=(3, 3)) * 0.3
    return Sys(lat, rng.choice([3, 8, 14, 16, 42, 57, 92], size=n), (g + 0.5 + rng.uniform(-0.2, 0.2, size=g.shape)) / m, "grid")


def neighbours(s, rcut, pbc=(True, True, True), tol=1e-7, dzero=1e-3):
    """[(j, d, r, maybe)] for every atom: all images strictly inside rcut (maybe: within tol of it)."""
    h = heights(s.lat)
    spread = np.floor(s.frac.max(axis=0) - s.frac.min(axis=0)).astype(int)
    m = [int(np.ceil(rcut / h[k])) + 1 + int(spread[k]) if pbc[k] else 0 for k in range(3)]
    im = np.array([(x, y, z) for x in range(-m[0], m[0] + 1) for y in range(-m[1], m[1] + 1) for z in range(-m[2], m[2] + 1)], float) @ s.lat
    out = []
    for i in range(s.n):
        o = []
        for j in range(s.n):
            d = s.pos[j] - s.pos[i] + im
            r = np.linalg.norm(d, axis=1)
            for k in np.where((r < rcut + tol) & (r > dzero))[0]:
                o.append((j, d[k], float(r[k]), bool(r[k] > rcut - tol)))
        out.append(o)
    return out


def match(want, got, tol=1e-6):
    """want: oracle list of one atom; got: [(j, d)]. Returns '' or what is wrong."""
    used = [False] * len(want)
    for j, d in got:
        best, dup = -1, False
        for w, (wj, wd, wr, mb) in enumerate(want):
            if wj == j and abs(wd[0] - d[0]) < tol and abs(wd[1] - d[1]) < tol and abs(wd[2] - d[2]) < tol:
                if used[w]:
                    dup = True
                    continue
                best = w
                break
        if best < 0:
            return "%s: atom %d at %s |d|=%.6f" % ("listed twice" if dup else "listed but not a neighbour", j, np.round(d, 5).tolist(), np.linalg.norm(d))
        used[best] = True
    for w, (wj, wd, wr, mb) in enumerate(want):
        if not used[w] and not mb:
            return "missing: atom %d at %s |d|=%.6f" % (wj, np.round(wd, 5).tolist(), wr)
    return ""


def layout(rng, a):
    """The same values in a random memory layout / byte order."""
    a = np.asarray(a)
    t = int(rng.integers(0, 6))
    if t == 0:
        return np.ascontiguousarray(a), "contiguous"
    if t == 1:
        return np.asfortranarray(a), "fortran"
    if t == 2:
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2], "strided"
    if t == 3:
        return np.ascontiguousarray(a[::-1])[::-1], "reversed"
    if t == 4:
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 99, a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1], "sliced"
    b = np.array(a)
    b.setflags(write=False)
    return b, "readonly"


def beside(rng, pos, lat, sc, lo, hi, least=1e-6):
    """A cutoff a hair below or above the distance of some pair of atoms (None when the drawn pair is out of range)."""
    i, j = (int(v) for v in rng.integers(0, len(pos), size=2))
    sh = np.array([rng.integers(-(q // 2), q // 2 + 1) for q in sc], float) @ lat
    d = float(np.linalg.norm(pos[j] - pos[i] + sh))
    e = float(10 ** rng.uniform(np.log10(least), -2.5))
    return None if not lo < d < hi else d + e if rng.random() < 0.5 else d - e
