"""Independent DeepPot-SE features of a structure (explicit images, complex-step derivatives)."""
import itertools
import numpy as np


def tilde(rc, rs, ro):
    """(n, 4) from relative coordinates (n, 3), complex allowed."""
    r = np.sqrt((rc * rc).sum(axis=1))
    u = (r - rs) / (ro - rs)
    sw = 1 - u ** 3 * (10 - 15 * u + 6 * u * u)
    sw = np.where(r.real <= rs, 1.0 + 0 * r, np.where(r.real >= ro, 0 * r, sw))
    return np.concatenate([(sw / r)[:, None], (sw / r ** 2)[:, None] * rc], axis=1)


def deriv(rc, rs, ro):
    """(n, 4, 3): derivative by the position of the centre."""
    out = np.zeros((len(rc), 4, 3))
    for k in range(3):
        e = np.zeros(3, complex)
        e[k] = -1e-30j
        out[:, :, k] = tilde(rc + e, rs, ro).imag / 1e-30
    return out


class Env:
    """Neighbours of every home atom (by atomic number, file order within) among the copies of an odd supercell."""
    def __init__(self, s, rcut, rs, sc):
        self.s, self.rcut, self.rs = s, rcut, rs
        sh = np.array(list(itertools.product(*[range(-(q // 2), q // 2 + 1) for q in sc])), float) @ s.lat
        p, z, j = (s.pos[:, None] + sh[None]).reshape(-1, 3), np.repeat(s.z, len(sh)), np.repeat(np.arange(s.n), len(sh))
        self.rows, self.sharp = {}, True
        for i in range(s.n):
            rel = p - s.pos[i]
            r = np.linalg.norm(rel, axis=1)
            self.sharp = self.sharp and not np.any(np.abs(r - rcut) < 1e-6)
            k = np.where((r < rcut) & (r > 1e-6))[0]
            k = k[np.argsort(r[k], kind="stable")]
            self.rows[i] = [(rel[a], float(r[a]), int(z[a]), int(j[a]) + 1) for a in k]

    def centres(self, zc):
        return [i for i in range(self.s.n) if self.s.z[i] == zc]

    def pair(self, zc, zn):
        """One entry per centre: (relative coordinates, distances, features, derivatives, 1-based home atoms)."""
        out = []
        for i in self.centres(zc):
            q = [x for x in self.rows[i] if x[2] == zn]
            rel = np.array([x[0] for x in q]).reshape(-1, 3)
            out.append((rel, np.array([x[1] for x in q]), tilde(rel.astype(complex), self.rs, self.rcut).real if q else np.zeros((0, 4)),
                        deriv(rel.astype(complex), self.rs, self.rcut) if q else np.zeros((0, 4, 3)), np.array([x[3] for x in q], int)))
        return out

    def width(self, zcs, zn):
        return max([len(x[1]) for zc in zcs for x in self.pair(zc, zn)] or [0])


def slots(want, got, keys, tol):
    """want: entry of Env.pair; got: arrays over the slots of one row, keys: which entries of want they stand for.
    Slots are in order of distance; equal distances may come in any order. '' or what is wrong."""
    n = len(want[1])
    used = set()
    for k in range(n):
        c = [a for a in range(n) if a not in used and abs(want[1][a] - want[1][k]) < 1e-7]
        best, err = None, np.inf
        for a in c:
            e = max(float(np.max(np.abs(g[k] - want[q][a]) / (tol[q] * (1 + np.abs(want[q][a]))))) for g, q in zip(got, keys))
            if not e >= err:
                best, err = a, e
        if best is None or not err <= 1:
            return "slot %d at distance %.6f: %s, expected %s" % (k, want[1][k], [np.round(g[k], 7).tolist() for g in got], [np.round(want[q][best if best is not None else k], 7).tolist() for q in keys])
        used.add(best)
    return ""
