"""Independent writers of PWmat files with known contents."""
import numpy as np


def num(rng, x, digits=None):
    t = int(rng.integers(0, 4))
    if t == 0:
        return fort(x)
    if t == 1:
        return "%.15f" % x
    if t == 2:
        return "%.10E" % x
    return repr(float(x))


def fort(x, d=10, w=2):
    """Fortran 0.dddE+ee"""
    if x == 0:
        return "0." + "0" * d + "E+" + "0" * w
    e = int(np.floor(np.log10(abs(x)))) + 1
    m = x / 10.0 ** e
    s = "%.*f" % (d, m)
    if abs(float(s)) >= 1:
        e += 1
        s = "%.*f" % (d, m / 10)
    return "%sE%+0*d" % (s, w + 1, e)


def sp(rng, lo=1, hi=9):
    return " " * int(rng.integers(lo, hi))


class Frame:
    """One structure with everything PWmat writes about it; numbers are exactly what the text says."""


def frame(rng, lat, z, frac, style, props):
    """style: dict shared by the frames of a file; props: which optional blocks are present."""
    f = Frame()
    n = len(z)
    out = []
    it = int(rng.integers(0, 5000))
    f.energy = [float(fort(v)) for v in rng.normal(size=3) * [3e4, 3e4, 50]]
    es = [fort(v) for v in f.energy]
    h = style["header"]
    if h == "md":
        out.append("  %d atoms,Iteration (fs) =    %s, Etot,Ep,Ek (eV) =   %s  %s   %s, SCF =    %d" % (n, fort(it * 0.5), es[0], es[1], es[2], it % 30))
    elif h == "old":
        out.append(" %d atoms,Iteration=    %s, Etot,Ep,Ek=   %s  %s   %s" % (n, fort(it * 0.5), es[0], es[1], es[2]))
    elif h == "relax":
        out.append("     %d atoms,Iteration =  %d, Etot,Ep,Ek =  %s  %s   %s, Average Force=  0.61164E-02, Max force=  0.18141E-01" % (n, it, es[0], es[1], es[2]))
    else:
        out.append("  %d atoms" % n)
    out.append(style["lattice"])
    f.lat = np.zeros((3, 3))
    f.virial = np.zeros((3, 3))
    for i in range(3):
        row = [num(rng, lat[i, k]) for k in range(3)]
        f.lat[i] = [float(v) for v in row]
        l = "   " + "    ".join(row)
        if props.get("virial"):
            v = [fort(x, 6) for x in rng.normal(size=3) * 10.0 ** rng.integers(-3, 3)]
            f.virial[i] = [float(x) for x in v]
            l += "     stress (eV):  " + "  ".join(v)
        out.append(l)
    out.append(style["position"])
    f.z = [int(a) for a in z]
    f.frac = np.zeros((n, 3))
    for i in range(n):
        c = ["%.15f" % v for v in frac[i]]
        f.frac[i] = [float(v) for v in c]
        out.append("  %2d%s%s%s%s%s%s" % (z[i], sp(rng), c[0], sp(rng), c[1], sp(rng), c[2]) + ("     1  1  1" if style["move"] else ""))
    blocks = []
    f.force = np.zeros((n, 3))
    if props.get("force"):
        b = [style["force"]]
        for i in range(n):
            c = ["%.15f" % v for v in rng.normal(size=3) * 0.5]
            f.force[i] = [float(v) for v in c]
            b.append("  %2d     %s     %s     %s" % (z[i], *c))
        blocks.append(b)
    if props.get("velocity"):
        b = [" Velocity (bohr/fs)"]
        for i in range(n):
            b.append("  %2d     %s" % (z[i], "     ".join("%.15f" % v for v in rng.normal(size=3) * 0.01)))
        blocks.append(b)
    f.eatom = np.zeros(n)
    if props.get("eatom"):
        b = [" Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06"]
        for i in range(n):
            v = [fort(x) for x in (rng.normal() * 600, rng.normal() * 20, rng.normal() * 4)]
            f.eatom[i] = float(v[0])
            b.append("  %2d   %s    %s    %s" % (z[i], *v))
        blocks.append(b)
    f.magmom = np.zeros(n)
    if props.get("magmom"):
        b = [style["magnetic"]]
        for i in range(n):
            v = "%.4f" % (rng.normal() * 3)
            f.magmom[i] = float(v)
            b.append("  %-3d %s" % (z[i], v))
        blocks.append(b)
    if style.get("shuffle"):
        rng.shuffle(blocks)
    for b in blocks:
        out += b
    f.text = "\n".join(out) + "\n"
    f.n = n
    return f


def style(rng, header=None):
    return {"header": header or str(rng.choice(["md", "old", "relax"])),
            "lattice": str(rng.choice([" Lattice vector (Angstrom)", "LATTICE", "Lattice vector", " Lattice vector (Angstrom), stress(eV/natom)", "lattice"])),
            "position": str(rng.choice([" Position (normalized), move_x, move_y, move_z", "POSITION", "Position"])),
            "force": str(rng.choice([" Force (-force, eV/Angstrom)", "Force (eV/Angstrom)", " FORCE"])),
            "magnetic": str(rng.choice(["Magnetic", "MAGNETIC", " magnetic"])),
            "move": bool(rng.random() < 0.8), "shuffle": bool(rng.random() < 0.2)}


DASH = " ---------------------------------------------------------"


def movement(rng, base, nframes, st=None, props=None, jitter=0.05, partial=False, cell_moves=True, first_extra=True, squeeze=0, permute=0):
    """Frames of one trajectory of base (gen.Sys) plus the text of the file."""
    st = st or style(rng)
    if "vector" not in st["lattice"].lower():
        st["lattice"] = " Lattice vector (Angstrom)"
    props = props if props is not None else {k: bool(rng.random() < 0.5) for k in ("virial", "eatom", "magmom", "force")}
    frames, text = [], ""
    permute = permute and rng.random() < permute            # frames that list the atoms in different orders
    tight = int(rng.integers(0, nframes)) if squeeze and rng.random() < squeeze else -1    # the one frame with the most neighbours
    for i in range(nframes):
        p = dict(props)
        p["velocity"] = bool(rng.random() < 0.5) if first_extra else False
        lat = base.lat + (rng.normal(size=(3, 3)) * 0.02 if cell_moves else 0)
        if i == tight:
            lat = lat * rng.uniform(0.8, 0.93)
        fr = base.frac + rng.normal(size=base.frac.shape) * jitter / np.linalg.norm(base.lat, axis=1)
        z = base.z
        if permute and rng.random() < 0.6:
            o = rng.permutation(len(z))
            z, fr = [int(z[j]) for j in o], fr[o]
        f = frame(rng, lat, z, fr, st, p)
        f.text += DASH + "\n"
        text += f.text
        frames.append(f)
    if partial:
        q = frame(rng, base.lat, base.z, base.frac, st, props).text
        text += q[:int(rng.integers(1, len(q)))]
    return frames, text, props, st
