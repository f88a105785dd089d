import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC, ENV, PY, VERIF, CXXFLAGS, SANFLAGS, Inconclusive

c = Check("C03", rule="random structures x cutoff x periodicity x table width x cartesian/fractional x memory layout and integer type of each array, through the extension module built with sanitizers; calls whose arguments do not fit together (coordinates, lattice, flags, table width); "
          "distinct by (cell family, periodicity, atom count, width, layouts, flags)",
          assumptions=[],
          need={"pairs": 3000, "pad_slots": 500, "sorted_lists": 200, "leak_probes": 10, "independence": 20, "layout_fortran": 30, "layout_strided": 30, "layout_sliced": 30, "layout_reversed": 30, "refused_few_coordinates": 20, "refused_narrow_table": 20, "refused_small_lattice": 20, "refused_unreadable": 100, "refused_balance": 300, "outside": 30, "other_flags": 300})


def body(c):
    d = c.tmp()
    ext = d + "/ext"
    os.makedirs(ext)
    b = SRC + "/nblist/bind/"
    p = subprocess.run(["swig", "-c++", "-python", "-o", ext + "/nblist_wrap.cxx", "-outdir", ext, b + "nblist.i"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Inconclusive("swig: " + p.stdout.decode()[-2000:])
    inc = subprocess.run([PY, "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include())"], env=ENV, stdout=subprocess.PIPE).stdout.decode().split()
    c.compile("ext/_nblist.so", [b + "nblist_bind.cc", ext + "/nblist_wrap.cxx"], shared=True,
              extra=["-I" + b, "-I" + SRC + "/nblist/include", "-fno-sanitize=null,alignment"] + ["-I" + i for i in inc])
    pre = [subprocess.run(["g++", "-print-file-name=" + l], stdout=subprocess.PIPE).stdout.decode().strip() for l in ("libasan.so", "libstdc++.so")]
    w = d + "/worker"
    with open(w, "w") as f:
        f.write("#!/bin/sh\nLD_PRELOAD='%s' PYTHONMALLOC=malloc exec %s %s/py/nb_bind.py --ext %s \"$@\"\n" % (" ".join(pre), PY, VERIF, ext))
    os.chmod(w, 0o755)
    c.run_cpp("nb_bind", w, 12000 if c.thorough else 700)


c.main(body)
