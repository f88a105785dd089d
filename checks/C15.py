import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C15", rule="random histories of AlignedArray objects, 3/4/5-dimensional array shapes (also empty), vectors over six decades through every operator; "
          "distinct by history, shape or operands",
          need=dict({"aligned_" + t: 50 for t in ("double", "float", "int", "char")}, arrays_blocks=500, vec_ops=5000, leak_probes=500, aligned_states=1000,
                    **{"outer_rank_%d" % i: 20 for i in range(1, 7)}))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("core", [d + "core.cc"])
    c.run_cpp("core", exe, 60000 if c.thorough else 2500)


c.main(body)
