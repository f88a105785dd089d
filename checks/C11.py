import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C11", rule="random neighbour displacements (coincident, below, inside, beyond the radii, empty) in several memory layouts, float32 and float64, basis sizes 1-11, tensor ranks 0-4; distinct by shape, radii and layout",
          assumptions=["distances within 1e-4 of the inner radius or 1e-5 of the cutoff are not judged (the MTP switch jumps at the inner radius)"],
          need=dict({"angular_rank_%d" % k: 20 for k in range(5)}, radial_calls=200, uniform_gradients=30, non_contiguous=50, coincident=20, below=20, beyond=20, inside=100))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("op_mtp", [d + "op_mtp.cc", SRC + "/descriptor/mtp/src/mtpMRadialOp.cc", SRC + "/descriptor/mtp/src/mtpMAngularOp.cc"], torch=True)
    c.run_cpp("op_mtp", exe, 20000 if c.thorough else 900)


c.main(body)
