import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C12", rule="random species, radii, coefficients and neighbourhoods (padded slots, atoms outside the range) through moments of rank 0-4 and basis sets up to level 9 (quick) or 12 (thorough), "
          "rotated, reflected and reordered; distinct by configuration",
          assumptions=["the inner radius is not crossed by the rotation (distances within 1e-9 of a radius are skipped)"],
          need=dict({"moment_rank_%d" % k: 5 for k in range(5)}, basis_values=300, gradients=500, coefficient_gradients=300, rotations=10, reflections=10, types_shared=10, types_per_structure=10, batches=20, basis_coefficient_gradients_nonzero=20))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    m = SRC + "/descriptor/mtp/src/"
    exe = c.compile("op_basis", [d + "op_basis.cc"] + [m + f for f in ("mtpMModule.cc", "mtpBModule.cc", "mtpLevel.cc", "mtpMRadialOp.cc", "mtpMAngularOp.cc")], torch=True)
    c.run_cpp("op_basis", exe, 3000 if c.thorough else 240)


c.main(body)
