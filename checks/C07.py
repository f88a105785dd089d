import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C07", rule="random crystals through the object interface (sorted / unsorted, periodicity masks, species orders and subsets, padding) and "
          "arbitrary neighbour tables through the static interfaces (permuted centres, atoms beyond the cutoff, coincident atoms); distinct by configuration",
          assumptions=["neighbour slots per species are in the order of the neighbour list", "padding widths below the true maximum are outside the contract"],
          need=dict({"table_%s:value" % t: 50 for t in ("TildeR", "PairTildeR", "TildeR-static", "TildeR-filling", "PairTildeR-static", "Se4pw", "EnvMatrix")},
                    slots_filled=5000, slots_padding=500, leak_probes=50))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("descriptor", [d + "descriptor.cc"])
    c.run_cpp("descriptor", exe, 40000 if c.thorough else 1800)


c.main(body)
