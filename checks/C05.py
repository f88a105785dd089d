import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

T = ["Structure", "Supercell", "BinLinkedList", "NeighborList", "PairTildeR", "TildeR", "ChebyshevPoly", "MtpQ", "RB_Chebyshev",
     "RQ_Chebyshev", "MtpMCoeffPair", "MtpMCoeffPairCombs", "MtpParam", "RadialBasisChebyshev"]
c = Check("C05", rule="random histories (6-22 steps over 4 objects) of construct / copy / assign / self-assign / move / mutate / "
          "destroy per owning type; distinct by the full history",
          need=dict({"type_" + t: 10 for t in T}, copies=100, assignments=100, self_assignments=100, moves=50, leak_probes=100))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("values", [d + "values.cc", SRC + "/descriptor/mtp/src/mtpLevel.cc", SRC + "/descriptor/mtpr/src/mtpParam.cc"])
    c.run_cpp("values", exe, 40000 if c.thorough else 1900)


c.main(body)
