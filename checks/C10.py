import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

W = ["at-rs","just-below-rs","just-above-rs","at-rc","just-below-rc","just-above-rc","below-rs","beyond-rc","middle","near-rs","near-rc","inside"]
c = Check("C10", rule="basis sizes 1-13, sequences of distances on, next to and around both radii evaluated on one reused object, float and double; "
          "distinct by (type, size, ratio, sequence of position classes)",
          need=dict({"at_" + w: 20 for w in W}, values=10000, mtpr_builds=500, mtp_de_builds=100, inside=100, outside=100))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    c.run_cpp("bases", c.compile("bases", [d + "radial.cc"], extra=["-DBASES"]), 300000 if c.thorough else 40000)


c.main(body)
