import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

W = ["at-rs","just-below-rs","just-above-rs","at-rc","just-below-rc","just-above-rc","below-rs","beyond-rc","middle","near-rs","near-rc","inside"]
c = Check("C06", rule="(rcut, inner radius) pairs incl. narrow and wide ranges, distances on, next to and around both radii, float and double; "
          "distinct by (type, ratio, position class, reduced distance)", need=dict({"at_" + w: 20 for w in W}, values=10000, mtpr=500))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    c.run_cpp("switch", c.compile("switch", [d + "radial.cc"]), 400000 if c.thorough else 60000)


c.main(body)
