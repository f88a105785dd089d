import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C04", rule="random cell x atoms x scaling factors 1..5 per axis x precision; distinct by (cell family, scaling, atom "
          "count, constructor form)",
          need={"copies": 10000, "geometries": 500, "odd_supercells": 30, "even_supercells": 100, "binned_atoms": 1000})


def body(c):
    exe = c.compile("nb_struct", [os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/nb_struct.cc")])
    c.run_cpp("nb_struct", exe, 30000 if c.thorough else 2500)


c.main(body)
