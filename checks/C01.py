import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C01", rule="random structure x cutoff x periodicity x precision x bin size; distinct by (precision, cell family, "
          "periodicity mask, image shells, atom count, coordinate kind)",
          need={"pairs": 5000, "default_bin_lists": 50, "custom_bin_lists": 20, "boundary_lists": 5, "self_image_pairs": 20, "tiny_bin_lists": 5, "thin_cells": 50, "shell_edges": 50, "structures_with_atoms_outside": 50})


def body(c):
    exe = c.compile("nb_list", [os.path.join(os.path.dirname(__file__), "../cpp/nb_list.cc")])
    n = 60000 if c.thorough else 4000
    hs = [c.start_cpp("nb_list", exe, n)]
    for h in hs:
        c.wait_cpp(h)


c.main(body)
