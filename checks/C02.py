import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C02", rule="random structure x cutoff x periodicity x precision x table width, sorted and unsorted; distinct by "
          "(cell family, periodicity mask, atom count, largest coordination)",
          need={"pairs": 5000, "sorted_lists": 200, "pad_slots": 500, "exact_width_tables": 50, "species_maxima": 200})


def body(c):
    exe = c.compile("nb_mlff", [os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/nb_mlff.cc")])
    c.run_cpp("nb_mlff", exe, 40000 if c.thorough else 2500)


c.main(body)
