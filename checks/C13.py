import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C13", rule="every level up to 24 (quick) or 28 (thorough) for the basis and up to 20 (24) for the full scheme lists, then random lists of "
          "coefficient pair combinations for the contraction rule; distinct by level or by list",
          assumptions=["the scheme lists of a single level may repeat a combination (the repository's tests pin the repeated count); the basis may not"],
          need={"sets_compared": 40, "basis_entries": 2000, "scheme_levels": 20, "contracting": 500, "not_contracting": 500})


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("mtp_level", [d + "mtp_level.cc", SRC + "/descriptor/mtp/src/mtpLevel.cc"])
    c.run_cpp("mtp_level", exe, 60000 if c.thorough else 3000)


c.main(body)
