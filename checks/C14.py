import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

K = ["truncated", "missing-line", "renamed-key", "non-numeric-count", "non-numeric-entry", "count-too-large", "negative-count", "swapped-lines", "no-file"]
c = Check("C14", rule="the shipped templates, then random templates (1-300 rows) loaded intact, over a filled object, copied and moved, and in one malformed variant each; "
          "distinct by table sizes and kind of damage",
          assumptions=["template lines follow the 'key = value' layout of the shipped templates", "a count below the number of rows is not treated as malformed"],
          need=dict({"malformed_" + k: 10 for k in K}, shipped=12, intact=500, reloads=50, copies=50, damaged_refused=10, leak_probes=300))


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("mtp_param", [d + "mtp_param.cc", SRC + "/descriptor/mtpr/src/mtpParam.cc"])
    c.run_cpp("mtp_param", exe, 30000 if c.thorough else 2000, env={"VP_TEMPLATES": SRC + "/descriptor/mtpr/MTP_templates"})


c.main(body)
