import os, sys, sysconfig
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check, SRC

c = Check("C09", rule="random batches (1-4 structures) of neighbour tables in contiguous, strided, transposed and offset tensors, float32 and float64; distinct by shape, radii and layouts",
          assumptions=["index tensors are int32, as the operators require", "the structures of a batch have the same total number of slots (Se4pwOp: the same widths)"],
          need={"tables_EnvMatrixOp": 100, "tables_Se4pwOp": 100, "batch_slices": 50, "registered_calls": 100, "non_contiguous": 100, "own_slots": 100, "slots_filled": 2000, "slots_padding": 500})


def body(c):
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../cpp/")
    exe = c.compile("op_dp", [d + "op_dp.cc", SRC + "/descriptor/deepmd/src/envMatrixOp.cc", SRC + "/descriptor/deepmd/bind/envMatrixOp_bind.cc", SRC + "/descriptor/deepmd/src/se4pw_op.cc"], torch=True, extra=["-I" + sysconfig.get_paths()["include"]],
                    libs=["-ltorch_python", "-L" + (sysconfig.get_config_var("LIBDIR") or "/usr/lib"), "-lpython" + sysconfig.get_config_var("LDVERSION")])
    c.run_cpp("op_dp", exe, 20000 if c.thorough else 800)


c.main(body)
