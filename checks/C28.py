import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vplib import Check

c = Check("C28", rule="random checkpoints (any numbers of networks and layers, different depths of the embedding and fitting networks, any widths, with and without residual blocks, float32 and float64, extra entries) saved with torch, extracted to fresh and existing HDF5 files and read back; "
          "distinct by (networks, layers, widths, residual blocks)",
          need={"checkpoints": 100, "deeper_embedding": 30, "deeper_fitting": 30, "residual": 40, "partly_residual": 30, "arrays": 1000, "replaced": 40, "extras": 30, "subset": 20, "many_networks": 20})


def work(mon):
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    import h5py
    import torch
    torch.set_num_threads(1)
    from matersdk.infer.pwmatmlff.deepmd.extractor import FFExtractor

    def one(rng, k):
        ne, nf = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        le, lf = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if rng.random() < 0.15:                 # several elements: one network per pair
            ne, nf = int(rng.integers(9, 26)), int(rng.integers(3, 13))
            mon.hit("many_networks")
        if rng.random() < 0.05:
            le, lf = int(rng.integers(1, 13)), int(rng.integers(1, 13))
        dt = [torch.float32, torch.float64][int(rng.integers(0, 2))]
        es = [int(v) for v in rng.integers(1, 9, size=le)]
        if rng.random() < 0.05:
            es = [int(v) for v in rng.integers(20, 130, size=le)]
        M2 = int(rng.integers(1, 5 if rng.random() < 0.9 else 20))
        fs = [int(v) for v in rng.integers(1, 9, size=lf - 1)] + [1]
        res = str(rng.choice(["none", "all", "some"]))
        sd, want = {}, {}

        def put(key, shape, keep=True):
            sd[key] = torch.tensor(rng.normal(size=shape), dtype=dt)
            if keep:
                want[key] = sd[key].numpy().copy()
        useall = rng.random() < 0.8
        ke, kf = (ne, nf) if useall else (int(rng.integers(1, ne + 1)), int(rng.integers(1, nf + 1)))
        for i in range(ne):
            w = [1] + es
            for l in range(le):
                put("embedding_net.%d.weights.weight%d" % (i, l), (w[l], w[l + 1]), i < ke)
                put("embedding_net.%d.bias.bias%d" % (i, l), (1, w[l + 1]), i < ke)
                if res == "all" or res == "some" and rng.random() < 0.5:
                    put("embedding_net.%d.resnet_dt.resnet_dt%d" % (i, l), (1, w[l + 1]), i < ke)
        for i in range(nf):
            w = [es[-1] * M2] + fs
            for l in range(lf):
                put("fitting_net.%d.weights.weight%d" % (i, l), (w[l], w[l + 1]), i < kf)
                put("fitting_net.%d.bias.bias%d" % (i, l), (1, w[l + 1]), i < kf)
                if res == "all" or res == "some" and rng.random() < 0.5:
                    put("fitting_net.%d.resnet_dt.resnet_dt%d" % (i, l), (1, w[l + 1]), i < kf)
        ck = {"state_dict": sd}
        if rng.random() < 0.5:
            ck.update(epoch=int(rng.integers(0, 100)), optimizer={"state": {}, "param_groups": [{"lr": 0.1}]}, loss=float(rng.random()))
            mon.hit("extras")
        keys = list(sd)
        if rng.random() < 0.5:
            ck["state_dict"] = {str(q): sd[str(q)] for q in rng.permutation(keys)}
        pt, h5 = os.path.join(mon.scratch, "best.pt"), os.path.join(mon.scratch, "ff.h5")
        torch.save(ck, pt)
        if rng.random() < 0.5:
            if not os.path.exists(h5):
                open(h5, "w").write("not hdf5")
            mon.hit("replaced")
        elif os.path.exists(h5):
            os.remove(h5)
        what = "%d embedding nets of %s, %d fitting nets of %s, M2 %d, residual blocks %s, asked for %d and %d" % (ne, es, nf, fs, M2, res, ke, kf)
        mon.sample(what)
        raw = open(pt, "rb").read()
        x = FFExtractor(pt_path=pt, num_embedding_nets=ke, num_embedding_layers=le, num_fitting_nets=kf, num_fitting_layers=lf)
        x.save_hdf5_file(hdf5_path=h5)
        mon.check(open(pt, "rb").read() == raw, "checkpoint-modified", what)
        g = FFExtractor.get_hdf5_dict(hdf5_path=h5)
        with h5py.File(h5, "r") as f:
            direct = {q: f[q][()] for q in f}
        mon.check(set(g) == set(direct) and all(np.array_equal(g[q], direct[q]) for q in g), "reader", lambda: "%s: %s" % (sorted(g), what))
        want2 = dict(want, M1=es[-1], M2=M2, embedding_sizes=np.array(es), fitting_sizes=np.array(fs))
        mon.check(set(direct) == set(want2), "entries", lambda: "missing %s, extra %s: %s" % (sorted(set(want2) - set(direct)), sorted(set(direct) - set(want2)), what))
        for q, v in want2.items():
            if q in direct:
                v = np.asarray(v)
                d = np.asarray(direct[q])
                mon.check(d.shape == v.shape and np.array_equal(d, v) and (v.dtype.kind != "f" or d.dtype == v.dtype), "value:" + q.split(".")[0], lambda: "%s is %s, expected %s: %s" % (q, d.tolist(), v.tolist(), what))
        mon.hit("arrays", len(want2)); mon.hit("checkpoints"); mon.hit("deeper_embedding", le > lf); mon.hit("deeper_fitting", lf > le)
        mon.hit("residual", res == "all"); mon.hit("partly_residual", res == "some"); mon.hit("subset", (ke, kf) != (ne, nf))
        with h5py.File(h5, "a"):
            pass                                # the file was closed
        mon.sig(ne, nf, tuple(es), tuple(fs), M2, res)

    mon.run("checkpoint", 5000 if mon.thorough else 400, one)


c.main(lambda k: k.run_py("extract", work))
