"""P08: a written subset is a faithful, self-consistent dataset."""

from sim import masksim as M
from sim import oracle as O
from sim import subset as S
from sim import world as W
from sim.maskprop import MaskProp


class P08(MaskProp):
    id = "P08"
    quick_runs, quick_wall = 700, 34
    weights = {"spatial": 5, "property": 3, "index": 2, "convert": 1}
    kinds = [("snapshot", 7), ("soap", 3)]
    max_ops = 4
    rule = ("One run = one generated file and a chain of up to three subset writes, each from a mask history on the previous file; every dataset, attribute, "
            "link, header count and cell table of each output is compared with the selected rows. Distinct = (kind, layout, cell order, chain depth, "
            "history, emptiness) tuples.")
    real = ["swiftsimio.subset_writer, masks, reader", "h5py, HDF5"]

    def world(self, rng, kind):
        p = W.rand_params(rng, kind, small=rng.random() < 0.5)
        p["nested_links"] = kind == "snapshot" and not p.get("virtual") and rng.random() < 0.2
        return p

    def gen(self, rng, tier):
        c = super().gen(rng, tier)
        chain = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            ks, ws = zip(*self.weights.items())
            n = rng.choice([0, 1, 1, 2, 3])
            chain.append([self.rand_op(rng, rng.choices(ks, ws)[0], c["world"]["kind"]) for _ in range(n)])
        c["ops"] = [{"op": "link", "ops": x} for x in chain]
        return c

    def shrink(self, case):
        import json
        for i, op in enumerate(case["ops"]):
            for j in range(len(op["ops"])):
                c = json.loads(json.dumps(case))
                del c["ops"][i]["ops"][j]
                yield c

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        pad = case["padding"]
        for i, link in enumerate(case["ops"]):
            handle = h5py.File(path, "r") if case["mode"] == "handle" else None
            m = sw.mask(handle if handle is not None else path, safe_padding=pad)
            model = M.Model(ctx, w, path, 0.1 if pad is True else float(pad))
            for op in link["ops"]:
                out = M.apply(ctx, model, m, op)
                ctx.state(i, op["op"], out)
            out = ctx.path(f"sub{i}.hdf5")
            if model.constrained is None:
                ok = False
                try:
                    sw.subset_writer.write_subset(out, m)
                except ValueError:
                    ok = True
                ctx.check(ok, "unconstrained", "an unconstrained mask was written without allow_unconstrained")
            sw.subset_writer.write_subset(out, m, allow_unconstrained=model.constrained is None)
            nsel = {k: int(v.sum()) for k, v in sorted(model.sel.items())}
            ctx.ev("write", nsel)
            ctx.state(w.p["kind"], w.p["layout"], w.p["order"], w.p.get("minmax"), i, model.constrained, tuple(v == 0 for v in nsel.values()))
            v = S.check_subset(ctx, out, w, model, path, f"subset {i}")
            # the mask is still good for reading the source
            M.judge_rows(ctx, model, M.load_masked(ctx, model, m, handle), "source after the write")
            if handle is not None:
                handle.close()
            path, w = out, v
            ctx.probe("subsets_written")


PROP = P08()
