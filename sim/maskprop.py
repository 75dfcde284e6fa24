"""One simulated run of a mask history; P03-P07 are weightings and emphases of it."""

import numpy as np

from . import masksim as M
from . import oracle as O
from . import world as W
from .core import drop
from .runner import Prop


class MaskProp(Prop):
    kinds = [("snapshot", 8), ("soap", 3)]
    weights = {}
    faults_on = {"spatial": 0.0, "property": 0.0, "index": 0.0, "indices": 0.0, "read": 0.0}
    memory = 0.1             # share of operations that are refused memory
    max_ops = 8
    deep_fields = 4          # fields compared per group in each 'read'
    real = ["swiftsimio.mask / masks / reader / accelerated", "h5py, HDF5"]
    stubs = ["libc file calls below the mount point"]
    assumptions = ["the cell tables of the generated file are truthful"]

    def warmup(self):
        from .runner import warm_numba
        warm_numba(("f4", "f8", "i8", "u8", "i4", "i1", "u4"))

    def world(self, rng, kind):
        return W.rand_params(rng, kind)

    def gen(self, rng, tier):
        ks, ws = zip(*self.kinds)
        kind = rng.choices(ks, ws)[0]
        p = self.world(rng, kind)
        ops = []
        names, wts = zip(*self.weights.items())
        for _ in range(rng.randrange(1, self.max_ops + (4 if tier == "thorough" else 0))):
            k = rng.choices(names, wts)[0]
            ops.append(self.rand_op(rng, k, kind))
        for op in ops:
            if rng.random() < self.faults_on.get(op["op"], 0.0):
                op["faults"] = [O.rand_read_fault(rng, 40, benign_only=bool(p.get("virtual"))) for _ in range(rng.choice([1, 1, 2]))]
            elif op["op"] == "read" and rng.random() < 0.5 * self.memory:
                op["faults"] = [O.rand_interrupt(rng)]
            elif op["op"] != "read" and rng.random() < self.memory:
                op["faults"] = [O.rand_alloc_fault(rng)]
        pad = rng.choice([0.1, 0.1, True, 0.5, 1.0, 0.3])
        if not p.get("drift"):
            pad = rng.choice([0.1, True, False, 0.0, 0.5])
        elif not p.get("minmax"):
            pad = rng.choice([x for x in (0.1, 0.3, 0.5, 1.0) if x >= p["drift"]])
        return {"world": p, "padding": pad, "mode": rng.choice(["path", "path", "path", "handle", "direct"]), "ops": ops,
                "reads": rng.randrange(1000)}

    def rand_op(self, rng, k, kind):
        if k == "spatial":
            return M.rand_spatial(rng)
        if k == "property":
            return M.rand_property(rng)
        if k == "index":
            return M.rand_index(rng)
        if k == "convert":
            return M.rand_convert(rng)
        if k == "bad":
            return M.rand_bad(rng)
        if k == "read":
            return {"op": "read", "pick": rng.randrange(1000), "same": rng.random() < 0.3}
        if k == "write":
            return {"op": "write"}
        return {"op": k}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        pad = case["padding"]
        model = M.Model(ctx, w, path, 0.1 if pad is True else float(pad))
        handle = None
        if case["mode"] == "handle":
            handle = h5py.File(path, "r")
            m = sw.mask(handle, safe_padding=pad)
        elif case["mode"] == "direct":
            from pathlib import Path
            from swiftsimio.metadata.objects import SWIFTUnits, _metadata_discriminator
            from swiftsimio.masks import SWIFTMask
            md = _metadata_discriminator(Path(path), SWIFTUnits(Path(path)))
            m = SWIFTMask(Path(path), metadata=md, safe_padding=pad)
        else:
            m = sw.mask(path, safe_padding=pad)
        self.source = handle if handle is not None else path
        kept = []        # datasets loaded earlier, which later constraints of the mask must not affect
        self.last = None
        self.accepted = []       # the constraints that took effect
        for i, op in enumerate(case["ops"]):
            k = op["op"]
            if k == "observe":
                if op.get("faults"):
                    self.faulted(ctx, "load", op["faults"], lambda: sw.load(self.source, mask=m))
                self.observe(ctx, model, m)
            elif k == "read":
                self.read(ctx, model, m, op)
            elif k == "write":
                if w.p.get("virtual"):
                    continue
                # what is written is judged by P08, P09; here only the mask's state matters
                self.faulted(ctx, "write", op.get("faults", []),
                             lambda: sw.subset_writer.write_subset(ctx.path(f"sub{i}.hdf5"), m, allow_unconstrained=True), judge=False)
            else:
                if self.last is not None and len(kept) < 3:
                    kept.append((i, *self.last))
                    self.last = None
                out = M.apply(ctx, model, m, op)
                if out == "ok":
                    self.accepted.append(op)
                ctx.state(w.p["kind"], w.p["layout"], w.p["order"], k, op.get("how"), out, bool(op.get("faults")), model.constrained, getattr(m, "range_mask", None))
                M.judge_sizes(ctx, model, m)
        for i, d, rows in kept:
            for g in sorted(w.groups):
                names = sorted(w.group_fields(g))
                for j in range(3):
                    self.read_one(ctx, model, d, rows, g, names[(case["reads"] + 7 * i + 5 * j) % len(names)], [], case["reads"] + j, drop_=False)
            ctx.probe("earlier_dataset_read_later")
        self.finish(ctx, model, m, case)
        if handle is not None:
            ctx.check(bool(handle), "handle-closed", "the caller's handle was closed")
            handle.close()

    def faulted(self, ctx, what, faults, call, judge=True):
        """An operation whose result is of no interest, only what it leaves behind."""
        ctx.arm(faults)
        err = None
        try:
            call()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = ctx.disarm()
        ctx.ev(what, type(err).__name__ if err else "ok")
        if err is not None:
            if judge and not fired:
                raise err
            drop(err)

    def observe(self, ctx, model, m):
        d = M.load_masked(ctx, model, m, self.source)
        rows = M.judge_rows(ctx, model, d)
        self.last = (d, rows)
        ctx.ev("observe", {k: len(v) for k, v in sorted(rows.items())})
        return d, rows

    def read(self, ctx, model, m, op):
        """Masked field reads, some interrupted by faults."""
        w = model.w
        d, rows = self.observe(ctx, model, m)
        names = [(g, n) for g in sorted(w.groups) for n in sorted(w.group_fields(g))]
        for j in range(self.deep_fields):
            g, n = names[(op["pick"] * (1 if op["same"] else 7) + j * (0 if op["same"] else 13)) % len(names)]
            self.read_one(ctx, model, d, rows, g, n, op.get("faults", []), op["pick"] + j)

    def read_one(self, ctx, model, d, rows, g, n, faults, pick, drop_=True):
        w = model.w
        f = w.fields[f"{w.groups[g][0]}/{n}"]
        obj, attr, col = getattr(d, g), W.snake(n), None
        if n in w.named:
            cols = O.public_columns(w, n)
            col = pick % len(cols)
            obj, attr = getattr(obj, attr), cols[col]
        if drop_:                 # drop what is cached so that the file is read (with the faults armed)
            try:
                delattr(obj, attr)
            except AttributeError:
                pass
        ctx.arm(faults)
        v = err = None
        try:
            v = getattr(obj, attr)
        except (Exception, KeyboardInterrupt) as e:
            err = e
        fired = ctx.disarm()
        ctx.ev("field", g, n, type(err).__name__ if err else "ok", bool(fired))
        if err is not None:
            if O.benign(fired):
                raise err
            ctx.probe("masked_read_raised_on_fault")
            drop(err)
            v = getattr(obj, attr)
        elif fired:
            ctx.probe("masked_read_ok_despite_fault")
        if v is None and fired:
            ctx.fail("none-after-io-error", f"masked {g}.{n} returned None after an I/O error")
        O.check_field(ctx, v, w, f, f"masked {g}.{attr}", rows=rows[g], col=col)
        ctx.state("read", w.p["layout"], w.p.get("virtual"), f.data.dtype.str, f.data.ndim, len(rows[g]) == 0, bool(fired))

    def finish(self, ctx, model, m, case):
        d, rows = self.observe(ctx, model, m)
        O.check_dataset(ctx, d, model.w, rows=rows, what="masked data")
