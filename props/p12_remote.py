"""P12: remote datasets read exactly like local ones under network faults."""

from sim import masksim as M
from sim import net as N
from sim import oracle as O
from sim import world as W
from sim.core import drop
from sim.maskprop import MaskProp

LIMITS = [0, 100, 2000, 1 << 20]
DEPTHS = [0, 1, 2, 5]


class P12(MaskProp):
    id = "P12"
    quick_runs, quick_wall = 900, 30
    kinds = [("snapshot", 8), ("soap", 3), ("fof", 1), ("los", 2)]
    weights = {"spatial": 4, "property": 2, "index": 1, "read": 4, "convert": 1, "observe": 1, "field": 4, "write": 1, "reload": 1, "ranges": 3, "foreign": 0.7}
    max_ops = 6
    rule = ("One run = one generated file published by a simulated hdfstream server; opened, loaded, masked and read by the real client in a history in which any request may be refused, lost, "
            "delayed, answered with an error, cut short or split; results are compared with the model of the file, and every failed step is repeated without faults. "
            "Distinct = (step, outcome, fault kinds, layout, limits) tuples.")
    real = ["swiftsimio reader, masks, accelerated, _ordered_slices, subset_writer", "hdfstream client", "requests/urllib3 response handling", "HDF5 (server's copy of the file)"]
    stubs = ["hdfstream server", "HTTPAdapter.send (connections)", "time"]
    assumptions = ["the simulated server follows the protocol the installed hdfstream client implements", "the transport does not corrupt bytes without being noticed"]

    def warmup(self):
        super().warmup()
        import hdfstream  # noqa: F401

    def gen(self, rng, tier):
        ks, ws = zip(*self.kinds)
        kind = rng.choices(ks, ws)[0]
        p = W.rand_params(rng, kind)
        names, wts = zip(*[(k, v) for k, v in self.weights.items() if kind in ("snapshot", "soap") or k in ("read", "field", "reload", "ranges")])
        ops = []
        for _ in range(rng.randrange(1, self.max_ops + (4 if tier == "thorough" else 0))):
            k = rng.choices(names, wts)[0]
            ops.append({"op": k, "pick": rng.randrange(1000), "cuts": [round(rng.random(), 3) for _ in range(rng.choice([0, 1, 2, 4, 9]))], "order": rng.randrange(1 << 20), "gaps": rng.choice([0.0, 0.3, 0.6])}
                       if k == "ranges" else {"op": k, "pick": rng.randrange(1000)} if k in ("field", "reload", "foreign") else self.rand_op(rng, k, kind))
        setup = {k: self.faults(rng) for k in ("open", "load", "mask") if rng.random() < 0.3}
        for op in ops:
            if rng.random() < 0.4:
                op["net"] = self.faults(rng)
        pad = 0.1
        if p.get("drift") and not p.get("minmax"):
            pad = max(0.1, p["drift"])
        return {"world": p, "padding": pad, "limit": rng.choice(LIMITS), "depth": rng.choice(DEPTHS), "via": rng.choice(["file", "file", "directory"]),
                "vpath": rng.choice(["snap.hdf5", "a/b/snap 1.hdf5"]), "two_handles": rng.random() < 0.25, "setup": setup, "ops": ops, "reads": rng.randrange(1000)}

    @staticmethod
    def faults(rng):
        return [N.rand_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]

    def shrink(self, case):
        for k in case["setup"]:
            yield dict(case, setup={a: b for a, b in case["setup"].items() if a != k})
        for i, op in enumerate(case["ops"]):
            if op.get("net"):
                ops = [dict(o) for o in case["ops"]]
                del ops[i]["net"]
                yield dict(case, ops=ops)
        for k, v in (("two_handles", False), ("via", "file"), ("vpath", "snap.hdf5"), ("limit", 1 << 20), ("depth", 5)):
            if case[k] != v:
                yield dict(case, **{k: v})

    # -- one step under faults, repeated until it works ------------------------
    def step(self, label, faults, f):
        ctx = self.ctx
        self.net.arm(faults)
        err = None
        try:
            v = f()
        except Exception as e:
            err = e
        fired = self.net.disarm()
        kinds = sorted({x["kind"] for x in fired})
        ctx.ev("step", label, type(err).__name__ if err else "ok", kinds)
        ctx.state(label, type(err).__name__ if err else "ok", tuple(kinds), self.case["limit"], self.case["depth"], self.kind)
        if err is None:
            if fired and not N.benign(fired):
                ctx.probe("ok_despite_fault")
            return v
        if N.benign(fired):
            raise err
        ctx.probe("raised_on_fault")
        drop(err)
        return f()          # the network works again: now it must succeed

    def open(self):
        import hdfstream
        c = self.case
        kw = dict(max_depth=c["depth"], data_size_limit=c["limit"])
        if c["via"] == "directory":
            return hdfstream.open(N.BASE, "/", **kw)[c["vpath"]]
        return hdfstream.open(N.BASE, c["vpath"], **kw)

    def run(self, case, ctx):
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        self.ctx, self.case, self.w, self.kind = ctx, case, w, case["world"]["kind"]
        server = N.Server()
        server.publish(case["vpath"], path)
        self.net = N.Net(ctx, server)
        N.install(self.net)
        setup = case["setup"]
        handle = self.step("open", setup.get("open", []), self.open)
        self.source = handle
        data = self.step("load", setup.get("load", []), lambda: sw.load(handle))
        O.check_metadata(ctx, data.metadata, w, "remote metadata")
        m = model = None
        if self.kind in ("snapshot", "soap"):
            mh = self.step("open", [], self.open) if case["two_handles"] else handle
            m = self.step("mask", setup.get("mask", []), lambda: sw.mask(mh, safe_padding=case["padding"]))
            O.check_metadata(ctx, m.metadata, w, "remote mask metadata")
            model = M.Model(ctx, w, path, float(case["padding"]))
            model.source = handle
        for i, op in enumerate(case["ops"]):
            k, faults = op["op"], op.get("net", [])
            if k == "reload":
                data = self.step("reload", faults, lambda: sw.load(handle))
                O.check_metadata(ctx, data.metadata, w, "remote metadata after reload")
            elif k == "ranges":
                self.ranges(handle, op, faults)
            elif k == "field":
                self.remote_field(data, None, op["pick"], faults)
            elif k == "observe":
                self.observe(ctx, model, m)
            elif k == "read":
                if m is None:
                    self.remote_field(data, None, op["pick"], faults)
                    continue
                d = self.step("masked load", faults, lambda: M.load_masked(ctx, model, m, handle))
                rows = M.judge_rows(ctx, model, d, "remote masked data")
                for j in range(self.deep_fields):
                    self.remote_field(d, rows, op["pick"] * (1 if op["same"] else 7) + 13 * j, faults)
            elif k == "write":
                self.write(m, model, faults, i)
            elif k == "foreign":
                self.foreign(m, op["pick"], path, server)
            else:
                self.mask_op(m, model, op, faults)
        O.check_dataset(ctx, data, w, what="remote data")
        if m is not None:
            d = M.load_masked(ctx, model, m, handle)
            rows = M.judge_rows(ctx, model, d, "remote masked data")
            O.check_dataset(ctx, d, w, rows=rows, what="remote masked data")
        ctx.probe("requests", self.net.total)
        ctx.probe("simulated_seconds", int(self.net.clock))

    def foreign(self, m, pick, path, server):
        """The mask of one file is not for another, be it equal in all but where it is."""
        import os
        import hdfstream
        import swiftsimio as sw
        ctx, vpath = self.ctx, self.case["vpath"]
        kw = dict(max_depth=self.case["depth"], data_size_limit=self.case["limit"])
        how = ("path", "server", "local", "local_mask")[pick % 4]
        if how == "path":
            server.publish("b/" + vpath, path)
            src = hdfstream.open(N.BASE, "b/" + vpath, **kw)
        elif how == "server":
            src = hdfstream.open(N.BASE.replace("sim.", "other."), vpath, **kw)
        else:
            here = ctx.path("cwd", vpath)       # the same name, seen from the working directory
            if not os.path.exists(here):
                os.makedirs(os.path.dirname(here), exist_ok=True)
                os.link(path, here)
            src = vpath if how == "local" else self.source
        before = os.getcwd()
        os.makedirs(ctx.path("cwd"), exist_ok=True)
        os.chdir(ctx.path("cwd"))
        try:
            if how == "local_mask":
                m = sw.mask(vpath, safe_padding=self.case["padding"])
            err = None
            try:
                sw.load(src, mask=m)
            except Exception as e:
                err = e
        finally:
            os.chdir(before)
        ctx.ev("foreign", how, type(err).__name__ if err else "ok")
        ctx.state("foreign", how)
        ctx.check(err is not None, "foreign-mask", f"a mask was accepted with another file ({how})")
        drop(err)

    def remote_field(self, d, rows, pick, faults):
        w = self.w
        names = [(g, n) for g in sorted(w.groups) for n in sorted(w.group_fields(g))]
        if not names:
            return
        g, n = names[pick % len(names)]
        if not hasattr(d, g):
            return
        f = w.fields[f"{w.groups[g][0]}/{n}"]
        obj, attr, col = getattr(d, g), W.snake(n), None
        if n in w.named:
            cols = O.public_columns(w, n)
            col = pick % len(cols)
            obj, attr = getattr(obj, attr), cols[col]
        if pick % 3:
            try:
                delattr(obj, attr)
            except AttributeError:
                pass
        v = self.step("field", faults, lambda: getattr(obj, attr))
        O.check_field(self.ctx, v, w, f, f"remote {g}.{attr}", rows=None if rows is None else rows[g], col=col)

    def ranges(self, handle, op, faults):
        """Rows given as ranges in any order, adjacent or empty ones included, come back in that order."""
        import random

        import numpy as np
        from swiftsimio.accelerated import read_ranges_from_file
        names = sorted(self.w.fields)
        if not names:
            return
        name = names[op["pick"] % len(names)]
        exp = self.w.fields[name].native()
        n = exp.shape[0]
        r = random.Random(op["order"])
        edges = sorted({0, n, *(int(x * (n + 1)) for x in op["cuts"])})
        ranges = [[a, b] for a, b in zip(edges[:-1], edges[1:]) if b <= n and r.random() >= op["gaps"]]
        if r.random() < 0.3 and ranges:
            ranges.append([ranges[0][0], ranges[0][0]])
        if r.random() < 0.8:
            r.shuffle(ranges)
        rows = [i for a, b in ranges for i in range(a, b)]
        columns, shape = np.s_[:], (len(rows), *exp.shape[1:])
        want = exp[rows]
        if exp.ndim > 1 and r.random() < 0.4:
            columns = r.randrange(exp.shape[1])
            shape, want = len(rows), want[:, columns]
        ds = handle[name]
        got = self.step("ranges", faults, lambda: read_ranges_from_file(ds, np.array(ranges, dtype=int).reshape(-1, 2), output_shape=shape, output_type=ds.dtype, columns=columns))
        self.ctx.check(got.shape == want.shape and O.same_array(got, want), "ranges", lambda: f"{name}: rows {ranges} of the remote dataset differ from the file")

    def mask_op(self, m, model, op, faults):
        ctx = self.ctx
        p = M.plan(model, op)
        if p is None:
            return
        call, legal, update = p
        self.net.arm(faults)
        err = None
        try:
            call(m)
        except Exception as e:
            err = e
        fired = self.net.disarm()
        ctx.ev("mask", op["op"], type(err).__name__ if err else "ok", len(fired), legal)
        ctx.state("mask", op["op"], type(err).__name__ if err else "ok", tuple(sorted({f["kind"] for f in fired})))
        if err is not None and legal:
            if N.benign(fired):
                raise err
            drop(err)
            ctx.probe("constraint_failed_on_fault")
            M.judge_rows(ctx, model, M.load_masked(ctx, model, m), "remote mask after a failed constraint")
            if model.constrained in ("index", "indices"):
                return
            call(m)       # the network works again
        elif err is not None:
            drop(err)
            return
        else:
            ctx.check(legal, f"accepted:{op['op']}", f"{op['op']} was accepted after constraint {model.constrained!r}")
        update()
        if model.pending is not None:
            M.judge_rows(ctx, model, M.load_masked(ctx, model, m), "edge-on region")
        M.judge_sizes(ctx, model, m)

    def write(self, m, model, faults, i):
        """A subset written from the server's file holds the selected rows."""
        import swiftsimio as sw
        ctx, w = self.ctx, self.w
        out = ctx.path(f"sub{i}.hdf5")
        self.step("write_subset", faults, lambda: sw.subset_writer.write_subset(out, m, allow_unconstrained=True))
        rows = M.judge_rows(ctx, model, M.load_masked(ctx, model, m), "remote masked data")
        got = sw.load(out)
        for g in sorted(w.groups):
            if not hasattr(got, g):
                ctx.check(len(rows[g]) == 0, "subset-group", f"subset of the remote file lacks {g}")
                continue
            for n, f in w.group_fields(g).items():
                if n in w.named:
                    continue
                O.check_field(ctx, getattr(getattr(got, g), W.snake(n)), w, f, f"subset of the remote file, {g}.{n}", rows=rows[g])


PROP = P12()
