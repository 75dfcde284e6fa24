"""P02: opening a dataset or a mask is all-or-nothing under I/O errors."""

import numpy as np

from sim import oracle as O
from sim import world as W
from sim.core import Violation, drop
from sim.runner import Prop

PROBE_FAULTS = [
    {"op": "read", "act": "err", "arg": "EIO"}, {"op": "read", "act": "err", "arg": "EIO", "count": -1},
    {"op": "read", "act": "err", "arg": "EIO", "count": 2}, {"op": "read", "act": "err", "arg": "ESTALE"},
    {"op": "open", "act": "err", "arg": "EIO"}, {"op": "open", "act": "err", "arg": "ENOENT"},
    {"op": "open", "act": "err", "arg": "EMFILE"}, {"op": "lock", "act": "err", "arg": "EAGAIN"},
    {"op": "close", "act": "err", "arg": "EIO"},
    {"op": "read", "act": "short", "arg": 1}, {"op": "read", "act": "err", "arg": "EINTR"},
    {"op": "alloc"}, {"op": "alloc", "count": 2},
    {"op": "interrupt"}, {"op": "interrupt", "exc": "MemoryError"}, {"op": "interrupt", "exc": "MemoryError"},
]
COUNT = [{"op": "interrupt", "at": 1 << 60}]       # fires never, but makes the lines be counted


def mask_summary(ctx, m, w):
    """A mask's cell tables as a multiset of rows, compared with what the file holds."""
    cen = np.asarray(m.centers.view(np.ndarray))
    order = np.lexsort(cen.T)
    exp = np.lexsort(w.centres.T)
    ctx.check(O.same_array(cen[order], w.centres[exp]), "cell-table", "mask cell centres differ from the file")
    ctx.check(O.same_array(np.asarray(m.cell_size.view(np.ndarray)), w.cell_size), "cell-table", f"mask cell size {m.cell_size}")
    for pt, c in w.counts.items():
        key = pt if pt == "shared" else W.PT_NAME[pt]
        ctx.check(key in m.counts and key in m.offsets, "cell-table", f"mask lost the cell counts of {key}")
        ctx.check(O.same_array(np.asarray(m.counts[key])[order], c[exp]), "cell-table", f"mask cell counts of {key} differ from the file")
        ctx.check(O.same_array(np.asarray(m.offsets[key])[order], w.offsets[pt][exp]), "cell-table", f"mask cell offsets of {key} differ from the file")
        if key != "shared" and w.p.get("minmax"):
            for mine, theirs, half, what in ((m.minpositions, w.minpos, -0.5, "min"), (m.maxpositions, w.maxpos, 0.5, "max")):
                edge = w.centres + half * w.cell_size
                env = np.minimum(edge, theirs[pt]) if half < 0 else np.maximum(edge, theirs[pt])
                ctx.check(np.allclose(np.asarray(mine[key].view(np.ndarray))[order], env[exp], rtol=0, atol=1e-9 * w.box.max()), "cell-table",
                          f"mask cell {what} positions of {key} differ from the file")


class P02(Prop):
    id = "P02"
    quick_runs, quick_wall = 700, 34
    rule = ("One run = one generated file and up to 10 opens (dataset by path or handle, mask, validate) each with one I/O fault at a chosen "
            "position among the accesses that open makes; after each the metadata are compared with the file in full, then the open is repeated "
            "without faults. Distinct = (file kind, optional features, what, fault, position decile, outcome).")
    real = ["swiftsimio.load/mask/validate_file, metadata.objects, conversions", "h5py, HDF5"]
    stubs = ["libc file calls below the mount point"]
    assumptions = ["HDF5 reports a failed read as an exception somewhere in the call stack"]

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap", "fof", "los"], [7, 2, 1, 1])[0]
        p = W.rand_params(rng, kind, small=True)
        p["virtual"] = None
        if kind == "snapshot":
            p["mapping"] = rng.random() < 0.5
        ops = []
        if rng.random() < 0.3:
            # sweep: a transient error at evenly spread positions of one kind of open
            what, n, phase = rng.choice(["load", "load", "load_handle", "mask", "load_mask"]), rng.choice([30, 45, 60]), rng.random()
            f = rng.choice(PROBE_FAULTS[:1] * 3 + [{"op": "read", "act": "err", "arg": "EIO", "count": 2}, {"op": "alloc"},
                                                     {"op": "interrupt", "exc": "MemoryError"}, {"op": "interrupt", "exc": "MemoryError"}])
            ops = [{"what": what, "f": dict(f, frac=(i + phase) / n), "retry": rng.random() < 0.1} for i in range(n)]
            return {"world": p, "ops": ops}
        for _ in range(rng.choice([6, 8, 10])):
            f = dict(rng.choice(PROBE_FAULTS))
            f["frac"] = rng.random()
            ops.append({"what": rng.choice(["load", "load", "load_handle", "mask", "mask_handle", "load_mask", "validate", "meta"]),
                        "f": f, "retry": rng.random() < 0.6})
        return {"world": p, "ops": ops}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        maskable = w.p["kind"] in ("snapshot", "soap")
        counts = {}
        lines = any(o["f"]["op"] == "interrupt" for o in case["ops"])

        def attempt(what):
            if what in ("load", "load_mask"):
                m = sw.mask(path) if what == "load_mask" else None
                return (m, sw.load(path, mask=m))
            if what == "load_handle":
                with h5py.File(path, "r") as h:
                    return (None, sw.load(h))
            if what == "mask":
                return (sw.mask(path), None)
            if what == "mask_handle":
                with h5py.File(path, "r") as h:
                    return (sw.mask(h), None)
            if what == "meta":
                from swiftsimio.metadata.objects import SWIFTUnits
                return (None, SWIFTUnits(path))
            return (None, sw.validate_file(path))

        def judge(got, what, label):
            m, d = got
            if what == "validate":
                ctx.check(d is True, "validate", f"{label}: validate_file returned {d}")
                return
            if what == "meta":
                lu = W.UNITS[w.p["units"]]
                for name, exp in (("length", lu[0] * 1e-2), ("mass", lu[1] * 1e-3), ("time", lu[2]), ("temperature", lu[4])):
                    u = getattr(d, name)
                    ctx.check(abs(float(u.units.base_value) * float(u.value) / exp - 1) < 2e-4, "units", f"{label}: unit of {name} {u}")
                return
            if m is not None:
                O.check_metadata(ctx, m.metadata, w, f"{label} mask.metadata")
                mask_summary(ctx, m, w)
            if d is not None:
                O.check_metadata(ctx, d.metadata, w, f"{label} data.metadata")
                for g in w.groups:
                    obj = getattr(d, g, None)
                    ctx.check(obj is not None, "group-missing", f"{label}: no group {g}")
                    for n in w.group_fields(g):
                        ctx.check(hasattr(type(obj), W.snake(n)) or hasattr(obj, W.snake(n)), "field-missing", f"{label}: {g} has no field {W.snake(n)}")

        for op in case["ops"]:
            what = op["what"]
            if "mask" in what and not maskable:
                what = "load"
            if what not in counts:
                ctx.arm(COUNT if lines else [])
                got = attempt(what)
                counts[what] = ctx.disk.counts()
                ctx.disarm()
                judge(got, what, f"fault-free {what}")
                ctx.ev("clean", what, sorted((k, v) for k, v in counts[what].items() if k != "lines"))
            f = dict(op["f"])
            n = max(1, counts[what][f["op"]])
            f["at"] = O.place(f, f.pop("frac"), counts[what])
            ctx.arm([f])
            got = err = viol = None
            try:
                got = attempt(what)
                # parts of the metadata may be read on first use: the fault stays armed while looking
                try:
                    judge(got, what, f"{what} with {f}")
                except Violation as v:
                    viol = v
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = ctx.disarm()
            out = type(err).__name__ if err else "ok"
            ctx.ev("open", what, f["op"], f["at"], out, bool(fired))
            if not fired:
                ctx.probe("fault_not_reached")
            ctx.state(w.p["kind"], w.p.get("canhave"), w.p.get("npt6"), w.p.get("old"), bool(w.p.get("named")), what, f["op"], str(f.get("arg")),
                      f["at"] * 12 // n, out)
            if err is not None:
                if O.benign(fired):
                    raise err
                ctx.probe("open_raised")
                drop(err)
            elif viol is not None:
                raise viol
            if got is not None:
                # what was returned is judged again with the faults gone: parts that failed to be read are read now
                try:
                    judge(got, what, f"after {what} with {f}")
                except AttributeError as e:
                    ctx.fail("metadata-missing", f"after {what} with {f}: {e}")
                if fired:
                    ctx.probe("open_survived_fault")
            if err is not None and op["retry"]:
                judge(attempt(what), what, f"retry of {what} after {f}")
                ctx.probe("retried")


PROP = P02()
