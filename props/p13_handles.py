"""P13: the user's file handles stay open, swiftsimio's own are closed."""

import gc

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim import world as W
from sim.core import drop
from sim.runner import Prop

FAULTS = [
    {"op": "read", "act": "err", "arg": "EIO"}, {"op": "read", "act": "err", "arg": "EIO"}, {"op": "read", "act": "err", "arg": "ESTALE"},
    {"op": "read", "act": "err", "arg": "EIO", "count": -1}, {"op": "open", "act": "err", "arg": "EMFILE"}, {"op": "open", "act": "err", "arg": "EIO"},
    {"op": "lock", "act": "err", "arg": "EAGAIN"}, {"op": "read", "act": "short", "arg": 3},
    {"op": "alloc"}, {"op": "interrupt"},
]
OPS = {"load": 5, "mask": 4, "constrain": 5, "convert": 1, "field": 8, "group": 2, "meta": 3, "validate": 1, "write": 3, "writer": 2,
       "stats": 1, "junk": 2, "refused": 2, "image": 1, "open": 2, "close": 3, "forget": 2, "gattr": 1, "units": 1, "again": 3, "direct": 4}


class P13(Prop):
    id = "P13"
    quick_runs, quick_wall = 900, 32
    rule = ("One run = one generated file, up to three handles of the caller opened and closed at any time, and up to 16 operations on objects built from "
            "paths or from those handles, some of which meet an I/O error; after each operation the open descriptors (seen at the libc seam) and the HDF5 file "
            "identifiers must be exactly the caller's, each of which must still be readable. Distinct = (kind, operation, source, fault, outcome, handles open).")
    real = ["swiftsimio handle provider, reader, masks, metadata, subset and snapshot writers", "h5py, HDF5"]
    stubs = ["libc file calls below the mount point"]
    assumptions = ["a failed operation is judged once its exception has been handled and released"]

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap", "fof", "los"], [7, 3, 1, 1])[0]
        p = W.rand_params(rng, kind, small=True)
        p["virtual"] = None
        ops = []
        ks, ws = zip(*OPS.items())
        for _ in range(rng.randrange(3, 17)):
            k = rng.choices(ks, ws)[0]
            op = {"op": k, "src": rng.randrange(12), "on": rng.randrange(12), "pick": rng.randrange(1000)}
            if k == "constrain":
                r = rng.random()
                op["c"] = M.rand_spatial(rng) if r < .5 else M.rand_property(rng) if r < .8 else M.rand_bad(rng) if r < .9 else M.rand_index(rng)
            if k == "writer":
                op["how"] = rng.choice(["ok", "ok", "no_dir", "attr", "missing"])
            if k == "junk":
                op["how"] = rng.choice(["text", "empty", "plain_hdf5", "gone", "truncated", "no_units"])
            if rng.random() < 0.45 and k not in ("open", "close", "forget", "writer"):
                f = dict(rng.choice(FAULTS))
                f["at"] = rng.choice([0, 0, 1]) if f["op"] not in ("read", "alloc", "interrupt") else rng.randrange(rng.choice([3, 10, 40, 120]) * (5 if f["op"] == "interrupt" else 1))
                op["faults"] = [f]
            ops.append(op)
        return {"world": p, "ops": ops}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        with open(path, "rb") as f:
            w.raw = f.read()
        handles = []                       # the caller's
        data, masks = [], []               # (object, handle or None)
        maskable = w.p["kind"] in ("snapshot", "soap")
        model = M.Model(ctx, w, path, 0.1) if maskable else None
        names = [(g, n) for g in sorted(w.groups) for n in sorted(w.group_fields(g))]
        g0, n0 = names[0]
        probe_path = f"{w.groups[g0][0]}/{n0}"
        nwritten = 0

        def source(i):
            hs = [None, None] + handles
            return hs[i % len(hs)]

        def settle(what, failed):
            if failed:
                gc.collect()
            fds = ctx.disk.open_files()
            mine = sum(1 for h in handles if h)
            ctx.check(mine == len(handles), "closed-callers-handle", f"{what}: closed a handle of the caller")
            nid = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
            if (nid != mine or len(fds) > mine) and not failed:
                gc.collect()               # objects the caller has dropped may still be waiting for the collector
                fds, nid = ctx.disk.open_files(), h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)
            ctx.check(nid == mine and len(fds) <= mine, "left-open", f"{what}: {nid} HDF5 files and {fds} open, the caller has {mine} open")
            nobj = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP | h5py.h5f.OBJ_ATTR)
            if nobj:
                gc.collect()
                nobj = h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_DATASET | h5py.h5f.OBJ_GROUP | h5py.h5f.OBJ_ATTR)
            ctx.check(nobj == 0, "left-open", f"{what}: {nobj} HDF5 objects left open")
            for h in handles:
                ctx.check(O.same_array(h[probe_path][...], w.fields[probe_path].data), "callers-handle", f"{what}: the caller's handle no longer reads the file")

        def read(d, pick, whole=True):
            g, n = names[pick % len(names)]
            f = w.fields[f"{w.groups[g][0]}/{n}"]
            obj, attr, col = getattr(d, g), W.snake(n), None
            if n in w.named:
                cols = O.public_columns(w, n)
                col = pick % len(cols)
                obj, attr = getattr(obj, attr), cols[col]
            delattr(obj, attr)
            v = getattr(obj, attr)
            if whole:
                O.check_field(ctx, v, w, f, f"{g}.{attr}", col=col)

        def alive(rec):
            return rec[1] is None or bool(rec[1])

        for op in case["ops"]:
            k = op["op"]
            if k == "open":
                if len(handles) < 3:
                    # a handle that can write can be opened next to one that can, or first
                    writable = op["pick"] % 3 == 0 and all(h.mode == "r+" for h in handles)
                    handles.append(h5py.File(path, "r+" if writable else "r"))
                ctx.ev("open", len(handles))
                continue
            if k == "close":
                if handles:
                    h = handles.pop(op["on"] % len(handles))
                    h.close()
                    settle("closing the caller's own handle", False)
                    for rec in data + masks:
                        if rec[1] is h:      # built on it: fails clearly or is exact, and opens nothing that lasts
                            err = None
                            try:
                                if rec in data:
                                    read(rec[0], op["pick"], rec[2])
                                else:
                                    sw.load(path, mask=rec[0])
                            except (RuntimeError, ValueError, OSError) as e:
                                err = e
                            drop(err)
                            ctx.probe("use_after_close_" + ("raised" if err else "exact"))
                            settle("using an object whose handle the caller closed", err is not None)
                    data = [r for r in data if r[1] is not h]
                    masks = [r for r in masks if r[1] is not h]
                ctx.ev("close", len(handles))
                continue
            if k == "forget":
                for x in (data, masks):
                    if x:
                        x.pop(op["on"] % len(x))
                continue
            h = source(op["src"])
            at = h if h is not None else path
            on_data = data[op["on"] % len(data)] if data else None
            on_mask = masks[op["on"] % len(masks)] if masks else None
            err = None
            refuse = False                 # the operation must raise whatever the faults
            may = False                    # it may raise without any fault
            what = f"{k} ({'handle' if h is not None else 'path'})"
            if k == "writer" or k == "stats" or k == "junk":
                self.prepare(ctx, op, w)
            pl = M.plan(model, op["c"]) if k == "constrain" and model else None
            ctx.arm(op.get("faults", []))
            try:
                if k == "load":
                    m = on_mask if on_mask and op["pick"] % 3 == 0 else None
                    data.append((sw.load(at, mask=m[0] if m else None), h, m is None))
                elif k == "units":
                    sw.metadata.objects.SWIFTUnits(at) if h is None else sw.metadata.objects.SWIFTUnits(path, handle=h)
                elif k == "direct":
                    made = self.direct(op["pick"], path, h, w, data, masks, maskable)
                    for which, o, whole in made:
                        (data.append((o, h, whole)) if which == "data" else masks.append((o, h)))
                    made = o = None
                elif k == "mask":
                    refuse = not maskable
                    masks.append((sw.mask(at), h))
                elif k == "refused":
                    refuse = True
                    if op["pick"] % 2 and on_mask:
                        other = ctx.path("other.hdf5")
                        sw.load(other, mask=on_mask[0])
                    else:
                        sw.load(at, mask="not a mask") if op["pick"] % 3 else sw.mask(ctx.path("nowhere.hdf5"))
                elif k == "constrain" and on_mask:
                    may = True
                    if pl:
                        pl[0](on_mask[0])
                elif k == "convert" and on_mask:
                    on_mask[0].convert_masks_to_bool() if op["pick"] % 2 else on_mask[0].convert_masks_to_ranges()
                elif k == "field" and on_data:
                    read(on_data[0], op["pick"], on_data[2])
                elif k == "group" and on_data:
                    g = sorted(w.groups)[op["pick"] % len(w.groups)]
                    obj = getattr(on_data[0], g)
                    str(obj), repr(obj), len(obj.group_metadata.field_names) if hasattr(obj, "group_metadata") else 0
                elif k == "gattr" and on_data and w.p["kind"] == "los":
                    g = sorted(w.groups)[op["pick"] % len(w.groups)]
                    getattr(on_data[0], g).num_parts
                elif k == "meta" and on_data:
                    md = on_data[0].metadata
                    str(md), md.boxsize, md.cosmology, [getattr(md, x, None) for x in ("code_info", "compiler_info", "library_info", "hydro_info")], on_data[0].units.length, str(on_data[0])
                    with md.open_file() as f:
                        f["Header"].attrs["Redshift"]
                elif k == "again" and on_data:      # documented: can be called again
                    d = on_data[0]
                    (d.get_units, d.get_metadata, d.create_datasets)[op["pick"] % 3]()
                elif k == "validate":
                    sw.validate_file(at)
                elif k == "write" and on_mask:
                    nwritten += 1
                    sw.subset_writer.write_subset(ctx.path(f"sub{nwritten}.hdf5"), on_mask[0], allow_unconstrained=True)
                elif k == "writer":
                    refuse = op["how"] != "ok"
                    self.write(ctx, op)
                elif k == "stats":
                    sw.load_statistics(ctx.path("stats.txt"))
                elif k == "junk":
                    refuse = True
                    (sw.load, sw.mask)[op["pick"] % 2](ctx.path("junk.hdf5"))
                elif k == "image" and on_data and hasattr(on_data[0], "gas"):
                    may = True              # a particle type without what is needed is refused
                    from swiftsimio.visualisation.projection import project_gas
                    project_gas(on_data[0], resolution=4, project="masses", backend="histogram")
            except (Exception, KeyboardInterrupt) as e:
                err = e
            fired = ctx.disarm()
            name = type(err).__name__ if err else "ok"
            ctx.ev(k, h is not None, name, bool(fired))
            ctx.state(w.p["kind"], k, h is not None, op.get("how"), op.get("faults", [{}])[0].get("op"), bool(fired), name, len(handles))
            if err is None:
                ctx.check(not refuse, "accepted", f"{what} {op.get('how', '')} was accepted")
            elif not (fired and not O.benign(fired)) and not (refuse or may):
                raise err
            else:
                ctx.probe("refused" if refuse else "raised_on_fault" if fired else "refused_constraint")
            if err is not None and k not in ("constrain", "refused", "junk", "writer"):
                ctx.probe("failed_" + k)
            drop(err)
            settle(f"{what}, which ended with {name}", err is not None)
            # what came from a path keeps working (and so does what came from an open handle)
            for rec in data[-2:]:
                if alive(rec):
                    read(rec[0], op["pick"] + 1, rec[2])
            settle(f"reading after {what}", False)
        data = masks = None
        for h in handles:
            h.close()
        gc.collect()
        ctx.check(not ctx.disk.open_files(), "left-open", f"at the end: {ctx.disk.open_files()} still open")

    def direct(self, pick, path, h, w, data, masks, maskable):
        """Construct the public classes themselves, which open and close the file if given no handle."""
        from swiftsimio.masks import SWIFTMask
        from swiftsimio.metadata.objects import SWIFTGroupMetadata, SWIFTUnits
        from swiftsimio.reader import SWIFTDataset
        what = pick % 6
        if what == 0 or not data:
            return [("data", SWIFTDataset(path, handle=h), True)]
        md = data[pick % len(data)][0].metadata
        if what == 1:
            type(md)(path, units=SWIFTUnits(path, handle=h) if pick % 2 else None, handle=h)
        elif what == 2:
            for group, name in zip(md.present_groups, md.present_group_names):
                SWIFTGroupMetadata(path, group, name, md, md.scale_factor, h)
        elif what == 3 and maskable:
            return [("mask", SWIFTMask(path, md, handle=h), False)]
        elif what == 4 and masks:
            return [("data", SWIFTDataset(path, mask=masks[pick % len(masks)][0], handle=h), False)]
        else:
            SWIFTUnits(path, handle=h)
        return []

    def prepare(self, ctx, op, w):
        import h5py
        k = op["op"]
        if k == "stats":
            with open(ctx.path("stats.txt"), "w") as f:
                f.write("# (0)  Step.\n#     Unit = dimensionless\n# (1)  Time.\n#     Unit = 1.0 s\n#   step   time\n" + "1 2.0\n" * (1 + op["pick"] % 900))
        elif k == "junk":
            p = ctx.path("junk.hdf5")
            how = op["how"]
            if how == "gone":
                import os
                if os.path.exists(p):
                    os.unlink(p)
            elif how in ("text", "empty"):
                with open(p, "w") as f:
                    f.write("not HDF5\n" * 50 if how == "text" else "")
            elif how == "plain_hdf5":
                with h5py.File(p, "w") as h:
                    h["x"] = np.arange(5)
            else:
                with open(p, "wb") as f:
                    f.write(w.raw[:len(w.raw) // 2] if how == "truncated" else w.raw)
                if how == "no_units":
                    with h5py.File(p, "r+") as h:
                        del h["Units"]

    def write(self, ctx, op):
        import unyt
        from swiftsimio import Writer, cosmo_array
        kw = dict(comoving=True, scale_factor=0.5)
        wr = Writer(boxsize=cosmo_array([1.0, 1, 1], unyt.Mpc, scale_exponent=1, **kw), scale_factor=0.5)
        d = wr.dark_matter
        d.coordinates = cosmo_array(np.full((4, 3), 0.5), unyt.Mpc, scale_exponent=1, **kw)
        d.velocities = cosmo_array(np.zeros((4, 3)), unyt.km / unyt.s, scale_exponent=0, **kw)
        if op["how"] != "missing":
            d.masses = cosmo_array(np.ones(4), unyt.Msun, scale_exponent=0, **kw)
        if op["how"] == "attr":
            wr.extra_header = {"Bad": object()}
        wr.write(ctx.path("no/such/dir.hdf5" if op["how"] == "no_dir" else "written.hdf5"))


PROP = P13()
