"""P09: a failed or interrupted subset write is never mistaken for a good one."""

import os

from sim import faultwrite as FW
from sim import masksim as M
from sim import oracle as O
from sim import subset as S
from sim import world as W
from sim.core import Violation, drop
from sim.faultwrite import digest
from sim.maskprop import MaskProp

FAULTS = FW.FAULTS + FW.READ_FAULTS
MODES = ["fault", "fault", "fault", "fault", "crash", "crash", "same", "nodir", "isdir"]


class P09(MaskProp):
    id = "P09"
    quick_runs, quick_wall = 700, 34
    weights = {"spatial": 5, "property": 3, "index": 2, "convert": 1}
    kinds = [("snapshot", 7), ("soap", 3)]
    max_ops = 3
    rule = ("One run = one generated file, a mask history, and a sequence of subset writes each hit by one fault or crash (an injected error on one read, open, lock, write, "
            "truncate or close; a full disk; a crash after any prefix of the writes with the last one torn), then a write without faults. Distinct = (kind, mode, fault, "
            "position decile, outcome) tuples.")
    real = ["swiftsimio.subset_writer, masks, reader", "h5py, HDF5"]

    def world(self, rng, kind):
        p = W.rand_params(rng, kind, small=True)
        p["virtual"] = None
        return p

    def gen(self, rng, tier):
        c = super().gen(rng, tier)
        c["mask"] = c.pop("ops")[:2]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            op = {"mode": rng.choice(MODES), "old": rng.random() < 0.3}
            if op["mode"] == "fault":
                op["f"], op["frac"] = FW.plan(rng, FAULTS)
                if rng.random() < 0.15:
                    op["f2"], op["frac2"] = FW.plan(rng, FAULTS)
            elif op["mode"] == "crash":
                op["cuts"] = FW.cuts(rng)
            op["retry"] = rng.random() < 0.5
            ops.append(op)
        c["ops"] = ops
        return c

    def shrink(self, case):
        import json
        for j in range(len(case["mask"])):
            c = json.loads(json.dumps(case))
            del c["mask"][j]
            yield c
        for i, op in enumerate(case["ops"]):
            for j in range(len(op.get("cuts", []))):
                if len(op["cuts"]) > 1:
                    c = json.loads(json.dumps(case))
                    c["ops"][i]["cuts"] = [op["cuts"][j]]
                    yield c

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        pad = case["padding"]
        handle = h5py.File(path, "r") if case["mode"] == "handle" else None
        m = sw.mask(handle if handle is not None else path, safe_padding=pad)
        model = M.Model(ctx, w, path, 0.1 if pad is True else float(pad))
        for op in case["mask"]:
            M.apply(ctx, model, m, op)
        original = digest(path)
        src_open = ctx.disk.open_files()

        def write(out):
            sw.subset_writer.write_subset(out, m, allow_unconstrained=model.constrained is None)

        # a write without faults: what it does to the disk
        ref = ctx.path("ref.hdf5")
        ctx.arm(FW.COUNT if any(o.get(k, {}).get("op") == "interrupt" for o in case["ops"] for k in ("f", "f2")) else [])
        ctx.disk.journal(True)
        write(ref)
        ctx.disk.journal(False)
        counts = ctx.disk.counts()
        recs = ctx.disk.journal_records()
        ctx.disarm()
        S.check_subset(ctx, ref, w, model, path, "subset written without faults")
        size = os.path.getsize(ref)

        def intact(what):
            ctx.check(digest(path) == original, "source-changed", f"{what}: the source file changed")

        def leftover(out, before, what, crash=False):
            """What a failed or interrupted write left at the output path."""
            if not os.path.isfile(out):
                ctx.probe("nothing_left")
                return "absent"
            now = digest(out)
            if before is not None and now == before:
                ctx.probe("old_file_kept")
                return "old"
            try:
                with h5py.File(out, "r"):
                    pass
                d = sw.load(out)
            except Exception as e:  # noqa: BLE001 - any error says that it is not a dataset
                drop(e)
                ctx.probe("leftover_unopenable")
                return "unopenable"
            del d
            try:
                S.check_subset(ctx, out, w, model, path, "leftover")
            except Violation as v:
                ctx.fail("leftover-wrong:" + v.sig, f"{what}: the file left behind opens as a dataset but is wrong: {v.msg}")
            except Exception as e:  # noqa: BLE001 - loads, but is missing something
                if crash:      # says so when it is read
                    drop(e)
                    ctx.probe("leftover_unreadable")
                    return "unreadable"
                ctx.fail("leftover-wrong", f"{what}: the file left behind opens as a dataset but is incomplete: {type(e).__name__}: {e}")
            ctx.probe("leftover_good")
            return "good"

        for i, op in enumerate(case["ops"]):
            mode = op["mode"]
            out = ctx.path(f"out{i}.hdf5")
            before = None
            if mode in ("same", "nodir", "isdir"):
                if mode == "same":
                    out = path
                    if op["old"]:
                        out = ctx.path(f"alias{i}.hdf5")
                        os.symlink(path, out)
                elif mode == "nodir":
                    out = ctx.path("missing", "out.hdf5")
                else:
                    os.mkdir(out)
                err = None
                try:
                    write(out)
                except Exception as e:  # noqa: BLE001
                    err = e
                ctx.ev(mode, type(err).__name__ if err else None)
                ctx.check(err is not None, "accepted", f"writing to {mode} path did not raise")
                drop(err)
                intact(f"write to {mode} path")
                ctx.state(w.p["kind"], mode, case["mode"])
                ctx.probe(f"refused_{mode}")
                continue
            if op["old"]:
                with h5py.File(out, "w") as h:
                    h.create_dataset("old", data=range(1000))
                before = digest(out)
            if mode == "fault":
                fs = []
                for k, fr in (("f", "frac"), ("f2", "frac2")):
                    if k in op:
                        fs.append(FW.place(op[k], op[fr], counts, size))
                res = FW.faulted_write(ctx, fs, lambda: write(out), (lambda: write(ctx.path(f"again{i}.hdf5"))) if op["retry"] else None)
                fired, name = res["fired"], res["name"]
                if name not in ("ok", "gone") and (not fired or O.benign(fired)):
                    ctx.fail("refused", f"writing a subset failed with {fs} (fired: {fired}): {res['text']}")
                intact(f"write with {fs}")
                if res["again"] == "ok":
                    S.check_subset(ctx, ctx.path(f"again{i}.hdf5"), w, model, path, f"repeated write after {fs}")
                    ctx.probe("retried_same_process")
                elif res["again"] is not None:
                    ctx.fail("retry", f"after {fs} raised {res['text']}, writing again without faults failed: {res['again']}")
                if name != "ok":
                    left = leftover(out, before, f"write with {fs} raised {name}")
                    ctx.probe("write_raised")
                else:
                    S.check_subset(ctx, out, w, model, path, f"subset written in spite of {fs}")
                    left = "written"
                    ctx.probe("survived" if fired else "fault_not_reached")
                f = fs[0]
                ctx.ev("fault", f["op"], f["at"], name, left)
                ctx.state(w.p["kind"], f["op"], f.get("act"), f.get("arg"), int(op["frac"] * 10), name, left)
            else:
                mine = [(k, p, o, d) for k, p, o, d in recs if p == ref or os.path.dirname(p) == ctx.dir and p != path]
                for cut, torn in op["cuts"]:
                    n, img = FW.crash_image(mine, ref, cut, torn)
                    if img is None:
                        if os.path.exists(out):
                            os.unlink(out)
                    else:
                        with open(out, "wb") as h:
                            h.write(img)
                    left = leftover(out, None, f"crash after {n} of {len(mine)} writes (last one torn at {torn})", True)
                    ctx.ev("crash", n, torn, left)
                    ctx.faults["crash"] += 1
                    ctx.state(w.p["kind"], "crash", n * 20 // max(1, len(mine)), torn in (0.0, 1.0), left)
            if op["retry"]:
                write(out)
                S.check_subset(ctx, out, w, model, path, f"repeated write after {mode}")
                ctx.probe("retried")
        # the mask has survived all of this
        M.judge_rows(ctx, model, M.load_masked(ctx, model, m, handle), "source after the writes")
        ctx.check(ctx.disk.open_files() == src_open or case["mode"] != "handle", "handle", "the caller's handle was closed")
        if handle is not None:
            handle.close()
        intact("at the end")


PROP = P09()
