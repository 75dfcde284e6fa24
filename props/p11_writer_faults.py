"""P11: the Writer refuses bad data without damage and survives write faults."""

import os

import h5py

from sim import faultwrite as FW
from sim import writersim as S
from sim.core import Violation, drop
from props.p10_writer import P10


class P11(P10):
    id = "P11"
    quick_runs, quick_wall = 700, 34
    bad = 0.3
    rule = ("One run = one Writer and a history of good and bad assignments and writes, some of them hit by write faults, a full disk or a crash; after every refusal the data held "
            "and the target file are compared with what they were, after every failure the leftover is judged and the write repeated. Distinct = (units, op, fault, position decile, outcome) tuples.")

    def gen(self, rng, tier):
        ops = S.rand_history(rng, self.bad, rng.randrange(2, 14))
        for op in ops:
            if op["op"] != "write":
                continue
            r = rng.random()
            if r < 0.5:
                op["f"], op["frac"] = FW.plan(rng, FW.FAULTS)
                op["retry"] = rng.random() < 0.5
            elif r < 0.7:
                op["cuts"] = FW.cuts(rng, 4)
            op["old"] = rng.random() < 0.3
        return {"params": S.rand_params(rng), "ops": ops}

    def do_write(self, ctx, models, op, m):
        if m.verdict() is not None or not ("f" in op or "cuts" in op):
            path = ctx.path(f"ic{op['file']}.hdf5")
            if op.get("old") and not os.path.exists(path):
                with h5py.File(path, "w") as h:
                    h.create_dataset("old", data=range(100))
            return super().do_write(ctx, models, op, m)
        # what a write without faults does to the disk (in a process of its own: this one's Writer has not written yet)
        ref, out = ctx.path("ref.hdf5"), ctx.path(f"f{ctx.steps}.hdf5")

        def clean():
            ctx.disk.arm(FW.COUNT if op.get("f", {}).get("op") == "interrupt" else [])
            ctx.disk.journal(True)
            m.w.write(ref)
            ctx.disk.journal(False)
            counts = ctx.disk.counts()
            recs = [r for r in ctx.disk.journal_records() if r[1] == ref]
            with open(ref + ".j", "wb") as f:
                FW.pickle.dump((counts, recs), f)
            yield {"name": "ok", "fired": [], "text": "", "again": None}
        if FW.in_child(clean)["name"] != "ok":
            return super().do_write(ctx, models, op, m)      # judge the failure of a write without faults
        with open(ref + ".j", "rb") as f:
            counts, recs = FW.pickle.load(f)
        size = os.path.getsize(ref)
        before = None
        if op["old"]:
            with h5py.File(out, "w") as h:
                h.create_dataset("old", data=range(1000))
            before = FW.digest(out)

        def leftover(what, crash=False):
            if not os.path.isfile(out):
                ctx.probe("nothing_left")
                return "absent"
            if before is not None and FW.digest(out) == before:
                ctx.probe("old_file_kept")
                return "old"
            import swiftsimio as sw
            try:
                with h5py.File(out, "r"):
                    pass
                d = sw.load(out)
            except Exception as e:  # noqa: BLE001 - any error says that it is not a dataset
                drop(e)
                ctx.probe("leftover_unopenable")
                return "unopenable"
            del d
            try:
                m.check_file(out, "leftover")
            except Violation as v:
                ctx.fail("leftover-wrong:" + v.sig, f"{what}: the file left behind opens as a dataset but is wrong: {v.msg}")
            except Exception as e:  # noqa: BLE001 - loads, but is missing something
                if crash:      # says so when it is read
                    drop(e)
                    ctx.probe("leftover_unreadable")
                    return "unreadable"
                ctx.fail("leftover-wrong", f"{what}: the file left behind opens as a dataset but is incomplete: {type(e).__name__}: {e}")
            ctx.probe("leftover_good")
            return "good"

        if "f" in op:
            f = FW.place(op["f"], op["frac"], counts, size)
            again = ctx.path(f"again{ctx.steps}.hdf5")
            res = FW.faulted_write(ctx, [f], lambda: m.w.write(out), (lambda: m.w.write(again)) if op["retry"] else None)
            name, fired = res["name"], res["fired"]
            from sim import oracle as O
            if name not in ("ok", "gone") and (not fired or O.benign(fired)):
                ctx.fail("refused", f"writing failed with {f} (fired: {fired}): {res['text']}")
            if res["again"] == "ok":
                m.check_file(again, f"repeated write after {f}")
                ctx.probe("retried_same_process")
            elif res["again"] is not None:
                ctx.fail("retry", f"after {f} raised {res['text']}, writing again without faults failed: {res['again']}")
            if name == "ok":
                m.check_file(out, f"file written in spite of {f}")
                left = "written"
                ctx.probe("survived" if fired else "fault_not_reached")
            else:
                left = leftover(f"write with {f} raised {name}")
                ctx.probe("write_raised")
            ctx.ev("fault", f["op"], f["at"], name, left)
            ctx.state(m.system, f["op"], f.get("act"), f.get("arg"), int(op["frac"] * 10), name, left)
        else:
            for cut, torn in op["cuts"]:
                n, img = FW.crash_image(recs, ref, cut, torn)
                if img is None:
                    if os.path.exists(out):
                        os.unlink(out)
                else:
                    with open(out, "wb") as h:
                        h.write(img)
                before = None
                left = leftover(f"crash after {n} of {len(recs)} writes (last one torn at {torn})", True)
                ctx.faults["crash"] += 1
                ctx.ev("crash", n, torn, left)
                ctx.state(m.system, "crash", n * 20 // max(1, len(recs)), torn in (0.0, 1.0), left)
        # over whatever is there now
        super().do_write(ctx, models, op, m)
        m.w.write(out)
        m.check_file(out, "write over the leftover")


PROP = P11()
