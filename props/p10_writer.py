"""P10: snapshots written by the Writer read back as given."""

from sim import faultwrite as FW
from sim import writersim as S
from sim.core import drop
from sim.runner import Prop


class P10(Prop):
    id = "P10"
    quick_runs, quick_wall = 900, 34
    bad = 0.0
    rule = ("One run = one Writer configuration and a history of assignments, deletions, in-place conversions, generated smoothing lengths, arrays shared with a second Writer, and "
            "repeated writes; every write is compared with the reference model, raw and through swiftsimio.load. Distinct = (units, dimension, op, types in use, outcome) tuples.")
    real = ["swiftsimio.snapshot_writer, reader", "h5py, HDF5, unyt"]
    stubs = ["libc file calls below the mount point"]
    assumptions = ["unit conversion factors of unyt are right"]

    def gen(self, rng, tier):
        return {"params": S.rand_params(rng), "ops": S.rand_history(rng, self.bad)}

    def setup(self, case, ctx):
        m1, m2 = S.Model(ctx, case["params"], 1), S.Model(ctx, case["params"], 2)
        return {1: m1, 2: m2}

    def do_write(self, ctx, models, op, m):
        """A write without faults: judged against the model."""
        path = ctx.path(f"ic{op['file']}.hdf5")
        before = FW.digest(path)
        verdict = m.verdict()
        supplied = {t: m.state[t]["particle_ids"] for t in m.used()}
        err = None
        try:
            m.w.write(path)
        except Exception as e:  # noqa: BLE001
            err = e
        ctx.ev("write", verdict, type(err).__name__ if err else "ok", m.used())
        ctx.state(m.system, m.p["dim"], m.p["compress"], tuple(m.used()), verdict, tuple(v is None for v in supplied.values()))
        if verdict is not None:
            ctx.check(err is not None, "accepted", lambda: f"inconsistent data ({verdict}) were written")
            drop(err)
            ctx.check(FW.digest(path) == before, "damaged", f"the refused write ({verdict}) changed the file at the target path")
            m.check_held(f"after a refused write ({verdict})")
            ctx.probe(f"refused_{verdict}")
            return
        if err is not None:
            raise err
        m.check_file(path, "written file")
        m.after_write()
        m.check_held("after the write")
        ctx.probe("written")

    def run(self, case, ctx):
        models = self.setup(case, ctx)
        for op in case["ops"]:
            m = models[op["w"]]
            if op["op"] == "write":
                self.do_write(ctx, models, op, m)
            else:
                out = S.apply(m, models[3 - op["w"]], op)
                ctx.ev(op["op"], op.get("t"), op.get("f"), out)
                ctx.state(m.system, op["op"], op.get("t"), op.get("f"), op.get("how"), out)
        for k, m in models.items():
            m.check_held("at the end")
        ctx.check(not ctx.disk.open_files(), "open-files", lambda: f"files left open: {ctx.disk.open_files()}")


PROP = P10()
