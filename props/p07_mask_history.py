"""P07: mask operations compose safely; misuse and failure change nothing."""

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim.maskprop import MaskProp


class P07(MaskProp):
    id = "P07"
    quick_runs, quick_wall = 1200, 32
    weights = {"spatial": 4, "property": 4, "index": 2, "bad": 4, "convert": 3, "observe": 1, "write": 1}
    faults_on = {"spatial": 0.1, "property": 0.3}
    memory = 0.25
    max_ops = 12
    kinds = [("snapshot", 6), ("soap", 4)]
    rule = ("One run = one generated file and a history of up to eleven legal, illegal, malformed and fault-interrupted mask operations, "
            "conversions, loads and subset writes; after every refusal or failure the selected rows are read again. Distinct = (previous constraint, "
            "operation, representation, outcome).")

    def gen(self, rng, tier):
        c = super().gen(rng, tier)
        # look at the selection right after some of the operations that must not change it
        ops = []
        for op in c["ops"]:
            ops.append(op)
            if (op["op"] in ("bad", "write") or op.get("faults")) and rng.random() < 0.5:
                ops.append({"op": "observe"})
        c["ops"] = ops
        return c

    def finish(self, ctx, model, m, case):
        d, rows = self.observe(ctx, model, m)
        # the same mask again: same rows, same order
        d2, rows2 = self.observe(ctx, model, m)
        for g in rows:
            ctx.check(np.array_equal(rows[g], rows2[g]), "unstable", f"{g}: two loads with one mask return rows in different order")
        O.check_dataset(ctx, d, model.w, rows=rows, what="masked data", fields=("Coordinates", "HaloCentre", "Masses", "TotalMass"))


PROP = P07()
