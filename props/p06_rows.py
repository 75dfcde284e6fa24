"""P06: a row mask of a catalogue selects exactly the listed rows."""

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim.maskprop import MaskProp


class P06(MaskProp):
    id = "P06"
    kinds = [("soap", 12), ("snapshot", 1)]
    quick_runs, quick_wall = 1300, 30
    weights = {"index": 6, "convert": 2, "observe": 1, "bad": 2, "property": 1, "read": 1, "spatial": 1}
    faults_on = {"read": 0.3}
    max_ops = 5
    rule = ("One run = one generated catalogue and a history around row constraints (single rows, lists in any order and container, as ranges or "
            "booleans, illegal repeats and out-of-range requests); every field of every group is compared with the listed rows in ascending order. "
            "Distinct = (history, representation, size, outcome).")

    def rand_op(self, rng, k, kind):
        if k == "bad":
            op = M.rand_bad(rng)
            op["how"] = rng.choice(["index_outside", "index_negative", "unknown_group"])
            return op
        return super().rand_op(rng, k, kind)

    def finish(self, ctx, model, m, case):
        d, rows = self.observe(ctx, model, m)
        if model.constrained in ("index", "indices"):
            for g, r in rows.items():
                ctx.check(bool(np.all(np.diff(r) > 0)), "row-order", f"{g}: rows come back in the order {r[:10]}, not ascending")
            ctx.probe("row_masks_read")
        O.check_dataset(ctx, d, model.w, rows=rows, what="masked data")
        m.convert_masks_to_ranges()
        M.judge_sizes(ctx, model, m)


PROP = P06()
