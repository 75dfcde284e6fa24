"""P05: a property mask selects exactly the rows within its bounds."""

from sim import masksim as M
from sim.maskprop import MaskProp


class P05(MaskProp):
    id = "P05"
    quick_runs, quick_wall = 1300, 30
    weights = {"property": 8, "spatial": 2, "index": 1, "convert": 1, "observe": 1}
    faults_on = {"property": 0.35}
    max_ops = 6
    rule = ("One run = one generated file and a history of property constraints (bounds on or between stored values, several units, comoving or physical), "
            "some interrupted by I/O faults and repeated; rows selected in every group are compared with the values. Distinct = (kind, layout, "
            "history, representation, outcome, fault).")

    def rand_op(self, rng, k, kind):
        op = super().rand_op(rng, k, kind)
        return op

    def gen(self, rng, tier):
        c = super().gen(rng, tier)
        ops = []
        for op in c["ops"]:
            ops.append(op)
            if op.get("faults") and rng.random() < 0.7:     # repeat what was interrupted
                ops.append({k: v for k, v in op.items() if k != "faults"})
        c["ops"] = ops
        return c


PROP = P05()
