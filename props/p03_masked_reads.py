"""P03: a masked read returns exactly the selected rows."""

from sim import world as W
from sim.maskprop import MaskProp


class P03(MaskProp):
    id = "P03"
    quick_runs, quick_wall = 900, 30
    weights = {"spatial": 4, "property": 2, "index": 2, "read": 4, "convert": 1, "observe": 1}
    faults_on = {"read": 0.5}
    max_ops = 5
    rule = ("One run = one generated file, a short mask history, then every field of every group read through the mask and compared row by row, "
            "some reads interrupted by I/O faults and repeated. Distinct = (layout, dtype, rank, emptiness, constraint history, fault) tuples.")


PROP = P03()
