"""P04: a spatial mask keeps every particle of the region, by whole needed cells."""

import numpy as np

from sim import masksim as M
from sim import world as W
from sim.maskprop import MaskProp


class P04(MaskProp):
    id = "P04"
    quick_runs, quick_wall = 1500, 30
    weights = {"spatial": 8, "observe": 2, "convert": 1, "bad": 1}
    faults_on = {}
    max_ops = 6
    rule = ("One run = one generated file (grid, box, drift, cell order) and up to five region constraints, unions and conversions; the selected rows, "
            "found through their unique IDs, are compared with the cell tables, and every particle inside a region must be among them. Distinct = "
            "(kind, cell order, region class per axis, union, representation, outcome).")

    def world(self, rng, kind):
        p = W.rand_params(rng, kind)
        if kind == "snapshot" and rng.random() < 0.5:
            p["cells"] = [rng.choice([3, 4, 5]) for _ in range(3)]
            p["ptypes"] = {k: rng.choice([200, 400]) if v > 5 else v for k, v in p["ptypes"].items()}
        return p

    def rand_op(self, rng, k, kind):
        if k == "bad":
            op = M.rand_bad(rng)
            op["how"] = rng.choice(["region_outside", "region_short", "region_row", "region_plain", "region_unit"])
            return op
        if k == "spatial":
            return M.rand_spatial(rng, union=rng.random() < 0.85)
        return super().rand_op(rng, k, kind)

    def finish(self, ctx, model, m, case):
        d, rows = self.observe(ctx, model, m)
        w = model.w
        regions = []
        for op in self.accepted:
            if op["op"] == "spatial":
                regions.append(op["region"])
                ctx.state(w.p["kind"], w.p["order"], w.p.get("minmax"), tuple(cls(r) for r in op["region"]), len(regions), op["physical"], op["unit"])
        if not regions:
            return
        for g in w.groups:
            if model.shared and g != "input_halos":
                continue
            inside = np.zeros(w.groups[g][1], bool)
            for r in regions:
                inside |= model.particles_in(g, r)
            have = np.zeros(len(inside), bool)
            have[rows[g]] = True
            lost = np.where(inside & ~have)[0]
            ctx.check(len(lost) == 0, "particle-missing", f"{g}: {len(lost)} of {int(inside.sum())} particles inside the region are not loaded, e.g. row {lost[:1]}")
            ctx.probe("particles_inside", int(inside.sum()))
            f = w.fields[f"{w.groups[g][0]}/{'HaloCentre' if model.shared else 'Coordinates'}"]
            from sim import oracle as O
            O.check_field(ctx, getattr(getattr(d, g), "halo_centre" if model.shared else "coordinates"), w, f, f"{g} positions", rows=rows[g])


def cls(r):
    if r is None:
        return "open"
    lo, hi = r
    return ("inv" if hi < lo else "pt" if hi == lo else "norm") + ("-" if min(r) < 0 else "") + ("+" if max(r) > 1 else "") + ("W" if abs(hi - lo) > 1 else "")


PROP = P04()
