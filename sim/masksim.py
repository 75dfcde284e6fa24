"""Histories of mask operations against a row-set model (shared by P03-P08, P12, P13).

The model knows, for each group, which stored rows are selected and which constraints are
still allowed. Regions are kept as comoving numbers in the file's length unit.
"""

import random

import numpy as np

from . import oracle as O
from . import world as W
from .core import drop

BAD = ["unknown_group", "unknown_field", "bad_dimension", "region_short", "region_row", "region_outside", "region_plain", "bound_plain",
       "vector_field", "index_outside", "index_negative", "region_unit"]


# -- drawing operations --------------------------------------------------------

def rand_axis(rng, edge=False):
    r = rng.random()
    if r < 0.12:
        return None
    if r < 0.5:
        w = rng.choice([0.02, 0.1, 0.3, 0.5])
        lo = rng.uniform(0, 1)
        a = [lo, min(1.0, lo + w * rng.uniform(0.3, 1))]
    elif r < 0.65:      # wrapped around the box
        lo = rng.uniform(0.6, 1.0)
        a = [lo, lo + rng.uniform(0.05, 0.49)]
        a = a if rng.random() < 0.5 else [lo - 1.0, a[1] - 1.0]
        a[0] = max(a[0], -0.5)
    elif r < 0.8:       # inverted: selects through the boundary
        a = sorted([rng.uniform(0, 1), rng.uniform(0, 1)], reverse=True)
    elif r < 0.87:      # inverted outside the primary box
        a = sorted([rng.uniform(-0.5, 1.5), rng.uniform(-0.5, 1.5)], reverse=True)
    elif r < 0.93:
        a = sorted([rng.uniform(-0.5, 1.5), rng.uniform(-0.5, 1.5)])
    elif r < 0.96:
        x = rng.uniform(0, 1)
        a = [x, x]
    else:               # exactly on cell edges
        q = rng.choice([1, 2, 3, 4])
        lo = rng.randrange(0, q + 1) / q
        a = [lo, min(1.0, lo + rng.randrange(0, q + 1) / q)]
    return [round(a[0], 6), round(a[1], 6)]


def rand_spatial(rng, union=None):
    region = [rand_axis(rng) for _ in range(3)]
    if rng.random() < 0.45:        # mostly a slab, so several cells are hit
        for i in rng.sample(range(3), 2):
            region[i] = None
    return {"op": "spatial", "region": region, "unit": rng.choice(["native", "native", "kpc", "cm"]), "physical": rng.random() < 0.25,
            "form": rng.choice(["array", "list", "quantities"]), "union": rng.random() < 0.5 if union is None else union,
            "legacy": rng.random() < 0.05}


def rand_property(rng):
    lo = rng.uniform(-0.1, 1.0)
    hi = rng.uniform(lo, 1.2) if rng.random() < 0.9 else rng.uniform(-0.1, lo)
    return {"op": "property", "g": rng.randrange(50), "f": rng.randrange(50), "lo": round(lo, 4), "hi": round(hi, 4),
            "exact": rng.choice([False] * 6 + [True] * 3 + ["above", "below"]), "unit": rng.choice(["native", "native", "mks"]), "physical": rng.random() < 0.25,
            "legacy": rng.random() < 0.08}


def rand_index(rng):
    if rng.random() < 0.3:
        return {"op": "index", "at": round(rng.random(), 5)}
    n = rng.choice([0, 1, 2, 3, 5, 10, 40])
    return {"op": "indices", "at": [round(rng.random(), 5) for _ in range(n)], "run": rng.random() < 0.3,
            "type": rng.choice(["list", "list", "array", "tuple"]), "order": rng.choice(["asc", "asc", "desc", "shuffle", "inner"]),
            "repeat": rng.choice([0, 0, 0, 0, 1, 2])}


def rand_convert(rng):
    return {"op": rng.choice(["to_bool", "to_ranges"])}


def rand_bad(rng):
    return {"op": "bad", "how": rng.choice(BAD), "g": rng.randrange(50), "f": rng.randrange(50), "x": round(rng.uniform(1.51, 3), 3) * rng.choice([1, -1])}


# -- the model -----------------------------------------------------------------

class Model:
    """Selected rows of each group, as the documentation defines them."""

    def __init__(self, ctx, w, path, padding=0.1):
        self.ctx, self.w, self.path = ctx, w, path
        self.source = None       # what to load from, if not the path
        self.shared = w.p["kind"] == "soap"
        self.keys = ["shared"] if self.shared else sorted(w.groups)
        self.n = {k: (w.p["n"] if self.shared else w.groups[k][1]) for k in self.keys}
        self.sel = {k: np.ones(self.n[k], bool) for k in self.keys}
        self.constrained = None
        self.cells = {}
        self.padding = padding
        self.pending = None
        self.a = O.scale_factor(w)
        self.pt = {k: ("shared" if self.shared else next(t for t, nm in W.PT_NAME.items() if nm == k)) for k in self.keys}

    def key(self, g):
        return "shared" if self.shared else g

    def rows(self, g):
        return np.where(self.sel[self.key(g)])[0]

    def copy_sel(self):
        return {k: v.copy() for k, v in self.sel.items()}

    # -- spatial
    def outside(self, region):
        return any(r is not None and (min(r) < -0.5 or max(r) > 1.5) for r in region)

    def near_limit(self, region):
        return any(r is not None and any(abs(x + 0.5) < 1e-9 or abs(x - 1.5) < 1e-9 for x in r) for r in region)

    def axis_interval(self, ax):
        """(lo, hi) as box fractions with lo <= hi, or None for the whole axis; or 'edge'."""
        if ax is None:
            return None
        lo, hi = ax
        if abs(hi - lo) > 1:
            return None
        if hi < lo:
            if lo > 0.5:
                lo -= 1
            elif hi < 0.5:
                hi += 1
        return lo, hi

    def extents(self, key):
        w, pt = self.w, self.pt[key]
        half = 0.5 * w.cell_size
        lo, hi = w.centres - half, w.centres + half
        if not self.shared:
            if w.p["minmax"]:
                lo, hi = np.minimum(lo, w.minpos[pt]), np.maximum(hi, w.maxpos[pt])
            else:
                lo, hi = lo - self.padding * w.cell_size, hi + self.padding * w.cell_size
        return lo / w.box, hi / w.box

    def cells_touching(self, key, region, eps):
        lo, hi = self.extents(key)
        out = np.ones(len(lo), bool)
        for d, ax in enumerate(region):
            iv = self.axis_interval(ax)
            if iv is None:
                continue
            one = np.zeros(len(lo), bool)
            for s in (-1, 0, 1):
                one |= (hi[:, d] + s > iv[0] - eps) & (lo[:, d] + s < iv[1] + eps)
            out &= one
        return out

    def particles_in(self, g, region):
        """Rows of group g whose position lies in the (periodic) region."""
        w = self.w
        if self.shared:
            pos = w.pos
        else:
            pos = w.fields[f"{w.groups[g][0]}/Coordinates"].native()
        x = pos / w.box
        out = np.ones(len(x), bool)
        for d, ax in enumerate(region):
            iv = self.axis_interval(ax)
            if iv is None:
                continue
            one = np.zeros(len(x), bool)
            for s in (-2, -1, 0, 1, 2):
                one |= (x[:, d] + s > iv[0] + 1e-9) & (x[:, d] + s < iv[1] - 1e-9)
            out &= one
        return out

    def spatial(self, region, union):
        must, may = {}, {}
        for k in self.keys:
            a, b = self.cells_touching(k, region, -1e-7), self.cells_touching(k, region, 1e-7)
            if union and self.constrained == "spatial":
                a, b = a | self.cells[k][0], b | self.cells[k][1]
            must[k], may[k] = a, b
        self.cells = {k: (must[k], may[k]) for k in self.keys}
        self.constrained = "spatial"
        self.sel = {k: may[k][self.w.cell_of[self.pt[k]]] for k in self.keys}
        lows = {k: must[k][self.w.cell_of[self.pt[k]]] for k in self.keys}
        if any((lows[k] != self.sel[k]).any() for k in self.keys):
            self.pending = lows       # edge-on cells: settled by the next observation
        else:
            self.pending = None

    def settle(self, actual):
        """Resolve cells that touch the region only at an edge, from what was observed."""
        if self.pending is None:
            return
        for k in self.keys:
            got = np.zeros(self.n[k], bool)
            got[actual[k]] = True
            self.ctx.check(not (self.pending[k] & ~got).any(), "rows-missing", f"{k}: rows of cells inside the region are missing")
            self.ctx.check(not (got & ~self.sel[k]).any(), "rows-extra", f"{k}: rows of cells the region does not touch are selected")
            cell_of = self.w.cell_of[self.pt[k]]
            cells = np.zeros(len(self.w.centres), bool)
            cells[cell_of[got]] = True
            self.ctx.check((cells[cell_of] == got).all(), "partial-cell", f"{k}: only part of a cell is selected")
            self.sel[k] = got
            hollow = ~np.isin(np.arange(len(cells)), cell_of)     # cells without rows: never observable
            self.cells[k] = (self.cells[k][0] | cells, (self.cells[k][1] & hollow) | cells)
        self.pending = None


# -- building arguments ----------------------------------------------------------

def region_arg(w, op):
    """The user's region argument for a spatial op."""
    import unyt
    from swiftsimio import cosmo_array, cosmo_quantity
    a = O.scale_factor(w)
    comoving = not op["physical"]
    length = field_unit(w, W.Field(None, (1, 0, 0, 0, 0)))[0]
    unit, f = length, 1.0
    if op["unit"] != "native":
        unit = unyt.Unit(op["unit"])
        f = float(length.base_value) / float(unit.base_value)
    if not comoving:
        f *= a
    kw = dict(comoving=comoving, scale_factor=a, scale_exponent=1)
    vals = [None if r is None else [x * b * f for x in r] for r, b in zip(op["region"], w.box)]
    if op["form"] == "array" and all(v is not None for v in vals):
        return cosmo_array(vals, unit, **kw)
    if op["form"] == "quantities":
        return [None if v is None else [cosmo_quantity(v[0], unit, **kw), cosmo_quantity(v[1], unit, **kw)] for v in vals]
    return [None if v is None else cosmo_array(v, unit, **kw) for v in vals]


def scalar_fields(w, g):
    return sorted(n for n, f in w.group_fields(g).items() if f.data.ndim == 1 and n not in w.named)


def bounds_arg(w, g, n, op):
    """(lower, upper, rows satisfying the bounds) for a property op on field n."""
    from swiftsimio import cosmo_quantity
    import unyt
    f = w.fields[f"{w.groups[g][0]}/{n}"]
    v = f.native().astype("f8") if f.data.dtype.kind == "f" else f.native()
    s = np.unique(v)
    a = O.scale_factor(w)
    old = w.p.get("old", False)
    physical = f.physical and not old
    conv = f.conv or old
    unit, base = field_unit(w, f)

    def pick(q):
        if len(s) == 0:
            return q
        i = q * len(s)
        if i < 0:
            return float(s[0]) - 1.0
        if i >= len(s):
            return float(s[-1]) + 1.0
        i = int(i)
        if op["exact"]:      # a stored value, or closer to it than single precision can tell
            x = float(s[i])
            return x + {"above": 1e-12, "below": -1e-12}.get(op["exact"], 0.0) * (abs(x) or 1.0)
        if i + 1 < len(s):
            return float(s[i]) + 0.5 * (float(s[i + 1]) - float(s[i]))
        return float(s[i]) + 0.5 * (abs(float(s[i])) + 1)

    lo, hi = pick(op["lo"]), pick(op["hi"])
    keep = (v > lo) & (v <= hi)
    scale = 1.0
    comoving = not physical
    if not op["exact"]:
        # a bound too close to a stored value to survive a unit conversion would be unfair
        ok = all(len(s) == 0 or np.min(np.abs(s.astype("f8") - b) / (np.abs(b) + 1e-300)) > 1e-5 for b in (lo, hi))
        if ok and op["physical"] and conv:
            scale = a ** f.a if comoving else a ** -f.a
            comoving = not comoving
        if ok and op["unit"] == "mks" and any(f.ue):
            new = unit.get_mks_equivalent()
            scale *= float(unit.base_value) / float(new.base_value)
            unit = new
    kw = dict(comoving=comoving, scale_factor=a, scale_exponent=f.a)
    if not conv:
        kw["valid_transform"] = False
    return cosmo_quantity(lo * scale, unit, **kw), cosmo_quantity(hi * scale, unit, **kw), keep


_units = {}


def field_unit(w, f):
    """The file's unit of a field exactly as swiftsimio states it (so that no rounding enters)."""
    import swiftsimio as sw
    if id(w) not in _units:
        _units.clear()
        _units[id(w)] = sw.metadata.objects.SWIFTUnits(w.path)
    u = _units[id(w)]
    import unyt
    unit = unyt.dimensionless
    for e, name in zip(f.ue, ("length", "mass", "time", "current", "temperature")):
        if e:
            unit = unit * getattr(u, name) ** e
    unit = unyt.Unit(unit)
    return unit, None


# -- applying operations -----------------------------------------------------------

def index_list(model, op):
    n = model.n[model.keys[0]]
    if op["op"] == "index":
        if not n:
            return [0]      # out of range whatever it is
        return [min(n - 1, int(op["at"] * n))]
    idx = sorted({min(n - 1, int(x * n)) for x in op["at"]}) if n else []
    if op["run"] and idx:
        idx = list(range(idx[0], min(n, idx[0] + len(idx) + 2)))
    if op["order"] == "desc":
        idx = idx[::-1]
    elif op["order"] == "shuffle":
        random.Random(op["g"] if "g" in op else len(idx)).shuffle(idx)
    elif op["order"] == "inner" and len(idx) > 3:       # only two inner neighbours out of order
        i = 1 + len(idx) // 3
        idx[i], idx[i - 1] = idx[i - 1], idx[i]
    if op.get("repeat") and idx:
        idx.insert(len(idx) // 2, idx[len(idx) // 2])
        if op["repeat"] > 1:
            idx.append(idx[0])
    return idx


def plan(model, op):
    """(callable on the mask, whether the operation is legal, model update) for an op."""
    w = model.w
    k = op["op"]
    if k == "spatial":
        arg = region_arg(w, op)
        legal = not model.outside(op["region"]) and (model.constrained is None or (model.constrained == "spatial" and op["union"]))
        if model.near_limit(op["region"]):
            return None
        kw = {"intersect": op["union"]} if op.get("legacy") else {"union": op["union"]}
        return (lambda m: m.constrain_spatial(arg, **kw)), legal, lambda: model.spatial(op["region"], op["union"])
    if k == "property":
        gs = [g for g in sorted(w.groups) if scalar_fields(w, g)]
        if not gs:
            return None
        g = gs[op["g"] % len(gs)]
        n = scalar_fields(w, g)[op["f"] % len(scalar_fields(w, g))]
        lo, hi, keep = bounds_arg(w, g, n, op)

        def upd():
            model.sel[model.key(g)] &= keep
            model.constrained = "property"
        name = "constrain_mask" if op.get("legacy") else "constrain_property"
        return (lambda m: getattr(m, name)(g, W.snake(n), lo, hi)), True, upd
    if k in ("index", "indices"):
        legal = model.constrained is None and w.p["kind"] == "soap"
        idx = index_list(model, op) if w.p["kind"] == "soap" else [0]
        legal = legal and (k == "indices" or model.n["shared"] > 0)

        def upd():
            for kk in model.keys:
                keep = np.zeros(model.n[kk], bool)
                keep[idx] = True
                model.sel[kk] &= keep
            model.constrained = k
        if k == "index":
            return (lambda m: m.constrain_index(idx[0])), legal, upd
        arg = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, int)}[op["type"]](idx)
        return (lambda m: m.constrain_indices(arg)), legal, upd
    if k == "to_bool":
        return (lambda m: m.convert_masks_to_bool()), True, lambda: None
    if k == "to_ranges":
        return (lambda m: m.convert_masks_to_ranges()), True, lambda: None
    if k == "bad":
        return bad_call(model, op), False, lambda: None
    raise KeyError(k)


def bad_call(model, op):
    """A call that must be refused whatever the state of the mask."""
    import unyt
    from swiftsimio import cosmo_array, cosmo_quantity
    w = model.w
    a = O.scale_factor(w)
    g = sorted(w.groups)[op["g"] % len(w.groups)]
    fs = scalar_fields(w, g)
    how = op["how"]
    fs = [n for n in fs if any(w.fields[f"{w.groups[g][0]}/{n}"].ue)]     # unyt compares dimensionless data with anything
    if not fs and how in ("bad_dimension", "bound_plain"):
        how = "unknown_field"
    kw = dict(comoving=True, scale_factor=a, scale_exponent=1)
    L = cosmo_quantity(1.0, unyt.Mpc, **kw)
    one = cosmo_array([0.1, 0.2], unyt.Mpc, **kw)
    if how == "unknown_group":
        return lambda m: m.constrain_property("halos_of_doom", "masses", L, L)
    if how == "unknown_field":
        return lambda m: m.constrain_property(g, "not_a_field", L, L)
    if how == "bad_dimension":
        n = fs[op["f"] % len(fs)]
        f = w.fields[f"{w.groups[g][0]}/{n}"]
        q = cosmo_quantity(1.0, unyt.Unit("km**7*s**5"), comoving=not (f.physical and not w.p.get("old")), scale_factor=a, scale_exponent=f.a)
        return lambda m: m.constrain_property(g, W.snake(n), q, q)
    if how == "bound_plain":
        n = next((n for n in fs if any(w.fields[f"{w.groups[g][0]}/{n}"].ue)), None)
        if n is None:
            return lambda m: m.constrain_property(g, "not_a_field", L, L)
        q = unyt.unyt_quantity(1.0, "km**7*s**5")
        return lambda m: m.constrain_property(g, W.snake(n), q, q)
    if how == "vector_field":
        n = next((n for n, f in sorted(w.group_fields(g).items()) if f.data.ndim == 2 and f.data.shape[1] > 1 and f.data.shape[0] > 0), None)
        if n is None:
            return lambda m: m.constrain_property(g, "not_a_field", L, L)
        f = w.fields[f"{w.groups[g][0]}/{n}"]
        q = cosmo_quantity(1.0, field_unit(w, f)[0], comoving=not (f.physical and not w.p.get("old")), scale_factor=a, scale_exponent=f.a)
        return lambda m: m.constrain_property(g, W.snake(n), q, q)
    if how == "region_short":
        return lambda m: m.constrain_spatial([one, one], union=model.constrained == "spatial")
    if how == "region_row":
        three = cosmo_array([0.1, 0.2, 0.3], unyt.Mpc, **kw)
        return lambda m: m.constrain_spatial([three, None, None], union=model.constrained == "spatial")
    if how == "region_plain":
        return lambda m: m.constrain_spatial([[0.1, 0.2], None, None], union=model.constrained == "spatial")
    if how == "region_unit":
        t = cosmo_array([0.1, 0.2], unyt.s, **kw)
        return lambda m: m.constrain_spatial([t, None, None], union=model.constrained == "spatial")
    if how == "region_outside":
        x = op["x"]
        if -0.5 <= x <= 1.5:
            x = 2.0
        spec = {"region": [None, None, [x, x - 0.1 if x < 0 else x + 0.1]], "unit": "native", "physical": False, "form": "list"}
        arg = region_arg(w, spec)
        return lambda m: m.constrain_spatial(arg, union=model.constrained == "spatial")
    n = model.n[model.keys[0]]
    if how == "index_outside":
        return lambda m: m.constrain_index(n + op["f"] % 3)
    if how == "index_negative":
        return lambda m: m.constrain_indices([-1 - op["f"] % 3])
    raise KeyError(how)


def apply(ctx, model, m, op):
    """One mask operation, with faults if the op carries some; model and mask must agree on legality."""
    p = plan(model, op)
    if p is None:
        ctx.ev("skip", op["op"])
        return "skip"
    call, legal, update = p
    label = op["op"] + (":" + op["how"] if op["op"] == "bad" else "")
    ctx.arm(op.get("faults", []))
    err = None
    try:
        call(m)
    except Exception as e:
        err = e
    fired = ctx.disarm()
    out = type(err).__name__ if err else "ok"
    ctx.ev("mask", label, out, bool(fired), legal)
    if err is None:
        ctx.check(legal, f"accepted:{label}", f"{label} was accepted after constraint {model.constrained!r} (op {op})")
        update()
        if model.pending is not None:      # edge-on cells: look now
            judge_rows(ctx, model, load_masked(ctx, model, m), "edge-on region")
    elif not legal:
        ctx.probe(f"refused_{label}")
        drop(err)
    elif fired and not O.benign(fired):
        ctx.probe("constraint_failed_on_fault")
        drop(err)
    else:
        raise err
    return out


def load_masked(ctx, model, m, source=None):
    import swiftsimio as sw
    source = source if source is not None else model.source
    return sw.load(model.path if source is None else source, mask=m)


def observed_rows(ctx, model, data, g):
    """Row numbers (in the order returned) of group g in a masked dataset, from its unique IDs."""
    w = model.w
    if model.shared:
        g, n = "input_halos", "HaloCatalogueIndex"
    else:
        n = "ParticleIDs"
    if not model.shared and not w.p.get("canhave", True) and not hasattr(data, g):
        return np.zeros(0, int)     # without CanHaveTypes a type with no particles left is not exposed
    f = w.fields[f"{w.groups[g][0]}/{n}"].native()
    got = np.asarray(getattr(getattr(data, g), W.snake(n)).view(np.ndarray))
    ctx.check(got.ndim == 1, "shape", f"{g}.{n}: shape {got.shape}")
    order = np.argsort(f, kind="stable")
    pos = np.searchsorted(f[order], got)
    ok = (pos < len(f)) & (f[order][np.minimum(pos, len(f) - 1)] == got) if len(f) else np.zeros(len(got), bool)
    ctx.check(bool(np.all(ok)), "alien-rows", f"{g}: {int((~ok).sum())} of {len(got)} IDs read through the mask are not in the file")
    rows = order[pos] if len(got) else np.zeros(0, int)
    ctx.check(len(np.unique(rows)) == len(rows), "duplicate-rows", f"{g}: {len(rows) - len(np.unique(rows))} rows are returned more than once")
    return rows


def judge_rows(ctx, model, data, what="masked data"):
    """The rows selected in every group are those of the model. Returns {group: rows in order}."""
    w = model.w
    actual = {}
    for k in model.keys:
        actual[k] = observed_rows(ctx, model, data, k)
    model.settle(actual)
    out = {}
    for k in model.keys:
        exp = np.where(model.sel[k])[0]
        got = np.sort(actual[k])
        miss = np.setdiff1d(exp, got)
        extra = np.setdiff1d(got, exp)
        ctx.check(len(miss) == 0, "rows-missing", f"{what}: {k} lacks {len(miss)} of the {len(exp)} selected rows, e.g. row {miss[:1]}")
        ctx.check(len(extra) == 0, "rows-extra", f"{what}: {k} has {len(extra)} rows that are not selected, e.g. row {extra[:1]}")
    for g in w.groups:
        out[g] = actual[model.key(g)]
    return out


def judge_sizes(ctx, model, m):
    if getattr(m, "range_mask", False):
        for g in model.w.groups:
            n = int(model.sel[model.key(g)].sum())
            ctx.check(int(getattr(m, f"{g}_size")) == n, "mask-size", f"mask reports {getattr(m, f'{g}_size')} rows of {g}, selected are {n}")
