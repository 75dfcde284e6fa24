"""P16: parallel visualisation equals serial for any schedule and thread count."""

import importlib
import json
import os
import tempfile

import numpy as np

from sim import spmd
from sim import world as W
from sim.core import drop, show
from sim.runner import Prop

V = "swiftsimio.visualisation."


def pairs():
    """name -> (serial, parallel, kind)"""
    pb = importlib.import_module(V + "projection_backends")
    sb = importlib.import_module(V + "slice_backends")
    vb = importlib.import_module(V + "volume_render_backends")
    vs = importlib.import_module(V + "volume_render_backends.scatter")
    ps = importlib.import_module(V + "power_spectrum")
    out = {}
    for k in ("fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme"):
        out[f"project:{k}"] = (pb.backends[k], lambda k=k: pb.backends_parallel[k], "project")
    for k in ("sph", "nearest_neighbours"):
        out[f"slice:{k}"] = (sb.backends[k], lambda k=k: sb.backends_parallel[k], "slice")
    out["render:scatter"] = (vb.backends["scatter"], lambda: vb.backends_parallel["scatter"], "render")
    out["render:ratio"] = (vs.scatter_limited_z, lambda: vs.scatter_parallel, "ratio")
    out["deposit"] = (ps.deposit, lambda: ps.deposit_parallel, "deposit")
    return out


NAMES = ["project:fast", "project:histogram", "project:reference", "project:renormalised", "project:subsampled", "project:subsampled_extreme",
         "slice:sph", "slice:nearest_neighbours", "render:scatter", "render:ratio", "deposit"]
PIPES = ["project_gas", "slice_gas", "render_gas", "deposit"]


def kernel_args(case):
    r = np.random.default_rng(case["seed"])
    n, kind = case["n"], pairs()[case["pair"]][2]
    lo, hi = (-0.2, 1.2) if case["wide"] else (0.0, 1.0)
    x, y, z = (np.ascontiguousarray(lo + (hi - lo) * a) for a in r.random((3, n)))
    m = (r.random(n) + 0.1).astype(case["mt"])
    if case["signed"]:
        m *= np.where(r.random(n) < 0.5, -1, 1).astype(case["mt"])
    h = (10 ** (case["h"][0] + (case["h"][1] - case["h"][0]) * r.random(n))).astype(case["ht"])
    if case["dup"] and n:      # several particles on the same spot: the same pixels from every worker
        x[:], y[:], z[:] = x[0], y[0], z[0]
    box = [0.0, 0.0, 0.0]
    if case["periodic"]:
        box = [case["box"]] * 3
        x, y, z = x % case["box"], y % case["box"], z % case["box"]
    res = case["res"]
    if kind == "project":
        return dict(x=x, y=y, m=m, h=h, res=res, box_x=box[0], box_y=box[1])
    if kind == "slice":
        return dict(x=x, y=y, z=z, m=m, h=h, z_slice=np.array(case["zs"]), xres=res, yres=max(1, res - case["cut"]), box_x=box[0], box_y=box[1], box_z=box[2])
    if kind == "deposit":
        L = case["box"]
        return dict(x=x % L, y=y % L, z=z % L, m=m, res=res, fold=float(2 ** case["fold"]), box_x=L, box_y=L, box_z=L)
    a = dict(x=x, y=y, z=z, m=m, h=h, res=res, box_x=box[0], box_y=box[1], box_z=box[2])
    if kind == "ratio":
        a["res_ratio_z"] = case["ratio"]
        a["res"] = max(res, case["ratio"])
    return a


def copies(a):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in a.items()}


class P16(Prop):
    id = "P16"
    quick_runs, quick_wall = 2500, 30
    rule = ("One run = one parallel image, slice, volume or deposit computed under a seeded schedule of simulated workers (NUM_THREADS 1-70, 1-16 workers, block, cyclic or random division, "
            "pauses between statements and inside element updates), compared with the compiled serial result; half of the runs go through the public pipelines on a generated snapshot. "
            "Distinct = (loop length, workers, schedule prefix) triples.")
    real = ["swiftsimio.visualisation pipelines and the source of every parallel function", "compiled serial kernels"]
    stubs = ["numba's parallel runtime (worker threads, prange division, reductions), as described in sim/spmd.py", "NUM_THREADS"]
    assumptions = ["numba's own transformation of a correct prange loop is correct", "the serial functions are the reference (judged by other means)"]

    def warmup(self):
        import swiftsimio as sw
        from swiftsimio import visualisation  # noqa: F401
        d = tempfile.mkdtemp(prefix="swsim_warm_")
        try:
            p = W.vis_params(3)
            path = os.path.join(d, "s.hdf5")
            W.build(path, p)
            for c in ([{"call": "project_gas", "backend": b} for b in ("fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme")]
                      + [{"call": "slice_gas", "backend": "sph"}, {"call": "render_gas"}, {"call": "deposit"}]):
                pipe(sw.load(path), dict(c, res=4, periodic=True, project="masses", region=None), False)
            for name in NAMES:
                c = {"pair": name, "seed": 1, "n": 3, "wide": False, "mt": "f4", "ht": "f8", "signed": False, "h": [-1.5, -1], "dup": False, "periodic": True, "box": 1.0,
                     "res": 4, "zs": 0.5, "cut": 0, "fold": 0, "ratio": 2}
                pairs()[name][0](**kernel_args(c))
            for per in (True, False):
                pipe(sw.load(path), {"call": "project_gas", "backend": "histogram", "res": 4, "periodic": per, "project": None, "region": None}, False)
            spmd.World(None, {"threads": 2, "workers": 2, "seed": 0, "assign": "block", "switch": 0.5}).prepare()
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)

    def gen(self, rng, tier):
        t = rng.choice([1, 2, 3, 4, 7, 8, 16, 33, 70])
        sched = {"threads": t, "workers": rng.choice([1, 2, 2, 3, 4, 8, 16]), "seed": rng.randrange(1 << 30), "assign": rng.choice(["block", "cyclic", "random", "random"]),
                 "switch": rng.choice([0.05, 0.3, 0.6, 1.0])}
        if rng.random() < 0.7:
            pair = rng.choice(NAMES)
            small = pair.startswith("render") or pair == "deposit"
            lo = rng.choice([-3, -2, -1.3, -1, -0.7])
            if pair == "render:ratio":      # kernels wider than the flattened voxels, so that z wraps
                lo = rng.choice([-1.3, -1, -0.7, -0.6])
            return {"level": "kernel", "pair": pair, "seed": rng.randrange(1 << 30), "n": rng.choice([0, 1, 2, 3, 5, 8, 17, 40, 71, 133]), "wide": rng.random() < 0.3,
                    "mt": "f4", "ht": "f8", "signed": rng.random() < 0.4, "h": [lo, min(-0.4, lo + rng.choice([0, 0.5, 1.5]))],
                    "dup": rng.random() < 0.15, "periodic": rng.random() < 0.5, "box": rng.choice([1.0, 1.0, 1.5, 3.0]), "res": rng.choice([4, 6, 8, 9] if pair == "render:ratio" else [1, 2, 3, 5, 8] if small else [1, 2, 5, 8, 16, 24]),
                    "zs": rng.random(), "cut": rng.choice([0, 0, 1, 3]), "fold": rng.randrange(3), "ratio": rng.choice([1, 2, 3, 4]), "sched": sched}
        call = rng.choice(PIPES)
        backend = None
        if call == "project_gas":
            backend = rng.choice(["fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme"])
        elif call == "slice_gas":
            backend = rng.choice(["sph", "sph", "nearest_neighbours"])
        return {"level": "pipe", "wseed": rng.randrange(1 << 30), "n": rng.choice([1, 3, 10, 37, 90]), "sched": sched, "mask": rng.choice([None, None, 0.5]),
                "call": {"call": call, "backend": backend, "res": rng.choice([2, 4, 8]), "periodic": rng.random() < 0.7, "project": rng.choice(["masses", "masses", "temperatures", "densities"] + ([None] if backend in ("histogram", "nearest_neighbours") else [])),
                         "region": rng.choice([None, None, [0.1, 0.6], [0.3, 1.2], [-0.2, 0.5]]), "zreg": rng.random() < 0.3, "pmask": rng.random() < 0.2, "rot": rng.random() < 0.2,
                         "fold": rng.randrange(3)}}

    def shrink(self, case):
        for n in (0, 1, 2, 3, 5, 8, 17):
            if n < case["n"]:
                yield dict(case, n=n)
        s = case["sched"]
        for k, vs in (("threads", (1, 2, 3)), ("workers", (1, 2)), ("assign", ("block",)), ("switch", (0.05, 0.3))):
            for v in vs:
                if s[k] != v and (isinstance(v, str) or v < s[k]):
                    yield dict(case, sched=dict(s, **{k: v}))
        for k, v in (("periodic", False), ("dup", False), ("signed", False), ("wide", False), ("cut", 0), ("fold", 0)):
            if case["level"] == "kernel" and case[k]:
                yield dict(case, **{k: v})
        if case["level"] == "pipe":
            for k, v in (("region", None), ("zreg", False), ("pmask", False), ("rot", False), ("fold", 0), ("project", "masses")):
                if case["call"].get(k) != v:
                    yield dict(case, call=dict(case["call"], **{k: v}))

    def run(self, case, ctx):
        sim = spmd.World(ctx, case["sched"])
        if case["level"] == "kernel":
            serial, par, kind = pairs()[case["pair"]]
            args = kernel_args(case)
            if kind == "ratio" and case["ratio"] == 1:      # documented: ratio 1 is the plain render
                serial = pairs()["render:scatter"][0]
                sargs = {k: v for k, v in args.items() if k != "res_ratio_z"}
            else:
                sargs = args
            ref, e1 = attempt(lambda: serial(**copies(sargs)))
            if e1 is None and kind not in ("deposit",):
                scale, _ = attempt(lambda: serial(**dict(copies(sargs), m=np.abs(args["m"]))))
            elif e1 is None:
                scale = serial(**dict(copies(sargs), m=np.abs(args["m"])))
            names, undo = sim.install()
            given = copies(args)
            got, e2 = attempt(lambda: par()(**given))
            if e2 is not None and e1 is None:
                undo()
                given = copies(args)
                got, e2 = self.once_more(ctx, case, e2, lambda: par()(**given))
            self.compare(ctx, case["pair"], ref, e1, got, e2, scale if e1 is None else None)
            if "nearest" not in case["pair"]:
                for k, v in args.items():
                    if isinstance(v, np.ndarray):
                        ctx.check(np.array_equal(given[k], v), "input-changed", f"{case['pair']}: the parallel function changed its input {k}")
        else:
            import swiftsimio as sw
            p = W.vis_params(case["wseed"], n=case["n"])
            path = ctx.path("s.hdf5")
            W.build(path, p)
            c = case["call"]
            ref, e1 = attempt(lambda: pipe(sw.load(path), c, False))
            names, undo = sim.install()
            got, e2 = attempt(lambda: pipe(sw.load(path), c, True))
            if e2 is not None and e1 is None:
                undo()
                got, e2 = self.once_more(ctx, case, e2, lambda: pipe(sw.load(path), c, True))
            scale = None
            if e1 is None:
                scale = np.abs(ref.v)
                ctx.check(e2 is not None or (ref.units == got.units and ref.comoving == got.comoving and ref.cosmo_factor == got.cosmo_factor), "units",
                          lambda: f"{c}: parallel {got.units} {got.comoving} {got.cosmo_factor}, serial {ref.units} {ref.comoving} {ref.cosmo_factor}")
                ref, got = ref.v, None if got is None else got.v
            self.compare(ctx, f"{c['call']}:{c['backend']}", ref, e1, got, e2, scale)
        ctx.state(case["level"], case.get("pair") or case["call"]["call"], case["sched"]["assign"], case["sched"]["workers"])
        ctx.probe("simulated_functions", len(names))
        if sim.unsimulated:
            ctx.probe("functions_run_in_order", len(sim.unsimulated))
        if sim.loops == 0:
            ctx.probe("ran_without_a_parallel_loop")
        if sim.conflicts:
            ctx.probe("conflicting_updates", sim.conflicts)
        ctx.ev("end", sim.loops, sim.pauses)

    def once_more(self, ctx, case, e2, f):
        """Is an exception the code's own, or does the rewriting not understand it? Its plain source, run in order, decides."""
        ctx.ev("raised", type(e2).__name__)
        spmd.World(ctx, dict(case["sched"], plain=True)).install()
        got, e3 = attempt(f)
        if e3 is None:
            ctx.probe("rewriting_did_not_fit")
        return got, e3

    def compare(self, ctx, what, ref, e1, got, e2, scale):
        s1, s2 = (None if e is None else type(e).__name__ for e in (e1, e2))
        ctx.ev("outcome", what, s1, s2)
        if e1 is not None or e2 is not None:
            ctx.check(e1 is not None and e2 is not None, "raises", lambda: f"{what}: parallel {'raised ' + show(e2) if e2 else 'succeeded'}, serial {'raised ' + show(e1) if e1 else 'succeeded'}")
            ctx.probe("both_raise")
            return
        ctx.check(got.shape == ref.shape and got.dtype == ref.dtype, "shape", lambda: f"{what}: parallel {got.shape} {got.dtype}, serial {ref.shape} {ref.dtype}")
        if not got.size:
            return
        a, b = got.astype("f8"), ref.astype("f8")
        fin = np.isfinite(b)
        ctx.check(np.array_equal(np.isfinite(a), fin), "finite", lambda: f"{what}: non-finite values differ")
        d = np.where(fin, np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)), 0)
        tol = 2e-5 * np.where(fin, np.abs(scale.astype("f8")), 0) + 1e-5 * float(np.abs(b[fin]).max() if fin.any() else 0) * 1e-3
        ctx.check((d <= tol).all(), "differs", lambda: f"{what}: {int((d > tol).sum())} of {d.size} values differ from the serial result; worst {d.max():.4g} where serial has "
                                                       f"{b.flat[int(d.argmax())]:.6g}; totals {a[fin].sum():.6g} and {b[fin].sum():.6g}")
        if np.count_nonzero(b):
            ctx.probe("nonempty_images")


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        drop(e)
        return None, e


def pipe(data, c, parallel):
    import unyt
    from swiftsimio import cosmo_array
    from swiftsimio import visualisation as vis
    ps = importlib.import_module(V + "power_spectrum")
    if c["call"] == "deposit":
        return ps.render_to_deposit(data.gas, c["res"], project=c["project"] or "masses", folding=c.get("fold", 0), parallel=parallel)
    kw = dict(resolution=c["res"], project=c["project"], parallel=parallel, periodic=c["periodic"])
    box = data.metadata.boxsize
    if c.get("region"):
        lo, hi = c["region"]
        L = float(box[0].v)
        r = [lo * L, hi * L] * (3 if c["call"] == "render_gas" or (c["call"] == "project_gas" and c.get("zreg")) else 2)
        kw["region"] = cosmo_array(r, box.units, comoving=True, scale_factor=data.metadata.a, scale_exponent=1)
    if c.get("rot") and not c["periodic"]:
        kw["rotation_center"] = box * 0.5
        kw["rotation_matrix"] = vis.rotation.rotation_matrix_from_vector(np.array([0.3, 0.5, 0.8]))
    if c.get("pmask"):
        kw["mask"] = np.arange(data.gas.masses.size) % 3 != 0
    if c.get("backend"):
        kw["backend"] = c["backend"]
    if c["call"] == "slice_gas":
        kw["z_slice"] = box[2] * 0.4
    import swiftsimio.visualisation.volume_render as vr
    fn = {"project_gas": importlib.import_module(V + "projection").project_gas, "slice_gas": importlib.import_module(V + "slice").slice_gas, "render_gas": vr.render_gas}[c["call"]]
    return fn(data, **kw)


PROP = P16()
