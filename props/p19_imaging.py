"""P19: images depend on the data and the arguments only, and leave both alone."""

import os

os.environ["NUMBA_DISABLE_JIT"] = "1"      # the kernels run as plain Python: no compilation, every allocation visible

import importlib  # noqa: E402
import random  # noqa: E402

import numpy as np  # noqa: E402

from sim import oracle as O  # noqa: E402
from sim import world as W  # noqa: E402
from sim.core import drop, show  # noqa: E402
from sim.runner import Prop  # noqa: E402

V = "swiftsimio.visualisation."
PROJ = ["fast", "histogram", "reference", "renormalised", "subsampled", "subsampled_extreme"]
FIELDS = ["masses", "masses", "densities", "temperatures", "element_mass_fractions.hydrogen", None]
VARY = ["matrix", "centre", "region", "res", "slice", "mask", "box", "turn"]
EDITS = ["coordinates", "masses", "smoothing_lengths", "back"]
BAD = ["backend", "project", "noncubic", "rotper", "depth", "nohsml", "mask"]


def rand_call(rng):
    call = rng.choice(["project", "project", "project", "slice", "slice", "render", "deposit", "hsml", "spectrum"])
    c = {"call": call, "res": rng.choice([1, 2, 5, 8, 12] if call in ("project", "slice") else [2, 3, 5]), "seed": rng.randrange(1 << 30), "parallel": rng.random() < 0.3}
    if call in ("project", "slice", "render"):
        # the histogram and nearest-neighbour schemes count particles when nothing is projected
        c.update(project=rng.choice(FIELDS if call != "render" else FIELDS[:-1]), periodic=rng.random() < 0.7,
                 region=rng.choice([None, None, "inside", "inside", "across", "wide"]), zreg=rng.random() < 0.35, pmask=rng.random() < 0.25,
                 rot=rng.random() < 0.35, gas=rng.random() < 0.6)
        c["backend"] = rng.choices(PROJ, [4, 4, 4, 4, 1, 1])[0] if call == "project" else rng.choice(["sph", "nearest_neighbours"]) if call == "slice" else None
        if c["rot"]:
            c["periodic"] = False
    elif call == "deposit":
        c.update(project=rng.choice(["masses", "densities"]), fold=rng.randrange(4))
    elif call == "spectrum":
        c.update(fold=[0, rng.randrange(1, 3)], bins=rng.choice([2, 4]), cross=rng.random() < 0.3, shot=rng.random() < 0.3)
    return c


class P19(Prop):
    id = "P19"
    quick_runs, quick_wall = 900, 34
    rule = ("One run = one generated snapshot and a history of images, slices, volumes, depositions, spectra and smoothing lengths on two datasets (whole and spatially masked), in a seeded order with "
            "repeats, failed calls, I/O errors and garbage in freshly allocated memory; every result is compared with the one a fresh dataset gives, every array the user holds with its copy. "
            "Distinct = (call, backend, periodic, region, rotation, frame, dataset, outcome) tuples.")
    real = ["swiftsimio.visualisation (pipelines and kernels, as Python)", "swiftsimio.load/mask/reader", "h5py, HDF5", "scipy KDTree and FFT"]
    stubs = ["libc file calls below the mount point", "content of uninitialised numpy arrays", "numba (kernels run uncompiled; P16 runs them compiled)"]
    assumptions = ["images from a masked dataset are compared where the mask covers the image and every kernel that reaches into it"]

    def warmup(self):
        import swiftsimio  # noqa: F401
        import scipy.fft  # noqa: F401
        importlib.import_module(V + "projection")
        importlib.import_module(V + "power_spectrum")

    def gen(self, rng, tier):
        calls = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            if calls and rng.random() < 0.5:       # one of a series: the same but for one argument
                vary = rng.choice(VARY)
                calls.append(dict(calls[-1], vary=vary, res=calls[-1]["res"] + (vary == "res")))
            else:
                calls.append(rand_call(rng))
        ops = []
        for _ in range(rng.randrange(3, 9)):
            k = rng.choices(["call", "bad", "read", "drop", "edit"], [8, 1.5, 2, 1, 1.5])[0]
            op = {"op": k, "i": rng.randrange(len(calls)), "on": rng.choice(["whole", "whole", "masked"]), "n": rng.randrange(1000), "bad": rng.choice(BAD)}
            if k == "call" and rng.random() < 0.25:
                op["faults"] = [O.rand_read_fault(rng, 40)]
                op["fresh"] = rng.random() < 0.6
            ops.append(op)
        n = rng.choice([1, 2, 7, 25, 60])
        if any((c.get("backend") or "").startswith("subsampled") for c in calls):      # slow as plain Python
            n = min(n, 7)
        return {"world": W.vis_params(rng.randrange(1 << 20), n=n, drift=rng.choice([0, 0, 0.6]), unwrapped=rng.random() < 0.6, edges=rng.random() < 0.25, a=rng.choice([0.25, 0.5, 0.8, 1.0])),
                "calls": calls, "ops": ops, "garbage": rng.randrange(1 << 30), "frame": rng.choice([None, None, "args", "coordinates", "hsml", "all"]), "mask": rng.random() < 0.6}

    def shrink(self, case):
        for i in range(len(case["ops"])):
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        for n in (1, 2, 7, 25):
            if n < case["world"]["ptypes"]["0"]:
                yield dict(case, world=dict(case["world"], ptypes={"0": n}))
        if case["frame"]:
            yield dict(case, frame=None)
        if len(case["calls"]) > 1:
            for i in range(len(case["calls"])):
                yield dict(case, calls=[case["calls"][i]], ops=[dict(o, i=0) for o in case["ops"]])
        for i, c in enumerate(case["calls"]):
            for k, v in (("pmask", False), ("rot", False), ("zreg", False), ("region", None), ("parallel", False)):
                if c.get(k) not in (None, v):
                    yield dict(case, calls=case["calls"][:i] + [dict(c, **{k: v})] + case["calls"][i + 1:])

    # -- the calls ---------------------------------------------------------

    def arguments(self, c, w, md, frame=False):
        """The arguments of a call, made once and used for every repeat of it; frame: the same lengths in the other frame and other units."""
        import unyt
        from swiftsimio import cosmo_array, cosmo_quantity
        L = float(w.box[0])
        r = np.random.default_rng(c["seed"])
        q = dict(units=md.boxsize.units, comoving=True, scale_factor=md.a, scale_exponent=1)

        def length(x):
            v = (cosmo_quantity if np.ndim(x) == 0 else cosmo_array)(x, **q)
            if frame:
                v = v.to_physical().to(unyt.Mpc if c["seed"] % 2 else unyt.pc)
            return v
        a = {}
        if c["call"] in ("project", "slice", "render"):
            a = dict(resolution=c["res"], project=c["project"], parallel=c["parallel"], periodic=c["periodic"])
            if c["backend"]:
                a["backend"] = c["backend"]
            if c["region"]:
                w3 = {"inside": 0.1 + 0.3 * r.random(3), "across": 0.1 + 0.4 * r.random(3), "wide": 0.8 + 0.5 * r.random(3)}[c["region"]]
                lo = {"inside": 0.05 + 0.5 * r.random(3), "across": 0.55 + 0.6 * r.random(3) - 0.3, "wide": -0.2 * r.random(3)}[c["region"]]
                if c.get("vary") == "region":
                    lo = lo[::-1].copy()
                if c["call"] == "render":
                    w3[:] = w3[0]
                if c["zreg"]:
                    w3[2] = min(w3[2], 0.97)
                n = 3 if c["call"] == "render" or (c["call"] == "project" and c["zreg"]) else 2
                a["region"] = length(np.stack([lo, lo + w3], axis=1)[:n].ravel() * L)
                if c["call"] != "render":      # the image is a square, cut to whole pixels: it may reach beyond the shorter side
                    w3[:2] = w3[:2].max()
                c["lohi"] = [[float(x), float(x + y)] for x, y in zip(lo, w3)]
            if c["rot"]:
                m = importlib.import_module(V + "rotation").rotation_matrix_from_vector(r.random(3) + 0.1)
                centre = r.random(3)
                if c.get("vary") == "matrix":
                    m = np.ascontiguousarray(m.T)
                elif c.get("vary") == "turn":
                    m = -m
                elif c.get("vary") == "centre":
                    centre = centre[::-1]
                a["rotation_center"] = length(centre * L)
                a["rotation_matrix"] = m
            if c["pmask"]:
                a["mask"] = np.arange(w.nrows("gas")) % 3 != (1 if c.get("vary") == "mask" else 0)
            if c["call"] == "slice":
                a["z_slice"] = length(float(r.random() * L))
                if c.get("vary") == "slice":
                    a["z_slice"] = length(float(r.random() * L))
        elif c["call"] == "deposit":
            a = dict(resolution=c["res"], project=c["project"], folding=c["fold"], parallel=c["parallel"])
        elif c["call"] == "hsml":
            a = dict(boxsize=length(w.box), kernel_gamma=1.8 + r.random(), neighbours=int(r.integers(2, 9)), speedup_fac=int(r.integers(1, 3)))
        elif c["call"] == "spectrum":
            a = dict(boxsize=length(w.box), number_of_wavenumber_bins=c["bins"], shot_noise_norm=10.0 if c["shot"] else None)
        return a

    def perform(self, c, d, a):
        if c["call"] in ("project", "slice", "render"):
            mod = {"project": "projection", "slice": "slice", "render": "volume_render"}[c["call"]]
            name = {"project": ("project_gas", "project_pixel_grid"), "slice": ("slice_gas", "slice_pixel_grid"), "render": ("render_gas", "render_voxel_grid")}[c["call"]]
            fn = getattr(importlib.import_module(V + mod), name[0 if c["gas"] else 1])
            return fn(d if c["gas"] else d.gas, **a)
        ps = importlib.import_module(V + "power_spectrum")
        if c["call"] == "deposit":
            return ps.render_to_deposit(d.gas, **a)
        if c["call"] == "hsml":
            return importlib.import_module(V + "smoothing_length").generate_smoothing_lengths(d.gas.coordinates, **a)
        deps = {k: ps.render_to_deposit(d.gas, c["res"], folding=k, parallel=c["parallel"]) for k in c["fold"]}
        cross = {k: ps.render_to_deposit(d.gas, c["res"], project="densities", folding=k) for k in c["fold"]} if c["cross"] else None
        box = a["boxsize"]
        k0 = 2 * np.pi / box[0]
        before = [x.copy() for x in deps.values()]
        out = ps.folded_depositions_to_power_spectrum(deps, wavenumber_range=(0.77 * k0, k0 * c["res"] * 4.13), cross_depositions=cross, **a)
        assert all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, deps.values())), "depositions changed"
        return out

    # -- what a run is -----------------------------------------------------

    def run(self, case, ctx):
        import warnings
        import swiftsimio as sw
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        path = ctx.path("d", "s.hdf5")
        os.mkdir(ctx.path("d"))
        w = W.build(path, case["world"])
        garbage = Garbage(case["garbage"])
        md = sw.load(path).metadata
        args = [self.arguments(c, w, md) for c in case["calls"]]
        kept = [Held(f"argument {k} of {c['call']}", v) for c, a in zip(case["calls"], args) for k, v in a.items() if isinstance(v, np.ndarray)]
        region = self.enclosing(case, w) if case["mask"] else None

        def open_(which):
            if which == "whole" or region is None:
                return sw.load(path)
            from swiftsimio import cosmo_array
            m = sw.mask(path)
            m.constrain_spatial([None if r is None else cosmo_array(r, md.boxsize.units, comoving=True, scale_factor=md.a, scale_exponent=1) for r in region])
            return sw.load(path, mask=m)

        base = {}
        for i, c in enumerate(case["calls"]):
            for which in ("whole",) if region is None or c.get("pmask") else ("whole", "masked"):
                garbage.next()
                base[i, which] = attempt(lambda: self.perform(c, open_(which), args[i]))
            ctx.ev("base", i, c["call"], c.get("backend"), None if base[i, "whole"][1] is None else type(base[i, "whole"][1]).__name__)
        for k in kept:
            k.check(ctx, "the first images")
        edits = {"whole": (), "masked": ()}

        def reference(i, which):
            """The result on a dataset loaded (and edited) for this call alone."""
            which = which if region is not None else "whole"
            key = (i, which) + ((edits[which],) if edits[which] else ())
            if key not in base and (i, which) in base:
                d = open_(which)
                for e in edits[which]:
                    self.edit(d, e)
                base[key] = attempt(lambda: self.perform(case["calls"][i], d, args[i]))
                ctx.probe("edited_images")
            return base.get(key)

        data = {x: open_(x) for x in ("whole", "masked")}
        md0 = {x: self.metadata(d) for x, d in data.items()}
        held = {"whole": [], "masked": []}
        for op in case["ops"]:
            which = op["on"]
            d, c = data[which], case["calls"][op["i"]]
            garbage.next()
            if op["op"] == "read":
                names = ["coordinates", "masses", "smoothing_lengths", "densities", "temperatures", "particle_ids"]
                n = names[op["n"] % len(names)]
                held[which].append(Held(f"{which} {n}", getattr(d.gas, n)))
                ctx.ev("read", which, n)
            elif op["op"] == "drop":
                held[which].clear()
            elif op["op"] == "bad":
                self.bad(ctx, op, d)
            elif op["op"] == "edit":
                if region is None:
                    which, d = "whole", data["whole"]
                held[which].clear()          # they may be the arrays that are edited
                e = EDITS[op["n"] % len(EDITS)]
                self.edit(d, e)
                edits[which] = () if e == "back" else edits[which] + (e,)
                ctx.ev("edit", which, e)
            elif reference(op["i"], which) is not None:
                ref = reference(op["i"], which)
                if region is None:
                    which, d = "whole", data["whole"]
                if op.get("fresh"):
                    d = open_(which)
                    for e in edits[which]:
                        self.edit(d, e)
                ctx.arm(op.get("faults", []))
                got = attempt(lambda: self.perform(c, d, args[op["i"]]))
                fired = ctx.disarm()
                what = f"{c['call']}:{c.get('backend')}"
                ctx.state(c["call"], c.get("backend"), c.get("periodic"), c.get("region"), c.get("rot"), c.get("pmask"), which, got[1] is None, bool(fired))
                if fired and not O.benign(fired) and got[1] is not None:
                    ctx.probe("io_error_reported")
                    drop(got[1])
                    garbage.next()
                    got = attempt(lambda: self.perform(c, d, args[op["i"]]))
                self.same(ctx, what, ref, got, "repeat" if not fired else "after-io-error")
                ctx.ev("call", op["i"], which, None if got[1] is None else type(got[1]).__name__)
            for k in kept + held["whole"] + held["masked"]:
                k.check(ctx, f"{op['op']} {c['call']}:{c.get('backend')}")
        for x, d in data.items():
            ctx.check(self.metadata(d) == md0[x], "metadata-changed", lambda: f"metadata of the {x} dataset changed from {md0[x]} to {self.metadata(d)}")
        if edits["whole"]:
            self.edit(data["whole"], "back")
        O.check_dataset(ctx, data["whole"], w, what="after the images")
        if region is not None:
            for i, c in enumerate(case["calls"]):
                if self.covered(c):
                    self.close(ctx, f"{c['call']}:{c.get('backend')}", base[i, "whole"], base[i, "masked"], "masked")
                    ctx.probe("masked_images_compared")
        for i, c in enumerate(case["calls"]):
            self.conserved(ctx, c, w, base[i, "whole"])
        if case["frame"] and not case["world"]["edges"]:      # (in other units a particle on an edge may round to the other side)
            self.frames(case, ctx, w, path, base, garbage)

    def edit(self, d, what):
        """What users do to a dataset between images."""
        g = d.gas
        if what == "coordinates":
            g.coordinates[:] = g.coordinates[::-1].copy()
        elif what == "masses":
            g.masses = g.masses * 2
        elif what == "smoothing_lengths":
            g.smoothing_lengths *= 1.25
        else:
            del g.coordinates, g.masses, g.smoothing_lengths

    def conserved(self, ctx, c, w, ref):
        """Every particle is in a deposition, or in a histogram of the whole periodic box, exactly once."""
        if not (c["call"] == "deposit" or (c["call"] == "project" and c["backend"] == "histogram" and c["periodic"] and not c["region"] and not c["pmask"])):
            return
        name = {"masses": "Masses", "densities": "Densities", "temperatures": "Temperatures"}.get(c["project"])
        if name is None:
            return
        ctx.check(ref[1] is None, "conservation", lambda: f"{c}: {show(ref[1])}")
        got = float(ref[0].view(np.ndarray).sum(dtype="f8"))
        total = w.fields[f"PartType0/{name}"].native().astype("f8")
        got /= (c["res"] * 2 ** c["fold"]) ** 3 if c["call"] == "deposit" else c["res"] ** 2 / float(np.prod(w.box[:2]))
        if c["call"] == "project":       # in the units of the field over those of the box
            lu = W.UNITS[w.p["units"]][0] * 1e-2
            got *= float(ref[0].units.base_value) / (O.expected_unit_mks(w, w.fields[f"PartType0/{name}"]) / lu ** 2)
        ctx.probe("conservation_checked")
        ctx.check(abs(got - total.sum()) <= 1e-3 * np.abs(total).sum(), "conservation", lambda: f"{c['call']}: the pixels hold {got:.8g}, the particles {total.sum():.8g}")

    def frames(self, case, ctx, w, path, base, garbage):
        import swiftsimio as sw
        f = case["frame"]
        for i, c in enumerate(case["calls"]):
            d = sw.load(path)
            a = self.arguments(c, w, d.metadata, frame=f in ("args", "all"))
            if f in ("coordinates", "all"):
                d.gas.coordinates.convert_to_physical()
            if f in ("hsml", "all"):
                d.gas.smoothing_lengths.convert_to_physical()
            if f == "all" and c.get("project") == "masses":
                d.gas.masses.convert_to_physical()
            names = ["coordinates", "smoothing_lengths", c.get("project")]
            held = [Held(f"gas.{n}", getattr(d.gas, n)) for n in dict.fromkeys(names) if n and "." not in n]
            held += [Held(f"argument {k}", v) for k, v in a.items() if isinstance(v, np.ndarray)]
            md0 = self.metadata(d)
            garbage.next()
            got = attempt(lambda: self.perform(c, d, a))
            for k in held:
                k.check(ctx, f"{c['call']}:{c.get('backend')} with {f} in another frame")
            ctx.check(self.metadata(d) == md0, "metadata-changed", lambda: f"{c['call']} with {f} in another frame changed the metadata from {md0} to {self.metadata(d)}")
            ctx.ev("frame", f, i, None if got[1] is None else type(got[1]).__name__)
            ctx.state("frame", f, c["call"], c.get("backend"), c.get("periodic"), c.get("rot"), got[1] is None)
            if got[1] is not None and isinstance(got[1], (AttributeError, ValueError, AssertionError)) and base[i, "whole"][1] is None and "compatible" in str(got[1]):
                ctx.probe("mixed_frames_refused")
                continue
            self.close(ctx, f"{c['call']}:{c.get('backend')}", base[i, "whole"], got, "frame")

    def enclosing(self, case, w):
        """A mask region that covers every image with a region and the kernels that reach into it."""
        f = w.fields["PartType0/SmoothingLengths"]
        hmax = float(np.max(f.data)) if f.data.size else 0.0
        L = float(w.box[0])
        lo, hi = [np.inf] * 3, [-np.inf] * 3
        some = False
        for c in case["calls"]:
            if not self.covered(c):
                continue
            if "lohi" not in c:
                return None
            some = True
            for k in range(3):
                used = k < 2 or c["call"] == "render" or (c["call"] == "project" and c["zreg"])
                lo[k] = min(lo[k], c["lohi"][k][0] * L if used else -np.inf)
                hi[k] = max(hi[k], c["lohi"][k][1] * L if used else np.inf)
        if not some:
            return [[0.1 * L, 0.4 * L], None, None]
        region = []
        for k in range(3):
            x, y = lo[k] - 2.6 * hmax, hi[k] + 2.6 * hmax
            region.append([max(x, 0.0), min(y, L)] if 0 <= x and y <= L else [x, y] if y - x < 0.9 * L and -0.4 * L < x and y < 1.4 * L else None)
        return None if all(r is None for r in region) else region

    def covered(self, c):
        """Nothing outside the mask can matter for this call (nearest neighbours reach arbitrarily far; rotation moves the image)."""
        return c["call"] in ("project", "slice", "render") and c["backend"] != "nearest_neighbours" and bool(c["region"]) and not c["rot"] and not c["pmask"]

    def metadata(self, d):
        md = d.metadata
        return repr([md.boxsize, md.boxsize.comoving, md.a, md.z, md.time, md.num_part.tolist(), list(md.present_group_names)])

    def bad(self, ctx, op, d):
        L = d.metadata.boxsize
        from swiftsimio import cosmo_array
        pj, sl, vr = (importlib.import_module(V + x) for x in ("projection", "slice", "volume_render"))
        reg = lambda x: cosmo_array(x, L.units, comoving=True, scale_factor=d.metadata.a, scale_exponent=1)
        Lx = float(L[0].v)
        calls = {
            "backend": lambda: pj.project_gas(d, 4, backend="nonsense"),
            "project": lambda: sl.slice_gas(d, 4, project="nonsense"),
            "noncubic": lambda: vr.render_gas(d, 3, region=reg([0, Lx, 0, Lx, 0, Lx / 2])),
            "rotper": lambda: pj.project_gas(d, 4, rotation_center=L / 2, rotation_matrix=np.eye(3), periodic=True),
            "depth": lambda: pj.project_gas(d, 4, region=reg([0, Lx, 0, Lx, 0, 1.5 * Lx])),
            "nohsml": lambda: sl.slice_gas(d, 4, backend="nonsense"),
            "mask": lambda: pj.project_gas(d, 4, mask=np.ones(d.gas.masses.size + 5, bool)),
        }
        _, e = attempt(calls[op["bad"]])
        ctx.ev("bad", op["bad"], type(e).__name__)
        ctx.check(e is not None, "accepted", f"an image with a wrong {op['bad']} argument was made")
        ctx.probe("refused_calls")

    # -- comparing ---------------------------------------------------------

    def same(self, ctx, what, ref, got, sig):
        if ref[1] is not None or got[1] is not None:
            ctx.check(ref[1] is not None and got[1] is not None and type(ref[1]) is type(got[1]), sig,
                      lambda: f"{what}: {show(got[1]) if got[1] else 'succeeded'}, on a fresh dataset {show(ref[1]) if ref[1] else 'succeeded'}")
            ctx.probe("both_raise")
            return
        for a, b in zip(parts(ref[0]), parts(got[0])):
            ctx.check(type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype, sig, lambda: f"{what}: {type(b).__name__} {b.shape} {b.dtype}, on a fresh dataset {type(a).__name__} {a.shape} {a.dtype}")
            ctx.check(dress(a) == dress(b), sig, lambda: f"{what}: {dress(b)}, on a fresh dataset {dress(a)}")
            x, y = np.asarray(a.view(np.ndarray)), np.asarray(b.view(np.ndarray))
            ctx.check(np.array_equal(x, y, equal_nan=True), sig, lambda: f"{what}: {int((x != y).sum())} of {x.size} values differ from those on a fresh dataset, worst {np.nanmax(np.abs(x - y)):.4g}")
            if np.count_nonzero(x):
                ctx.probe("nonempty_results")

    def close(self, ctx, what, ref, got, sig):
        """The same physical values up to rounding."""
        if ref[1] is not None or got[1] is not None:
            ctx.check(ref[1] is not None and got[1] is not None, sig, lambda: f"{what}: {show(got[1]) if got[1] else 'succeeded'}, reference {show(ref[1]) if ref[1] else 'succeeded'}")
            return
        for a, b in zip(parts(ref[0]), parts(got[0])):
            ctx.check(a.shape == b.shape, sig, lambda: f"{what}: shape {b.shape}, reference {a.shape}")
            if hasattr(a, "to_physical") and getattr(a, "comoving", None) is not None:
                a = a.to_physical()
                b = b.to_physical().to(a.units)
                x, y = a.view(np.ndarray), b.view(np.ndarray)
            else:
                x, y = a.view(np.ndarray), b.view(np.ndarray)
            x, y = np.asarray(x, "f8"), np.asarray(y, "f8")
            fin = np.isfinite(x)
            ctx.check(np.array_equal(fin, np.isfinite(y)), sig, lambda: f"{what}: non-finite values differ")
            top = float(np.abs(x[fin]).max()) if fin.any() else 0.0
            bad = np.abs(np.where(fin, x - np.where(fin, y, 0), 0)) > 2e-4 * np.where(fin, np.abs(np.where(fin, x, 0)), 0) + 1e-5 * top
            ctx.check(not bad.any(), sig, lambda: f"{what}: {int(bad.sum())} of {x.size} values differ; first {y[bad][0]:.6g}, reference {x[bad][0]:.6g}")


class Held:
    """An array the user holds, and what it was."""

    def __init__(self, name, a):
        self.name, self.a = name, a
        self.was = (np.array(a.view(np.ndarray)), dress(a), a.dtype)

    def check(self, ctx, after):
        v, dr, dt = self.was
        a = self.a
        ctx.check(a.dtype == dt and a.shape == v.shape and np.array_equal(np.asarray(a.view(np.ndarray)), v, equal_nan=v.dtype.kind == "f"), "input-changed",
                  lambda: f"{self.name} changed during {after}")
        ctx.check(dress(a) == dr, "input-changed", lambda: f"{self.name} became {dress(a)} during {after}; it was {dr}")


def dress(a):
    return (type(a).__name__, str(getattr(a, "units", None)), getattr(a, "comoving", None), getattr(a, "valid_transform", None), repr(getattr(a, "cosmo_factor", None)))


def parts(x):
    return list(x) if isinstance(x, tuple) else [x]


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        if os.environ.get('SIM_DEBUG'):
            import traceback
            traceback.print_exc(limit=-8)
        drop(e)
        return None, e


class Garbage:
    """Uninitialised memory under the simulator's control."""

    def __init__(self, seed):
        self.seed, self.k, self.r = seed, 0, random.Random(seed)
        empty, like = np.empty, np.empty_like
        np.empty = lambda *a, **k: self.fill(empty(*a, **k))
        np.empty_like = lambda *a, **k: self.fill(like(*a, **k))

    def next(self):
        self.k += 1
        self.r = random.Random(self.seed + self.k)

    def fill(self, a):
        try:
            if a.dtype.kind in "fiub" and a.size and a.dtype.isnative:
                b = a.view(np.ndarray)
                if b.flags.c_contiguous:
                    how = self.k % 4
                    b = b.reshape(-1)
                    if a.dtype.kind == "b":
                        b[:] = how % 2
                    elif how == 0:
                        b.view("u1")[:] = 255
                    elif how == 1:
                        b[:] = 0
                    else:
                        for j in range(3):
                            b[j::3] = self.r.randrange(-100 if a.dtype.kind in "fi" else 0, 100)
        except (TypeError, ValueError):
            pass
        return a


PROP = P19()
