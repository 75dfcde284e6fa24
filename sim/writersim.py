"""A reference model of the Writer: what it holds, what it must refuse, what a file it wrote must say."""

import os

import h5py
import numpy as np
import unyt

from . import faultwrite as FW
from .core import Violation, drop, show

TYPES = ["gas", "dark_matter", "boundary", "sinks", "stars", "black_holes", "neutrinos", "sidm"]
DIMS = {"coordinates": (1, 0, 0), "velocities": (1, 0, -1), "masses": (0, 1, 0), "smoothing_lengths": (1, 0, 0), "internal_energy": (2, 0, -2)}
HANDLE = {"coordinates": "Coordinates", "velocities": "Velocities", "masses": "Masses", "smoothing_lengths": "SmoothingLengths",
          "internal_energy": "InternalEnergy", "particle_ids": "ParticleIDs"}
UNIT_CHOICES = {"coordinates": ["Mpc", "kpc", "cm", "km"], "velocities": ["km/s", "cm/s", "kpc/Gyr"], "masses": ["Msun", "g", "1e10*Msun"],
                "smoothing_lengths": ["Mpc", "kpc", "pc"], "internal_energy": ["km**2/s**2", "erg/g", "kpc**2/Gyr**2"]}
EXPONENTS = {"coordinates": [1], "velocities": [0, 1, -1, 0.5], "masses": [0], "smoothing_lengths": [1], "internal_energy": [-2, 0, -2.0]}
SYSTEMS = ["cosmo", "cgs", "mks", "galactic"]


def required(t):
    f = ["coordinates", "velocities", "masses"]
    if t == "gas":
        f += ["smoothing_lengths", "internal_energy"]
    if t == "stars":
        f += ["smoothing_lengths"]
    return f


def unit(s):
    if s == "1e10*Msun":
        return unyt.Unit("1e10*Msun")
    return unyt.Unit(s)


def cgs(u):
    return float((1.0 * u).in_cgs().value)


def rand_params(rng):
    dim = rng.choice([3, 3, 3, 3, 2, 1])
    box = [rng.choice([1.0, 25.0, 100.0])] * dim if rng.random() < 0.6 else [rng.choice([1.0, 2.5, 30.0]) for _ in range(dim)]
    return {"system": rng.choice(SYSTEMS), "system2": rng.choice(SYSTEMS), "a": rng.choice([1.0, 0.5, round(rng.uniform(0.05, 1.2), 3)]), "dim": dim,
            "box": box, "box_unit": rng.choice(["Mpc", "kpc", "cm"]), "box_comoving": rng.random() < 0.7, "compress": rng.random() < 0.5,
            "extra": rng.random() < 0.4}


def rand_set(rng, t=None, f=None, n=None, p=None):
    t = t or rng.choice(TYPES[:2] + TYPES)
    f = f or rng.choice(required(t) + ["particle_ids"])
    return {"op": "set", "t": t, "f": f, "n": n if n is not None else rng.choice([0, 1, 2, 5, 17, 40, 200]), "seed": rng.randrange(2 ** 31),
            "dtype": rng.choice(["f8", "f8", "f4", "i8"]), "unit": rng.randrange(12), "comoving": rng.random() < 0.6, "exp": rng.randrange(12),
            "idkind": rng.choice(["cosmo", "ndarray", "unyt"]), "idbase": rng.choice([1, 1, 1000, 10 ** 9, 10 ** 12]), "order": rng.choice(["asc", "perm"])}


def in_cgs(x):
    return np.asarray(x.value).astype("f8") * cgs(x.units)


class Model:
    """Mirror of one Writer. state[type][field] = (cgs comoving values, exponent, dtype) or None; ids: ints or None."""

    def __init__(self, ctx, p, which=1):
        import swiftsimio as sw
        from swiftsimio.metadata.writer.unit_systems import cosmo_units
        self.ctx, self.p = ctx, p
        name = p["system"] if which == 1 else p["system2"]
        us = cosmo_units if name == "cosmo" else name
        self.system = name
        self.us = cosmo_units if name == "cosmo" else unyt.unit_systems.unit_system_registry[name]
        self.a = p["a"]
        self.box_cgs = np.array(p["box"]) * cgs(unit(p["box_unit"])) / (1.0 if p["box_comoving"] else self.a)
        box = sw.cosmo_array(np.array(p["box"]), unit(p["box_unit"]), comoving=p["box_comoving"], scale_factor=self.a, scale_exponent=1)
        self.extra = {"SimNote": 7, "MyArray": np.array([1.5, 2.5])} if p["extra"] else None
        self.w = sw.Writer(unit_system=us, boxsize=box, dimension=p["dim"], compress=p["compress"], extra_header=self.extra, scale_factor=self.a)
        self.state = {t: {f: None for f in required(t) + ["particle_ids"]} for t in TYPES}
        self.generated = set()

    def base(self, f):
        L, M, T = (cgs(unyt.Unit(self.us.base_units[d])) for d in (unyt.dimensions.length, unyt.dimensions.mass, unyt.dimensions.time))
        e = DIMS[f]
        return L ** e[0] * M ** e[1] * T ** e[2]

    # -- values -------------------------------------------------------------
    def make(self, op):
        """(object to assign, what the model then holds) for a 'set' op."""
        import swiftsimio as sw
        r = np.random.default_rng(op["seed"])
        f, n = op["f"], op["n"]
        shape = (n, self.p["dim"]) if f in ("coordinates", "velocities") else (n,)
        if f == "particle_ids":
            v = np.arange(n, dtype="i8") * (1 if op["order"] == "asc" else 3) + op["idbase"]
            if op["order"] == "perm":
                v = r.permutation(v)
            held = v.copy()
            if op["idkind"] == "cosmo":
                v = sw.cosmo_array(v, unyt.dimensionless, comoving=True, scale_factor=self.a, scale_exponent=0)
            elif op["idkind"] == "unyt":
                v = unyt.unyt_array(v, unyt.dimensionless)
            return v, held
        dt = op["dtype"]
        if dt == "f4" and self.p["system"] in ("cgs", "mks") or dt == "f4" and self.p["system2"] in ("cgs", "mks"):
            dt = "f8"       # single precision overflows in these units
        v = r.random(shape) * 100 + 1
        name = UNIT_CHOICES[f][op["unit"] % len(UNIT_CHOICES[f])]
        u = unit("Msun" if name == "g" and dt == "f4" else name)
        if dt == "i8":
            v = np.floor(v)
        v = v.astype(dt)
        e = EXPONENTS[f][op["exp"] % len(EXPONENTS[f])]
        held = v.astype("f8") * cgs(u)
        if not op["comoving"]:
            held = held / self.a ** e
        return (sw.cosmo_array(v, u, comoving=op["comoving"], scale_factor=self.a, scale_exponent=e),
                (held, float(e), "f8" if dt == "i8" else dt))

    def set(self, op):
        obj, held = self.make(op)
        setattr(getattr(self.w, op["t"]), op["f"], obj)
        self.state[op["t"]][op["f"]] = held
        return obj

    # -- what a write must do -------------------------------------------------
    def used(self):
        return [t for t in TYPES if any(v is not None for v in self.state[t].values())]

    def verdict(self):
        """None if the data are consistent, else why a write must be refused."""
        used = self.used()
        if not used:
            return "nothing"
        for t in used:
            s = self.state[t]
            for f in required(t):
                if s[f] is None:
                    return "missing"
            ns = {len(s[f][0]) for f in required(t)} | ({len(s["particle_ids"])} if s["particle_ids"] is not None else set())
            if len(ns) > 1:
                return "lengths"
        if all(self.state[t]["particle_ids"] is not None for t in used):
            allids = np.concatenate([self.state[t]["particle_ids"] for t in used])
            if len(np.unique(allids)) != len(allids):
                return "ids"
        return None

    def count(self, t):
        return len(self.state[t]["coordinates"][0])

    def check_held(self, what):
        """The Writer still holds what was assigned."""
        for t in TYPES:
            for f, held in self.state[t].items():
                v = getattr(getattr(self.w, t), f)
                if held is None:
                    self.ctx.check(v is None, "held", lambda: f"{what}: {t}.{f} appeared")
                elif f == "particle_ids":
                    self.ctx.check(v is not None and np.array_equal(np.asarray(v), held), "held", lambda: f"{what}: {t}.particle_ids changed")
                else:
                    self.ctx.check(v is not None, "held", lambda: f"{what}: {t}.{f} was lost")
                    got = in_cgs(v.to_comoving())
                    ok = got.shape == held[0].shape and np.allclose(got, held[0], rtol=1e-5 if held[2] == "f4" else 1e-10, atol=0)
                    self.ctx.check(ok, "held", lambda: f"{what}: {t}.{f} changed from {held[0].ravel()[:3]} to {got.ravel()[:3]} (cgs, comoving)")

    def after_write(self):
        """IDs that were generated are held from now on."""
        used = self.used()
        if any(self.state[t]["particle_ids"] is None for t in used):
            for t in used:
                self.state[t]["particle_ids"] = np.asarray(getattr(self.w, t).particle_ids).astype("i8").copy()
            self.generated |= set(used)

    # -- the file ---------------------------------------------------------------
    def check_file(self, path, what):
        """The file at `path` is a snapshot of what the model holds."""
        import swiftsimio as sw
        ctx, used = self.ctx, self.used()
        supplied = all(self.state[t]["particle_ids"] is not None for t in used)
        d = sw.load(path)
        md = d.metadata
        num = [self.count(t) if t in used else 0 for t in TYPES]
        ctx.check(list(np.asarray(md.num_part)[:8]) == num and len(md.num_part) == 8, "counts", lambda: f"{what}: particle counts {md.num_part}, written {num}")
        box = md.boxsize
        ctx.check(box.comoving is True and np.allclose(np.atleast_1d(in_cgs(box)), self.box_cgs, rtol=2e-4), "box",
                  lambda: f"{what}: box size {box} ({in_cgs(box)}), given {self.box_cgs} cm comoving")
        ctx.check(abs(float(md.a) - self.a) < 1e-12 and abs(float(md.scale_factor) - self.a) < 1e-12, "scale-factor", lambda: f"{what}: scale factor {md.a}, given {self.a}")
        ctx.check(int(md.header["Dimension"][0]) == self.p["dim"], "header", f"{what}: Dimension")
        for k, v in (self.extra or {}).items():
            ctx.check(k in md.header and np.array_equal(np.ravel(md.header[k]), np.ravel(v)), "header", lambda: f"{what}: extra header {k} is {md.header.get(k)}")
        ids = []
        with h5py.File(path, "r") as h:
            for i, t in enumerate(TYPES):
                if t not in used:
                    ctx.check(f"PartType{i}" not in h, "groups", f"{what}: unused PartType{i} was written")
                    continue
                n = num[i]
                grp = h[f"PartType{i}"]
                ctx.check(set(grp) == {HANDLE[f] for f in self.state[t]}, "fields", lambda: f"{what}: {t} has {sorted(grp)}")
                raw_ids = grp["ParticleIDs"][...]
                ctx.check(raw_ids.shape == (n,), "ids", lambda: f"{what}: {t} has {raw_ids.shape} IDs for {n} particles")
                ids.append(raw_ids.astype("f8") if raw_ids.dtype.kind == "f" else raw_ids)
                if supplied:
                    ctx.check(np.array_equal(raw_ids, self.state[t]["particle_ids"]), "ids", lambda: f"{what}: {t}.particle_ids are not those supplied")
                for f in required(t):
                    held, e, dt = self.state[t][f]
                    ds = grp[HANDLE[f]]
                    tol = 1e-5 if dt == "f4" else 1e-9
                    fac = float(np.ravel(ds.attrs["Conversion factor to CGS (not including cosmological corrections)"])[0])
                    ctx.check(ds.shape == held.shape and np.allclose(ds[...].astype("f8") * self.base(f), held, rtol=tol, atol=0), "values",
                              lambda: f"{what}: {t}.{f} is stored as {ds[...].ravel()[:3]} (unit {self.base(f):.6g} cgs), given {held.ravel()[:3]} cgs")
                    ctx.check(abs(fac / self.base(f) - 1) < 1e-6, "units", lambda: f"{what}: {t}.{f} conversion factor {fac}, the unit is {self.base(f)}")
                    ctx.check(abs(float(np.ravel(ds.attrs["a-scale exponent"])[0]) - e) < 1e-9, "exponent",
                              lambda: f"{what}: {t}.{f} scale exponent {ds.attrs['a-scale exponent']}, given {e}")
                    fac2 = float(np.ravel(ds.attrs["Conversion factor to physical CGS (including cosmological corrections)"])[0])
                    ctx.check(abs(fac2 / (self.base(f) * self.a ** e) - 1) < 1e-6, "units", lambda: f"{what}: {t}.{f} physical conversion factor {fac2}")
        allids = np.concatenate(ids)
        ctx.check(len(np.unique(allids)) == len(allids) and bool(np.all(allids > 0)), "ids", lambda: f"{what}: particle IDs are not unique and positive")
        # through the reader
        for i, t in enumerate(TYPES):
            if t not in used or not num[i]:
                continue
            for f in required(t):
                held, e, dt = self.state[t][f]
                x = getattr(getattr(d, t), f)
                ctx.check(x.comoving is True, "comoving", lambda: f"{what}: {t}.{f} read back as {x.comoving}")
                ctx.check(np.allclose(in_cgs(x), held, rtol=3e-4, atol=0), "read-back",
                          lambda: f"{what}: {t}.{f} read back as {in_cgs(x).ravel()[:3]} cgs, given {held.ravel()[:3]}")
                ph = x.to_physical()
                ctx.check(np.allclose(in_cgs(ph), held * self.a ** e, rtol=3e-4, atol=0), "read-back",
                          lambda: f"{what}: {t}.{f} read back and made physical is {in_cgs(ph).ravel()[:3]}, given {(held * self.a ** e).ravel()[:3]}")
            got = np.asarray(getattr(d, t).particle_ids)
            ctx.check(got.shape == (num[i],), "ids", f"{what}: {t}.particle_ids read back with shape {got.shape}")


def bad_set(model, op):
    """An assignment that must be refused."""
    import swiftsimio as sw
    how = op["how"]
    good = dict(op, f=op["f"])
    if how in ("zero_id", "neg_id", "dup_id"):
        n = max(2, op["n"])
        v = np.arange(1, n + 1)
        v[op["seed"] % n] = {"zero_id": 0, "neg_id": -5, "dup_id": v[(op["seed"] + 1) % n]}[how]
        if op["idkind"] == "cosmo":
            v = sw.cosmo_array(v, unyt.dimensionless, comoving=True, scale_factor=model.a, scale_exponent=0)
        setattr(getattr(model.w, op["t"]), "particle_ids", v)
        return
    f = op["f"]
    v = np.ones((op["n"], model.p["dim"]) if f in ("coordinates", "velocities") else op["n"])
    u = unit(UNIT_CHOICES.get(f, ["dimensionless"])[0])
    kw = dict(comoving=op["comoving"], scale_factor=model.a, scale_exponent=1)
    if how == "dims":
        v = sw.cosmo_array(v, "K" if f != "particle_ids" else "g", **kw)
    elif how == "scale":
        v = sw.cosmo_array(v, u, **dict(kw, scale_factor=model.a + 0.125))
    elif how == "nocosmo":
        v = sw.cosmo_array(v, u)
    elif how == "unyt":
        v = unyt.unyt_array(v, u)
    setattr(getattr(model.w, op["t"]), f, v)


BAD = ["dims", "dims", "scale", "nocosmo", "unyt", "ndarray", "zero_id", "neg_id", "dup_id"]


def rand_bad(rng):
    op = rand_set(rng)
    op["op"], op["how"] = "bad", rng.choice(BAD)
    if op["f"] == "particle_ids" and op["how"] not in ("zero_id", "neg_id", "dup_id", "scale"):
        op["f"] = rng.choice(required(op["t"]))
    return op


def full_type(rng, t, n, ids=None):
    ops = [rand_set(rng, t, f, n) for f in required(t)]
    if ids if ids is not None else rng.random() < 0.5:
        o = rand_set(rng, t, "particle_ids", n)
        if rng.random() < 0.8:
            o["idbase"] = 1 + 10 ** 6 * (TYPES.index(t) + 1)
        ops.append(o)
    rng.shuffle(ops)
    return ops


def apply(model, other, op):
    """Apply a non-write op; raises only if the code under test misbehaves. Returns an outcome."""
    ctx = model.ctx
    k = op["op"]
    t = op.get("t")
    if k == "set":
        model.set(op)
        return "set"
    if k == "del":
        delattr(getattr(model.w, t), op["f"]) if op["f"] in model.state[t] else None
        if op["f"] in model.state[t]:
            model.state[t][op["f"]] = None
        return "del"
    if k == "bad":
        err = None
        try:
            bad_set(model, op)
        except Exception as e:  # noqa: BLE001
            err = e
        ctx.check(err is not None, "accepted", lambda: f"assigning {t}.{op['f']} with bad input ({op['how']}) was accepted")
        name = type(err).__name__
        drop(err)
        model.check_held(f"after refusing {op['how']} for {t}.{op['f']}")
        return name
    if k == "smooth":
        s = model.state[t]
        legal = "smoothing_lengths" in s and s["coordinates"] is not None and len(set(model.box_cgs)) == 1
        err = None
        try:
            getattr(model.w, t).generate_smoothing_lengths()
        except Exception as e:  # noqa: BLE001
            err = e
        if not legal:
            ctx.check(err is not None, "accepted", f"generate_smoothing_lengths of {t} was accepted")
            drop(err)
            model.check_held("after refusing to generate smoothing lengths")
            return "refused"
        if err is not None:
            raise err
        n = model.count(t)
        s["smoothing_lengths"] = (np.ones(n) * 2 * model.box_cgs[0] / max(n, 1) ** (1.0 / model.p["dim"]), 1.0, "f8")
        model.check_held("after generating smoothing lengths")
        return "smooth"
    if k == "convert":
        # the user converts an array the Writer holds in place
        v = getattr(getattr(model.w, t), op["f"], None)
        if v is None or op["f"] == "particle_ids":
            return "skip"
        u = [x for x in UNIT_CHOICES[op["f"]] if x != "g" or v.dtype.itemsize > 4]
        v.convert_to_units(unit(u[op["unit"] % len(u)]))
        if op["phys"]:
            v.convert_to_physical()
        return "convert"
    if k == "share":
        # the same array is assigned to another Writer
        v = getattr(getattr(model.w, t), op["f"], None)
        if v is None:
            return "skip"
        setattr(getattr(other.w, t), op["f"], v)
        other.state[t][op["f"]] = model.state[t][op["f"]]
        return "share"
    if k == "extra":
        setattr(getattr(model.w, t), "metallicity", np.arange(3))
        return "extra"
    raise KeyError(k)


def rand_history(rng, bad=0.0, n=None):
    ops = []
    types = rng.sample(TYPES, rng.choice([1, 1, 2, 3])) if rng.random() < 0.8 else ["gas", "dark_matter"]
    allids = rng.random() < 0.4
    for t in types:
        ops += full_type(rng, t, rng.choice([1, 2, 5, 17, 40, 200, 0]), ids=True if allids else None)
    ops.append({"op": "write", "file": rng.randrange(2)})
    for _ in range(n if n is not None else rng.randrange(0, 14)):
        t = rng.choice(types * 3 + TYPES)
        f = rng.choice(required(t) + ["particle_ids"])
        r = rng.random()
        if r < bad:
            ops.append(rand_bad(rng))
        elif r < bad + 0.12:
            ops.append({"op": "del", "t": t, "f": f})
        elif r < bad + 0.25:
            ops.append(rand_set(rng, t, f))
        elif r < bad + 0.4:
            ops += full_type(rng, t, rng.choice([1, 3, 10, 50]), ids=rng.random() < 0.7)
        elif r < bad + 0.48:
            ops.append({"op": "smooth", "t": rng.choice(["gas", "gas", "stars", t])})
        elif r < bad + 0.58:
            ops.append({"op": "convert", "t": t, "f": f, "unit": rng.randrange(12), "phys": rng.random() < 0.5})
        elif r < bad + 0.68:
            ops.append({"op": "share", "t": t, "f": f, "w": 1})
        elif r < bad + 0.7:
            ops.append({"op": "extra", "t": t})
        else:
            ops.append({"op": "write", "file": rng.randrange(2)})
    ops.append({"op": "write", "file": rng.randrange(2)})
    # a second Writer with other units takes part
    for op in ops:
        op.setdefault("w", 1)
    if any(op["op"] == "share" for op in ops):
        ops.append({"op": "write", "file": 1, "w": 2})
        ops.append({"op": "write", "file": 0, "w": 1})
    return ops
