"""Reference checks shared by the properties: what a field, a mask, a file must look like."""

import errno
import numpy as np
import unyt

from . import world as W

READ_FAULTS = [
    {"op": "read", "act": "err", "arg": "EIO"},
    {"op": "read", "act": "err", "arg": "EIO"},
    {"op": "read", "act": "err", "arg": "ESTALE"},
    {"op": "read", "act": "err", "arg": "EIO", "count": -1},
    {"op": "read", "act": "short", "arg": 1},
    {"op": "read", "act": "short", "arg": 7},
    {"op": "read", "act": "err", "arg": "EINTR"},
    {"op": "open", "act": "err", "arg": "EIO"},
    {"op": "open", "act": "err", "arg": "EMFILE"},
    {"op": "open", "act": "err", "arg": "ENOENT"},
    {"op": "open", "act": "err", "arg": "EACCES"},
    {"op": "lock", "act": "err", "arg": "EAGAIN"},
    {"op": "close", "act": "err", "arg": "EIO"},
]
BENIGN = {("read", "short"), ("read", "EINTR")}


def benign(fired):
    """True if every fault that fired is one any correct I/O stack absorbs."""
    return all((f["op"], f.get("act")) in BENIGN or (f["op"], f.get("arg")) in BENIGN for f, _ in fired)


def rand_alloc_fault(rng):
    """numpy is refused memory for one array (or for all from some point on)."""
    return {"op": "alloc", "act": "err", "arg": rng.choice([0, 0, 64, 512]), "at": rng.randrange(rng.choice([3, 10, 40, 120])),
            "count": rng.choice([1, 1, 1, 4])}


def rand_interrupt(rng):
    """The user interrupts the operation, or memory runs out, at some line of swiftsimio."""
    f = {"op": "interrupt", "at": rng.randrange(rng.choice([5, 30, 100, 400]))}
    return dict(f, exc="MemoryError") if rng.random() < 0.4 else f


def place(f, frac, counts):
    """Position of fault f at a fraction of the accesses (for every other interrupt: of the distinct lines) counted in a clean run."""
    n = max(1, counts[f["op"]])
    if f["op"] == "interrupt" and counts["lines"] and int(frac * 1e6) % 4:
        return counts["lines"][min(len(counts["lines"]) - 1, int(frac * len(counts["lines"])))]
    return min(n - 1, int(frac * n))


def rand_read_fault(rng, nmax=60, benign_only=False, kinds=None):
    if kinds is None and not benign_only and rng.random() < 0.15:
        return rand_alloc_fault(rng)
    while True:
        f = dict(rng.choice(kinds or READ_FAULTS))
        if benign_only and not ((f["op"], f.get("act")) in BENIGN or (f["op"], f.get("arg")) in BENIGN):
            continue
        break
    if f["op"] == "read":
        f["at"] = rng.randrange(rng.choice([4, 12, nmax])) if rng.random() < 0.6 else rng.randrange(12, 28)
        if f.get("act") == "short" and rng.random() < 0.5:
            f["count"] = rng.choice([1, 3, 1000])
    else:
        f["at"] = rng.choice([0, 0, 0, 1])
    return f


def same_array(got, exp):
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.shape != exp.shape:
        return False
    if got.dtype.kind == "f" or exp.dtype.kind == "f":
        return bool(np.array_equal(got, exp, equal_nan=True))
    return bool(np.array_equal(got, exp))


MKS = (1e-2, 1e-3, 1.0, 1.0, 1.0)


def expected_unit_mks(w, f):
    u = W.UNITS[w.p["units"]]
    v = 1.0
    for x, k, e in zip(u, MKS, f.ue):
        v *= (x * k) ** e
    return v


DIMS = (unyt.dimensions.length, unyt.dimensions.mass, unyt.dimensions.time,
        unyt.dimensions.current_mks, unyt.dimensions.temperature)


def check_units(ctx, arr, w, f, what):
    dim = unyt.dimensions.dimensionless
    for d, e in zip(DIMS, f.ue):
        dim = dim * d ** e
    ctx.check(arr.units.dimensions == dim, "units", f"{what}: dimensions {arr.units.dimensions}, file says {dim}")
    exp = expected_unit_mks(w, f)
    got = float(arr.units.base_value)
    tol = 2e-4
    ctx.check(abs(got / exp - 1) < tol, "units", f"{what}: unit {arr.units} = {got} SI, file says {exp}")


def scale_factor(w):
    return w.p["a"] if w.p.get("cosmo", 1) or w.p["kind"] != "snapshot" else 1.0


def check_cosmo(ctx, arr, w, f, what):
    old = w.p.get("old", False)
    physical = f.physical and not old
    conv = f.conv or old
    ctx.check(getattr(arr, "comoving", None) == (not physical), "comoving",
              f"{what}: comoving={getattr(arr, 'comoving', None)}, file says stored as {'physical' if physical else 'comoving'}")
    ctx.check(getattr(arr, "valid_transform", None) == conv, "valid-transform",
              f"{what}: valid_transform={getattr(arr, 'valid_transform', None)}, file says {conv}")
    cf = getattr(arr, "cosmo_factor", None)
    ctx.check(cf is not None, "cosmo-factor", f"{what}: no cosmo_factor")
    a = scale_factor(w)
    ctx.check(abs(float(cf.scale_factor) - a) < 1e-12, "cosmo-factor", f"{what}: scale factor {cf.scale_factor} != {a}")
    exp = a ** f.a
    got = float(cf.a_factor)
    ctx.check(abs(got / exp - 1) < 1e-6, "cosmo-factor", f"{what}: a-factor {got}, file says a**{f.a} = {exp}")


def check_field(ctx, arr, w, f, what, rows=None, col=None, desc=True):
    """`arr` must be file field `f` (optionally some rows / one column), fully dressed."""
    from swiftsimio.objects import cosmo_array
    exp = f.native()
    if rows is not None:
        exp = exp[rows]
    if col is not None and exp.ndim > 1:
        exp = exp[:, col]
    ctx.check(arr is not None, "none", f"{what}: read returned None")
    ctx.check(isinstance(arr, cosmo_array), "type", f"{what}: got {type(arr).__name__}")
    raw = arr.view(np.ndarray)
    ctx.check(raw.shape == exp.shape, "shape", f"{what}: shape {raw.shape}, file has {exp.shape}")
    ctx.check(raw.dtype.newbyteorder("=") == exp.dtype, "dtype", f"{what}: dtype {raw.dtype}, file has {exp.dtype}")
    if not same_array(raw, exp):
        bad = np.argwhere(np.asarray(raw) != exp)
        i = tuple(int(x) for x in bad[0]) if len(bad) else ()
        ctx.fail("values", f"{what}: {len(bad)} wrong values, first at {i}: got {raw[i] if i else raw}, file has {exp[i] if i else exp}")
    check_units(ctx, arr, w, f, what)
    check_cosmo(ctx, arr, w, f, what)
    if desc and f.comp:
        got = getattr(arr, "compression", None)
        ctx.check(got == f.comp, "compression", lambda: f"{what}: compression {got!r}, file says {f.comp!r}")
    if desc and f.desc:
        ctx.check(str(getattr(arr, "name", "")).startswith(f.desc), "description", f"{what}: name {getattr(arr, 'name', None)!r}, described as {f.desc!r}")


# -- metadata ----------------------------------------------------------------

def check_metadata(ctx, md, w, what="metadata"):
    """Every part of the metadata a user can see must be what the file says."""
    p = w.p
    names = list(md.present_group_names)
    ctx.check(sorted(names) == sorted(w.groups), "present-groups", f"{what}: groups {names}, file has {sorted(w.groups)}")
    ctx.check(abs(float(md.scale_factor) - (scale_factor(w))) < 1e-12, "header", f"{what}: scale_factor {md.scale_factor}")
    ctx.check(abs(float(md.a) - scale_factor(w)) < 1e-12, "header", f"{what}: a {md.a}")
    ctx.check(abs(float(md.z) - float(w.header["Redshift"][0])) < 1e-12, "header", f"{what}: z {md.z}")
    ctx.check(abs(float(md.redshift) - float(w.header["Redshift"][0])) < 1e-12, "header", f"{what}: redshift")
    ctx.check(same_array(np.asarray(md.boxsize.view(np.ndarray)), w.box), "header", f"{what}: boxsize {md.boxsize} file {w.box}")
    lu = W.UNITS[p["units"]][0] * 1e-2
    ctx.check(abs(float(md.boxsize.units.base_value) / lu - 1) < 2e-4, "units", f"{what}: boxsize unit {md.boxsize.units}")
    ctx.check(bool(md.boxsize.comoving), "header", f"{what}: boxsize not comoving")
    tu = W.UNITS[p["units"]][2]
    ctx.check(abs(float(md.time.value) - float(w.header["Time"][0])) < 1e-12, "header", f"{what}: time {md.time}")
    ctx.check(abs(float(md.t.units.base_value) / tu - 1) < 2e-4, "units", f"{what}: time unit {md.t.units}")
    run = w.header["RunName"]
    run = run.decode() if isinstance(run, bytes) else run
    ctx.check(md.run_name == run, "header", f"{what}: run_name {md.run_name!r} != {run!r}")
    ctx.check(str(getattr(md, "snapshot_date", "")) .startswith("2024-02-03 12:34:56"), "header", f"{what}: snapshot_date {getattr(md, 'snapshot_date', None)}")
    if p.get("cosmo", 1):
        ctx.check(md.cosmology is not None, "cosmology", f"{what}: cosmology lost")
        ctx.check(abs(md.cosmology.Om0 - 0.307) < 1e-3, "cosmology", f"{what}: Om0 {md.cosmology.Om0}")
        ctx.check(md.cosmology_raw is not None and "Omega_m" in md.cosmology_raw, "cosmology", f"{what}: cosmology_raw lost")
    else:
        ctx.check(md.cosmology is None, "cosmology", f"{what}: cosmology on a non-cosmological run")
    for attr in ("code", "hydro_scheme", "gravity_scheme", "parameters", "policy", "runtime_pars", "stars_scheme",
                 "unused_parameters", "internal_code_units"):
        ctx.check(getattr(md, attr, None) is not None, "metadata-lost", f"{what}: {attr} is {getattr(md, attr, None)}")
    ctx.check(len(md.parameters) == 5, "metadata-lost", f"{what}: parameters {md.parameters}")
    ctx.check(md.gas_gamma is not None and abs(float(md.gas_gamma[0]) - 5 / 3) < 1e-6, "metadata-lost", f"{what}: gas_gamma {md.gas_gamma}")
    if p["kind"] == "snapshot":
        for pt, name in W.PT_NAME.items():
            n = p["ptypes"].get(str(pt), 0)
            ctx.check(int(getattr(md, f"n_{name}")) == n, "counts", f"{what}: n_{name} = {getattr(md, f'n_{name}')} != {n}")
        nt = len(w.header["NumPart_ThisFile"])
        for i in range(nt):
            mt = getattr(md.mass_table, W.PT_NAME[i])
            ctx.check(abs(float(mt.value) * 1.0 - 0.5 * i) < 1e-12 or abs(float(mt.to(md.units.mass).value) - 0.5 * i) < 1e-9, "header",
                      f"{what}: mass_table {W.PT_NAME[i]} {mt}")
        ctx.check(md.named_columns == w.named, "named-columns", f"{what}: named_columns {md.named_columns} file {w.named}")
        if p.get("photon"):
            ctx.check(md.photon_group_edges is not None, "metadata-lost", f"{what}: photon_group_edges lost")
        if hasattr(w, "mapping"):
            mt = getattr(md, "element_to_species_mapping", None)
            ctx.check(mt is not None and same_array(mt.data, w.mapping), "metadata-lost", f"{what}: mapping table {mt}")
    if p["kind"] == "soap":
        ctx.check(int(md.n_subhalos) == p["n"], "counts", f"{what}: n_subhalos {md.n_subhalos}")
    for g in w.groups:
        props = getattr(md, f"{g}_properties", None)
        ctx.check(props is not None, "fields", f"{what}: no {g}_properties")
        exp = sorted(W.snake(n) for n in w.group_fields(g))
        ctx.check(sorted(props.field_names) == exp, "fields", f"{what}: {g} fields {sorted(props.field_names)} file {exp}")
        for n, f in w.group_fields(g).items():
            path = f"{w.groups[g][0]}/{n}"
            exp_cols = None
            if n in w.named:
                cols = w.named[n]
                caps = sum(sum(c.isupper() for c in s) for s in cols) / len(cols)
                exp_cols = [s.lower() for s in cols] if caps < 1.01 else list(cols)
            got = props.named_columns.get(path, "missing")
            ctx.check(got == exp_cols, "named-columns", f"{what}: {path} named columns {got} file {exp_cols}")


def public_columns(w, n):
    cols = w.named[n]
    caps = sum(sum(c.isupper() for c in s) for s in cols) / len(cols)
    return [s.lower() for s in cols] if caps < 1.01 else list(cols)


def check_dataset(ctx, data, w, rows=None, what="dataset", every=True, fields=None):
    """Full sweep: every field of every group of `data` is what the file says.

    rows: {group: index array} for masked datasets (None: everything).
    """
    for g in w.groups:
        obj = getattr(data, g, None)
        ctx.check(obj is not None, "group-missing", f"{what}: no group {g}")
        r = None if rows is None else rows[g]
        for n, f in w.group_fields(g).items():
            if fields is not None and n not in fields:
                continue
            pub = W.snake(n)
            if n in w.named:
                for k, c in enumerate(public_columns(w, n)):
                    check_field(ctx, getattr(getattr(obj, pub), c), w, f, f"{what}.{g}.{pub}.{c}", rows=r, col=k)
            else:
                check_field(ctx, getattr(obj, pub), w, f, f"{what}.{g}.{pub}", rows=r)
