"""Seeded generator of SWIFT output files, with an in-memory numpy model of each.

A world is described by a small JSON dict ("params"); building it is a pure function of
that dict. The model holds every array the file holds, so an oracle never has to read
the file back.
"""

import numpy as np
import h5py

UNITS = {
    # name: (U_L cm, U_M g, U_t s, U_I A, U_T K)
    "galactic": (3.08567758e24, 1.98841e43, 3.08567758e19, 1.0, 1.0),
    "cgs": (1.0, 1.0, 1.0, 1.0, 1.0),
    "kpc": (3.08567758e21, 1.98841e33, 3.15576e13, 1.0, 1.0),
    "planet": (6.3710e8, 5.9722e27, 1.0, 1.0, 1.0),
}
PT_NAME = {0: "gas", 1: "dark_matter", 2: "boundary", 3: "sinks", 4: "stars",
           5: "black_holes", 6: "neutrinos", 7: "sidm"}


class Field:
    def __init__(self, data, ue=(0, 0, 0, 0, 0), a=0.0, physical=False, conv=True, desc="",
                 comp="None", named=None, attrs=None):
        self.data = data          # as stored (dtype may be big-endian)
        self.ue = ue              # exponents of (L, M, t, I, T)
        self.a = a
        self.physical = physical
        self.conv = conv
        self.desc = desc
        self.comp = comp
        self.named = named
        self.attrs = attrs or {}

    def native(self):
        return self.data.astype(self.data.dtype.newbyteorder("="))


class World:
    def __init__(self, params):
        self.p = params
        self.fields = {}          # hdf5 path -> Field
        self.groups = {}          # public name -> (hdf5 group, nrows)
        self.header = {}
        self.named = {}
        self.links = {}
        self.group_attrs = {}

    # -- helpers used by oracles --------------------------------------------
    def group_fields(self, public):
        g = self.groups[public][0]
        subs = [h for h, _ in self.groups.values() if h.startswith(g + "/")]
        return {p[len(g) + 1:]: f for p, f in self.fields.items()
                if p.startswith(g + "/") and "/" not in p[len(g) + 1:]
                and p not in subs}

    def cgs_factor(self, f):
        u = UNITS[self.p["units"]]
        return float(np.prod([float(x) ** e for x, e in zip(u, f.ue)]))

    def nrows(self, public):
        return self.groups[public][1]


PUBLIC = {
    "Coordinates": "coordinates", "Velocities": "velocities", "Masses": "masses",
    "ParticleIDs": "particle_ids", "SmoothingLengths": "smoothing_lengths", "Densities": "densities",
    "Temperatures": "temperatures", "InternalEnergies": "internal_energies",
    "ElementMassFractions": "element_mass_fractions", "SpeciesFractions": "species_fractions",
    "LastHeatingScaleFactors": "last_heating_scale_factors", "CoolingTimes": "cooling_times",
    "Flags": "flags", "BFields": "bfields", "FOFGroupIDs": "fofgroup_ids", "Potentials": "potentials",
    "BirthScaleFactors": "birth_scale_factors", "InitialMasses": "initial_masses",
    "Luminosities": "luminosities", "DynamicalMasses": "dynamical_masses", "Spins": "spins",
    "Counts": "counts", "OneColumn": "one_column", "Positions": "positions",
    "HaloCentre": "halo_centre", "HaloCatalogueIndex": "halo_catalogue_index", "IsCentral": "is_central",
    "NumberOfBoundParticles": "number_of_bound_particles", "TrackId": "track_id", "Depth": "depth",
    "TotalMass": "total_mass", "CentreOfMass": "centre_of_mass", "EncloseRadius": "enclose_radius",
    "NumberOfGasParticles": "number_of_gas_particles", "SORadius": "soradius",
    "CentreOfMassVelocity": "centre_of_mass_velocity", "StellarMass": "stellar_mass",
    "StellarLuminosity": "stellar_luminosity", "HostHaloIndex": "host_halo_index",
    "SubhaloRankByBoundMass": "subhalo_rank_by_bound_mass", "Centres": "centres",
    "NeighbourCells": "neighbour_cells", "GasParticlesSeen": "gas_particles_seen",
    "VelocityGradients": "velocity_gradients", "GroupIDs": "group_ids", "Sizes": "sizes", "Radii": "radii",
}


def snake(name):
    """The public name swiftsimio documents for an HDF5 field (a table, not a rule)."""
    return PUBLIC[name]


SNAP_TYPES = {
    0: ["Coordinates", "Velocities", "Masses", "ParticleIDs", "SmoothingLengths", "Densities",
        "Temperatures", "InternalEnergies", "ElementMassFractions", "SpeciesFractions",
        "LastHeatingScaleFactors", "CoolingTimes", "Flags", "BFields"],
    1: ["Coordinates", "Velocities", "Masses", "ParticleIDs", "FOFGroupIDs", "Potentials"],
    4: ["Coordinates", "Velocities", "Masses", "ParticleIDs", "BirthScaleFactors",
        "ElementMassFractions", "InitialMasses", "Luminosities"],
    5: ["Coordinates", "Velocities", "DynamicalMasses", "ParticleIDs", "Spins", "Counts"],
    6: ["Coordinates", "Velocities", "Masses", "ParticleIDs"],
    2: ["Coordinates", "Velocities", "Masses", "ParticleIDs"],
    3: ["Coordinates", "Velocities", "Masses", "ParticleIDs"],
    7: ["Coordinates", "Velocities", "Masses", "ParticleIDs"],
}


def _field(name, n, rng, p, a_mode=0):
    r = rng
    f4, f8 = "f4", "f8"
    u = r.random
    named = None
    kw = {}
    if name == "Velocities":
        d, ue, a = (r.normal(size=(n, 3)) * 100).astype(f4), (1, 0, -1, 0, 0), 0.0
    elif name in ("Masses", "DynamicalMasses", "InitialMasses"):
        d, ue, a = (u(n) + 0.5).astype(f4), (0, 1, 0, 0, 0), 0.0
    elif name == "ParticleIDs":
        d, ue, a = (r.permutation(n).astype("u8") * 7 + 1 + 10 ** 12 * (n % 9 + 1)), (0,) * 5, 0.0
    elif name == "SmoothingLengths":
        d, ue, a = ((0.01 + 0.05 * u(n)) * p.get("hscale", 1.0) * (10 if "hscale" in p else 1)).astype(f8 if a_mode else f4), (1, 0, 0, 0, 0), 1.0
    elif name == "Densities":
        d, ue, a = (10 ** r.normal(size=n)).astype(f4), (-3, 1, 0, 0, 0), -3.0
    elif name == "Temperatures":
        d, ue, a = (10 ** (4 + r.normal(size=n))).astype(f4), (0, 0, 0, 0, 1), 0.0
    elif name == "InternalEnergies":
        d, ue, a = (u(n) * 50).astype(f4), (2, 0, -2, 0, 0), -2.0
    elif name == "Potentials":
        d, ue, a = (-u(n) * 50).astype(f4), (2, 0, -2, 0, 0), -1.0
    elif name == "ElementMassFractions":
        d, ue, a = u((n, len(p["named"]["ElementMassFractions"]) or 4)).astype(f4), (0,) * 5, 0.0
        named = p["named"]["ElementMassFractions"] or None
    elif name == "SpeciesFractions":
        d, ue, a = u((n, len(p["named"]["SpeciesFractions"]) or 3)).astype(f8), (0,) * 5, 0.0
        named = p["named"]["SpeciesFractions"] or None
    elif name == "LastHeatingScaleFactors":
        d, ue, a = u(n).astype(f4), (0,) * 5, 0.0
        kw = dict(physical=True, conv=False)
    elif name == "BirthScaleFactors":
        d, ue, a = u(n).astype(f4), (0,) * 5, 0.0
        kw = dict(physical=True, conv=False)
    elif name == "CoolingTimes":
        d, ue, a = u(n).astype(f8), (0, 0, 1, 0, 0), 0.0
        kw = dict(physical=True, conv=True)
    elif name == "Luminosities":
        d, ue, a = (u((n, 9)) * 1e3).astype(f4), (2, 1, -3, 0, 0), 0.0
        kw = dict(physical=True, conv=True)
    elif name == "Flags":
        d, ue, a = r.integers(-5, 5, size=n).astype("i1"), (0,) * 5, 0.0
    elif name == "BFields":
        d, ue, a = r.normal(size=(n, 3)).astype(f4), (0, 1, -2, -1, 0), -2.0
    elif name == "FOFGroupIDs":
        d, ue, a = r.integers(0, 2 ** 31 - 1, size=n).astype("i8"), (0,) * 5, 0.0
    elif name == "Spins":
        d, ue, a = u((n, 3)).astype(f8), (0,) * 5, 0.0
    elif name == "Counts":
        d, ue, a = r.integers(0, 1000, size=n).astype("i4"), (0,) * 5, 0.0
    else:
        d, ue, a = u(n).astype(f4), (0,) * 5, 0.0
    return Field(d, ue, a, named=named, desc=f"{name} of the objects.", **kw)


def _swap(f, rng):
    """Some stored fields are big-endian."""
    f.data = f.data.astype(f.data.dtype.newbyteorder(">"))


def _write_field(h, path, f, p, rng_layout):
    n = f.data.shape[0]
    lay = p["layout"]
    kw = {}
    if lay != "contiguous" and n > 0:
        c = max(1, min(n, p["chunk"]))
        kw["chunks"] = (c,) + f.data.shape[1:]
        if lay == "gzip":
            kw.update(compression="gzip", compression_opts=1, shuffle=bool(p["seed"] % 2))
        elif lay == "fletcher":
            kw.update(fletcher32=True)
    elif lay != "contiguous":
        kw["chunks"] = (max(1, p["chunk"]),) + f.data.shape[1:]
        kw["maxshape"] = (None,) + f.data.shape[1:]
    d = h.create_dataset(path, data=f.data, **kw)
    _field_attrs(d, f, p)


def _filler(attrs, p, k):
    """With dense attribute storage: spread the attributes over several blocks of the file."""
    if p.get("dense") and (p["seed"] >> (k % 7)) & 1:
        attrs[f"Remark {k}"] = np.bytes_("x" * (300 + 100 * ((p["seed"] >> k) % 9)))


def _field_attrs(d, f, p):
    L, M, t, I, T = f.ue
    _filler(d.attrs, p, 0)
    d.attrs["U_I exponent"] = np.array([I], "f4")
    d.attrs["U_L exponent"] = np.array([L], "f4")
    d.attrs["U_M exponent"] = np.array([M], "f4")
    d.attrs["U_T exponent"] = np.array([T], "f4")
    d.attrs["U_t exponent"] = np.array([t], "f4")
    _filler(d.attrs, p, 1)
    d.attrs["a-scale exponent"] = np.array([f.a], "f4")
    _filler(d.attrs, p, 2)
    d.attrs["h-scale exponent"] = np.array([0.0], "f4")
    d.attrs["Description"] = np.bytes_(f.desc) if p.get("bytes_desc", True) else f.desc
    _filler(d.attrs, p, 3)
    d.attrs["Lossy compression filter"] = np.bytes_(f.comp)
    _filler(d.attrs, p, 4)
    if not p.get("old", False):
        d.attrs["Value stored as physical"] = np.array([int(f.physical)], "i4")
        _filler(d.attrs, p, 5)
        d.attrs["Property can be converted to comoving"] = np.array([int(f.conv)], "i4")
    for k, v in f.attrs.items():
        d.attrs[k] = v


def _units_group(h, p):
    g = h.create_group("Units")
    L, M, t, I, T = UNITS[p["units"]]
    g.attrs["Unit current in cgs (U_I)"] = np.array([I])
    g.attrs["Unit length in cgs (U_L)"] = np.array([L])
    g.attrs["Unit mass in cgs (U_M)"] = np.array([M])
    g.attrs["Unit temperature in cgs (U_T)"] = np.array([T])
    g.attrs["Unit time in cgs (U_t)"] = np.array([t])
    g2 = h.create_group("InternalCodeUnits")
    for k, v in g.attrs.items():
        g2.attrs[k] = v


def _cosmology(h, p):
    g = h.create_group("Cosmology")
    g.attrs["Cosmological run"] = np.array([int(p["cosmo"])])
    if p["cosmo"]:
        a = p["a"]
        vals = {
            "Scale-factor": a, "Redshift": 1 / a - 1, "H [internal units]": 70.0,
            "H0 [internal units]": 67.77, "Critical density [internal units]": 12.8,
            "Omega_b": 0.0486, "Omega_m": 0.307, "Omega_k": 0.0, "Omega_lambda": 0.693,
            "Omega_r": 0.0, "w_0": -1.0, "w_a": 0.0, "w": -1.0, "h": 0.6777,
            "Hubble time [internal units]": 0.01, "Lookback time [internal units]": 0.0,
            "Time [internal units]": 0.01, "T_CMB_0 [K]": 2.725, "T_CMB_0 [internal units]": 2.725,
            "N_eff": 0.0, "N_nu": 0.0, "N_ur": 0.0, "Omega_g": 5.4e-5, "Omega_nu": 0.0,
            "Omega_nu_0": 0.0, "Omega_ur": 0.0, "Omega_cdm": 0.2584,
        }
        for k, v in vals.items():
            g.attrs[k] = np.array([v])
        g.attrs["M_nu_eV"] = np.zeros(1)
        g.attrs["deg_nu"] = np.zeros(1)


def _misc_groups(h, p):
    c = h.create_group("Code")
    c.attrs["Code"] = np.bytes_("SWIFT")
    c.attrs["Code Version"] = np.bytes_("1.0.0")
    for k in ("Git Branch", "Git Revision", "Git Date", "Compiler Name", "Compiler Version", "MPI library",
              "FFTW library version", "GSL library version", "HDF5 library version"):
        c.attrs[k] = np.bytes_(f"{k} {p['seed'] % 97}")
    hs = h.create_group("HydroScheme")
    hs.attrs["Adiabatic index"] = np.array([5.0 / 3.0])
    hs.attrs["Scheme"] = np.bytes_("SPHENIX")
    hs.attrs["Kernel function"] = np.bytes_("Quartic spline (M5)")
    hs.attrs["Dimension"] = np.array([3.0])
    hs.attrs["Kernel eta"] = np.array([1.2])
    hs.attrs["Kernel target N_ngb"] = np.array([57.3])
    hs.attrs["CFL parameter"] = np.array([0.2])
    gs = h.create_group("GravityScheme")
    gs.attrs["Scheme"] = np.bytes_("FMM")
    pa = h.create_group("Parameters")
    for i in range(5):
        pa.attrs[f"Group:key_{i}"] = np.bytes_(str((p["seed"] * (i + 3)) % 1001))
    h.create_group("Policy").attrs["cosmological integration"] = np.array([int(p["cosmo"])])
    h.create_group("RuntimePars").attrs["PeriodicBoundariesOn"] = np.array([1])
    h.create_group("StarsScheme").attrs["Stars Scheme"] = np.bytes_("none")
    h.create_group("UnusedParameters").attrs["x:y"] = np.bytes_("1")
    if p.get("oddnames"):
        d = h.create_group("CellsDiagnostics")
        d.attrs["note"] = np.bytes_("extra")
        d.create_dataset("history/cost", data=np.arange(p["seed"] % 7 + 1, dtype="f8"))
        h["CellsDiagnostics/latest"] = h5py.SoftLink("/CellsDiagnostics/history/cost")


def layout_cells(p, rng):
    """Cell grid: centres in top-level index order, plus the order of cells in the file."""
    nc = p["cells"]
    box = np.array(p["box"], float)
    size = box / np.array(nc)
    ijk = np.array([(i, j, k) for i in range(nc[0]) for j in range(nc[1]) for k in range(nc[2])])
    centres = (ijk + 0.5) * size
    ncell = len(centres)
    if p["order"] == "sorted":
        file_order = np.arange(ncell)
    elif p["order"] == "ranks":
        # MPI: cells belong to ranks; the file holds rank 0's cells, then rank 1's, ...
        nr = p.get("nranks", 3)
        rank = rng.integers(0, nr, size=ncell)
        file_order = np.concatenate([np.where(rank == r)[0] for r in range(nr)])
    else:
        file_order = rng.permutation(ncell)
    return centres, size, file_order


def _snapshot_arrays(w, p):
    rng = np.random.default_rng(p["seed"])
    centres, size, file_order = layout_cells(p, rng)
    box = np.array(p["box"], float)
    ncell = len(centres)
    w.centres, w.cell_size, w.box = centres, size, box
    w.file_order = file_order
    w.counts, w.offsets, w.minpos, w.maxpos, w.cell_of = {}, {}, {}, {}, {}
    for pt_s, n in sorted(p["ptypes"].items()):
        pt = int(pt_s)
        # which cells are populated by this type
        live = rng.random(ncell) >= p["empty"].get(pt_s, 0.0)
        if n and not live.any():
            live[rng.integers(ncell)] = True
        probs = live * (rng.random(ncell) + 0.05)
        counts = rng.multinomial(n, probs / probs.sum()) if n else np.zeros(ncell, int)
        offsets = np.zeros(ncell, np.int64)
        run = 0
        for c in file_order:
            offsets[c] = run
            run += counts[c]
        cell_of = np.concatenate([np.full(counts[c], c) for c in file_order]).astype(int) if n else np.zeros(0, int)
        pos = centres[cell_of] + (rng.random((n, 3)) - 0.5) * size
        if p["drift"] and n:
            dr = rng.random(n) < 0.2
            pos[dr] += ((rng.random((n, 3)) - 0.5) * 2 * p["drift"] * size)[dr]
        if p.get("edges") and n:      # particles exactly on, or one rounding error away from, the sides of the box
            er = np.random.default_rng([p["seed"], 77, pt])
            for ax in range(3):
                low = (er.random(n) < 0.3) & (centres[cell_of][:, ax] < size[ax])
                high = (er.random(n) < 0.3) & (centres[cell_of][:, ax] > box[ax] - size[ax])
                pos[low, ax] = er.choice([0.0, 0.0, 5e-324, -1e-17 if p.get("unwrapped") else 1e-17], size=int(low.sum()))
                pos[high, ax] = np.nextafter(box[ax], 0)
        unwrapped = pos.copy()
        if not p.get("unwrapped"):
            pos = np.where(pos < 0, pos + box, pos)
            pos = np.where(pos >= box, pos - box, pos)
        w.counts[pt], w.offsets[pt], w.cell_of[pt] = counts.astype(np.int64), offsets, cell_of
        mn, mx = centres - 0.5 * size, centres + 0.5 * size
        mn, mx = mn.copy(), mx.copy()
        for c in range(ncell):
            sel = cell_of == c
            if sel.any():
                # particles that drifted across the periodic boundary are written unwrapped
                # relative to their cell in the bounding box
                mn[c] = unwrapped[sel].min(axis=0)
                mx[c] = unwrapped[sel].max(axis=0)
        w.minpos[pt], w.maxpos[pt] = mn, mx
        g = f"PartType{pt}"
        w.groups[PT_NAME[pt]] = (g, n)
        for name in SNAP_TYPES[pt]:
            if name in p.get("drop", []):
                continue
            if name == "Coordinates":
                f = Field(pos.astype("f8"), (1, 0, 0, 0, 0), 1.0, desc="Co-moving positions")
            else:
                f = _field(name, n, rng, p, a_mode=p["seed"] % 2)
            if p.get("physical_all") and name == "Velocities":
                f.physical = True
            if p.get("bigendian") and f.data.dtype.itemsize > 1 and rng.random() < 0.6:
                _swap(f, rng)
            w.fields[f"{g}/{name}"] = f
        if p.get("onecol") and n:
            w.fields[f"{g}/OneColumn"] = Field(rng.random((n, 1)).astype("f4"), desc="(N,1) array")
        if p.get("tensor"):
            w.fields[f"{g}/VelocityGradients"] = Field(rng.random((n, 3, 3)).astype("f4"), (0, 0, -1, 0, 0), -1.0, desc="(N,3,3) array")
        if p.get("oddnames"):
            # names that contain the names of other things in the file
            for q in ("NeighbourCells", "GasParticlesSeen"):
                w.fields[f"{g}/{q}"] = Field(rng.integers(0, 50, size=n).astype("i4"), desc=q)


def _snapshot_header(w, h, p, output_type="FullVolume"):
    g = h.create_group("Header")
    box = np.array(p["box"], float)
    npart = np.zeros(8, np.int64)
    has = np.zeros(8, np.int32)
    for pt, n in p["ptypes"].items():
        npart[int(pt)] = n
        has[int(pt)] = 1
    if p.get("npt6"):
        if not has[6:].any():
            npart, has = npart[:6], has[:6]
    hd = {
        "BoxSize": box, "Dimension": np.array([3]), "NumPart_ThisFile": npart,
        "NumPart_Total": npart.astype("u4"), "NumFilesPerSnapshot": np.array([p.get("nfiles_attr", 1)]),
        "Redshift": np.array([1 / p["a"] - 1 if p["cosmo"] else 0.0]),
        "Scale-factor": np.array([p["a"] if p["cosmo"] else 1.0]),
        "Time": np.array([0.0123 * (p["seed"] % 7 + 1)]),
        "MassTable": np.arange(len(npart)) * 0.5, "InitialMassTable": np.arange(len(npart)) * 0.25,
        "RunName": np.bytes_(f"run{p['seed'] % 1000}"), "System": np.bytes_("sim"),
        "SelectOutput": np.bytes_("Default"), "SnapshotDate": np.bytes_("12:34:56 2024-02-03 UTC"),
        "Code": np.bytes_("SWIFT"), "Virtual": np.array([int(bool(p.get("virtual")))]),
    }
    if p.get("canhave", True):
        hd["CanHaveTypes"] = has
    if p.get("has_output_type", True):
        hd["OutputType"] = np.bytes_(output_type) if p["seed"] % 2 else output_type
    for i, (k, v) in enumerate(hd.items()):
        _filler(g.attrs, p, 10 + i)
        g.attrs[k] = v
    w.header = hd


def build_snapshot(path, p):
    w = World(p)
    _snapshot_arrays(w, p)
    w.path = path
    vfiles = []
    with h5py.File(path, "w", libver=p.get("libver", "earliest")) as h:
        _misc_groups(h, p)
        _units_group(h, p)
        _cosmology(h, p)
        _snapshot_header(w, h, p)
        sg = h.create_group("SubgridScheme")
        nc = sg.create_group("NamedColumns")
        for k, v in p["named"].items():
            if v:
                nc.create_dataset(k, data=np.array(v, dtype="S32"))
        w.named = {k: v for k, v in p["named"].items() if v}
        if p.get("photon"):
            sg.create_dataset("PhotonGroupEdges", data=np.array([3.2e15, 5.9e15]))
        if p.get("mapping") and len(w.named) == 2:
            k1, k2 = "ElementMassFractions", "SpeciesFractions"
            w.mapping = np.arange(len(p["named"][k1]) * len(p["named"][k2]), dtype=float).reshape(
                len(p["named"][k1]), len(p["named"][k2]))
            sg.create_dataset("ElementToSpeciesMapping", data=w.mapping)
        c = h.create_group("Cells")
        c.create_dataset("Centres", data=w.centres)
        md = c.create_group("Meta-data")
        md.attrs["dimension"] = np.array(p["cells"])
        md.attrs["nr_cells"] = np.array([len(w.centres)])
        md.attrs["size"] = w.cell_size
        for pt in w.counts:
            c.create_dataset(f"Counts/PartType{pt}", data=w.counts[pt])
            c.create_dataset(f"{p['offname']}/PartType{pt}", data=w.offsets[pt])
            if p["minmax"]:
                c.create_dataset(f"MinPositions/PartType{pt}", data=w.minpos[pt])
                c.create_dataset(f"MaxPositions/PartType{pt}", data=w.maxpos[pt])
        if p.get("virtual"):
            vfiles = _write_virtual(h, w, p, path)
        else:
            for fp, f in w.fields.items():
                _write_field(h, fp, f, p, None)
        nice = {0: "GasParticles", 1: "DMParticles", 4: "StarsParticles", 5: "BHParticles"}
        if p.get("links", True):
            for pt in w.counts:
                if pt in nice:
                    h[nice[pt]] = h5py.SoftLink(f"/PartType{pt}")
                    w.links[nice[pt]] = f"/PartType{pt}"
        if p.get("nested_links"):
            for pt in w.counts:
                h[f"PartType{pt}/Positions"] = h5py.SoftLink(f"/PartType{pt}/Coordinates")
                w.links[f"PartType{pt}/Positions"] = f"/PartType{pt}/Coordinates"
                w.fields[f"PartType{pt}/Positions"] = w.fields[f"PartType{pt}/Coordinates"]
    w.vfiles = vfiles
    return w


def _write_virtual(h, w, p, path):
    """A virtual snapshot: the particle data live in sub-files, stitched by HDF5 VDS."""
    nf = int(p["virtual"])
    names = []
    for pt in w.counts:
        n = w.groups[PT_NAME[pt]][1]
        h.create_group(f"PartType{pt}")
        edges = np.linspace(0, n, nf + 1).astype(int)
        for fp, f in w.fields.items():
            if not fp.startswith(f"PartType{pt}/"):
                continue
            lay = h5py.VirtualLayout(shape=f.data.shape, dtype=f.data.dtype)
            for i in range(nf):
                a, b = edges[i], edges[i + 1]
                sub = path.replace(".hdf5", f".{i}.hdf5")
                if sub not in names:
                    names.append(sub)
                with h5py.File(sub, "a") as s:
                    s.create_dataset(fp, data=f.data[a:b])
                if b > a:
                    lay[a:b] = h5py.VirtualSource(sub, fp, shape=(b - a,) + f.data.shape[1:])
            d = h.create_virtual_dataset(fp, lay)
            _field_attrs(d, f, p)
    return names


# ---------------------------------------------------------------------------
SOAP_GROUPS = {
    "InputHalos": ["HaloCentre", "HaloCatalogueIndex", "IsCentral", "NumberOfBoundParticles"],
    "InputHalos/HBTplus": ["TrackId", "Depth"],
    "BoundSubhalo": ["TotalMass", "CentreOfMass", "EncloseRadius", "NumberOfGasParticles"],
    "SO/200_crit": ["TotalMass", "SORadius", "CentreOfMassVelocity"],
    "ExclusiveSphere/50kpc": ["StellarMass", "StellarLuminosity"],
    "SOAP": ["HostHaloIndex", "SubhaloRankByBoundMass"],
}


def soap_name(g):
    m = {"BoundSubhalo": "bound_subhalo", "InputHalos": "input_halos", "SO": "spherical_overdensity",
         "SOAP": "soap", "ExclusiveSphere": "exclusive_sphere"}
    parts = g.split("/")
    return "_".join([m[parts[0]]] + [x.lower() for x in parts[1:]])


def build_soap(path, p):
    rng = np.random.default_rng(p["seed"])
    w = World(p)
    w.path = path
    centres, size, file_order = layout_cells(p, rng)
    box = np.array(p["box"], float)
    ncell = len(centres)
    n = p["n"]
    probs = (rng.random(ncell) >= p.get("empty_soap", 0.2)) * (rng.random(ncell) + 0.05)
    if probs.sum() == 0:
        probs[:] = 1
    counts = rng.multinomial(n, probs / probs.sum()).astype(np.int64)
    offsets = np.zeros(ncell, np.int64)
    run = 0
    for c in file_order:
        offsets[c] = run
        run += counts[c]
    cell_of = np.concatenate([np.full(counts[c], c) for c in file_order]).astype(int) if n else np.zeros(0, int)
    pos = centres[cell_of] + (rng.random((n, 3)) - 0.5) * size * 0.999
    w.centres, w.cell_size, w.box, w.file_order = centres, size, box, file_order
    w.counts = {"shared": counts}
    w.offsets = {"shared": offsets}
    w.cell_of = {"shared": cell_of}
    w.pos = pos
    groups = p.get("groups") or list(SOAP_GROUPS)
    for g in groups:
        w.groups[soap_name(g)] = (g, n)
        for name in SOAP_GROUPS[g]:
            if name == "HaloCentre":
                f = Field(pos, (1, 0, 0, 0, 0), 1.0)
            elif name in ("HaloCatalogueIndex", "TrackId"):
                f = Field((rng.permutation(n) * 3 + 5).astype("i8"))
            elif name in ("IsCentral", "Depth"):
                f = Field(rng.integers(0, 2, n).astype("i4"))
            elif name.startswith("Number"):
                f = Field(rng.integers(0, 5000, n).astype("u4"))
            elif name.endswith("Mass"):
                f = Field((10 ** rng.normal(size=n)).astype("f4"), (0, 1, 0, 0, 0), 0.0, physical=True,
                          attrs={"Masked": True, "Mask Datasets": ["BoundSubhalo/NumberOfGasParticles"],
                                 "Mask Threshold": 100} if name == "StellarMass" else {})
            elif name == "CentreOfMass":
                f = Field(pos + 0.001, (1, 0, 0, 0, 0), 1.0)
            elif name in ("EncloseRadius", "SORadius"):
                f = Field(rng.random(n), (1, 0, 0, 0, 0), 1.0)
            elif name == "CentreOfMassVelocity":
                f = Field(rng.normal(size=(n, 3)).astype("f4"), (1, 0, -1, 0, 0), 0.0)
            elif name == "StellarLuminosity":
                f = Field(rng.random((n, 9)).astype("f4"))
            else:
                f = Field(rng.integers(-1, 100, n).astype("i8"))
            f.desc = f"{name} in {g}"
            w.fields[f"{g}/{name}"] = f
    with h5py.File(path, "w", libver=p.get("libver", "earliest")) as h:
        _misc_groups(h, p)
        _units_group(h, p)
        _cosmology(h, p)
        hd = h.create_group("Header")
        w.header = {
            "BoxSize": box, "Dimension": np.array([3]), "NumPart_ThisFile": np.zeros(7, int),
            "NumSubhalos_ThisFile": np.array([n]), "NumSubhalos_Total": np.array([n]),
            "NumFilesPerSnapshot": np.array([1]), "Redshift": np.array([1 / p["a"] - 1]),
            "Scale-factor": np.array([p["a"]]), "Time": np.array([0.5]), "OutputType": "SOAP",
            "RunName": "soaprun", "SubhaloTypes": list(groups), "System": "sys",
            "SnapshotDate": "12:34:56 2024-02-03 UTC",
        }
        for k, v in w.header.items():
            hd.attrs[k] = v
        c = h.create_group("Cells")
        c.create_dataset("Centres", data=centres)
        md = c.create_group("Meta-data")
        md.attrs["dimension"] = np.array(p["cells"])
        md.attrs["nr_cells"] = np.array([ncell])
        md.attrs["size"] = size
        c.create_dataset("Counts/Subhalos", data=counts)
        c.create_dataset(f"{p['offname']}/Subhalos", data=offsets)
        for fp, f in w.fields.items():
            _write_field(h, fp, f, p, None)
    return w


def build_fof(path, p):
    rng = np.random.default_rng(p["seed"])
    w = World(p)
    w.path = path
    n = p["n"]
    w.box = np.array(p["box"], float)
    w.groups["fof_groups"] = ("Groups", n)
    w.fields["Groups/Centres"] = Field(rng.random((n, 3)) * w.box, (1, 0, 0, 0, 0), 1.0, desc="c")
    w.fields["Groups/GroupIDs"] = Field((rng.permutation(n) + 1).astype("i8"), desc="ids")
    w.fields["Groups/Masses"] = Field(rng.random(n), (0, 1, 0, 0, 0), 0.0, desc="m")
    w.fields["Groups/Sizes"] = Field(rng.integers(20, 2000, n).astype("i8"), desc="s")
    w.fields["Groups/Radii"] = Field(rng.random(n), (1, 0, 0, 0, 0), 1.0, desc="r")
    with h5py.File(path, "w", libver=p.get("libver", "earliest")) as h:
        _misc_groups(h, p)
        _units_group(h, p)
        _cosmology(h, p)
        hd = h.create_group("Header")
        w.header = {
            "BoxSize": w.box, "Dimension": np.array([3]), "NumPart_ThisFile": np.zeros(7, int),
            "NumGroup_ThisFile": np.array([n]), "NumGroup_Total": np.array([n]),
            "NumFilesPerSnapshot": np.array([1]), "Redshift": np.array([1 / p["a"] - 1]),
            "Scale-factor": np.array([p["a"]]), "Time": np.array([0.5]), "OutputType": np.bytes_("FOF"),
            "RunName": np.bytes_("fofrun"), "System": np.bytes_("sys"),
            "SnapshotDate": np.bytes_("12:34:56 2024-02-03 UTC"),
        }
        for k, v in w.header.items():
            hd.attrs[k] = v
        for fp, f in w.fields.items():
            _write_field(h, fp, f, p, None)
    return w


def build_los(path, p):
    rng = np.random.default_rng(p["seed"])
    w = World(p)
    w.path = path
    w.box = np.array(p["box"], float)
    with h5py.File(path, "w", libver=p.get("libver", "earliest")) as h:
        _misc_groups(h, p)
        _units_group(h, p)
        _cosmology(h, p)
        hd = h.create_group("Header")
        w.header = {
            "BoxSize": w.box, "Dimension": np.array([3]), "NumPart_ThisFile": np.zeros(7, int),
            "NumFilesPerSnapshot": np.array([1]), "Redshift": np.array([1 / p["a"] - 1]),
            "Scale-factor": np.array([p["a"]]), "Time": np.array([0.5]), "OutputType": np.bytes_("LineOfSight"),
            "RunName": np.bytes_("losrun"), "System": np.bytes_("sys"),
            "SnapshotDate": np.bytes_("12:34:56 2024-02-03 UTC"),
        }
        for k, v in w.header.items():
            hd.attrs[k] = v
        for i, n in enumerate(p["los"]):
            g = f"LOS_{i:04d}"
            gr = h.create_group(g)
            at = {"NumParts": np.int32(n), "Xaxis": np.int32(i % 3), "Yaxis": np.int32((i + 1) % 3),
                  "Zaxis": np.int32((i + 2) % 3), "Xpos": float(rng.random()), "Ypos": float(rng.random()),
                  "Zpos": float(rng.random())}
            for k, v in at.items():
                gr.attrs[k] = v if p["seed"] % 2 else np.array([v])
            w.group_attrs[g.lower()] = at
            w.groups[g.lower()] = (g, n)
            for name in ["Coordinates", "Velocities", "Masses", "Densities", "Temperatures", "ParticleIDs"]:
                if name == "Coordinates":
                    f = Field(rng.random((n, 3)) * w.box, (1, 0, 0, 0, 0), 1.0, desc="pos")
                else:
                    f = _field(name, n, rng, p)
                w.fields[f"{g}/{name}"] = f
        for fp, f in w.fields.items():
            _write_field(h, fp, f, p, None)
    return w


BUILD = {"snapshot": build_snapshot, "soap": build_soap, "fof": build_fof, "los": build_los}


def build(path, p):
    return BUILD[p["kind"]](path, p)


# ---------------------------------------------------------------------------
# random parameters

def rand_params(rng, kind="snapshot", small=False, **over):
    """Draw world parameters; `rng` is a random.Random."""
    cells = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
    if rng.random() < 0.4:
        cells = [rng.choice([2, 3, 4])] * 3
    box = [rng.choice([1.0, 10.0, 142.25])] * 3
    if rng.random() < 0.4:
        box = [rng.choice([1.0, 2.0, 3.5, 10.0]) for _ in range(3)]
    p = {
        "kind": kind, "seed": rng.randrange(2 ** 31), "cells": cells, "box": box,
        "units": rng.choice(list(UNITS)), "a": round(rng.uniform(0.1, 1.0), 4), "cosmo": 1,
        "order": rng.choice(["sorted", "ranks", "ranks", "shuffled"]),
        "layout": rng.choice(["contiguous", "chunked", "chunked", "gzip", "fletcher"]),
        "chunk": rng.choice([1, 2, 3, 5, 8, 16, 33, 64, 1000]),
        "offname": rng.choice(["OffsetsInFile", "OffsetsInFile", "Offsets"]),
        "bytes_desc": rng.random() < 0.7,
        "named": {"ElementMassFractions": [], "SpeciesFractions": []},
    }
    if kind == "snapshot":
        big = 60 if small else rng.choice([30, 100, 300])
        types = {}
        pool = [0, 1, 4, 5, 6, 2, 3, 7]
        wts = [6, 6, 3, 3, 1, 1, 1, 1]
        k = rng.choice([1, 2, 2, 3, 3, 4])
        while len(types) < k:
            t = rng.choices(pool, wts)[0]
            types[str(t)] = rng.choice([1, 2, rng.randrange(big) + 1, rng.randrange(big) + 1, big])
        if rng.random() < 0.12:
            types[rng.choice(sorted(types))] = 0
        if all(v == 0 for v in types.values()):
            types[sorted(types)[0]] = 5
        p["ptypes"] = types
        p["empty"] = {t: rng.choice([0.0, 0.0, 0.3, 0.7, 0.95]) for t in types}
        p["drift"] = rng.choice([0.0, 0.0, 0.05, 0.3])
        p["minmax"] = rng.random() < 0.6
        p["bigendian"] = rng.random() < 0.2
        p["onecol"] = rng.random() < 0.15
        p["oddnames"] = rng.random() < 0.15
        p["tensor"] = rng.random() < 0.15
        p["cosmo"] = int(rng.random() < 0.85)
        p["canhave"] = rng.random() < 0.8
        p["has_output_type"] = rng.random() < 0.9
        p["npt6"] = rng.random() < 0.2
        p["old"] = rng.random() < 0.15
        p["photon"] = rng.random() < 0.2
        p["links"] = rng.random() < 0.8
        if rng.random() < 0.7:
            p["named"]["ElementMassFractions"] = ["Hydrogen", "Helium", "Carbon", "Iron"][:rng.choice([1, 2, 4])]
        if rng.random() < 0.5:
            p["named"]["SpeciesFractions"] = ["HII", "HeII", "H2", "elec"][:rng.choice([2, 3, 4])]
        p["mapping"] = rng.random() < 0.3
        if rng.random() < 0.12 and not p["onecol"]:
            p["virtual"] = rng.choice([2, 3])
            p["libver"] = "latest"
        elif rng.random() < 0.1:
            p["libver"] = "latest"
        if not p["canhave"]:
            for t in list(types):
                if types[t] == 0:
                    types[t] = 1
        if p["drift"] and not p["minmax"]:
            p["drift"] = min(p["drift"], 0.05)
    elif kind == "soap":
        p["n"] = rng.choice([1, 2, rng.randrange(300) + 1, rng.randrange(300) + 1, 40])
        p["oddnames"] = rng.random() < 0.15
        p["empty_soap"] = rng.choice([0.0, 0.3, 0.8])
        gs = list(SOAP_GROUPS)
        p["groups"] = ["InputHalos"] + [g for g in gs[1:] if rng.random() < 0.6]
        if "InputHalos/HBTplus" in p["groups"] and rng.random() < 0.3:
            p["groups"].remove("InputHalos/HBTplus")
    elif kind == "fof":
        p["n"] = rng.choice([1, 2, rng.randrange(200) + 1])
    elif kind == "los":
        p["los"] = [rng.randrange(1, 60) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.2:
        p["dense"], p["libver"] = True, "latest"
    p.update(over)
    return p


def shrink_params(p):
    """Simpler worlds to try while minimising."""
    def v(**kw):
        q = dict(p)
        q.update(kw)
        return q
    for key, val in (("virtual", None), ("bigendian", False), ("onecol", False), ("tensor", False), ("photon", False),
                     ("mapping", False), ("nested_links", False), ("oddnames", False), ("dense", False), ("libver", "earliest"), ("old", False),
                     ("npt6", False), ("drift", 0.0), ("units", "galactic")):
        if p.get(key) and p.get(key) != val:
            yield v(**{key: val})
    if any(p.get("named", {}).values()):
        yield v(named={"ElementMassFractions": [], "SpeciesFractions": []}, mapping=False)
    if p.get("layout") not in (None, "contiguous"):
        yield v(layout="contiguous")
    if p.get("order") not in (None, "sorted"):
        yield v(order="sorted")
    if p.get("cells") and p["cells"] != [1, 1, 1]:
        yield v(cells=[1, 1, 1])
        for i in range(3):
            if p["cells"][i] > 1:
                c = list(p["cells"])
                c[i] = max(1, c[i] // 2)
                yield v(cells=c)
    if len(set(p.get("box", [1]))) > 1:
        yield v(box=[p["box"][0]] * 3)
    if "ptypes" in p:
        for t in sorted(p["ptypes"]):
            if len(p["ptypes"]) > 1:
                q = {k: x for k, x in p["ptypes"].items() if k != t}
                yield v(ptypes=q)
        for t in sorted(p["ptypes"]):
            if p["ptypes"][t] > 1:
                yield v(ptypes=dict(p["ptypes"], **{t: p["ptypes"][t] // 2}))
    if p.get("n", 0) > 1:
        yield v(n=p["n"] // 2)


def vis_params(seed, n=60, **over):
    """A gas snapshot for imaging: cubic box, every field the imaging tools read."""
    p = {
        "kind": "snapshot", "seed": seed, "cells": [3, 3, 3], "box": [10.0] * 3, "units": "galactic", "a": 0.8, "cosmo": 1,
        "order": "ranks", "layout": "chunked", "chunk": 16, "offname": "OffsetsInFile", "bytes_desc": True,
        "named": {"ElementMassFractions": ["Hydrogen", "Helium"], "SpeciesFractions": []}, "ptypes": {"0": n}, "empty": {},
        "drift": 0.0, "minmax": True, "bigendian": False, "hscale": 10 ** (-1 + (seed // 7 % 5) * 0.3),
    }
    p.update(over)
    return p
