"""What a written subset must hold, given the source world and the selected rows."""

import copy

import h5py
import numpy as np

from . import masksim as M
from . import oracle as O
from . import world as W

SKIP_ATTRS = {"OutputType", "NumPart_ThisFile", "NumSubhalos_ThisFile"}


def same_attr(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def sub_world(w, rows, path):
    """The world of a subset: same metadata, the given rows (per group, in file order)."""
    v = copy.copy(w)
    v.p = dict(w.p)
    v.path = path
    v.fields, v.groups, v.cell_of, v.counts, v.offsets = {}, {}, {}, {}, {}
    v.header = dict(w.header)
    shared = w.p["kind"] == "soap"
    for g, (h, _) in w.groups.items():
        if not shared and not w.p.get("canhave", True) and not len(rows[g]):
            continue        # nothing says any more that the file can have this type
        v.groups[g] = (h, len(rows[g]))
        for n, f in w.group_fields(g).items():
            q = copy.copy(f)
            q.data = f.data[rows[g]]
            v.fields[f"{h}/{n}"] = q
    if shared:
        v.p["n"] = len(rows["input_halos"])
        v.pos = w.pos[rows["input_halos"]]
        v.cell_of = {"shared": w.cell_of["shared"][rows["input_halos"]]}
    else:
        v.p["ptypes"] = {str(t): len(rows[g]) for t, g in W.PT_NAME.items() if g in v.groups}
        v.cell_of = {t: w.cell_of[t][rows[W.PT_NAME[t]]] for t in w.cell_of if W.PT_NAME[t] in v.groups}
    v.p["virtual"] = None
    v.p["layout"] = "subset"
    return v


def dump(path):
    """Every object of a file: {path: (attributes, data or None, link target or None)}; data rows of particles are left out."""
    out = {}
    with h5py.File(path, "r") as h:
        def visit(name, x, *_):
            if isinstance(x, h5py.SoftLink):
                out[name] = ({}, None, x.path)
                return
            if not isinstance(x, h5py.HardLink):
                return
            o = h[name]
            data = None
            if isinstance(o, h5py.Dataset):
                data = o[()] if o.size < 50 or name.startswith(("Cells/", "SubgridScheme/", "CellsDiagnostics/")) else ...
            out[name] = ({k: o.attrs[k] for k in o.attrs}, data, None)
        h.visititems_links(visit)
    return out


def check_file(ctx, out, src, w, rows, what="subset"):
    """The raw file: attributes, links, cell tables, header, metadata groups."""
    shared = w.p["kind"] == "soap"
    cache = ctx.__dict__.setdefault("dumps", {})
    if src not in cache:
        cache[src] = dump(src)
    da, db = cache[src], dump(out)
    data = [h for h, _ in w.groups.values()]
    miss = set(da) - set(db)
    gone = {x for x in miss if x.startswith("Cells/")}      # tables of types with no rows left
    ctx.check(miss == gone, "subset-objects", lambda: f"{what}: missing {sorted(miss - gone)[:6]}")
    ctx.check(set(db) <= set(da), "subset-objects", lambda: f"{what}: new objects {sorted(set(db) - set(da))[:6]}")
    for name in db:
        (ka, va, la), (kb, vb, lb) = da[name], db[name]
        ctx.check(la == lb, "subset-links", lambda: f"{what}: link {name} -> {la} became {lb}")
        ctx.check(set(ka) == set(kb), "subset-attrs", lambda: f"{what}: {name} has attributes {sorted(kb)}, source {sorted(ka)}")
        for k in ka:
            if not (name == "Header" and k in SKIP_ATTRS):
                ctx.check(same_attr(kb[k], ka[k]), "subset-attrs", lambda: f"{what}: {name}@{k} = {kb[k]!r}, source {ka[k]!r}")
        ctx.check((va is None) == (vb is None), "subset-objects", lambda: f"{what}: {name} is not the same kind of object")
        if va is not None and va is not ... and not name.startswith("Cells/") and not any(name.startswith(h + "/") for h in data):
            ctx.check(vb is not ... and same_attr(vb, va), "subset-metadata", lambda: f"{what}: {name} differs")
    with h5py.File(src, "r") as a, h5py.File(out, "r") as b:
        # header counts
        if shared:
            n = np.asarray(b["Header"].attrs["NumSubhalos_ThisFile"]).ravel()
            ctx.check(list(n) == [len(rows["input_halos"])], "subset-counts", f"{what}: NumSubhalos_ThisFile {n}, rows {len(rows['input_halos'])}")
        else:
            n = np.asarray(b["Header"].attrs["NumPart_ThisFile"])
            exp = np.zeros(len(a["Header"].attrs["NumPart_ThisFile"]), int)
            for t, g in W.PT_NAME.items():
                if g in w.groups:
                    exp[t] = len(rows[g])
            ctx.check(n.shape == exp.shape and bool(np.array_equal(n, exp)), "subset-counts", f"{what}: NumPart_ThisFile {n}, rows {exp}")
        if "OutputType" in a["Header"].attrs:
            ot = b["Header"].attrs["OutputType"]
            ot = ot.decode() if hasattr(ot, "decode") else ot
            ctx.check(ot == ("SOAPSubset" if shared else "VolumeSubset"), "subset-type", f"{what}: OutputType {ot!r}")
        # cell tables describe the rows
        c = b["Cells"]
        cen = c["Centres"][...]
        ctx.check(cen.shape == w.centres.shape, "subset-cells", f"{what}: {cen.shape} cell centres")
        near = ((cen[:, None, :] - w.centres[None]) ** 2).sum(axis=2)
        idx = near.argmin(axis=1)
        ctx.check(bool(np.all(near.min(axis=1) < 1e-18 * w.box.max() ** 2)) and len(set(idx)) == len(idx), "subset-cells", f"{what}: cell centres are not those of the source")
        offn = "OffsetsInFile" if "OffsetsInFile" in a["Cells"] else "Offsets"
        for pt in w.cell_of:
            name = "Subhalos" if pt == "shared" else f"PartType{pt}"
            g = "input_halos" if pt == "shared" else W.PT_NAME[pt]
            cells = w.cell_of[pt][rows[g]]
            cnt, off = c[f"Counts/{name}"][...], c[f"{offn}/{name}"][...]
            exp = np.array([(cells == i).sum() for i in idx])
            ctx.check(bool(np.array_equal(cnt, exp)), "subset-cells", f"{what}: cell counts of {name} {cnt[:12]}, rows give {exp[:12]}")
            for j in np.where(exp > 0)[0]:
                part = cells[off[j]:off[j] + cnt[j]]
                ctx.check(len(part) == cnt[j] and bool(np.all(part == idx[j])), "subset-cells",
                          f"{what}: {name} rows {off[j]}..{off[j] + cnt[j]} are not those of cell {idx[j]}")
            if pt != "shared" and w.p["minmax"]:
                for t, ref in (("MinPositions", w.minpos[pt]), ("MaxPositions", w.maxpos[pt])):
                    ctx.check(bool(np.array_equal(c[f"{t}/{name}"][...], ref[idx])), "subset-cells", f"{what}: {t} of {name} do not match the cells")
        for k in a["Cells/Meta-data"].attrs:
            ctx.check(same_attr(c["Meta-data"].attrs[k], a["Cells/Meta-data"].attrs[k]), "subset-cells", f"{what}: Cells/Meta-data@{k}")


def check_subset(ctx, out, w, model, src, what="subset"):
    """Full judgement of a written subset; returns the world it defines."""
    import swiftsimio as sw
    d = sw.load(out)
    rows = M.judge_rows(ctx, model, d, what)
    v = sub_world(w, rows, out)
    check_file(ctx, out, src, w, rows, what)
    v.p["has_output_type"] = w.p.get("has_output_type", True)
    O.check_metadata(ctx, d.metadata, v, f"{what} metadata")
    O.check_dataset(ctx, d, v, what=what)
    return v
