"""P14: reading is lazy, and I/O is proportional to what was asked."""

import bisect
import os

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim import world as W
from sim.core import drop
from sim.runner import Prop

SIEVE = 65536          # HDF5 reads contiguous data through a buffer of this size
SLACK = 2048           # speculative reads of object headers may run into the data that follow them


class Storage:
    """Where each field of the file lies in the file."""

    def __init__(self, path, names):
        import h5py
        self.chunk = {}                 # byte offset -> (field, size, first row, last row)
        self.flat = []                  # (offset, end, field)
        self.rowbytes, self.rows = {}, {}
        self.nchunks = {}
        with h5py.File(path, "r") as h:
            for n in names:
                d = h[n]
                self.rows[n] = d.shape[0]
                self.rowbytes[n] = d.dtype.itemsize * int(np.prod(d.shape[1:]))
                if d.chunks is None:
                    o = d.id.get_offset()
                    if o is not None:
                        self.flat.append((o, o + d.id.get_storage_size(), n))
                    continue
                k = d.id.get_num_chunks()
                self.nchunks[n] = k
                for i in range(k):
                    c = d.id.get_chunk_info(i)
                    self.chunk[c.byte_offset] = (n, c.size, c.chunk_offset[0], min(d.shape[0], c.chunk_offset[0] + d.chunks[0]))
        self.flat.sort()
        self.starts = [f[0] for f in self.flat]

    def touched(self, log, path):
        """({chunk key: times read}, {contiguous field: [(first byte, last byte) relative to its start]})."""
        chunks, flat = {}, {}
        for op, p, off, ln, ret, err, inj in log:
            if op != "read" or p != path or ret <= 0:
                continue
            c = self.chunk.get(off)
            if c is not None and ret == c[1]:
                chunks[off] = chunks.get(off, 0) + 1
                continue
            i = max(0, bisect.bisect_right(self.starts, off) - 1)
            while i < len(self.flat) and self.flat[i][0] < off + ret:
                a, b, n = self.flat[i]
                s, e = max(a, off), min(b, off + ret)
                if s < e:
                    flat.setdefault(n, []).append((s - a, e - a))
                i += 1
        return chunks, flat


class P14(Prop):
    id = "P14"
    quick_runs, quick_wall = 500, 32
    rule = ("One run = one generated file of thousands of rows and a history of loads, masks, constraints, field reads, repeats, deletions and subset writes, some "
            "interrupted by read errors; every read(2) is attributed to the stored block of the field it belongs to and compared with the blocks the operation "
            "needs. Distinct = (kind, layout, operation, cached, masked, blocks needed / stored, outcome).")
    real = ["swiftsimio.load/mask, reader, accelerated, masks, subset_writer", "h5py, HDF5 sec2 driver with its default caches"]
    stubs = ["libc file calls below the mount point (recorded)"]
    assumptions = [f"HDF5 may read up to {SIEVE} bytes ahead in contiguous data and {SLACK} bytes of data next to metadata"]

    def warmup(self):
        from sim.runner import warm_numba
        warm_numba(("f4", "f8", "i8", "u8", "i4", "i1", "u4"))

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap"], [3, 1])[0]
        p = W.rand_params(rng, kind)
        p["virtual"] = None
        p["chunk"] = rng.choice([32, 64, 200, 512, 3000])
        p["cells"] = rng.choice([[4, 4, 4], [4, 3, 2], [2, 2, 2], [4, 1, 1], [1, 1, 1], [6, 6, 6]])
        if kind == "snapshot":
            p["ptypes"] = {t: rng.choice([2000, 5000, 12000]) if n else 0 for t, n in list(p["ptypes"].items())[:2]}
            p["empty"] = {t: rng.choice([0.0, 0.3, 0.7, 0.95]) for t in p["ptypes"]}
        else:
            p["n"] = rng.choice([2000, 5000])
            p["groups"] = p["groups"][:3]
        ops = []
        for _ in range(rng.randrange(2, 13)):
            k = rng.choices(["field", "again", "del", "load", "mask", "constrain", "meta", "write", "convert", "len"], [9, 4, 2, 2, 3, 4, 1, 1, 1, 1])[0]
            op = {"op": k, "pick": rng.randrange(1000), "src": rng.randrange(3)}
            if k == "constrain":
                r = rng.random()
                if kind == "soap":
                    op["c"] = M.rand_spatial(rng) if r < .4 else M.rand_property(rng) if r < .6 else M.rand_index(rng)
                else:
                    op["c"] = M.rand_spatial(rng) if r < .75 else M.rand_property(rng)
            if k in ("field", "load", "mask") and rng.random() < 0.25:
                op["faults"] = [{"op": "read", "act": "err", "arg": "EIO", "at": rng.randrange(rng.choice([5, 40, 150]))}]
            ops.append(op)
        return {"world": p, "ops": ops}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        with open(path, "rb") as f:
            before = f.read()
        stat = os.stat(path)
        disk = Storage(path, list(w.fields))
        handle = h5py.File(path, "r")
        names = [(g, n) for g in sorted(w.groups) for n in sorted(w.group_fields(g))]
        field_unit_path = w.path
        M.field_unit(w, w.fields[f"{w.groups[names[0][0]][0]}/{names[0][1]}"])       # the oracle's own reads come first
        state = {}

        def fresh_mask():
            state["m"] = sw.mask(path)
            state["model"] = M.Model(ctx, w, path, 0.1)

        def use(what, allowed, mark, once=True, colw=1.0):
            """Blocks read since `mark`: only those of `allowed` ({field: rows or None for all})."""
            log = ctx.disk.log(mark)
            for op, p, off, ln, ret, err, inj in log:
                ctx.check(op not in ("write", "trunc"), "wrote", f"{what}: {op} of {ln} bytes in {os.path.basename(p)}") if p == path else None
            chunks, flat = disk.touched(log, path)
            nread = need = 0
            for off, times in chunks.items():
                n, size, r0, r1 = disk.chunk[off]
                ctx.check(n in allowed, "read-other-field", f"{what}: read rows {r0}:{r1} of {n}")
                rows = allowed[n]
                if rows is not None:
                    i = np.searchsorted(rows, r0)
                    ctx.check(i < len(rows) and rows[i] < r1, "read-unneeded-block", f"{what}: read rows {r0}:{r1} of {n}, which hold none of the {len(rows)} selected rows")
                ctx.check(times == 1 or not once, "read-twice", f"{what}: read rows {r0}:{r1} of {n} {times} times")
                nread += 1
            for n, parts in flat.items():
                total = sum(e - s for s, e in parts)
                if n not in allowed:
                    ctx.check(total <= SLACK, "read-other-field", f"{what}: read {total} bytes of {n}")
                    continue
                rows, rb = allowed[n], disk.rowbytes[n]
                if rows is None:
                    ctx.check(total <= disk.rows[n] * rb + SIEVE * 2 or not once, "read-twice", f"{what}: read {total} bytes of {n}, which has {disk.rows[n] * rb}")
                    continue
                for s, e in parts:
                    i = np.searchsorted(rows, s // rb)              # first selected row at or after the start
                    ok = i < len(rows) and (rows[i] - s // rb) * rb <= SLACK
                    # it may run ahead by a buffer, and any further only over selected rows
                    if ok and e - s > SIEVE + SLACK:
                        inside = np.searchsorted(rows, e // rb) - i
                        ok = (e - s) - inside * rb <= SIEVE + SLACK
                    ctx.check(ok or e - s <= SLACK, "read-unneeded-block", f"{what}: read bytes {s}:{e} of {n} ({rb} per row), of which rows {s // rb}:{e // rb} few are selected")
                nread += len(parts)
            return nread, sum(1 for op, p, *_ in log if op == "open" and p == path), len(log)

        def step(op, what, call, allowed, once=True):
            """Run `call` (with the op's faults, then again without if they made it fail)."""
            mark = ctx.disk.mark()
            ctx.arm(op.get("faults", []))
            err = v = None
            try:
                v = call()
            except Exception as e:
                err = e
            fired = ctx.disarm()
            r = use(what, allowed() if callable(allowed) else allowed, mark, once)
            if err is not None:
                if not fired:
                    raise err
                drop(err)
                ctx.probe("interrupted")
                mark = ctx.disk.mark()
                v = call()
                r = use(f"{what}, repeated after an I/O error", allowed() if callable(allowed) else allowed, mark, once)
            ctx.ev(op["op"], what, type(err).__name__ if err else "ok", r)
            ctx.state(w.p["kind"], w.p["layout"], op["op"], type(err).__name__, min(r[0], 20), min(r[1], 4))
            return v

        def load(op, m=None):
            at = handle if op["src"] == 0 and m is None else path
            what = f"load({'handle' if at is handle else 'path'}{', mask' if m is not None else ''})"
            mark = ctx.disk.mark()
            d = step(op, what, lambda: sw.load(at, mask=m), {})
            if at is handle:
                opens = sum(1 for o, p, *_ in ctx.disk.log(mark) if o == "open" and p == path)
                ctx.check(opens == 0, "opened-anew", f"{what}: opened the file {opens} times although it was given a handle")
            return d

        cur = {"d": load({"op": "load", "src": 1}), "rows": None, "cached": set()}
        for op in case["ops"]:
            k = op["op"]
            if k == "load":
                m = state.get("m") if op["pick"] % 3 else None
                rows = None
                if m is not None:
                    rows = M.judge_rows(ctx, state["model"], M.load_masked(ctx, state["model"], m))
                cur = {"d": load(op, m), "rows": rows, "cached": set()}
            elif k == "mask":
                at = handle if op["src"] == 0 else path
                state["m"] = step(op, "mask", lambda: sw.mask(path), {})
                state["model"] = M.Model(ctx, w, path, 0.1)
            elif k == "constrain":
                if "m" not in state or (op["c"]["op"] in ("index", "indices", "spatial") and state["model"].constrained):
                    fresh_mask()
                model, m = state["model"], state["m"]
                pl = M.plan(model, op["c"])
                if pl is None or not pl[1]:
                    continue
                allowed = {}
                if op["c"]["op"] == "property":
                    gs = [g for g in sorted(w.groups) if M.scalar_fields(w, g)]
                    g = gs[op["c"]["g"] % len(gs)]
                    sf = M.scalar_fields(w, g)
                    allowed = {f"{w.groups[g][0]}/{sf[op['c']['f'] % len(sf)]}": None}
                step({"op": "constrain"}, f"constrain ({op['c']['op']})", lambda: pl[0](m), allowed)
                pl[2]()
                M.judge_rows(ctx, model, M.load_masked(ctx, model, m))
            elif k == "convert" and "m" in state:
                m = state["m"]
                step(op, "convert", m.convert_masks_to_bool if op["pick"] % 2 else m.convert_masks_to_ranges, {})
            elif k == "write" and "m" in state:
                rows = M.judge_rows(ctx, state["model"], M.load_masked(ctx, state["model"], state["m"]))
                allowed = {f"{w.groups[g][0]}/{n}": np.sort(rows[g]) for g, n in names}
                step(op, "write_subset", lambda: sw.subset_writer.write_subset(ctx.path("sub.hdf5"), state["m"], allow_unconstrained=True), allowed)
            elif k in ("meta", "len"):
                d = cur["d"]

                def look():
                    str(d), str(d.metadata), d.metadata.boxsize, d.metadata.cosmology, d.units.mass
                    for g in w.groups:
                        if hasattr(d, g):
                            str(getattr(d, g))
                    if k == "len":
                        dir(d), sw.validate_file(path)
                step(op, "look at metadata", look, {})
            elif k in ("field", "again", "del"):
                d, rows = cur["d"], cur["rows"]
                g, n = names[op["pick"] % len(names)]
                if k != "field" and cur["cached"]:
                    g, n, c0 = sorted(cur["cached"])[op["pick"] % len(cur["cached"])]
                if not hasattr(d, g):
                    continue
                f = w.fields[f"{w.groups[g][0]}/{n}"]
                obj, attr, col = getattr(d, g), W.snake(n), None
                if n in w.named:
                    cols = O.public_columns(w, n)
                    col = (op["pick"] // 7) % len(cols) if k == "field" or not cur["cached"] else c0
                    obj, attr = getattr(obj, attr), cols[col]
                what = f"{g}.{attr}" if col is None else f"{g}.{W.snake(n)}.{attr}"
                key = (g, n, -1 if col is None else col)
                if k == "del":
                    step(op, f"del {what}", lambda: delattr(obj, attr), {})
                    cur["cached"].discard(key)
                    continue
                if key in cur["cached"]:
                    mark = ctx.disk.mark()
                    v = step(op, f"{what} again", lambda: getattr(obj, attr), {})
                    ctx.check(ctx.disk.mark() == mark, "io-on-cached", f"{what} is in memory, reading it again did {ctx.disk.log(mark)[:3]}")
                    ctx.probe("cached_reads")
                else:
                    sel = None if rows is None else np.sort(rows[g])
                    v = step(op, what, lambda: getattr(obj, attr), {f"{w.groups[g][0]}/{n}": sel})
                    cur["cached"].add(key)
                    ctx.probe("masked_reads" if rows is not None else "whole_reads")
                O.check_field(ctx, v, w, f, what, rows=None if rows is None else rows[g], col=col)
        handle.close()
        cur = state = None
        with open(path, "rb") as f:
            ctx.check(f.read() == before, "file-changed", "the file's bytes changed")
        ctx.check(os.stat(path).st_mtime_ns == stat.st_mtime_ns, "file-changed", "the file's modification time changed")


PROP = P14()
