"""P01: lazy field reads are faithful over any access history, and survive I/O errors."""

import numpy as np

from sim import oracle as O
from sim import world as W
from sim.core import drop
from sim.runner import Prop


class P01(Prop):
    id = "P01"
    quick_runs, quick_wall = 1200, 32
    rule = ("One run = one generated file, one open mode, a history of up to 14 reads, deletes, overwrites, in-place edits and "
            "reloads with I/O faults armed on some of them, then a fault-free sweep of every field. Distinct = distinct "
            "(layout, kind, open mode, op, fault kind, outcome, cached) tuples seen.")
    real = ["swiftsimio.load / reader / metadata / accelerated", "h5py, HDF5 sec2 driver", "cosmo_array"]
    stubs = ["libc file calls below the mount point (fault-injecting interposer over real scratch files)"]
    assumptions = ["faults are EIO/ESTALE/EINTR/short reads on read(2), errors of open/flock/close; stored bytes are never corrupted"]

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap", "fof", "los"], [7, 2, 1, 1])[0]
        p = W.rand_params(rng, kind)
        ops = []
        for _ in range(rng.randrange(2, 15)):
            k = rng.choices(["read", "del", "set", "mut", "reload", "gattr", "other", "sweep"], [10, 3, 1, 2, 1, 1 if kind == "los" else 0, 1, 0 if p.get("virtual") else 1.5])[0]
            op = {"op": k, "g": rng.randrange(100), "f": rng.randrange(100), "c": rng.randrange(10)}
            if k == "mut":
                op["how"] = rng.choice(["imul", "units", "physical", "setitem"])
            if k in ("read", "gattr") and rng.random() < 0.4:
                op["faults"] = [O.rand_read_fault(rng, 40, benign_only=bool(p.get("virtual"))) for _ in range(rng.choice([1, 1, 2]))]
            elif k in ("read", "gattr") and rng.random() < 0.1:
                op["faults"] = [O.rand_interrupt(rng)]
            ops.append(op)
        focus = rng.random() < 0.5
        if focus:   # histories that come back to the same field
            for op in ops:
                op["g"], op["f"] = op["g"] % 2, op["f"] % 3
        if rng.random() < 0.1:
            p["dense"], p["libver"] = True, "latest"
        return {"world": p, "open": rng.choice(["path", "path", "str", "handle", "direct"]), "ops": ops}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        mode = case["open"]
        handle = None

        def opener():
            nonlocal handle
            if mode == "handle":
                handle = h5py.File(path, "r")
                return sw.load(handle)
            if mode == "direct":
                from pathlib import Path
                return sw.SWIFTDataset(Path(path))
            if mode == "str":
                return sw.load(str(path))
            from pathlib import Path
            return sw.load(Path(path))

        data = opener()
        O.check_metadata(ctx, data.metadata, w)
        cache = {}       # (g, pub, col) -> object the user last saw (None: on disk only)
        gnames = sorted(w.groups)

        def resolve(op):
            g = gnames[op["g"] % len(gnames)]
            fs = sorted(w.group_fields(g))
            n = fs[op["f"] % len(fs)]
            if n in w.named:
                cols = O.public_columns(w, n)
                k = op["c"] % len(cols)
                return g, n, k, cols[k]
            return g, n, None, None

        def holder(g, n, col):
            obj = getattr(data, g)
            return (getattr(obj, W.snake(n)), col) if col is not None else (obj, W.snake(n))

        for op in case["ops"]:
            kind = op["op"]
            if kind == "gattr":
                if case["world"]["kind"] != "los":
                    continue
                g = gnames[op["g"] % len(gnames)]
                an = sorted(w.group_attrs[g])[op["f"] % len(w.group_attrs[g])]
                exp = w.group_attrs[g][an]
                pub = {"NumParts": "num_parts", "Xaxis": "xaxis", "Yaxis": "yaxis", "Zaxis": "zaxis", "Xpos": "xpos",
                       "Ypos": "ypos", "Zpos": "zpos"}[an]
                ctx.arm(op.get("faults", []))
                try:
                    v = getattr(getattr(data, g), pub)
                    err = None
                except (Exception, KeyboardInterrupt) as e:
                    v, err = None, e
                fired = ctx.disarm()
                if err is not None and O.benign(fired):
                    raise err
                if err is None:
                    ctx.check(v is not None and np.asarray(v).size == 1 and float(np.asarray(v)) == float(exp), "los-attr",
                              f"{g}.{pub} = {v}, file has {exp}")
                    if an.endswith("pos"):
                        lu = W.UNITS[w.p["units"]][0] * 1e-2
                        ctx.check(abs(float(v.units.base_value) / lu - 1) < 2e-4 and bool(v.comoving), "los-attr", f"{g}.{pub} units {v.units} comoving {v.comoving}")
                drop(err)
                ctx.ev("gattr", g, an, type(err).__name__ if err else "ok")
                continue
            if kind == "reload":
                if handle is not None:
                    handle.close()
                data = opener()
                cache = {}
                ctx.ev("reload")
                continue
            g, n, k, col = resolve(op)
            f = w.fields[f"{w.groups[g][0]}/{n}"]
            key = (g, n, col)
            obj, attr = holder(g, n, col)
            what = f"{g}.{W.snake(n)}" + (f".{col}" if col else "")
            if kind == "del":
                delattr(obj, attr)
                cache[key] = None
                ctx.ev("del", what)
            elif kind == "set":
                val = np.arange(3.0) + op["c"]
                setattr(obj, attr, val)
                cache[key] = val
                ctx.ev("set", what)
            elif kind == "mut":
                cur = cache.get(key)
                if cur is None or not hasattr(cur, "units"):
                    continue
                if op["how"] == "imul" and cur.dtype.kind == "f":
                    cur *= 2
                elif op["how"] == "setitem" and cur.dtype.kind == "f" and cur.size:
                    cur.view(np.ndarray)[...] = 0
                elif op["how"] == "units" and f.ue[0] == 1 and sum(map(abs, f.ue)) == 1 and cur.dtype.kind == "f":
                    cur.convert_to_units("km")
                elif op["how"] == "physical" and f.conv and cur.dtype.kind == "f":
                    cur.convert_to_physical()
                # a private copy of what the user now has
                ctx.ev("mut", what, op["how"])
                cache[key] = cur
            elif kind == "sweep":
                # an I/O error at each position of one read in turn, in no particular order
                for at in range(3 + op["c"] % 4, 40):
                    delattr(obj, attr)
                    cache[key] = None
                    ctx.arm([{"op": "read", "act": "err", "arg": "EIO", "at": at}])
                    try:
                        v, err = getattr(obj, attr), None
                    except Exception as e:
                        v, err = None, e
                    fired = ctx.disarm()
                    if err is not None:
                        if not fired:
                            raise err
                        drop(err)
                        continue
                    O.check_field(ctx, v, w, f, f"{what} with an I/O error at read {at}" if fired else what, col=k)
                    cache[key] = v
                    if not fired:
                        break
                ctx.ev("sweep", what, at)
                ctx.state("sweep", w.p["layout"], w.p["kind"], bool(w.p.get("dense")), at)
            elif kind == "other":
                # a second, independent dataset of the same file must not see our edits
                d2 = sw.load(path)
                o2, a2 = (getattr(getattr(d2, g), W.snake(n)), col) if col else (getattr(d2, g), W.snake(n))
                O.check_field(ctx, getattr(o2, a2), w, f, "fresh dataset " + what, col=k)
                ctx.ev("other", what)
            else:
                cached = cache.get(key)
                ctx.arm(op.get("faults", []))
                try:
                    v = getattr(obj, attr)
                    err = None
                except (Exception, KeyboardInterrupt) as e:
                    v, err = None, e
                fired = ctx.disarm()
                kinds = sorted(ff["op"] + str(ff.get("arg")) for ff, _ in fired)
                outcome = type(err).__name__ if err else "ok"
                ctx.ev("read", what, outcome, bool(fired))
                ctx.state(w.p["layout"], w.p["kind"], mode, bool(w.p.get("virtual")), tuple(kinds), outcome, cached is not None, col is not None)
                if err is not None:
                    if O.benign(fired):
                        raise err
                    ctx.probe("read_raised_on_fault")
                    drop(err)
                    continue
                if cached is not None:
                    ctx.check(v is cached, "cache-identity", f"{what}: a cached or assigned value was replaced on read")
                    ctx.probe("cached_read")
                    continue
                if fired and not O.benign(fired):
                    ctx.probe("read_ok_despite_fault")
                if v is None and fired:
                    ctx.fail("none-after-io-error", f"{what}: read returned None after an I/O error ({kinds})")
                O.check_field(ctx, v, w, f, what, col=k)
                cache[key] = v
        # recovery: with faults gone every field that is not user-modified reads back exactly
        O.check_metadata(ctx, data.metadata, w, "metadata at end")
        for g in gnames:
            for n, f in sorted(w.group_fields(g).items()):
                cols = [(None, None)] if n not in w.named else list(enumerate(O.public_columns(w, n)))
                for k, col in cols:
                    obj, attr = holder(g, n, col)
                    key = (g, n, col)
                    cur = cache.get(key)
                    v = getattr(obj, attr)
                    if cur is not None:
                        ctx.check(v is cur, "cache-identity", f"{g}.{n}: value the user holds was replaced")
                        delattr(obj, attr)
                        v = getattr(obj, attr)
                    O.check_field(ctx, v, w, f, f"final {g}.{n}" + (f".{col}" if col else ""), col=k)
        ctx.ev("final")
        if handle is not None:
            ctx.check(bool(handle), "handle-closed", "the caller's handle was closed")
            handle.close()


PROP = P01()
