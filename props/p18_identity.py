"""P18: a mask is only ever applied to the file it was made for."""

import os
import shutil

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim import world as W
from sim.core import drop
from sim.runner import Prop


class P18(Prop):
    id = "P18"
    quick_runs, quick_wall = 1500, 32
    rule = ("One run = two different generated files and a byte-for-byte copy, and a history of names being linked, moved, retargeted, replaced and removed, handles "
            "opened and closed, masks made and applied under any of these names, some with I/O errors; the kernel's inode numbers say which file is which. "
            "Distinct = (kind, name form of the mask, name form of the load, same file or not, what happened to the name of the mask, outcome).")
    real = ["swiftsimio.load/mask/validate_file, handle provider, reader", "h5py, HDF5", "names, links and inodes of the kernel's file system"]
    stubs = ["libc file calls below the mount point"]
    assumptions = ["contents of a file are not rewritten in place between making a mask and loading with it"]

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap", "refused"], [6, 2, 1])[0]
        if kind == "refused":
            p = W.rand_params(rng, rng.choice(["snapshot", "fof", "los", "soap"]), small=True)
        else:
            p = W.rand_params(rng, kind, small=True)
        p["virtual"] = None
        ops = []
        for _ in range(rng.randrange(3, 16)):
            k = rng.choices(["name", "retarget", "move", "replace", "remove", "mask", "open", "close", "load", "chdir"], [3, 2, 2, 1, 1, 5, 2, 1, 8, 1])[0]
            op = {"op": k, "a": rng.randrange(1000), "b": rng.randrange(1000), "how": rng.randrange(1000), "form": rng.randrange(1000)}
            if k == "mask":
                op["region"] = M.rand_spatial(rng)
            if k in ("mask", "load") and rng.random() < 0.15:
                op["faults"] = [O.rand_read_fault(rng, 40)]
            ops.append(op)
        return {"world": p, "refused": kind == "refused", "ops": ops, "optimize": rng.random() < 0.15,
                "twin": rng.random() < 0.5, "junk": rng.randrange(6)}

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        base = ctx.path("d")
        os.mkdir(base)
        p = case["world"]
        if case["refused"]:
            return self.refusals(case, ctx)
        wa = W.build(ctx.path("a.hdf5"), p)      # the oracle's own files stay where they are
        q = dict(p, seed=p["seed"] + 1)
        if not case["twin"] and "ptypes" in q:       # other numbers of particles as well
            q["ptypes"] = {t: n + 3 if n else 0 for t, n in q["ptypes"].items()}
        wb = W.build(ctx.path("b.hdf5"), q)
        for x, y in ("aa", "bb", "ac"):
            shutil.copy(ctx.path(f"{x}.hdf5"), f"{base}/{y}.hdf5")
        ino = lambda x: (os.stat(x).st_dev, os.stat(x).st_ino)
        content = {ino(f"{base}/a.hdf5"): wa, ino(f"{base}/b.hdf5"): wb, ino(f"{base}/c.hdf5"): wa}
        keep = [os.open(f"{base}/{x}.hdf5", os.O_RDONLY) for x in "abc"]      # no inode is ever reused within a run
        names = [f"{base}/{x}.hdf5" for x in "abc"]
        handles, masks = [], []
        made = 0
        home = os.getcwd()
        if case["optimize"]:
            import swiftsimio.reader as rd
            import swiftsimio._handle_provider as hp
            for mod in (hp, rd):               # what `python -O` runs
                with open(mod.__file__) as f:
                    exec(compile(f.read(), mod.__file__, "exec", optimize=1), mod.__dict__)
            load = lambda x, mask=None: rd.SWIFTDataset(x, mask=mask) if isinstance(x, (str, os.PathLike)) else rd.SWIFTDataset(x.filename, mask=mask, handle=x)
        else:
            load = sw.load

        def form(name, k):
            """The same name, spelt differently."""
            from pathlib import Path
            k %= 7
            if k == 1:
                return Path(name), "Path"
            if k == 2:
                return os.path.relpath(name), "relative"
            if k == 3:
                return os.path.join(os.path.dirname(name), "..", os.path.basename(os.path.dirname(name)), os.path.basename(name)), "dotdot"
            if k == 4:
                return os.path.join(os.path.dirname(name), ".", os.path.basename(name)), "dot"
            if k == 5:
                return Path(os.path.relpath(name)), "relative Path"
            return name, "str"

        def target(op):
            """(source to pass, its inode or None, what it is)."""
            if handles and op["form"] % 3 == 0:
                h, i = handles[op["a"] % len(handles)]
                return h, i, "handle"
            if not names:
                return None, None, None
            n = names[op["a"] % len(names)]
            src, label = form(n, op["how"])
            return src, (ino(src) if os.path.exists(src) else None), label

        def fresh(suffix=".hdf5"):
            nonlocal made
            made += 1
            return f"{base}/n{made}{suffix}"

        moved = set()
        for op in case["ops"]:
            k = op["op"]
            n = names[op["a"] % len(names)] if names else None
            if k in ("name", "retarget", "move", "replace", "remove") and (n is None or not os.path.lexists(n)):
                continue       # (gone under another of its names)
            if k == "name":
                x = fresh()
                h = op["how"] % 5
                if h == 0 and os.path.exists(n):
                    os.link(n, x, follow_symlinks=True)
                elif h == 1:
                    os.symlink(n, x)
                elif h == 2:
                    os.symlink(os.path.basename(n), x)
                elif h == 3:
                    d = fresh("")
                    os.symlink(os.path.dirname(n), d)
                    x = os.path.join(d, os.path.basename(n))
                else:
                    d = fresh("")
                    os.mkdir(d)
                    x = os.path.join(d, "snap.hdf5")
                    os.symlink(n, x)
                names.append(x)
                ctx.ev("name", h)
            elif k == "retarget":
                links = [x for x in names if os.path.islink(x)]
                if links:
                    x, y = links[op["a"] % len(links)], names[op["b"] % len(names)]
                    if os.path.realpath(x) != os.path.realpath(y) and os.path.exists(y):
                        t = fresh()
                        os.symlink(os.path.realpath(y), t)
                        os.replace(t, x)
                        moved.add(x)
                        ctx.ev("retarget")
            elif k == "move":
                x = fresh()
                os.rename(n, x)
                names.remove(n)
                names.append(x)
                moved.add(n)
                if op["how"] % 2 and names:       # something else now has the old name
                    y = names[op["b"] % len(names)]
                    if os.path.exists(y):
                        os.symlink(os.path.realpath(y), n)
                        names.append(n)
                ctx.ev("move", op["how"] % 2)
            elif k == "replace":
                y = names[op["b"] % len(names)]
                if os.path.exists(y):
                    t = fresh()
                    shutil.copy(y, t)
                    content[ino(t)] = content[ino(y)]
                    keep.append(os.open(t, os.O_RDONLY))
                    os.replace(t, n)
                    moved.add(n)
                    ctx.ev("replace")
            elif k == "remove":
                os.unlink(n)
                names.remove(n)
                moved.add(n)
                ctx.ev("remove")
            elif k == "chdir":
                os.chdir([home, base, ctx.dir][op["how"] % 3])
                ctx.ev("chdir")
            elif k == "open":
                if n is not None and os.path.exists(n) and len(handles) < 3:
                    handles.append((h5py.File(n, "r"), ino(n)))
                    ctx.ev("open")
            elif k == "close":
                if handles:
                    h, _ = handles.pop(op["b"] % len(handles))
                    h.close()
                    ctx.ev("close")
            elif k == "mask":
                src, i, label = target(op)
                if src is None:
                    continue
                m = self.attempt(ctx, op, lambda: sw.mask(src), i is not None, "mask", label)
                if m is None:
                    continue
                model = M.Model(ctx, content[i], None, 0.1)
                if model.outside(op["region"]["region"]) or model.near_limit(op["region"]["region"]):
                    pass
                else:
                    m.constrain_spatial(M.region_arg(content[i], op["region"]))
                masks.append((m, i, label, op["region"], src if isinstance(src, str) else None))
            elif k == "load" and masks:
                src, i, label = target(op)
                if src is None:
                    continue
                m, mi, ml, region, spelt = masks[op["b"] % len(masks)]
                same = i == mi
                gone = "moved" if spelt in moved else "kept"
                d = self.attempt(ctx, op, lambda: load(src, mask=m), same, "load", label)
                ctx.state(p["kind"], ml, label, i is None, same, gone, d is not None, bool(op.get("faults")), case["optimize"])
                if d is None:
                    continue
                ctx.check(same, "wrong-file", f"a mask made from inode {mi} ({ml}) was applied to inode {i} ({label})")
                w = content[i]
                model = M.Model(ctx, w, None, 0.1)
                if not (model.outside(region["region"]) or model.near_limit(region["region"])):
                    model.spatial(region["region"], False)
                rows = M.judge_rows(ctx, model, d)
                O.check_dataset(ctx, d, w, rows=rows, what="masked data", fields=("Coordinates", "Masses", "HaloCentre", "TotalMass"))
                ctx.probe("applied")
                if gone == "moved":
                    ctx.probe("applied_after_its_name_moved")
        os.chdir(home)
        for h, _ in handles:
            h.close()
        for f in keep:
            os.close(f)

    def attempt(self, ctx, op, call, legal, what, label):
        """The result, or None if it was refused as it should be."""
        ctx.arm(op.get("faults", []))
        err = v = None
        try:
            v = call()
        except Exception as e:
            err = e
        fired = ctx.disarm()
        ctx.ev(what, label, type(err).__name__ if err else "ok", legal, bool(fired))
        if err is not None:
            if legal and (not fired or O.benign(fired)):
                raise err
            ctx.probe("refused" if not legal else "io_error")
            drop(err)
            return None
        if not legal:
            ctx.check(what != "load", "wrong-file", f"a mask was applied to a file it was not made for (load by {label})")
            ctx.fail("accepted", f"{what} by {label} worked on a file that does not exist")
        return v

    def refusals(self, case, ctx):
        """Files that must not be masked, and files that are not SWIFT output."""
        import h5py
        import swiftsimio as sw
        path = ctx.path("d", "x.hdf5")
        p = case["world"]
        w = W.build(path, p)
        kind = p["kind"]
        if kind == "snapshot":
            with h5py.File(path, "r+") as h:
                h["Header"].attrs["NumFilesPerSnapshot"] = np.array([2 + case["junk"]], "i4")
        masked = kind == "soap"
        for op in case["ops"]:
            faults = op.get("faults", [])
            how = op["how"] % 3
            with h5py.File(path, "r") as h:
                src = h if how == 0 else path
                m = self.attempt(ctx, op, lambda: sw.mask(src), masked, "mask", kind)
                ctx.state("refuse", kind, how, bool(faults), m is not None)
            if op["op"] == "load":
                d = sw.load(path)
                O.check_dataset(ctx, d, w, what="unmasked data")
        # not SWIFT output
        junk = ctx.path("d", "junk.hdf5")
        shutil.copy(path, junk)
        j = case["junk"]
        with h5py.File(junk, "r+") as h:
            if j == 0:
                del h["Code"]
            elif j == 1:
                del h["Code"].attrs["Code"]
            elif j == 2:
                h["Code"].attrs["Code"] = np.bytes_("GADGET")
            elif j == 3:
                h["Code"].attrs["Code"] = "swift"
        if j == 4:
            with open(junk, "r+b") as f:
                f.truncate(100)
        if j == 5:
            os.unlink(junk)
        for op in case["ops"]:
            self.attempt(ctx, op, lambda: sw.validate_file(junk), False, "validate", f"junk {j}")
            self.attempt(ctx, op, lambda: sw.validate_file(path), True, "validate", "good")
            ctx.state("validate", kind, j, bool(op.get("faults")))


PROP = P18()
