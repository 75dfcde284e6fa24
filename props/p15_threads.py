"""P15: concurrent use of datasets from several threads."""

import json

import numpy as np

from sim import masksim as M
from sim import oracle as O
from sim import threads as T
from sim import world as W
from sim.core import drop, show
from sim.maskprop import MaskProp


FAULTS = [f for f in O.READ_FAULTS if f["op"] not in ("read", "close") or O.benign([(f, 1)])]


class P15(MaskProp):
    id = "P15"
    quick_runs, quick_wall = 900, 34
    weights = {"spatial": 4, "property": 4, "index": 2, "convert": 2}
    rule = ("One run = one generated file, a mask history or none, and 2-4 threads with programs of reads, deletes, assignments, loads with the shared mask, metadata reads and I/O faults, "
            "interleaved at every line or bytecode instruction of swiftsimio by a seeded schedule. Distinct = (kind, layout, granularity, programs' operation kinds, preempted function, outcome) tuples.")
    real = ["swiftsimio.reader, masks, metadata, _handle_provider, accelerated in real Python threads", "h5py, HDF5"]
    stubs = ["the choice of the thread that runs (one at a time, at line or instruction granularity)", "threading.Lock/RLock as seen by swiftsimio", "libc file calls below the mount point"]
    assumptions = ["h5py calls are atomic with respect to each other (h5py serialises them with a lock of its own)"]

    def warmup(self):
        T.install()
        super().warmup()
        T.prepare()

    def gen(self, rng, tier):
        kind = rng.choices(["snapshot", "soap", "los"], [7, 2, 1])[0]
        p = W.rand_params(rng, kind, small=True)
        mask = []
        if kind != "los" and rng.random() < 0.6:
            for _ in range(rng.randrange(0, 3)):
                k = rng.choices(*zip(*self.weights.items()))[0]
                mask.append(self.rand_op(rng, k, kind))
            mask = mask or [{"op": "none"}]
        pool = [(rng.randrange(100), rng.randrange(100), rng.randrange(10)) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))]
        focus = len(pool) == 1 and rng.random() < 0.7      # threads that fight over one field
        progs = []
        for _ in range(rng.choice([2, 2, 2, 3, 4])):
            prog = []
            for _ in range(rng.randrange(3, 10) if focus else rng.randrange(1, 6)):
                k = rng.choices(["read", "del", "set", "load", "meta", "attr", "other"], [8, 6, 1, 0, 0, 1 if kind == "los" else 0, 0] if focus else [10, 3, 1, 2 if mask else 1, 1, 2 if kind == "los" else 0, 1])[0]
                g, f, c = rng.choice(pool)
                prog.append({"op": k, "g": g, "f": f, "c": c})
            progs.append(prog)
        if mask and rng.random() < 0.4:      # a mask converted by whichever thread loads first
            for prog in progs[:rng.choice([2, 2, 3])]:
                g, f, c = rng.choice(pool)
                prog.insert(0, {"op": "load", "g": g, "f": f, "c": c})
        case = {"world": p, "mask": mask, "padding": 0.5 if p.get("drift") else 0.1, "progs": progs, "open": rng.choice(["path", "path", "handle"]), "gran": rng.choice(["line", "line", "instr"]),
                "switches": T.rand_switches(rng), "warm": rng.random() < 0.2}
        if case["gran"] == "instr":
            case["switches"] = [[s * 4, x] for s, x in case["switches"]]
        if rng.random() < 0.25 and not p.get("virtual"):
            # (no failing reads: HDF5 keeps the sieve buffer of a failed read for a dataset that another thread has open, and serves zeros from it)
            case["faults"] = [dict(O.rand_read_fault(rng, 60, kinds=FAULTS), at=rng.randrange(60)) for _ in range(rng.choice([1, 2]))]
            for f in case["faults"]:
                if f["op"] != "read":
                    f["at"] = rng.randrange(6)
        return case

    def fault_free(self, case):
        return not case.get("faults")

    def shrink(self, case):
        sw = case["switches"]
        n = len(sw)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = json.loads(json.dumps(case))
                del c["switches"][a:a + size]
                yield c
            size //= 2
        for i in range(len(case["progs"])):
            if len(case["progs"]) > 1:
                c = json.loads(json.dumps(case))
                del c["progs"][i]
                yield c
            for j in range(len(case["progs"][i])):
                c = json.loads(json.dumps(case))
                del c["progs"][i][j]
                yield c
        for j in range(len(case["mask"])):
            c = json.loads(json.dumps(case))
            del c["mask"][j]
            yield c

    def run(self, case, ctx):
        import h5py
        import swiftsimio as sw
        path = ctx.path("snap.hdf5")
        w = W.build(path, case["world"])
        path2 = ctx.path("other.hdf5")
        w2 = W.build(path2, dict(case["world"], seed=case["world"]["seed"] + 1)) if any(op["op"] == "other" for p in case["progs"] for op in p) else None
        handle = h5py.File(path, "r") if case["open"] == "handle" else None
        src = handle if handle is not None else path
        m = rows = None
        if case["mask"]:
            m = sw.mask(src, safe_padding=case["padding"])
            model = M.Model(ctx, w, path, case["padding"])
            for op in case["mask"]:
                if op["op"] != "none":
                    M.apply(ctx, model, m, op)
            # learn the rows through another mask made in the same way: loading converts it
            was_bool = not m.range_mask
            m0 = m
            if was_bool:
                m0 = sw.mask(src, safe_padding=case["padding"])
                model0 = M.Model(ctx, w, path, case["padding"])
                for op in case["mask"]:
                    if op["op"] != "none":
                        M.apply(ctx, model0, m0, op)
            rows = M.judge_rows(ctx, model, M.load_masked(ctx, model, m0, src))
            if was_bool:
                ctx.probe("shared_mask_unconverted")
        shared = sw.load(src, mask=m0) if m is not None else sw.load(src)
        gnames = sorted(w.groups)
        assigned, cache, users = {}, {}, {}
        touched = {}
        for i, prog in enumerate(case["progs"]):
            for op in prog:
                if op["op"] in ("read", "del", "set"):
                    touched.setdefault(self.key(w, gnames, op), set()).add(i)
        solo = {k for k, v in touched.items() if len(v) == 1}
        if case["warm"]:
            for k in sorted(touched, key=str):
                cache[k] = self.get(shared, k)
        faults = case.get("faults", [])
        errors = []

        def thread(i, prog):
            def body():
                for op in prog:
                    self.step(ctx, sw, i, op, shared, src, path, path2, w, w2, gnames, rows, m, assigned, cache, solo, errors, bool(faults), case["open"])
            return body

        T.instrument(case["gran"])
        s = T.Sched(ctx, case["switches"])
        ctx.arm(faults)
        s.run([thread(i, p) for i, p in enumerate(case["progs"])])
        fired = ctx.disarm()
        ctx.probe("preemptions", s.nswitch)
        ctx.probe("points", s.step)
        for what, text in errors:
            ctx.check(fired and not O.benign(fired), "thread-error", f"{what} raised {text} while other threads ran (faults fired: {fired})")
        ctx.state(w.p["kind"], w.p["layout"], case["gran"], tuple(tuple(o["op"] for o in p) for p in case["progs"]), s.nswitch, len(errors))
        # afterwards, everything is as it would be without the threads
        for k in sorted(touched, key=str):
            v = self.get(shared, k)
            if not any(v is a for a in assigned.get(k, ())):
                self.judge(ctx, w, k, v, rows, "after the threads")
            self.delete(shared, k)
            self.judge(ctx, w, k, self.get(shared, k), rows, "after the threads")
        if m is not None:
            M.judge_rows(ctx, model, M.load_masked(ctx, model, m, src))
        O.check_metadata(ctx, shared.metadata, w)
        if handle is not None:
            ctx.check(bool(handle), "handle-closed", "the caller's handle was closed")
            handle.close()
        ctx.check(not ctx.disk.open_files(), "leak", f"files left open: {ctx.disk.open_files()}")

    @staticmethod
    def key(w, gnames, op):
        g = gnames[op["g"] % len(gnames)]
        fs = sorted(w.group_fields(g))
        n = fs[op["f"] % len(fs)]
        return (g, n, op["c"] % len(O.public_columns(w, n)) if n in w.named else None)

    def holder(self, data, k):
        g, n, c = k
        obj = getattr(data, g)
        if c is None:
            return obj, W.snake(n)
        obj = getattr(obj, W.snake(n))
        return obj, obj.named_columns[c]

    def get(self, data, k):
        return getattr(*self.holder(data, k))

    def delete(self, data, k):
        delattr(*self.holder(data, k))

    def judge(self, ctx, w, k, v, rows, what):
        g, n, c = k
        O.check_field(ctx, v, w, w.fields[f"{w.groups[g][0]}/{n}"], f"{what}: {g}.{n}" + (f"[{c}]" if c is not None else ""), rows=None if rows is None else rows[g], col=c)

    def step(self, ctx, sw, i, op, shared, src, path, path2, w, w2, gnames, rows, m, assigned, cache, solo, errors, faulty, how):
        kind = op["op"]
        what = f"thread {i} {kind}"
        ctx.ev("op", i, kind)
        k = self.key(w, gnames, op)
        try:
            if kind == "del":
                self.delete(shared, k)
                if k in solo:
                    cache[k] = None
            elif kind == "set":
                val = np.arange(4.0) + i
                assigned.setdefault(k, []).append(val)
                setattr(*self.holder(shared, k), val)
                if k in solo:
                    cache[k] = val
            elif kind == "read":
                v = self.get(shared, k)
                ctx.check(v is not None, "none", f"{what} of {k} returned None")
                if k in solo and cache.get(k) is not None:
                    ctx.check(v is cache[k], "cache-identity", f"{what} of {k}: a value no other thread touches was replaced")
                elif not any(v is a for a in assigned.get(k, ())):
                    self.judge(ctx, w, k, v, rows, what)
                if k in solo:
                    cache[k] = v
            elif kind == "load":
                d = sw.load(src, mask=m) if m is not None else sw.load(src)
                self.judge(ctx, w, k, self.get(d, k), rows, what)
            elif kind == "other":
                d = sw.load(path2)
                self.judge(ctx, w2, k, self.get(d, k), None, what)
            elif kind == "meta":
                O.check_metadata(ctx, shared.metadata, w)
            elif kind == "attr":
                g = k[0]
                v = getattr(shared, g).xpos
                exp = w.group_attrs[g]["Xpos"]
                ctx.check(v is not None and float(np.asarray(v)) == float(np.asarray(exp).ravel()[0]), "los-attr", f"{what}: {g}.xpos = {v}, file has {exp}")
        except Exception as e:  # noqa: BLE001
            from sim.core import Violation, from_target
            if isinstance(e, Violation) or not from_target(e):
                raise
            errors.append((what, show(e, 300)))
            ctx.ev("raised", i, type(e).__name__)
            drop(e)


PROP = P15()
