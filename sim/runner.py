"""Seeded batches of simulated runs: workers, minimiser, replay files, evidence."""

import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

from . import core, world
from .disk import SimDisk, install_allocator

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
CASE_TIMEOUT = int(os.environ.get("SIM_CASE_TIMEOUT", "150"))


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.access(d, os.W_OK):
            return d
    return "."


def load_prop(pid):
    for fn in sorted(os.listdir(os.path.join(VERIF, "props"))):
        if fn.startswith(pid.lower() + "_") and fn.endswith(".py"):
            return importlib.import_module("props." + fn[:-3]).PROP
    raise SystemExit(f"no such property check: {pid}")


# ---------------------------------------------------------------------------
# one case, in a forked child

def _child(prop, case, scratch, wfd, keep_events):
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(CASE_TIMEOUT)
    if not os.environ.get("SIM_DEBUG"):
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 1)
        os.dup2(nul, 2)
    else:
        import faulthandler
        faulthandler.dump_traceback_later(CASE_TIMEOUT - 2, file=sys.__stderr__)
    warnings.simplefilter("ignore")
    t0 = time.perf_counter()
    disk = SimDisk()
    install_allocator()
    disk.mount(scratch)
    ctx = core.Ctx(case, scratch, disk)
    ctx.keep_events = keep_events
    res = {"status": "ok", "sig": None, "msg": None}
    try:
        prop.run(case, ctx)
    except core.Violation as v:
        res.update(status="violation", sig=v.sig, msg=v.msg)
    except core.Discard as d:
        res.update(status="discard", msg=str(d))
    except BaseException as e:  # noqa: BLE001 - classified below
        if core.from_target(e):
            res.update(status="violation", sig=f"unexpected:{type(e).__name__}@{core.where(e)}",
                       msg=core.show(e, 400) + "\n" + traceback.format_exc()[-1500:])
        else:
            res.update(status="harness", sig=type(e).__name__, msg=traceback.format_exc()[-3000:])
    disk.disarm()
    res.update(hash=ctx.hash.hexdigest(), nev=ctx.nev, probes=dict(ctx.probes), faults=dict(ctx.faults),
               states=sorted(ctx.states), wall=time.perf_counter() - t0,
               events=ctx.events if keep_events else None)
    data = pickle.dumps(res)
    disk.unmount()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_case(prop, case, keep_events=False):
    """Execute one case in its own process; returns the result dict."""
    scratch = tempfile.mkdtemp(prefix="swsim_", dir=scratch_base())
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child(prop, case, scratch, w, keep_events)
        finally:
            os._exit(70)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        while True:
            b = f.read(1 << 16)
            if not b:
                break
            chunks.append(b)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    data = b"".join(chunks)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0 and data:
        return pickle.loads(data)
    sgn = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
    return {"status": "timeout" if sgn == signal.SIGALRM else "died", "sig": f"signal{sgn}", "msg": f"child status {status}",
            "hash": None, "nev": 0, "probes": {}, "faults": {}, "states": [], "wall": 0.0, "events": None}


def gen_case(prop, seed, i, tier):
    directed = prop.directed()
    if i < len(directed):
        c = json.loads(json.dumps(directed[i]))
        c.setdefault("label", f"directed{i}")
        return c
    rng = core.rng_for(seed, prop.id, i)
    c = prop.gen(rng, tier)
    return json.loads(json.dumps(c))   # a case is exactly its JSON


# ---------------------------------------------------------------------------
# batch

def _worker(prop, seed, tier, idxs, wfd, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    with os.fdopen(wfd, "wb") as out:
        for i in idxs:
            if time.monotonic() > deadline:
                break
            try:
                case = gen_case(prop, seed, i, tier)
                res = run_case(prop, case)
            except BaseException:  # noqa: BLE001
                res = {"status": "harness", "sig": "gen", "msg": traceback.format_exc()[-3000:], "hash": None, "nev": 0,
                       "probes": {}, "faults": {}, "states": [], "wall": 0.0}
            d = pickle.dumps((i, res))
            out.write(struct.pack("<I", len(d)) + d)
            out.flush()
    os._exit(0)


def run_batch(prop, seed, tier, idxs, jobs, deadline, on_result):
    """Run the given case indices over `jobs` worker processes."""
    fds = {}
    pids = []
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                _worker(prop, seed, tier, idxs[k::jobs], w, deadline)
            finally:
                os._exit(70)
        os.close(w)
        fds[r] = b""
        pids.append(pid)
    stop = False
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd] + b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                i, res = pickle.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                if on_result(i, res) == "stop":
                    stop = True
            fds[fd] = buf
        if stop:
            break
    for p in pids:
        if stop:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
    for fd in list(fds):
        os.close(fd)
    for p in pids:
        os.waitpid(p, 0)


def run_many(prop, cases, jobs):
    """Run explicit cases in parallel, results in order (used by the minimiser)."""
    out = [None] * len(cases)
    procs = []
    for k in range(min(jobs, len(cases))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = [(i, run_case(prop, cases[i])) for i in range(k, len(cases), jobs)]
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        procs.append((pid, r))
    for pid, r in procs:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            for i, res in pickle.loads(data):
                out[i] = res
    return out


# ---------------------------------------------------------------------------
# minimisation

def _candidates(prop, case):
    ops = case.get("ops")
    if isinstance(ops, list) and len(ops) > 1:
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                c = dict(case)
                c["ops"] = ops[:a] + ops[a + size:]
                if c["ops"] or prop.allow_empty_ops:
                    yield c
            if size == 1:
                break
            size //= 2
    if isinstance(ops, list):
        for i, op in enumerate(ops):
            if isinstance(op, dict) and op.get("faults"):
                for j in range(len(op["faults"])):
                    c = json.loads(json.dumps(case))
                    del c["ops"][i]["faults"][j]
                    yield c
    if case.get("faults"):
        for j in range(len(case["faults"])):
            c = json.loads(json.dumps(case))
            del c["faults"][j]
            yield c
    yield from prop.shrink(case)
    if isinstance(case.get("world"), dict):
        for q in world.shrink_params(case["world"]):
            c = dict(case)
            c["world"] = q
            yield c


def minimise(prop, case, sig, jobs, budget=45.0):
    t0 = time.monotonic()
    tried = 0
    best = case
    progress = True
    while progress and time.monotonic() - t0 < budget:
        progress = False
        cands = []
        seen = set()
        for c in _candidates(prop, best):
            k = json.dumps(c, sort_keys=True)
            if k not in seen and k != json.dumps(best, sort_keys=True):
                seen.add(k)
                cands.append(json.loads(k))
        for a in range(0, len(cands), jobs * 2):
            if time.monotonic() - t0 > budget:
                break
            batch = cands[a:a + jobs * 2]
            res = run_many(prop, batch, jobs)
            tried += len(batch)
            hit = next((i for i, r in enumerate(res) if r and r["status"] == "violation" and r["sig"] == sig), None)
            if hit is not None:
                best = batch[hit]
                progress = True
                break
    return best, tried


# ---------------------------------------------------------------------------
# known findings

def load_findings(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


def write_replay(prop, seed, i, tier, case, res, original=None):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-seed{seed}-run{i}.json")
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "run": i, "tier": tier, "sig": res["sig"], "msg": res["msg"],
                   "event_hash": res["hash"], "case": case, "original_case": original}, f, indent=1)
    return path


def replay_file(path, jobs=1):
    with open(path) as f:
        rec = json.load(f)
    prop = load_prop(rec["property"])
    prop.warmup()
    res = run_case(prop, rec["case"], keep_events=True)
    for e in (res.get("events") or [])[-60:]:
        print("  event", json.dumps(e, default=str)[:300])
    print(f"replay: status={res['status']} sig={res['sig']} hash={res['hash']}")
    if res["msg"]:
        print(res["msg"])
    if rec.get("event_hash"):
        print("event log identical to the recorded run:", rec["event_hash"] == res["hash"])
    if res["status"] == "violation":
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


# ---------------------------------------------------------------------------
# the check

def check(pid, tier, seed, jobs=None, runs=None, wall=None):
    t0 = time.monotonic()
    prop = load_prop(pid)
    jobs = jobs or min(8, os.cpu_count() or 1)
    nruns = runs or (prop.quick_runs if tier == "quick" else prop.thorough_runs)
    wall = wall or (prop.quick_wall if tier == "quick" else prop.thorough_wall)
    print(f"[{pid}] seed={seed} tier={tier} runs={nruns} jobs={jobs}", flush=True)
    prop.warmup()
    warm = time.monotonic() - t0
    deadline = time.monotonic() + wall

    findings = load_findings(pid)
    known = {f["sig"]: f for f in findings if f.get("status", "open") == "open"}

    agg = {"probes": Counter(), "faults": Counter(), "states": set(), "hashes": {}, "status": Counter(), "steps": 0}
    viol, harness, died = [], [], []
    suppressed = Counter()

    def on_result(i, res):
        agg["status"][res["status"]] += 1
        agg["probes"].update(res["probes"])
        agg["faults"].update(res["faults"])
        agg["states"].update(res["states"])
        agg["steps"] += res["nev"]
        agg["hashes"][i] = res["hash"]
        if res["status"] == "violation":
            if res["sig"] in known:
                suppressed[res["sig"]] += 1
            else:
                viol.append((i, res))
                if len(viol) >= 4:
                    return "stop"
        elif res["status"] == "harness":
            harness.append((i, res))
            if len(harness) > 20:
                return "stop"
        elif res["status"] in ("died", "timeout"):
            died.append((i, res))
        return None

    run_batch(prop, seed, tier, list(range(nruns)), jobs, deadline, on_result)
    search_s = time.monotonic() - t0 - warm

    # a child that died or hung: reproducible without any injected fault => the target crashed
    for i, res in died[:6]:
        case = gen_case(prop, seed, i, tier)
        again = run_case(prop, case)
        if again["status"] in ("died", "timeout") and prop.fault_free(case):
            again["sig"] = f"process-{again['status']}"
            again["msg"] = f"the process under simulation {again['status']} ({again['msg']})"
            again["status"] = "violation"
            viol.append((i, again))

    # determinism: the same seeds again, on a different number of workers
    redo = sorted(agg["hashes"])[: prop.recheck]
    mism = []

    def on_redo(i, res):
        if res["hash"] != agg["hashes"].get(i):
            mism.append(i)

    if redo and not viol:
        run_batch(prop, seed, tier, redo, max(1, jobs - 3), time.monotonic() + 60, on_redo)

    rc = 0
    # listed findings: replay each recorded history; report those that still fail
    for f in findings:
        if f.get("status", "open") != "open":
            continue
        with open(os.path.join(VERIF, f["replay"])) as fh:
            rec = json.load(fh)
        r = run_case(prop, rec["case"])
        if r["status"] == "violation" and r["sig"] == f["sig"]:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        elif r["status"] == "violation":
            viol.append((-1, r))
        else:
            print(f"[{pid}] listed finding no longer reproduces: {f['sig']}")

    replays = []
    bysig = {}
    for i, res in sorted(viol, key=lambda x: x[0]):
        bysig.setdefault(res["sig"], (i, res))
    for sig, (i, res) in list(bysig.items())[:3]:
        case = gen_case(prop, seed, i, tier) if i >= 0 else rec["case"]
        if not sig.startswith("process-"):
            small, tried = minimise(prop, case, sig, jobs, budget=prop.min_budget)
            r2 = run_case(prop, small)
            if r2["status"] != "violation" or r2["sig"] != sig:
                small, r2 = case, res
        else:
            small, r2 = case, res
        path = write_replay(prop, seed, i, tier, small, r2, case)
        replays.append(path)
        print(f"[{pid}] run {i}: [{sig}] {r2['msg'][:1500]}")
        print(f"[{pid}] minimised case: {json.dumps(small)[:1500]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        rc = 1

    if os.environ.get("SIM_HASHES"):
        with open(os.environ["SIM_HASHES"], "w") as f:
            json.dump({str(i): h for i, h in sorted(agg["hashes"].items())}, f)
    done = sum(agg["status"].values())
    samples = [gen_case(prop, seed, i, tier) for i in sorted(agg["hashes"])[-2:]]
    nontriv = len(agg["states"])
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": nontriv, "rule": prop.rule, "samples": samples,
            "simulated_runs": done, "runs_per_hour": round(done / max(search_s, 1e-3) * 3600),
            "simulated_steps": agg["steps"], "simulated_time": prop.sim_time,
            "faults_fired": dict(sorted(agg["faults"].items())), "probes": dict(sorted(agg["probes"].items())),
            "run_status": dict(agg["status"]), "components_real": prop.real, "components_stubbed": prop.stubs,
            "determinism_rechecked": len(redo), "determinism_mismatches": len(mism),
            "suppressed_known_findings": dict(suppressed), "replays": replays,
        },
        "assumptions": prop.assumptions, "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"[{pid}] {done} runs in {search_s:.1f}s (+{warm:.1f}s warm-up), {agg['steps']} steps, {nontriv} distinct states, "
          f"status {dict(agg['status'])}, faults {sum(agg['faults'].values())}, determinism mismatches {len(mism)}")
    if rc == 0 and mism:
        print(f"[{pid}] HARNESS-ERROR: nondeterministic runs {mism[:5]}")
        rc = 3
    if rc == 0 and harness:
        print(f"[{pid}] HARNESS-ERROR in {len(harness)} runs, first: run {harness[0][0]}\n{harness[0][1]['msg']}")
        rc = 3
    return rc


class Prop:
    """Base class of a property's check."""

    id = None
    quick_runs, thorough_runs = 400, 200000
    quick_wall, thorough_wall = 60, 1500
    min_budget = 40
    recheck = 16
    allow_empty_ops = False
    rule = ""
    sim_time = "logical: one step per simulated operation, I/O event or scheduling decision"
    real = []
    stubs = []
    assumptions = []

    def warmup(self):
        warm_numba()

    def directed(self):
        return []

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError

    def shrink(self, case):
        return iter(())

    def fault_free(self, case):
        return '"faults": [{' not in json.dumps(case)


def warm_numba(dtypes=("f4", "f8", "i8")):
    """Import and compile the (serial) numba helpers before forking."""
    import numpy as np
    import swiftsimio
    from swiftsimio import accelerated as acc
    from astropy.units import core as aucore

    assert os.path.abspath(swiftsimio.__file__).startswith("/repo/"), swiftsimio.__file__
    # astropy searches for the cgs form of the Hubble constant's unit on every load: memoise it
    orig, memo = aucore.UnitBase.to_system, {}

    def to_system(self, system):
        k = (hash(self), str(self), id(system))
        if k not in memo:
            memo[k] = orig(self, system)
        return memo[k]

    aucore.UnitBase.to_system = to_system
    warnings.simplefilter("ignore")
    p = {"kind": "snapshot", "seed": 1, "cells": [2, 2, 2], "box": [1.0] * 3, "units": "galactic", "a": 0.5, "cosmo": 1,
         "order": "sorted", "layout": "chunked", "chunk": 8, "offname": "OffsetsInFile", "bytes_desc": True,
         "named": {"ElementMassFractions": ["H", "He"], "SpeciesFractions": []}, "ptypes": {"0": 40}, "empty": {"0": 0.3},
         "drift": 0.0, "minmax": True}
    base = tempfile.mkdtemp(prefix="swsim_warm_", dir=scratch_base())
    try:
        import h5py
        fn = os.path.join(base, "w.hdf5")
        w = world.build(fn, p)
        m = swiftsimio.mask(fn)
        m.constrain_mask("gas", "temperatures", m.metadata.gas_properties and 0 * _T(), 1e30 * _T())
        d = swiftsimio.load(fn, mask=m)
        for n in ("coordinates", "particle_ids", "masses"):
            getattr(d.gas, n)
        with h5py.File(os.path.join(base, "x.hdf5"), "w") as h:
            for dt in dtypes:
                for shape in ((20,), (20, 3)):
                    x = h.create_dataset(f"{dt}{len(shape)}", data=np.zeros(shape, dt), chunks=(4,) + shape[1:])
                    acc.read_ranges_from_file(x, np.array([[0, 3], [5, 9]]), output_shape=7 if len(shape) == 1 else (7, 3),
                                              output_type=x.dtype)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    import gc
    gc.collect()
    gc.freeze()


def _T():
    from swiftsimio import cosmo_quantity
    import unyt
    return cosmo_quantity(1.0, unyt.K, comoving=True, scale_factor=0.5, scale_exponent=0)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--case", type=int, help="run one generated case and print its event log")
    a = ap.parse_args(argv)
    if a.what.endswith(".json"):
        return replay_file(a.what)
    if a.case is not None:
        prop = load_prop(a.what)
        prop.warmup()
        case = gen_case(prop, a.seed, a.case, a.tier)
        print(json.dumps(case, indent=1))
        res = run_case(prop, case, keep_events=True)
        for e in res.get("events") or []:
            print("  ", json.dumps(e, default=str)[:400])
        print({k: v for k, v in res.items() if k not in ("events", "states")})
        return 0
    return check(a.what, a.tier, a.seed, jobs=a.jobs, runs=a.runs, wall=a.wall)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
