"""Running a faulted write in a process of its own, and judging what it left."""

import hashlib
import io
import os
import pickle

from .core import drop, show
from .oracle import place as place_at

FAULTS = [
    {"op": "open", "arg": "EMFILE"}, {"op": "open", "arg": "EACCES"}, {"op": "open", "arg": "ENOSPC"}, {"op": "lock", "arg": "EAGAIN"},
    {"op": "write", "arg": "EIO"}, {"op": "write", "arg": "EIO"}, {"op": "write", "arg": "ENOSPC", "count": -1}, {"op": "write", "arg": "EDQUOT"},
    {"op": "write", "act": "torn", "arg": 13}, {"op": "write", "act": "short", "arg": 5}, {"op": "write", "act": "short", "arg": 100, "count": -1},
    {"op": "trunc", "arg": "EIO"}, {"op": "trunc", "arg": "ENOSPC"}, {"op": "close", "arg": "EIO"}, {"op": "full"}, {"op": "full"},
    {"op": "alloc"}, {"op": "alloc", "count": 3}, {"op": "alloc", "count": -1},
    {"op": "interrupt"}, {"op": "interrupt"}, {"op": "interrupt", "exc": "MemoryError"},
]
COUNT = [{"op": "interrupt", "at": 1 << 60}]       # fires never, but makes the lines be counted
READ_FAULTS = [{"op": "read", "arg": "EIO"}, {"op": "read", "arg": "EIO"}, {"op": "read", "arg": "EIO", "count": -1}, {"op": "read", "act": "short", "arg": 7}]


def digest(path):
    if not os.path.isfile(path):
        return None
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def in_child(gen):
    """Run the generator in a forked child; the last value it yielded (name 'gone' if it died before the first)."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for x in gen():
                os.write(wr, pickle.dumps(x))      # well below PIPE_BUF
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    res = {"fired": [], "name": "gone", "text": f"child status {status}", "again": None}
    buf = io.BytesIO(data)
    while buf.tell() < len(data):
        res = pickle.load(buf)
    return res


def faulted_write(ctx, faults, write, again=None):
    """write() under faults in a forked child, then again() without; {name, text, fired, again}."""
    def body():
        ctx.disk.arm(faults)
        err = None
        try:
            write()
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err = e
        fired = ctx.disk.disarm()
        res = {"fired": fired, "name": type(err).__name__ if err else "ok", "text": show(err, 500) if err else "", "again": None}
        drop(err)
        yield res
        if err is not None and again is not None:
            try:
                again()
                res["again"] = "ok"
            except Exception as e:  # noqa: BLE001
                res["again"] = show(e, 500)
            yield res
    # in a process of its own: HDF5 can take the process down when it fails to close a file
    res = in_child(body)
    ctx.faults_fired(res["fired"])
    return res


def plan(rng, faults):
    f = dict(rng.choice(faults))
    return f, round(rng.choice([rng.random(), rng.random(), rng.random() ** 0.25, 0.0, 0.9999]), 4)


def place(f, frac, counts, size):
    f = dict(f)
    f["at"] = min(size - 1, int(frac * size)) if f["op"] == "full" else place_at(f, frac, counts)
    return f


def cuts(rng, n=5):
    return [[round(rng.choice([rng.random(), 1 - rng.random() ** 3]), 4), round(rng.choice([0.0, 1.0, rng.random()]), 3)] for _ in range(n)]


def crash_image(recs, path, cut, torn):
    """(number of writes kept, image of path) after a crash `cut` of the way through, with the last write torn."""
    from .disk import replay_journal
    n = min(len(recs), int(cut * (len(recs) + 1)))
    part = list(recs[:n])
    if n and part[-1][0] == "write" and torn < 1.0:
        k, p, o, d = part[-1]
        part[-1] = (k, p, o, d[:int(len(d) * torn)])
    return n, replay_journal(part, path, len(part))
