"""Cases, contexts, violations: what one simulated run is made of.

A case is a JSON dict. Running a case is a pure function of the case and of the code
under test; every random choice was made when the case was generated (or is derived
from integers stored in the case).
"""

import hashlib
import json
import os
import random
import traceback
from collections import Counter


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"[{sig}] {msg}")
        self.sig = sig
        self.msg = msg


class Discard(Exception):
    """The case cannot be judged (for example: HDF5 itself died after an injected fault)."""


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Ctx:
    """Everything a property's run() gets: scratch space, disk, event log, probes."""

    def __init__(self, case, scratch, disk):
        self.case = case
        self.dir = scratch
        self.disk = disk
        self.hash = hashlib.sha256()
        self.events = []
        self.keep_events = False
        self.nev = 0
        self.probes = Counter()
        self.faults = Counter()
        self.states = set()
        self.steps = 0

    def ev(self, *items):
        self.nev += 1
        self.steps += 1
        s = json.dumps(items, default=str)
        self.hash.update(s.encode())
        if self.keep_events:
            self.events.append(items)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *items):
        self.states.add(hashlib.sha256(repr(items).encode()).hexdigest()[:12])

    def arm(self, faults):
        self.disk.arm(faults)

    def disarm(self):
        """End of a faulted step: count and log what actually fired."""
        return self.faults_fired(self.disk.disarm())

    def faults_fired(self, fired):
        for f, n in fired:
            k = fault_kind(f)
            self.faults[k] += n
            self.ev("fault", k, n)
        return fired

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def check(self, ok, sig, msg):
        if not ok:
            raise Violation(sig, msg() if callable(msg) else msg)


def fault_kind(f):
    if f["op"] == "full":
        return "disk_full"
    if f["op"] == "alloc":
        return "memory_refused"
    if f["op"] == "interrupt":
        return "memory_error_at_line" if f.get("exc") == "MemoryError" else "keyboard_interrupt"
    act = f.get("act", "err")
    if act == "err":
        return f"{f['op']}_{f.get('arg')}" + ("_persistent" if f.get("count", 1) < 0 else "")
    return f"{f['op']}_{act}"


def from_target(exc, root="/repo/swiftsimio"):
    """True when the traceback of `exc` passes through the code under test."""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(root):
            return True
    return False


def where(exc, root="/repo/swiftsimio"):
    last = None
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(root):
            last = fr
    return f"{os.path.relpath(last.filename, '/repo')}:{last.name}" if last else "?"


def show(exc, n=200):
    return f"{type(exc).__name__}: {str(exc)[:n]}"


def drop(exc):
    """Release what a caught exception keeps alive (open HDF5 objects), as leaving an except block would."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if exc.__traceback__ is not None:
            traceback.clear_frames(exc.__traceback__)
        exc.__traceback__ = None
        exc = exc.__cause__ or exc.__context__
