"""Simulated threads: real Python threads of which exactly one runs, chosen by a schedule.

Every line (or bytecode instruction) of swiftsimio code is a scheduling point. A schedule is a list of
[step, pick]: at the first point whose count reaches step, the running thread is preempted
and the pick-th of the other runnable threads runs. Locks of the threading module are
replaced by ones that yield instead of blocking, so that a thread that waits for a lock
lets its owner run, and a deadlock is detected.
"""

import gc
import sys
import threading
import types
from _thread import get_ident

from h5py._objects import phil

from .core import Violation

ROOT = "/repo/swiftsimio/"
TOOL = 4
_real_lock, _real_rlock = threading.Lock, threading.RLock
_active = None


class SimLock:
    _make = staticmethod(_real_lock)

    def __init__(self):
        self._l = self._make()
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        if s is None or get_ident() not in s.by_ident:
            return self._l.acquire(blocking, timeout)
        s.point("lock")
        n = 0
        while not self._l.acquire(False):
            if not blocking or (timeout >= 0 and n > timeout):
                return False
            n += 1
            s.blocked(self.owner)
        self.owner = s.cur
        return True

    def release(self):
        self._l.release()
        s = _active
        if s is not None and get_ident() in s.by_ident:
            s.point("unlock")

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _make = staticmethod(_real_rlock)

    def _is_owned(self):
        return self._l._is_owned()

    def _release_save(self):
        return self._l._release_save()

    def _acquire_restore(self, st):
        return self._l._acquire_restore(st)


def install():
    """Before swiftsimio is imported: the locks it makes become simulated ones."""
    import astropy.cosmology, h5py, numba, scipy.integrate, unyt  # noqa: F401, E401 - with real locks

    def maker(sim, real):
        def make(*a, **k):
            return (sim if sys._getframe(1).f_code.co_filename.startswith(ROOT) else real)(*a, **k)
        return make
    threading.Lock, threading.RLock = maker(SimLock, _real_lock), maker(SimRLock, _real_rlock)


def _codes():
    out, seen = [], set()

    def add(c):
        if c in seen or not c.co_filename.startswith(ROOT):
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for name, mod in sorted(sys.modules.items()):
        if name.split(".")[0] != "swiftsimio" or mod is None:
            continue
        for v in list(vars(mod).values()):
            _walk(v, add, 0)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    return out


def _walk(v, add, depth):
    if isinstance(v, types.FunctionType):
        add(v.__code__)
        while hasattr(v, "__wrapped__"):
            v = v.__wrapped__
            if isinstance(v, types.FunctionType):
                add(v.__code__)
    elif isinstance(v, type) and depth < 3:
        for x in list(vars(v).values()):
            _walk(x, add, depth + 1)
    elif isinstance(v, property):
        for x in (v.fget, v.fset, v.fdel):
            _walk(x, add, depth + 1)
    elif isinstance(v, (staticmethod, classmethod)):
        _walk(v.__func__, add, depth + 1)


_instrumented = None
_code_list = []


def prepare():
    """Find the code to instrument (once, after swiftsimio was imported)."""
    gc.unfreeze()
    _code_list[:] = _codes()
    gc.freeze()


def instrument(mode):
    """Make every line (or instruction) of swiftsimio code a scheduling point."""
    global _instrumented
    codes = _code_list or _codes()
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "sim")
    ev = mon.events.INSTRUCTION if mode == "instr" else mon.events.LINE

    def cb(code, x):
        s = _active
        if s is not None:
            s.point(code.co_name)
    mon.register_callback(TOOL, ev, cb)
    for c in codes:
        mon.set_local_events(TOOL, c, ev)
    _instrumented = len(codes)
    return len(codes)


class Stop(BaseException):
    """Unwinds the threads of a run that has failed."""


class _T:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.alive = True


class Sched:
    def __init__(self, ctx, switches):
        self.ctx = ctx
        self.switches = sorted(switches)
        self.k = 0
        self.step = 0
        self.by_ident = {}
        self.threads = []
        self.cur = None
        self.done = _real_lock()
        self.done.acquire()
        self.stuck = 0
        self.error = None
        self.nswitch = 0

    def point(self, where):
        t = self.by_ident.get(get_ident())
        if t is None or t is not self.cur:
            return
        if self.error is not None:
            raise Stop()
        self.step += 1
        self.stuck = 0
        if self.k < len(self.switches) and self.step >= self.switches[self.k][0] and not phil._is_owned():
            # (a thread in h5py's own lock is not preempted: the others would only wait for it)
            pick = self.switches[self.k][1]
            self.k += 1
            self._yield(t, pick, where)

    def _yield(self, t, pick, where):
        others = [x for x in self.threads if x.alive and x is not t]
        if not others:
            return False
        u = others[pick % len(others)]
        self.nswitch += 1
        self.ctx.ev("switch", self.step, t.i, u.i, where)
        self.cur = u
        u.sem.release()
        t.sem.acquire()
        if self.error is not None:
            raise Stop()
        return True

    def blocked(self, owner):
        """The running thread waits for a lock that `owner` holds: it runs next."""
        t = self.by_ident[get_ident()]
        self.stuck += 1
        others = [x for x in self.threads if x.alive and x is not t]
        pick = others.index(owner) if owner in others else self.stuck
        if self.stuck > 10 * len(self.threads) or not self._yield(t, pick, "blocked"):
            self.error = Violation("deadlock", f"all threads wait for locks (step {self.step})")
            raise Stop()

    def _body(self, t):
        self.by_ident[get_ident()] = t
        t.sem.acquire()
        try:
            if self.error is None:
                t.fn()
        except Stop:
            pass
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            if self.error is None:
                self.error = e
        t.alive = False
        self.stuck = 0
        nxt = [x for x in self.threads if x.alive]
        if nxt:
            self.cur = nxt[self.step % len(nxt)]
            self.ctx.ev("end", self.step, t.i, self.cur.i)
            self.cur.sem.release()
        else:
            self.done.release()

    def run(self, fns):
        global _active
        self.threads = [_T(i, f) for i, f in enumerate(fns)]
        real = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        for r in real:
            r.start()
        while len(self.by_ident) < len(real):
            pass
        _active = self
        self.cur = self.threads[0]
        self.cur.sem.release()
        self.done.acquire()
        _active = None
        for r in real:
            r.join()
        if self.error is not None:
            raise self.error


def rand_switches(rng, n=None):
    """A schedule: bursts of preemptions at chosen densities."""
    mode = rng.choice(["dense", "burst", "sparse", "few", "mixed"])
    out, at = [], 0
    if mode == "few":
        return sorted([int(rng.random() ** 2 * rng.choice([200, 1500, 8000])), rng.randrange(8)] for _ in range(rng.randrange(1, 6)))
    for _ in range(n or rng.choice([10, 40, 150])):
        mean = {"dense": 2, "burst": rng.choice([1, 1, 60]), "sparse": 80, "mixed": rng.choice([1, 8, 50, 300])}[mode]
        at += 1 + int(rng.expovariate(1.0 / mean))
        out.append([at, rng.randrange(8)])
    return out
