"""Python side of the simulated disk (see simdisk.c): fault plans, I/O logs, journals."""

import ctypes
import errno
import os
import sys

OPS = ["open", "read", "write", "close", "trunc", "lock", "fsync", "unlink", "rename"]
OPI = {n: i for i, n in enumerate(OPS)}
ACTS = {"err": 0, "short": 1, "torn": 2, "exit": 3, "flip": 4}


class _Log(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int32), ("fid", ctypes.c_int32), ("off", ctypes.c_int64),
                ("len", ctypes.c_int64), ("ret", ctypes.c_int64), ("err", ctypes.c_int32),
                ("injected", ctypes.c_int32)]


class _J(ctypes.Structure):
    _fields_ = [("kind", ctypes.c_int32), ("fid", ctypes.c_int32), ("off", ctypes.c_int64),
                ("len", ctypes.c_int64), ("pos", ctypes.c_int64)]


def install_allocator():
    """Make numpy take the memory of arrays (of this thread's context) from the simulator's handler."""
    import numpy._core._multiarray_umath as um
    py = ctypes.pythonapi
    py.PyCapsule_GetPointer.restype = ctypes.c_void_p
    py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
    py.PyCapsule_New.restype = ctypes.py_object
    py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    lib = ctypes.CDLL(None)
    lib.sm_handler.restype = ctypes.c_void_p
    table = ctypes.cast(py.PyCapsule_GetPointer(um._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])    # PyDataMem_SetHandler
    cap = py.PyCapsule_New(lib.sm_handler(), _MEM_HANDLER, None)
    set_handler(cap)
    from numpy._core.multiarray import get_handler_name
    assert get_handler_name() == "swsim", get_handler_name()


_MEM_HANDLER = b"mem_handler"      # the capsule keeps a pointer to it


class Interrupt:
    """The user presses Ctrl-C, or memory runs out: an exception at the n-th line that swiftsimio executes."""

    def __init__(self, at, root, exc=KeyboardInterrupt):
        self.at, self.root, self.seen, self.fired, self.exc = at, root, 0, 0, exc
        self.first = {}          # (file, line) -> its first execution

    def start(self):
        sys.settrace(self._call)

    def stop(self):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(self.root) else None

    def _line(self, frame, event, arg):
        if event == "line":
            self.first.setdefault((frame.f_code.co_filename, frame.f_lineno), self.seen)
            self.seen += 1
            if self.seen == self.at + 1:
                self.fired = 1
                raise self.exc(f"simulated at line {self.at}")
        return self._line


class SimDisk:
    """One simulated mount point. Only files below it are seen by the simulator."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        i64, i32 = ctypes.c_int64, ctypes.c_int
        lib.sd_add_fault.argtypes = [i32, i32, i64, i64, i64]
        lib.sd_fault_fired.restype = i64
        lib.sd_fault_fired.argtypes = [i32]
        lib.sd_set_cap.argtypes = [i64]
        lib.sd_cap_fired.restype = i64
        lib.sd_nlog.restype = i64
        lib.sd_log.restype = ctypes.POINTER(_Log)
        lib.sd_njournal.restype = i64
        lib.sd_journal_recs.restype = ctypes.POINTER(_J)
        lib.sd_journal_data.restype = ctypes.c_void_p
        lib.sd_opcount.restype = i64
        lib.sd_path.restype = ctypes.c_char_p
        lib.sm_add.argtypes = [i64, i64, i64]
        lib.sm_fired.restype = lib.sm_total.restype = i64
        lib.sm_fired.argtypes = [i32]
        self.lib = lib
        self.allocs = []
        self.intr = None
        self.root = None
        self.armed = []
        self.cap = None
        self.fired = {}

    def mount(self, path):
        self.lib.sd_reset()
        self.lib.sd_mount(os.fsencode(path))
        self.root = path

    def unmount(self):
        self.lib.sd_unmount()

    # -- fault plans ---------------------------------------------------------
    def arm(self, faults=()):
        """Install the fault plan for the next step; op counters restart at zero."""
        self.lib.sd_arm()
        self.lib.sd_clear_faults()
        self.lib.sm_clear()
        self.armed = []
        self.allocs = []
        self.cap = None
        for f in faults:
            if f["op"] == "interrupt":
                self.intr = (Interrupt(int(f.get("at", 0)), "/repo/swiftsimio/", {"MemoryError": MemoryError}.get(f.get("exc"), KeyboardInterrupt)), f)
                continue
            if f["op"] == "alloc":     # numpy is refused memory
                i = self.lib.sm_add(int(f.get("at", 0)), int(f.get("count", 1)), int(f.get("arg", 0)))
                self.allocs.append((i, f))
                continue
            if f["op"] == "full":      # the disk is full beyond `at` bytes per file
                self.lib.sd_set_cap(int(f["at"]))
                self.cap = f
                continue
            arg = f.get("arg", 0)
            if isinstance(arg, str):
                arg = getattr(errno, arg)
            i = self.lib.sd_add_fault(OPI[f["op"]], ACTS[f.get("act", "err")], int(f.get("at", 0)),
                                      int(f.get("count", 1)), int(arg))
            self.armed.append((i, f))
        self.lib.sm_arm()
        if self.intr:
            self.intr[0].start()

    def disarm(self):
        """Clear the plan; returns [(fault, times fired)] for those that fired."""
        out = []
        if self.intr:
            self.intr[0].stop()
            self.lines = self.intr[0].seen
            if self.intr[0].fired:
                out.append((self.intr[1], 1))
            self.intr = None
        for i, f in self.allocs:
            n = int(self.lib.sm_fired(i))
            if n:
                out.append((f, n))
        self.lib.sm_clear()
        self.allocs = []
        for i, f in self.armed:
            n = int(self.lib.sd_fault_fired(i))
            if n:
                out.append((f, n))
        if self.cap is not None and self.lib.sd_cap_fired():
            out.append((self.cap, int(self.lib.sd_cap_fired())))
        self.armed, self.cap = [], None
        self.lib.sd_clear_faults()
        return out

    def counts(self):
        return {**{n: int(self.lib.sd_opcount(i)) for n, i in OPI.items()}, "alloc": int(self.lib.sm_total()),
                "interrupt": self.intr[0].seen if self.intr else 0, "lines": sorted(self.intr[0].first.values()) if self.intr else []}

    # -- observation ---------------------------------------------------------
    def mark(self):
        return int(self.lib.sd_nlog())

    def log(self, since=0):
        n = int(self.lib.sd_nlog())
        p = self.lib.sd_log()
        return [(OPS[p[k].op], self.path(p[k].fid), p[k].off, p[k].len, p[k].ret, p[k].err, p[k].injected)
                for k in range(since, n)]

    def path(self, fid):
        return os.fsdecode(self.lib.sd_path(fid))

    def open_files(self):
        buf = (ctypes.c_int * 1024)()
        n = self.lib.sd_open_fds(buf, 1024)
        return sorted(self.path(buf[k]) for k in range(n))

    def journal(self, on=True):
        self.lib.sd_journal(1 if on else 0)

    def journal_records(self):
        """[(kind, path, off, bytes)] in issue order; kind is write/trunc/create."""
        n = int(self.lib.sd_njournal())
        p = self.lib.sd_journal_recs()
        base = self.lib.sd_journal_data()
        out = []
        for k in range(n):
            r = p[k]
            kind = ("write", "trunc", "create")[r.kind]
            data = ctypes.string_at(base + r.pos, r.len) if r.kind == 0 and r.len else b""
            out.append((kind, self.path(r.fid), int(r.off), data))
        return out


def replay_journal(records, path, upto, skip=()):
    """Image of `path` after a crash: the first `upto` records minus those in `skip`."""
    img = bytearray()
    exists = False
    for i, (kind, p, off, data) in enumerate(records[:upto]):
        if p != path or i in skip:
            continue
        exists = True
        if kind == "create":
            img = bytearray()
        elif kind == "trunc":
            if off < len(img):
                del img[off:]
            else:
                img.extend(b"\0" * (off - len(img)))
        else:
            if off > len(img):
                img.extend(b"\0" * (off - len(img)))
            img[off:off + len(data)] = data
    return bytes(img) if exists else None
