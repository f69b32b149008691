"""SimDisk: Python control of the simio.so seam (see simio.c)."""
import ctypes
import os

OPS = {1: "openr", 2: "openw", 3: "close", 4: "read", 5: "write", 6: "trunc", 7: "rename", 8: "unlink", 9: "mkdir",
       10: "rmdir", 11: "stat", 12: "list", 13: "shmopen", 14: "shmunlink", 15: "mmap", 16: "sync"}
ERR, SHORT, CRASH_BEFORE, CRASH_TORN, CRASH_AFTER, FULL, ERR_STICKY, LOST = 1, 2, 3, 4, 5, 6, 7, 8
KIND_NAMES = {1: "error", 2: "short", 3: "crash-before", 4: "crash-torn", 5: "crash-after", 6: "disk-full",
              7: "error-sticky", 8: "lost-write"}
CRASH_EXIT = 77


class _Ev(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("fault", ctypes.c_int), ("off", ctypes.c_long), ("n", ctypes.c_long),
                ("res", ctypes.c_long), ("path", ctypes.c_char * 160), ("path2", ctypes.c_char * 160)]


class SimDisk:
    """One per process; requires LD_PRELOAD=simio.so."""

    def __init__(self):
        self.lib = lib = ctypes.CDLL(None)
        try:
            lib.sim_reset
        except AttributeError:
            raise RuntimeError("simio.so is not preloaded")
        lib.sim_ev.restype = ctypes.POINTER(_Ev)
        lib.sim_ev.argtypes = [ctypes.c_long]
        lib.sim_nlog.restype = ctypes.c_long
        lib.sim_ops.restype = ctypes.c_long
        lib.sim_fault.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long]
        lib.sim_listseed.argtypes = [ctypes.c_uint64]
        lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64, ctypes.c_int64]
        lib.sim_clock_jump.argtypes = [ctypes.c_int64, ctypes.c_int64]
        lib.sim_clock_now.restype = ctypes.c_int64
        lib.sim_clock_calls.restype = ctypes.c_long

    def setup(self, prefix, shmdir=None, list_seed=0):
        self.lib.sim_prefix(os.fsencode(prefix))
        self.lib.sim_shmdir(os.fsencode(shmdir) if shmdir else b"")
        self.lib.sim_reset()
        self.lib.sim_listseed(list_seed)

    def arm(self, faults=(), stat_faults=False):
        """Start numbering operations from 0 with this fault plan [(op_index, kind, arg), ...]."""
        self.lib.sim_arm(0)
        self.lib.sim_reset()
        self.lib.sim_statfault(1 if stat_faults else 0)
        self.nf = 0
        for idx, kind, arg in faults:
            self.lib.sim_fault(int(idx), int(kind), int(arg))
            self.nf += 1
        self.lib.sim_arm(1)

    def disarm(self):
        self.lib.sim_arm(0)

    def clear(self):
        self.lib.sim_clear_faults()

    def fired(self):
        return [bool(self.lib.sim_fired(i)) for i in range(self.nf)]

    def ops(self):
        return self.lib.sim_ops()

    def events(self):
        out = []
        for i in range(self.lib.sim_nlog()):
            e = self.lib.sim_ev(i).contents
            out.append((OPS[e.op], e.path.decode("utf8", "replace"), e.path2.decode("utf8", "replace"), e.off, e.n, e.res,
                        e.fault))
        return out

    def open_fds(self):
        n = self.lib.sim_open_fds()
        buf = ctypes.create_string_buffer(400)
        names = []
        for i in range(n):
            if self.lib.sim_openfd_name(i, buf):
                names.append(buf.value.decode("utf8", "replace"))
        return names

    def clock(self, on, real_ns=0, mono_ns=0, step_ns=1000):
        self.lib.sim_clock(1 if on else 0, real_ns, mono_ns, step_ns)

    def clock_jump(self, d_real, d_mono=0):
        self.lib.sim_clock_jump(d_real, d_mono)
