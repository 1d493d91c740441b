"""Process set-up shared by all simulator processes.

Imports torch and the code under test (from /repo/src, never from a stale byte
code file) with one intra-op thread, and puts the lock constructors the code
under test might use behind the scheduler's seam.
"""
import os
import sys
import tempfile

REPO_SRC = os.environ.get("PTWT_SIM_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True

import threading  # noqa: E402
import time  # noqa: E402

REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock


class SimDeadlock(BaseException):
    """All simulated tasks wait for a lock."""


class SimLock:
    """Lock whose waiting is decided by the simulator's scheduler.

    Threads the code under test starts itself are not simulated; they, and
    tasks that wait for nobody but them, wait in real time.
    """

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._guard = REAL_LOCK()

    @staticmethod
    def _me():
        from . import engine
        s = engine.ACTIVE
        i = threading.get_ident()
        return (s.current if s is not None and s.mine(i) else None, i)

    def acquire(self, blocking=True, timeout=-1):
        from . import engine
        me = self._me()
        end = None
        while True:
            with self._guard:
                if not self._count:
                    self._owner = me
                    self._count = 1
                    return True
                if self._re and self._owner == me:
                    self._count += 1
                    return True
            if not blocking:
                return False
            s = engine.ACTIVE
            if s is not None and s.mine(me[1]):
                if not s.wait_lock(self, timeout):
                    return False
                continue
            if s is None and threading.active_count() < 2:
                raise SimDeadlock("lock held by nobody who can run")
            end = time.monotonic() + (timeout if timeout >= 0 else 60.0) if end is None else end
            if time.monotonic() > end:
                if timeout >= 0:
                    return False
                raise SimDeadlock("lock held by nobody who can run")
            time.sleep(0.0005)

    def release(self):
        with self._guard:
            if not self._count:
                raise RuntimeError("release unlocked lock")
            self._count -= 1
            if not self._count:
                self._owner = None

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    # used by threading.Condition
    def _is_owned(self):
        return self._count > 0 and self._owner == self._me()


def _from_ptwt():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(REPO_SRC):
            return True
        f = f.f_back
    return False


def _lock():
    return SimLock(False) if _from_ptwt() else REAL_LOCK()


def _rlock(*a, **k):
    return SimLock(True) if _from_ptwt() else REAL_RLOCK(*a, **k)


def _warm(torch):
    """Let torch import what it would otherwise import inside every run."""
    import io
    import torch.nn.functional as F
    from torch.utils._python_dispatch import TorchDispatchMode

    class _Mode(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            return func(*args, **(kwargs or {}))

    with _Mode():
        x = torch.ones(1, 1, 8, dtype=torch.float64, requires_grad=True)
        y = F.conv1d(F.pad(x, (2, 2), mode="reflect"), torch.ones(1, 1, 2, dtype=torch.float64), stride=2)
        y = F.conv_transpose1d(F.pad(y, (1, 1), mode="circular"), torch.ones(1, 1, 2, dtype=torch.float64))
        (y ** 2).sum().backward()
        m = torch.sparse_coo_tensor(torch.tensor([[0, 1], [1, 0]]), torch.ones(2), (2, 2)).coalesce()
        torch.sparse.mm(m, torch.ones(2, 2))
        torch.sparse.mm(m, m)
        torch.linalg.qr(torch.eye(2))
        torch.fft.fft(torch.ones(4))
    lin = torch.nn.Linear(1, 1)
    for opt in (torch.optim.Adam(lin.parameters()), torch.optim.SGD(lin.parameters(), lr=0.1)):
        lin(torch.ones(1)).sum().backward()
        opt.step()
        opt.zero_grad()
        b = io.BytesIO()
        torch.save(opt.state_dict(), b)
        b.seek(0)
        torch.load(b, weights_only=False)


def _settle():
    """Make forks cheap: fewer pages to copy.  Only speed depends on it."""
    import ctypes
    import gc
    gc.collect()
    gc.freeze()
    try:
        libc = ctypes.CDLL(None)
        with open("/proc/self/maps") as f:
            rows = f.read().splitlines()
        big = 2 << 20
        for row in rows:
            p = row.split(None, 5)
            if p[1] != "rw-p" or (len(p) > 5 and p[5] != "[heap]"):
                continue
            a, b = (int(v, 16) for v in p[0].split("-"))
            a, b = (a + big - 1) & -big, b & -big
            if b > a:
                libc.madvise(ctypes.c_void_p(a), ctypes.c_size_t(b - a), 14)  # MADV_HUGEPAGE
                libc.madvise(ctypes.c_void_p(a), ctypes.c_size_t(b - a), 25)  # MADV_COLLAPSE
    except (OSError, AttributeError, ValueError):
        pass


def boot():
    """Import torch, numpy, pywt and ptwt; returns them."""
    import warnings
    warnings.simplefilter("ignore")
    import numpy
    import pywt
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    # modules that torch would import lazily inside a run
    import scipy.fft  # noqa: F401
    import torch.utils._python_dispatch  # noqa: F401
    _warm(torch)
    # a byte code cache nobody writes: the sources under test are compiled anew
    old = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "ptwt-sim-no-cache-%d" % os.getpid())
    sys.path.insert(0, REPO_SRC)
    threading.Lock = _lock
    threading.RLock = _rlock
    threading._allocate_lock = _lock  # what conditions and events wait with
    try:
        import ptwt
        import ptwt.continuous_transform  # noqa: F401
        import ptwt.sparse_math  # noqa: F401
        import ptwt.wavelets_learnable  # noqa: F401
    finally:
        sys.pycache_prefix = old
    real = os.path.realpath(ptwt.__file__)
    if not real.startswith(os.path.realpath(REPO_SRC)):
        raise RuntimeError("ptwt imported from " + real)
    from .ids import Ids
    seen = Ids()
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "ptwt" and m is not None:
            vars(m).setdefault("id", seen)
    _settle()
    return numpy, pywt, torch, ptwt
