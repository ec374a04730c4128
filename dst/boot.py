"""Loads the code under test (from /repo's working tree) with every seam the simulator owns in place.

Seams, all inert unless a simulated run switches them on:
  numeric kernels     numpy.linalg.svd/inv, numpy.vstack called from the package   SEAMS.kernel_hook
  clocks              time.time/monotonic/perf_counter called from the package     SEAMS.clock
  entropy             os.urandom, unseeded RandomState/default_rng                 SEAMS.entropy
  files               builtins.open                                                SEAMS.open_hook
  locks               threading.Lock/RLock created by the package                  SEAMS.lock_owner
  notebook frontend   IPython's display publisher                                  SEAMS.publish_hook
  scheduling, aborts  every bytecode of the package (sys.monitoring)               dst.sched
Nothing in /repo is modified.
"""
import os, sys

REPO = os.path.realpath(os.environ.get("DST_REPO", "/repo"))
PKG = os.path.join(REPO, "attitude") + os.sep


class Seams:
    kernel_hook = None
    clock = None
    entropy = None
    open_hook = None
    lock_owner = None
    publish_hook = None

    def reset(self):
        for k in ("kernel_hook", "clock", "entropy", "open_hook", "lock_owner", "publish_hook"):
            setattr(self, k, None)


SEAMS = Seams()
CODES = []
MODULES = []
IMPORT_CHANGES = []
_booted = False


def _from_pkg(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(PKG)


class SimLock:
    """A lock created by the package: an ordinary lock outside a simulation, a scheduling point inside."""

    def __init__(self, real, reentrant):
        self._real = real
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = SEAMS.lock_owner
        me = sim.current_managed() if sim is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (self._re and self._owner is me):
            if not blocking or timeout >= 0:
                return False
            sim.block_on(me, self)
        sim._prev_shared = True
        self._owner = me
        self._count += 1
        return True

    def release(self):
        sim = SEAMS.lock_owner
        me = sim.current_managed() if sim is not None else None
        if me is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        sim._prev_shared = True
        self._count -= 1
        if self._count == 0:
            self._owner = None
            sim.unblock(self)

    def locked(self):
        return self._owner is not None or (hasattr(self._real, "locked") and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def boot():
    global _booted
    if _booted:
        return
    _booted = True
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    import importlib, importlib.machinery, pkgutil, threading, time, types, gc, builtins

    # always compile the package from source: stale caches must not hide a change
    SFL = importlib.machinery.SourceFileLoader
    orig_get_code = SFL.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(PKG):
            return self.source_to_code(self.get_data(path), path)
        return orig_get_code(self, fullname)
    SFL.get_code = get_code

    sys.path.insert(0, REPO)
    import numpy as N
    # third parties first, so that what they captured at import time is the real thing
    for n in ("scipy.stats", "scipy.ndimage", "scipy.sparse.linalg", "matplotlib.pyplot", "mplstereonet", "seaborn",
              "IPython", "shapely.ops", "rasterio.features", "cartopy.feature", "cartopy.crs", "sympy", "subdivide"):
        try:
            importlib.import_module(n)
        except Exception:
            pass

    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close(plt.figure())   # settle the backend before an IPython shell exists

    # numeric kernels
    def wrap_kernel(mod, name):
        real = getattr(mod, name)

        def kernel(*a, **k):
            h = SEAMS.kernel_hook
            if h is not None and _from_pkg():
                h(name)
            return real(*a, **k)
        kernel.__name__ = name
        kernel.__doc__ = real.__doc__
        setattr(mod, name, kernel)
    for n in ("svd", "inv"):
        wrap_kernel(N.linalg, n)
    for n in ("vstack",):
        wrap_kernel(N, n)

    # clocks
    for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns"):
        real = getattr(time, n)

        def clock(real=real, ns=n.endswith("_ns")):
            c = SEAMS.clock
            if c is not None and _from_pkg():
                return int(c() * 1e9) if ns else c()
            return real()
        setattr(time, n, clock)

    # entropy
    real_urandom = os.urandom

    def urandom(n):
        e = SEAMS.entropy
        return real_urandom(n) if e is None else e(n)
    os.urandom = urandom
    import random as _random
    _random._urandom = urandom
    RealRS = N.random.RandomState

    class _M(type):
        def __instancecheck__(cls, o):
            return isinstance(o, RealRS)

    class RandomState(RealRS, metaclass=_M):
        def __init__(self, seed=None):
            if seed is None and SEAMS.entropy is not None:
                seed = int.from_bytes(SEAMS.entropy(4), "big")
            super().__init__(seed)
    RandomState.__name__ = "RandomState"
    N.random.RandomState = RandomState
    real_rng = N.random.default_rng

    def default_rng(seed=None):
        if seed is None and SEAMS.entropy is not None:
            seed = int.from_bytes(SEAMS.entropy(4), "big")
        return real_rng(seed)
    N.random.default_rng = default_rng

    # files
    real_open = builtins.open

    def open_(file, *a, **k):
        h = SEAMS.open_hook
        if h is not None:
            r = h(real_open, file, *a, **k)
            if r is not None:
                return r
        return real_open(file, *a, **k)
    builtins.open = open_
    import io
    io.open = open_

    # locks
    RL, RR = threading.Lock, threading.RLock

    def Lock():
        real = RL()
        return SimLock(real, False) if _from_pkg() else real

    def RLock():
        real = RR()
        return SimLock(real, True) if _from_pkg() else real
    threading.Lock, threading.RLock = Lock, RLock

    # notebook frontend: IPython's real display machinery over a publisher we own
    import IPython.core.interactiveshell as IS
    from IPython.core.displaypub import DisplayPublisher

    class SimPublisher(DisplayPublisher):
        def publish(self, data, metadata=None, **kw):
            h = SEAMS.publish_hook
            if h is not None:
                h(dict(data))

        def clear_output(self, wait=False):
            pass
    import tempfile
    os.environ.setdefault("IPYTHONDIR", os.path.join(tempfile.gettempdir(), "dst-ipython-none"))
    from traitlets.config import Config
    cfg = Config()
    cfg.HistoryManager.enabled = False
    try:
        shell = IS.InteractiveShell.instance(config=cfg)
        shell.display_pub = SimPublisher(parent=shell)
        shell.display_pub.shell = shell
    except Exception:
        raise

    import matplotlib
    matplotlib.use("Agg")
    import mplstereonet  # noqa
    from . import host
    before = host.global_state(), host.local_state(), host.contents(), host.random_state()
    import attitude
    assert os.path.realpath(attitude.__file__).startswith(PKG), attitude.__file__
    MODULES.append("attitude")
    for m in pkgutil.walk_packages(attitude.__path__, "attitude."):
        parts = m.name.split(".")
        if "__dustbin" in parts or any(q.startswith("test_") or q == "tests" for q in parts):
            continue
        try:
            importlib.import_module(m.name)
            MODULES.append(m.name)
        except Exception:
            pass
    after = host.global_state(), host.local_state(), host.contents()
    for a, b in zip(before, after):
        IMPORT_CHANGES.extend(host.changed(a, b))
    if host.random_state() != before[3]:
        IMPORT_CHANGES.append("random number generator")
    for n in ("cartopy.crs", "cartopy.feature", "shapely.geometry", "scipy.ndimage", "rasterio.features"):
        try:
            importlib.import_module(n)
        except Exception:
            pass

    seen = set()

    def codes(c):
        if c in seen:
            return
        seen.add(c)
        CODES.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                codes(k)
    fns = [o for o in gc.get_objects() if isinstance(o, types.FunctionType)
           and o.__code__.co_filename.startswith(PKG)]
    for f in sorted(fns, key=lambda f: (f.__code__.co_filename, f.__code__.co_firstlineno, f.__qualname__)):
        codes(f.__code__)
    gc.collect()
    gc.freeze()
