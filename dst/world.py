"""What a simulated run starts from: prepared axes, and seams set to harmless deterministic stand-ins."""
import hashlib
from .boot import SEAMS

AXES = []
NTHREADS = 3


def prepare():
    """In the zygote: figures outside pyplot, one set of axes per simulated thread."""
    if AXES:
        return
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    import mplstereonet  # noqa
    for t in range(NTHREADS + 1):
        d = {}
        for kind, proj in (("plain", None), ("polar", "polar"), ("stereo", "stereonet")):
            f = Figure()
            FigureCanvasAgg(f)
            d[kind] = f.add_subplot(111, projection=proj)
        AXES.append(d)


class Entropy:
    """Deterministic bytes: every request gets new ones; distinct `kernel` values model distinct processes."""

    def __init__(self, tag):
        self.tag, self.n = tag, 0

    def __call__(self, n):
        out = b""
        while len(out) < n:
            out += hashlib.sha256(("%s/%d" % (self.tag, self.n)).encode()).digest()
            self.n += 1
        return out[:n]


class Clock:
    def __init__(self, t=1.7e9, step=1e-3):
        self.t, self.step, self.reads = t, step, 0

    def __call__(self):
        self.reads += 1
        self.t += self.step
        return self.t


class Ctx:
    """Per-call context handed to catalogue operations."""
    __slots__ = ("t", "other")

    def __init__(self, t, other=None):
        self.t, self.other = t, other

    def ax(self, kind):
        return AXES[self.t][kind]


def fresh(tag):
    import random
    import numpy as N
    SEAMS.reset()
    SEAMS.entropy = Entropy(tag)
    SEAMS.clock = Clock()
    SEAMS.publish_hook = lambda data: None
    N.random.seed(int.from_bytes(SEAMS.entropy(4), "big"))
    random.seed(tag)
