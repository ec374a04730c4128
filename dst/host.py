"""What belongs to the program that uses the package: process-wide settings and shared resources."""
import gc, os, random, sys, threading


def local_state():
    """Settings that numpy and decimal keep per thread."""
    import decimal
    import numpy as N
    from scipy import special
    c = decimal.getcontext()
    return {"numpy error handling": N.geterr(), "numpy error callback": id(N.geterrcall()), "decimal context": (c.prec, c.rounding, repr(c.traps)),
            "numpy buffer size": N.getbufsize(), "scipy.special error handling": special.geterr()}


WATCH_MODULES = ("numpy", "numpy.linalg", "numpy.random", "numpy.ma", "scipy.linalg", "scipy.stats", "math", "json", "os", "os.path", "builtins", "warnings",
                 "logging", "copy", "pickle", "hashlib", "uuid", "itertools", "functools", "matplotlib", "matplotlib.pyplot", "matplotlib.patches",
                 "matplotlib.path", "shapely.geometry", "rasterio", "rasterio.features", "random", "time", "threading", "IPython.display", "mplstereonet",
                 "uncertainties", "cartopy.crs")
WATCH_CLASSES = (("json", "JSONEncoder"), ("json", "JSONDecoder"), ("matplotlib.axes", "Axes"), ("matplotlib.figure", "Figure"),
                 ("matplotlib.patches", "Polygon"), ("matplotlib.artist", "Artist"), ("numpy.ma", "MaskedArray"),
                 ("shapely.geometry", "Polygon"), ("shapely.geometry", "LineString"))


def contents():
    """Identity of everything in the namespaces of the libraries the host uses too."""
    import types
    out = {}
    for m in WATCH_MODULES:
        mod = sys.modules.get(m)
        if mod is not None:
            out[m] = {k: id(v) for k, v in list(vars(mod).items()) if not k.startswith("_") and not isinstance(v, types.ModuleType)
                      and isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, float, str))}
    for m, c in WATCH_CLASSES:
        mod = sys.modules.get(m)
        cls = getattr(mod, c, None)
        if cls is not None:
            out[m + "." + c] = {k: id(v) for k, v in list(vars(cls).items()) if isinstance(v, (types.FunctionType, property, classmethod, staticmethod))
                                or not k.startswith("_")}
    return out


def global_state():
    import locale, logging, signal, tempfile, warnings
    import matplotlib, numpy as N
    import matplotlib.pyplot as plt
    r = logging.getLogger()
    mask = os.umask(0o22)
    os.umask(mask)
    d = {"matplotlib settings": {k: repr(v) for k, v in matplotlib.rcParams.items()},
         "matplotlib backend": matplotlib.get_backend(), "pyplot interactive mode": matplotlib.is_interactive(),
         "matplotlib projections": sorted(matplotlib.projections.get_projection_names()), "colormaps": sorted(matplotlib.colormaps),
         "warning filters": [repr(f) for f in warnings.filters], "warning display": id(warnings.showwarning),
         "numpy print options": {k: repr(v) for k, v in N.get_printoptions().items()},
         "root logger": (r.level, [id(h) for h in r.handlers], r.disabled, logging.root.manager.disable, id(logging.getLoggerClass()), logging.raiseExceptions),
         "other loggers": {n: (l.level, l.disabled, l.propagate, len(l.handlers)) for n, l in logging.root.manager.loggerDict.items()
                           if isinstance(l, logging.Logger) and n.split(".")[0] in ("numpy", "matplotlib", "rasterio", "shapely", "host", "py", "asyncio")},
         "environment": dict(os.environ), "working directory": os.getcwd(), "umask": mask, "temporary directory": tempfile.tempdir,
         "import path": list(sys.path), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
         "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "hooks": [id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)],
         "tracing": [id(sys.gettrace()), id(sys.getprofile())],
         "locale": locale.setlocale(locale.LC_ALL), "signal handlers": {s: id(signal.getsignal(s)) for s in (2, 15, 10, 12, 14)},
         "garbage collector": (gc.isenabled(), gc.get_threshold()), "atexit": None}
    try:
        from rasterio.env import hasenv, getenv
        d["rasterio environment"] = repr(sorted(getenv().items())) if hasenv() else None
    except Exception:
        pass
    try:
        from IPython import get_ipython
        sh = get_ipython()
        d["notebook"] = [id(sh), id(sh.display_pub), id(sh.display_formatter), sorted(map(repr, sh.display_formatter.formatters["text/html"].type_printers)),
                         len(sh.events.callbacks.get("post_run_cell", ())), sorted(sh.user_ns)[:200]]
    except Exception:
        pass
    return d


def random_state():
    import numpy as N
    a = N.random.get_state()
    return (a[0], a[1].tobytes(), a[2], a[3], a[4]), random.getstate()


def resources():
    fds = []
    for n in os.listdir("/proc/self/fd"):
        try:
            fds.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    kids = []
    for t in os.listdir("/proc/self/task"):
        try:
            with open("/proc/self/task/%s/children" % t) as f:
                kids += f.read().split()
        except OSError:
            pass
    return dict(files=sorted(x for x in fds if "/proc/" not in x[1] and not x[1].startswith((sys.prefix, "/usr/"))), threads=len(threading.enumerate()), children=sorted(kids))


def changed(a, b, prefix=""):
    """The names of settings of `a` that are different in `b`."""
    out = []
    for k in a:
        if k not in b:
            out.append("%s%s (gone)" % (prefix, k))
        elif a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict) and len(prefix) < 80:
                sub = changed(a[k], b[k], prefix + str(k) + ": ")
                if k in ("environment", "matplotlib settings", "numpy print options"):
                    sub += ["%s%s: %s (new)" % (prefix, k, x) for x in b[k] if x not in a[k]]
                out += sub
            else:
                out.append(prefix + str(k))
    return out


def watcher():
    """A cheap predicate: is a setting of the host different from what it was when this was called?"""
    import logging, signal, warnings
    import matplotlib, numpy as N
    rc = matplotlib.rcParams
    last = [False]

    def cheap():
        return (N.geterr(), len(warnings.filters), id(warnings.filters), os.getcwd(), logging.root.level, len(logging.root.handlers), len(os.environ),
                sys.getrecursionlimit(), matplotlib.is_interactive(), id(signal.getsignal(2)), gc.isenabled())

    def dear():
        return [id(v) for v in dict.values(rc)], repr(N.get_printoptions()), len(os.listdir("/proc/self/fd"))
    a, b = cheap(), dear()

    def differs(ev):
        if cheap() != a:
            return True
        if ev % 6 == 0:
            last[0] = dear() != b
        return last[0]
    return differs
