"""Canonical form of results, and comparison with a tolerance that only absorbs rounding."""
import numpy as N
import hashlib, json

RTOL, ATOL = 1e-6, 1e-8


def artist(a):
    d = {"type": type(a).__name__}
    for k, g in (("xy", "get_xy"), ("xydata", "get_xydata"), ("fc", "get_facecolor"), ("alpha", "get_alpha"),
                 ("z", "get_zorder"), ("text", "get_text")):
        f = getattr(a, g, None)
        if f is None:
            continue
        try:
            v = f()
        except Exception:
            continue
        if v is None or isinstance(v, str):
            d[k] = v
        else:
            d[k] = N.array(v, dtype=float)
    if hasattr(a, "get_path") and "xy" not in d and "xydata" not in d:
        try:
            d["path"] = N.array(a.get_path().vertices, dtype=float)
        except Exception:
            pass
    if hasattr(a, "get_paths"):
        try:
            d["paths"] = [N.array(p.vertices, dtype=float) for p in a.get_paths()]
        except Exception:
            pass
    return d


def axes_artists(ax):
    return [artist(a) for a in list(ax.lines) + list(ax.patches) + list(ax.collections) + list(ax.texts)]


def ring(r):
    """Ring without its closing points (whether shapely had to add one depends on the last bit)."""
    c = N.array(r.coords, dtype=float)
    s = 1e-7 * max(1.0, float(N.nanmax(N.abs(c))) if c.size else 1.0)
    while len(c) > 1 and N.all(N.abs(c[-1] - c[0]) <= s):
        c = c[:-1]
    return c


def canon(v):
    import matplotlib.figure, matplotlib.axes
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, bytes):
        return hashlib.sha1(v).hexdigest()
    if isinstance(v, (N.bool_,)):
        return bool(v)
    if isinstance(v, (int, N.integer)):
        return float(v)
    if isinstance(v, (float, N.floating)):
        return float(v)
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, N.ndarray):
        if v.dtype == object:
            return [canon(i) for i in v.tolist()]
        if v.dtype.kind == "c":
            return [N.array(v.real, dtype=float), N.array(v.imag, dtype=float)]
        return N.array(v, dtype=float)
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        if len(v) and all(isinstance(i, (int, float, N.floating, N.integer)) and not isinstance(i, bool) for i in v):
            return N.array(v, dtype=float)
        if len(v) > 8 and all(isinstance(i, (list, tuple)) for i in v):
            try:
                return N.array(v, dtype=float)
            except Exception:
                pass
        return [canon(i) for i in v]
    if isinstance(v, matplotlib.figure.Figure):
        return {"figure": [axes_artists(a) for a in v.axes]}
    if isinstance(v, matplotlib.axes.Axes):
        return {"axes": axes_artists(v)}
    if hasattr(v, "geometries") and callable(v.geometries):
        return {"feature": [canon(g) for g in v.geometries()]}
    if hasattr(v, "geom_type"):
        from shapely.geometry import mapping
        if v.geom_type == "Polygon":
            return {"polygon": [ring(v.exterior)] + [ring(i) for i in v.interiors]}
        return canon(mapping(v))
    return "<%s>" % type(v).__name__


def _close(x, y):
    if x == y:
        return True
    if x != x and y != y:
        return True
    d = abs(x - y)
    return d <= ATOL + RTOL * max(abs(x), abs(y)) or abs(d - 360) <= 1e-6


def diff(a, b, path=""):
    """None when equal, else a description of the first difference."""
    if isinstance(a, N.ndarray) or isinstance(b, N.ndarray):
        try:
            a, b = N.asarray(a, dtype=float), N.asarray(b, dtype=float)
        except Exception:
            return "%s: %s vs %s" % (path, short(a), short(b))
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.size == 0:
            return None
        scale = N.nanmax(N.abs(N.where(N.isfinite(b), b, 0)))
        with N.errstate(all="ignore"):
            ad = N.abs(a - b)
            # an angle at the branch cut may come out a full turn apart, depending on the last bit
            wrap = (N.abs(ad - 360) <= 1e-6) | (N.abs(ad - 2 * N.pi) <= 1e-8)
            bad = ~(wrap | (a == b) | (N.isnan(a) & N.isnan(b)) | (N.abs(a - b) <= ATOL + RTOL * N.maximum(N.abs(a), N.abs(b)) + 1e-10 * scale))
        if bad.any():
            i = tuple(int(k) for k in N.argwhere(bad)[0])
            return "%s%s: %r vs %r" % (path, list(i), float(a[i]), float(b[i]))
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return "%s: keys %s vs %s" % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in a:
            d = diff(a[k], b[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if _close(a, b) else "%s: %r vs %r" % (path, a, b)
    if type(a) is type(b) and a == b:
        return None
    return "%s: %s vs %s" % (path, short(a), short(b))


def short(v, n=120):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def digest(v):
    """Digest of the structure of a canonical value and its numbers to about 4 digits (insensitive to rounding noise)."""
    h = hashlib.sha1()

    def nums(x):
        x = N.asarray(x, dtype=float)
        f = x[N.isfinite(x)]
        s = float(N.max(N.abs(f))) if f.size else 1.0
        q = N.where(N.isfinite(x), N.floor(N.where(N.isfinite(x), x, 0) / (s or 1.0) * 1e4 + .37), -99999)
        h.update(repr((x.shape, q.ravel().astype(int).tolist())).encode())

    def walk(x):
        if isinstance(x, N.ndarray):
            nums(x)
        elif isinstance(x, dict):
            for k in sorted(x):
                h.update(k.encode())
                walk(x[k])
        elif isinstance(x, list):
            for q in x:
                walk(q)
        elif isinstance(x, float):
            h.update(("%.4g" % x).encode())
        else:
            h.update(repr(x).encode())
    walk(v)
    return h.hexdigest()[:12]
