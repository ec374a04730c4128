"""Elevation models: real rasterio datasets in memory behind a dataset object whose reads the plan can fail or stall."""
import math
import numpy as N
from .subjects import plane_vectors


def gen_raster(rng, planar=None):
    d = dict(seed=rng.randrange(1 << 30), h=rng.choice([4, 7, 12, 23]), w=rng.choice([4, 7, 12, 23]), px=rng.choice([1., 2., 30., .25]),
             x0=rng.choice([0., 100.5, -3000.25, 431234.5]), y0=rng.choice([0., 5000.75, -12.5, 4187654.25]), aspect=rng.choice([1, 1, 1.5]), rot=rng.choice([0, 0, 0, 30., -75.]),
             south=rng.random() < .2, dtype=rng.choice(["float64", "float64", "float32", "int16", "int32"]), nodata=rng.choice([-9999, -9999, "nan", None, "mask"]),
             miss=rng.choice([0, 0, .05, .3, .8]), blocks=rng.choice([None, None, 16]), zoff=rng.choice([0., -2000., 150.]))
    if d["dtype"][:3] == "int" and d["nodata"] == "nan":
        d["nodata"] = -9999
    if d["dtype"] == "int32":
        d["zoff"] = rng.choice([0., 100000001., -70000003.])       # e.g. millimetres or ten-thousandths
    if d["nodata"] is None and rng.random() < .5:
        d["miss"] = 0
    if planar is not None:
        d.update(dtype="float64", strike=rng.uniform(0, 360), dip=rng.choice([rng.uniform(1, 75)] * 4 + [rng.uniform(.05, 1)]), noise=planar, zoff=0.)
        d["h"], d["w"] = rng.choice([12, 23]), rng.choice([12, 23])
        d["nodata"] = rng.choice([-9999, -99999.5])
    return d


_cache = {}


def arrays(d):
    """-> transform (6-tuple), elevations (float, NaN = missing)."""
    from affine import Affine
    k = repr(sorted(d.items(), key=str))
    if k in _cache:
        return _cache[k]
    rs = N.random.RandomState(d["seed"])
    tr = Affine.translation(d["x0"], d["y0"]) * Affine.rotation(d["rot"]) * Affine.scale(d["px"], d["px"] * d["aspect"] * (1 if d["south"] else -1))
    c, r = N.meshgrid(N.arange(d["w"]) + .5, N.arange(d["h"]) + .5)
    x, y = tr.a * c + tr.b * r + tr.c, tr.d * c + tr.e * r + tr.f
    if "strike" in d:
        nm = plane_vectors(d["strike"], d["dip"])[2]
        z = -(nm[0] * (x - x.mean()) + nm[1] * (y - y.mean())) / nm[2] + d["noise"] * d["px"] * rs.randn(*x.shape)
    else:
        z = d["zoff"] + 100 * N.sin(x / 40 / d["px"]) + rs.uniform(0, 50, x.shape)
    if d["dtype"][:3] == "int":
        z = N.round(z)
    if d["dtype"] == "float32":
        z = z.astype("float32").astype(float)
    miss = rs.uniform(size=x.shape) < d["miss"]
    if d["dtype"][:3] == "int" and d["nodata"] is None:
        miss[:] = False
    z = N.where(miss, N.nan, z)
    if d.get("band") == 2:
        z = N.where(N.isnan(z) & (d["nodata"] in (None, "nan", "mask")), N.nan, 7.)
    _cache[k] = (tr, z, x, y)
    return _cache[k]


def open_real(d):
    from rasterio.io import MemoryFile
    tr, z, x, y = arrays(d)
    nd = d["nodata"]
    masked = nd == "mask"     # missing cells hold an ordinary number and are marked by the dataset's mask
    nd = N.nan if nd == "nan" else 11 if masked else nd
    a = N.where(N.isnan(z), N.nan if nd is None else nd, z)
    m = MemoryFile()
    assert "band" not in d
    kw = dict(driver="GTiff", height=d["h"], width=d["w"], count=2, dtype=d["dtype"], transform=tr)
    if nd is not None and not masked:
        kw["nodata"] = nd
    if d["blocks"]:
        kw.update(tiled=True, blockxsize=d["blocks"], blockysize=d["blocks"])
    with m.open(**kw) as ds:
        ds.write(a.astype(d["dtype"]), 1)
        ds.write((a * 0 + 7).astype(d["dtype"]), 2)
        if masked:
            ds.write_mask(~N.isnan(z))
    return m, m.open()


class SimDataset:
    """What the extraction helpers are given: the real dataset, every method call passing through the simulator."""

    def __init__(self, real, gate):
        self.__dict__["_real"], self.__dict__["_gate"] = real, gate

    def __getattr__(self, n):
        v = getattr(self._real, n)
        if callable(v) and not isinstance(v, type) and n not in ("transform", "shape"):
            gate = self._gate

            def call(*a, **k):
                gate(n)
                return v(*a, **k)
            return call
        return v


# ------------------------------------------------------------------ geometries, in fractions of the raster
def gen_geom(rng, line=None):
    line = rng.random() < .4 if line is None else line

    def pt(lo=-.1, hi=1.1):
        return [rng.uniform(lo, hi), rng.uniform(lo, hi)]
    if line:
        lo, hi = (.02, .98) if rng.random() < .75 else (-.3, 1.3)
        if rng.random() < .75:
            p = [pt(lo, hi) for _ in range(rng.choice([2, 2, 3, 6]))]
            if len(p) > 2 and rng.random() < .4:
                # walked back to its start, or over a point a second time
                p.append(list(p[0])) if rng.random() < .6 else p.insert(rng.randrange(1, 4), list(p[0]))
            return dict(g="line", p=p)
        return dict(g="multiline", p=[[pt(lo, hi) for _ in range(rng.choice([2, 3]))] for _ in range(rng.choice([2, 3]))])
    r = rng.random()

    def ring(cx, cy, rad, n):
        a0 = rng.uniform(0, 6)
        return [[cx + rad * rng.uniform(.6, 1) * math.cos(a0 + 2 * math.pi * i / n), cy + rad * rng.uniform(.6, 1) * math.sin(a0 + 2 * math.pi * i / n)]
                for i in range(n)]
    if r < .25:
        a, b = sorted([rng.uniform(-.2, 1.2), rng.uniform(-.2, 1.2)])
        c, e = sorted([rng.uniform(-.2, 1.2), rng.uniform(-.2, 1.2)])
        return dict(g="poly", p=[[a, c], [b, c], [b, e], [a, e]])
    if r < .3:
        return dict(g="poly", p=[[-.3, -.3], [1.3, -.3], [1.3, 1.3], [-.3, 1.3]])
    if r < .7:
        return dict(g="poly", p=ring(rng.uniform(.1, .9), rng.uniform(.1, .9), rng.uniform(.1, .6), rng.choice([3, 4, 5, 9])))
    if r < .85:
        cx, cy = rng.uniform(.3, .7), rng.uniform(.3, .7)
        if rng.random() < .4:
            return dict(g="poly", p=ring(cx, cy, .5, 6), holes=[ring(cx, cy, .15, 4)])
        holes = [ring(cx + q[0] * .16, cy + q[1] * .16, .1, rng.choice([3, 4, 5])) for q in rng.sample([(-1, -1), (1, -1), (-1, 1), (1, 1)], rng.choice([2, 2, 3]))]
        return dict(g="poly", p=[[cx + .45 * a, cy + .45 * b] for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))], holes=holes)
    if rng.random() < .6:
        return dict(g="multi", p=[ring(.25, .3, .22, 4), ring(.75, .7, .22, 5)])
    return dict(g="multi", p=[[[.02, .02], [.48, .02], [.48, .6], [.02, .6]], ring(.75, .7, .22, 5)] + ([ring(.8, .2, .15, 4)] if rng.random() < .5 else []),
                holes=[[ring(.2, .2, .1, 4)] + ([ring(.35, .45, .1, 4)] if rng.random() < .5 else []), [ring(.75, .7, .08, 3)]])


def make_geom(d, spec):
    from shapely.geometry import LineString, MultiLineString, MultiPolygon, Polygon
    tr = arrays(spec)[0]

    def t(p):
        c, r = p[0] * spec["w"], p[1] * spec["h"]
        return (tr.a * c + tr.b * r + tr.c, tr.d * c + tr.e * r + tr.f)
    if d["g"] == "line":
        return LineString([t(p) for p in d["p"]])
    if d["g"] == "multiline":
        return MultiLineString([[t(p) for p in l] for l in d["p"]])
    if d["g"] == "multi":
        hs = d.get("holes", [])
        return MultiPolygon([Polygon([t(p) for p in r], [[t(p) for p in h] for h in (hs[i] if i < len(hs) else [])]) for i, r in enumerate(d["p"])])
    return Polygon([t(p) for p in d["p"]], [[t(p) for p in h] for h in d.get("holes", [])])


# ------------------------------------------------------------------ what extraction must return
def inside(rings, x, y):
    """Even-odd point in polygon (vectorised) and the distance to the nearest edge."""
    hit = N.zeros(x.shape, bool)
    dist = N.full(x.shape, N.inf)
    for r in rings:
        for (x1, y1), (x2, y2) in zip(r, r[1:] + r[:1]):
            c = (y1 > y) != (y2 > y)
            with N.errstate(all="ignore"):
                hit ^= c & (x < (x2 - x1) * (y - y1) / (y2 - y1) + x1)
            L = (x2 - x1) ** 2 + (y2 - y1) ** 2
            u = N.clip(((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L, 0, 1) if L else 0 * x
            dist = N.minimum(dist, N.hypot(x - x1 - u * (x2 - x1), y - y1 - u * (y2 - y1)))
    return hit, dist


def model_area(d, spec):
    """-> must (rows x,y,z that have to be there), may (rows on the boundary that may or may not be)."""
    tr, z, x, y = arrays(spec)
    c, r = N.meshgrid(N.arange(spec["w"]) + .5, N.arange(spec["h"]) + .5)
    polys = d["p"] if d["g"] == "multi" else [d["p"]]
    hit, dist = N.zeros(c.shape, bool), N.full(c.shape, N.inf)
    hs = d.get("holes", [])
    hs = hs if d["g"] == "multi" else [hs]
    for i, p in enumerate(polys):
        rings = [[(q[0] * spec["w"], q[1] * spec["h"]) for q in ring] for ring in [p] + (hs[i] if i < len(hs) else [])]
        h, e = inside(rings, c, r)
        hit |= h
        dist = N.minimum(dist, e)
    ok = ~N.isnan(z)
    edge = dist < 1e-6
    f = lambda m: N.array([x[m], y[m], z[m]]).T
    return f(hit & ok & ~edge), f(ok & edge)


def model_line(d, spec):
    """-> rows that must be there, in order; rows whose fate is a matter of rounding are marked None."""
    tr, z, x, y = arrays(spec)
    pts = d["p"] if d["g"] == "line" else [q for l in d["p"] for q in l]
    out = []
    for p in pts:
        c, r = p[0] * spec["w"], p[1] * spec["h"]
        xy = (tr.a * c + tr.b * r + tr.c, tr.d * c + tr.e * r + tr.f)
        if min(abs(c), abs(r), abs(c - spec["w"]), abs(r - spec["h"])) < 1e-6:
            out.append((xy, None))
            continue
        if not (0 < c < spec["w"] and 0 < r < spec["h"]):
            continue
        i, j = min(max(r - .5, 0), spec["h"] - 1), min(max(c - .5, 0), spec["w"] - 1)
        i0, j0 = int(math.floor(i)), int(math.floor(j))
        i1, j1 = min(i0 + 1, spec["h"] - 1), min(j0 + 1, spec["w"] - 1)
        u, v = i - i0, j - j0
        near = min(u, 1 - u, v, 1 - v) < 1e-9 and (u or v)
        s = [z[i0, j0], z[i0, j1], z[i1, j0], z[i1, j1]]
        if N.isnan(s).any():
            w = [(1 - u) * (1 - v), (1 - u) * v, u * (1 - v), u * v]
            if any(N.isnan(q) and k > 1e-9 for q, k in zip(s, w)):
                continue
            out.append((xy, None))
            continue
        out.append((xy, s[0] * (1 - u) * (1 - v) + s[1] * (1 - u) * v + s[2] * u * (1 - v) + s[3] * u * v))
    return out


def compare(d, spec, got):
    """None if `got` is what extraction must return, else what is wrong."""
    got = N.asarray(N.ma.filled(got, N.nan) if N.ma.isMaskedArray(got) else got, dtype=float)
    if got.ndim != 2 or got.shape[1] != 3:
        return "result has shape %r" % (got.shape,)
    if N.isnan(got).any():
        return "result contains undefined coordinates"
    s = max(abs(spec["x0"]), abs(spec["y0"]), spec["px"] * 50, 1)
    tol = 1e-11 * s
    if d["g"] in ("line", "multiline"):
        want = model_line(d, spec)
        k = 0
        zt = 1e-6 * (1 + float(N.nanmax(N.abs(arrays(spec)[1])) if (~N.isnan(arrays(spec)[1])).any() else 0))
        if spec["dtype"] == "float32":
            zt *= 50      # interpolation weights and values in single precision
        for xy, z in want:
            hit = k < len(got) and abs(got[k, 0] - xy[0]) <= tol and abs(got[k, 1] - xy[1]) <= tol
            if z is None:
                k += bool(hit)
                continue
            if not hit:
                return "vertex %r is missing or displaced" % (xy,)
            if not abs(got[k, 2] - z) <= zt:
                return "vertex %r has elevation %r, interpolation gives %r" % (xy, got[k, 2], z)
            k += 1
        return "%d vertices too many" % (len(got) - k) if k < len(got) else None
    must, may = model_area(d, spec)

    def order(a):
        q = N.round(a / (spec["px"] * .01))
        return a[N.lexsort((q[:, 1], q[:, 0]))]
    g = order(got)
    m = order(must)
    if len(may):
        # boundary cells: drop those from the result that are listed as optional
        keep = [i for i in range(len(g)) if not (N.abs(may - g[i]) <= tol * 10 + 1e-6).all(axis=1).any()]
        g = g[keep]
    if len(g) != len(m):
        return "%d cells returned, %d valid cells lie inside" % (len(g), len(m))
    if len(m):
        if N.abs(g[:, :2] - m[:, :2]).max() > 1e-6 * spec["px"] + tol:
            return "returned locations are not the centers of the cells inside"
        if N.abs(g[:, 2] - m[:, 2]).max() > 0:
            return "returned elevations are not those of the cells (%g off)" % N.abs(g[:, 2] - m[:, 2]).max()
    return None
