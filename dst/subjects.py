"""Plane specifications (plain JSON) and how to build the real objects from them."""
import math
import numpy as N


def gen_data(rng, n=None, grid=None):
    n = n or rng.choice([4, 5, 6, 8, 12, 16, 16, 32, 50, 120])
    d = _gen_data(rng, n, grid)
    if rng.random() < .15:      # map coordinates (metres in a projected system)
        d["off"] = [rng.randrange(200000, 800000), rng.randrange(1000000, 5000000), rng.randrange(-50, 3000)]
        d["noise"] = max(d["noise"], .3)
    if rng.random() < .08:      # points digitised twice
        d["dup"] = rng.choice([1, 2, 4])
    return d


def _gen_data(rng, n, grid):
    return dict(seed=rng.randrange(1 << 30), n=n, strike=rng.choice([0, 90, 180, 270, rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(0, 360)]),
                dip=rng.choice([rng.uniform(0.5, 10), rng.uniform(1, 89), rng.uniform(1, 89), 45, rng.uniform(80, 89.5)]),
                len=[rng.choice([5, 20, 100, 1000]), rng.choice([2, 10, 60])],
                noise=rng.choice([0.01, 0.3, 1, 3]),
                off=[rng.randrange(-500, 5000), rng.randrange(-500, 5000), rng.randrange(-50, 2000)],
                grid=rng.random() < .3 if grid is None else grid)


def plane_vectors(strike, dip):
    """Strike direction, down-dip direction and upward normal (x east, y north, z up; right-hand rule)."""
    s, d = math.radians(strike), math.radians(dip)
    sv = N.array([math.sin(s), math.cos(s), 0])
    dd = N.array([math.cos(s) * math.cos(d), -math.sin(s) * math.cos(d), -math.sin(d)])
    nm = N.array([math.cos(s) * math.sin(d), -math.sin(s) * math.sin(d), math.cos(d)])
    return sv, dd, nm


_cache = {}


def make_data(spec):
    key = repr(sorted(spec.items()))
    if key in _cache:
        return _cache[key].copy()
    if spec.get("sym"):         # exactly horizontal, axes exactly those of the coordinate system
        nx, ny, h, step = spec["sym"]
        i, j = [q.ravel() for q in N.meshgrid(N.arange(-nx, nx + 1), N.arange(-ny, ny + 1))]
        p = N.array([i * step, j * 1., h * (-1.) ** (i + j)]).T
        p = p - N.array([0, 0, p[:, 2].mean()]) if h != int(h) else p
        return p + N.array(spec["off"], dtype=float)
    n = spec["n"]
    sv, dd, nm = plane_vectors(spec["strike"], spec["dip"])
    for k in range(20):
        rs = N.random.RandomState(spec["seed"] + k * 7919)
        a = rs.randn(n, 3) * N.array([spec["len"][0], spec["len"][1], spec["noise"]])
        th = rs.uniform(0, N.pi)
        u = N.cos(th) * sv + N.sin(th) * dd
        v = -N.sin(th) * sv + N.cos(th) * dd
        p = a[:, :1] * u + a[:, 1:2] * v + a[:, 2:] * nm
        if spec["grid"]:
            p = N.round(p * 8) / 8
        s = N.linalg.svd(p - p.mean(axis=0), compute_uv=False)
        if s[2] > 1e-7 * s[0] and s[2] > 1e-4:
            break     # numerically degenerate planes only amplify rounding noise
    p = p + N.array(spec["off"], dtype=float)
    if spec.get("with"):        # shares its first points with another measurement
        o = make_data(spec["with"][0])[:spec["with"][1]]
        p[:len(o)] = o[:len(p)]
    if spec.get("dup"):
        p = N.concatenate([p, p[:spec["dup"]]])
    if spec.get("shift"):
        p = p + N.array(spec["shift"], dtype=float)
    if spec.get("mirror"):
        p = p * N.array(spec["mirror"], dtype=float)
    if spec.get("twice"):       # every point twice, scaled so that the variances along the axes stay the same
        c = p.mean(axis=0)
        p = c + (N.concatenate([p, p]) - c) * N.sqrt((2 * len(p) - 1) / (2. * (len(p) - 1)))
    _cache[key] = p
    return p.copy()


def gen_subject(rng, kinds=None):
    s = _gen_subject(rng, kinds)
    if s["kind"] not in ("linear", "regr") and rng.random() < .12:
        s["disabled"] = True
    if s["kind"] not in ("linear", "regr", "recon") and rng.random() < .08:
        s["method"] = "sampling"
    if s["kind"] in ("pca", "weighted") and rng.random() < .02:
        s["data"].update(n=10007, grid=False)      # more points than the plots draw
    elif s["kind"] in ("pca", "weighted", "saved") and rng.random() < (.25 if s["kind"] == "saved" and not s.get("weights") else .05):
        nx, ny = rng.choice([(3, 1), (4, 2), (2, 1)])
        s["data"].update(sym=[nx, ny, rng.choice([.25, .5]), rng.choice([2, 4])], n=(2 * nx + 1) * (2 * ny + 1),
                         off=rng.choice([[0, 0, 0], [512, -256, 128]]))
    return s


def _gen_subject(rng, kinds):
    kind = rng.choice(kinds or ["pca", "pca", "pca", "pca", "saved", "linear", "regr", "recon", "group", "weighted"])
    if kind == "recon":
        return dict(kind=kind, args=[rng.uniform(0, 360), rng.uniform(1, 89), rng.uniform(0, 180),
                                     rng.uniform(.2, 5), rng.uniform(5, 20)])
    if kind == "group":
        return dict(kind=kind, data=[gen_data(rng) for _ in range(rng.choice([2, 3]))], same=rng.random() < .4)
    d = gen_data(rng)
    if kind == "saved" and rng.random() < .35:
        return dict(kind=kind, data=d, weights=[rng.choice([1, 1, 2]), rng.choice([1, 4, .5]), rng.choice([1, 3, .2])])
    if kind == "weighted":
        return dict(kind=kind, data=d, weights=[rng.choice([1, 1, 2]), rng.choice([1, 2, .5]), rng.choice([1, 3])])
    return dict(kind=kind, data=d)


def layout(a, how):
    if how == "F":
        return N.asfortranarray(a)
    if how == "view":
        b = N.zeros((len(a), 5))
        b[:, 1:4] = a
        return b[:, 1:4]
    if how == "strided":
        return N.repeat(a, 2, axis=0)[::2]
    return a


def build(spec, keep=None):
    """The real object; `keep` collects the caller-side buffers it was made from."""
    o = _build(spec, keep)
    if spec.get("disabled"):
        o.disabled = True       # what a user does to hide a measurement
    if spec.get("method"):
        from attitude.error.axes import sampling_axes
        o.method = sampling_axes
    return o


def _build(spec, keep):
    from attitude import Orientation, ReconstructedPlane
    from attitude.orientation.linear import LinearOrientation, Regression
    from attitude.orientation.grouped import GroupedOrientation
    k = spec["kind"]
    keep = [] if keep is None else keep

    def data(d):
        a = layout(make_data(d), spec.get("layout"))
        keep.append(a)
        return a
    if k == "pca":
        return Orientation(data(spec["data"]))
    if k == "weighted":
        w = N.array(spec["weights"], dtype=float)
        keep.append(w)
        return Orientation(data(spec["data"]), weights=w)
    if k == "saved":
        a = data(spec["data"])
        w = N.array(spec["weights"], dtype=float) if spec.get("weights") else None
        ax = N.array(Orientation(a.copy(), weights=w).principal_axes)
        if spec["data"].get("sym"):
            ax = abs(ax)
        keep.append(ax)
        return Orientation(a, axes=ax)
    if k == "linear":
        return LinearOrientation(data(spec["data"]))
    if k == "regr":
        return Regression(data(spec["data"]))
    if k == "recon":
        return ReconstructedPlane(*spec["args"])
    if k == "group":
        return GroupedOrientation(*[Orientation(data(d)) for d in spec["data"]], same_plane=spec["same"])
    raise ValueError(k)
