"""Small independent reference models (numpy only; nothing from the package)."""
import numpy as N
from scipy.stats import f as _f


def plane_model(X, center=None):
    """Orientation, errors and size of the plane through points X, from first principles."""
    X = N.asarray(X, dtype=float)
    c = X - X.mean(axis=0)
    n = len(c)
    _, s, axes = N.linalg.svd(c, full_matrices=False)
    nm = axes[2] if axes[2, 2] >= 0 else -axes[2]
    dip = N.degrees(N.arccos(min(1, max(-1, nm[2]))))
    # the plane dips towards the horizontal part of its upward normal; strike is 90 degrees to the left of that
    strike = (N.degrees(N.arctan2(nm[0], nm[1])) - 90) % 360
    e = s ** 2 / (n - 1)
    err = _f.ppf(.95, 2, n - 2) * N.sqrt(4 * e * e[2] / (n - 2))
    hyp = N.abs(N.array([e[0] - err[0], e[1] - err[1], -e[2] - err[2]]))
    ang = N.degrees(N.arctan2(N.sqrt(hyp[2]), N.sqrt(hyp[:2])))
    dd = N.array([nm[0], nm[1], 0.])
    dd = dd / N.linalg.norm(dd) if N.linalg.norm(dd) > 0 else dd
    dipdir = N.array([dd[0] * nm[2], dd[1] * nm[2], -N.hypot(nm[0], nm[1])])
    rake = N.degrees(N.arccos(N.clip(dipdir @ axes[0], -1, 1)))
    return dict(normal=nm, axes=axes, s=s, n=n, dip=dip, strike=strike, hyp=hyp, min=ang[0], max=ang[1], rake=rake,
                center=X.mean(axis=0) if center is None else center)


def pooled(arrays, same):
    """A group's points: members taken as one plane, or each centered on its own mean."""
    allp = N.concatenate(arrays)
    X = allp if same else N.concatenate([a - a.mean(axis=0) for a in arrays])
    return plane_model(X, center=allp.mean(axis=0))


def angdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def record_diff(rec, m, tol=1e-5):
    """Compare an exported record with a model plane; None if they agree."""
    s, d = N.radians(rec["strike"]), N.radians(rec["dip"])
    nm = N.array([N.cos(s) * N.sin(d), -N.sin(s) * N.sin(d), N.cos(d)])
    off = N.degrees(N.arccos(min(1, abs(float(nm @ m["normal"])))))
    if not off < 1e-3:
        return "orientation %.4f/%.4f is %.4f degrees off the expected %.4f/%.4f" % (rec["strike"], rec["dip"], off, m["strike"], m["dip"])
    if not -1e-9 <= rec["strike"] <= 360 + 1e-9 or not -1e-9 <= rec["dip"] <= 90 + 1e-9:
        return "strike/dip %r/%r out of range" % (rec["strike"], rec["dip"])
    if m["dip"] > .5 and m["dip"] < 89.99 and angdiff(rec["strike"], m["strike"]) > .1:
        return "strike %.4f, expected %.4f" % (rec["strike"], m["strike"])
    for k, w in (("min_angular_error", m["min"]), ("max_angular_error", m["max"])):
        if not abs(rec[k] - w) <= 1e-6 + 1e-4 * abs(w):
            return "%s %r, expected %r" % (k, rec[k], w)
    h = N.array(rec["hyperbolic_axes"], dtype=float)
    if h.shape != (3,) or not N.allclose(h, m["hyp"], rtol=1e-4, atol=1e-7 * max(1, float(m["hyp"].max()))):
        return "hyperbolic axes %r, expected %r" % (h.tolist(), m["hyp"].tolist())
    ax = N.array(rec["axes"], dtype=float)
    gap = [m["s"][0] - m["s"][1], m["s"][1] - m["s"][2]]
    if min(gap) > 1e-3 * m["s"][0]:
        for i in range(3):
            if not abs(abs(float(ax[i] @ m["axes"][i])) - 1) < 1e-5:
                return "axis %d points elsewhere" % i
        if m["dip"] > 1 and min(abs(rec["rake"] - m["rake"]), abs(180 - rec["rake"] - m["rake"])) > .05:
            return "rake %.4f, expected %.4f" % (rec["rake"], m["rake"])
    c = rec.get("center")
    if c is not None and not N.allclose(c, m["center"], rtol=1e-11, atol=1e-6):
        return "center %r, expected %r" % (c, list(m["center"]))
    return None
