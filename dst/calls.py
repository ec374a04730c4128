"""Calls that take caller-owned data: CALLS[name] = (make(rs) -> args, call(args, ctx)).

Every array, list or dict in args belongs to the caller and must come back unchanged.
"""
import numpy as N
from . import subjects

CALLS = {}


class CallerModified(Exception):
    pass


def call(name, make):
    def d(fn):
        CALLS[name] = (make, fn)
        return fn
    return d


def _rot(rs, flip=None):
    q, _ = N.linalg.qr(rs.randn(3, 3))
    if flip if flip is not None else rs.rand() < .6:
        if q[2, 2] > 0:
            q = -q
    return N.ascontiguousarray(q) if rs.rand() < .7 else N.asfortranarray(q)


def _cov(rs):
    d = N.sort(rs.uniform(.1, 50, 3))[::-1]
    return N.diag(d)


def _hyp(rs):
    return N.sort(rs.uniform(.1, 50, 3))[::-1].copy()


def _coords(rs, n=None):
    n = n or rs.choice([4, 8, 20])
    a = rs.randn(n, 3) * N.array([50, 20, 1]) @ _rot(rs) + rs.uniform(-500, 500, 3)
    k = rs.randint(5)
    if k == 0:
        return N.asfortranarray(a)
    if k == 1:
        big = N.zeros((n, 5))
        big[:, 1:4] = a
        return big[:, 1:4]
    if k == 2:
        return N.repeat(a, 2, axis=0)[::2]
    return a


def _opts(rs, *choices):
    return dict(choices[rs.randint(len(choices))])


# ---- fitting
@call("Orientation", lambda rs: [_coords(rs)])
def _(a, c):
    from attitude import Orientation
    o = Orientation(a[0])
    return [o.to_mapping(), o.residuals()]


@call("Orientation.list-ops", lambda rs: [_coords(rs)])
def _(a, c):
    from attitude import Orientation
    o = Orientation(a[0])
    return [o.rotated(), o.plane_errors(n=4), o.as_conic(), o.covariance_matrix]


@call("Orientation.weights", lambda rs: [_coords(rs), rs.uniform(.5, 3, 3)])
def _(a, c):
    from attitude import Orientation
    return Orientation(a[0], weights=a[1]).to_mapping()


@call("Orientation.axes", lambda rs: [_coords(rs), _rot(rs) * rs.uniform(1, 9, 3)])
def _(a, c):
    from attitude import Orientation
    o = Orientation(a[0], axes=a[1])
    return [o.to_mapping(), o.U]


@call("Regression", lambda rs: [_coords(rs)])
def _(a, c):
    from attitude.orientation.linear import Regression, LinearOrientation
    r = Regression(a[0])
    return [r.coefficients, r.residuals, r.covariance_matrix, LinearOrientation(a[0]).strike_dip()]


@call("Regression.rows", lambda rs: [tuple(_coords(rs, 8).T)])
def _(a, c):
    from attitude.orientation.linear import Regression
    return Regression(a[0]).covariance_matrix


@call("Orientation.short", lambda rs: [rs.randn(2, 3)])
def _(a, c):
    from attitude import Orientation
    return Orientation(a[0]).to_mapping()


@call("ReconstructedPlane", lambda rs: [[rs.uniform(0, 360), rs.uniform(1, 89), rs.uniform(0, 180)], N.array([1., 8.])])
def _(a, c):
    from attitude import ReconstructedPlane
    return ReconstructedPlane(*a[0], *a[1]).to_mapping()


@call("centered", lambda rs: [_coords(rs)])
def _(a, c):
    from attitude import centered
    return centered(a[0])


@call("coordinates", lambda rs: [_coords(rs).T, rs.randn(3), rs.randn(3)])
def _(a, c):
    from attitude.coordinates import spherical, cartesian
    from attitude.coordinates.rotations import transform
    return [spherical(a[0]), cartesian(a[0]), transform(a[1], a[2])]


# ---- grouping
def _mk_groups(rs):
    k = rs.randint(3, 6)
    idx = list(rs.permutation(k))
    lists = [[int(idx.pop()) for _ in range(2)]]
    if len(idx) > 1 and rs.rand() < .5:
        lists.append([int(i) for i in idx])
    bad = rs.rand()
    if bad < .15:
        lists[-1].insert(rs.randint(3), "ffffffff")
    elif bad < .3:
        lists.append([lists[0][0]])
    return [[_coords(rs, rs.choice([4, 8])) for _ in range(k)], lists, dict(same_plane=bool(rs.randint(2))), rs.randint(3)]


@call("create_groups", _mk_groups)
def _(a, c):
    from attitude import Orientation, create_groups
    coll = [Orientation(x) for x in a[0]]
    if a[3] == 1:
        coll = tuple(coll)
    before = list(coll)
    uids = [[coll[i].hash if isinstance(i, int) else i for i in l] for l in a[1]]
    keep = [list(u) for u in uids]
    attrs = [dict(vars(o)) for o in coll]
    try:
        out = create_groups(coll, *uids, **a[2])
    finally:
        if len(coll) != len(before) or any(x is not y for x, y in zip(coll, before)):
            raise CallerModified("group list was modified")
        if uids != keep:
            raise CallerModified("uid lists were modified")
        for o, d in zip(coll, attrs):
            if o.member_of is not d["member_of"] or o.disabled != d["disabled"] or not N.array_equal(o.array, d["array"]):
                raise CallerModified("a measurement in the caller's list was modified")
    return [o.to_mapping() for o in out]


@call("create_groups.uidtuple", lambda rs: [[_coords(rs, 6) for _ in range(4)], [int(i) for i in rs.permutation(4)[:3]]])
def _(a, c):
    from attitude import Orientation, create_groups
    coll = [Orientation(x) for x in a[0]]
    uids = tuple(coll[i].hash for i in a[1])
    return [o.to_mapping() for o in create_groups(coll, uids)]


@call("GroupedOrientation", lambda rs: [[_coords(rs), _coords(rs)], dict(same_plane=bool(rs.randint(2)))])
def _(a, c):
    from attitude import Orientation
    from attitude.orientation.grouped import GroupedOrientation
    return GroupedOrientation(*[Orientation(x) for x in a[0]], **a[1]).to_mapping()


# ---- error surfaces
for _n, _o in dict(plane_errors=[{}, dict(sheet="lower"), dict(traditional_layout=False), dict(level=2), dict(sheet="nominal")],
                   normal_errors=[{}, dict(traditional_layout=False), dict(level=2)],
                   iterative_normal_errors=[{}, dict(traditional_layout=False)],
                   iterative_plane_errors=[{}, dict(sheet="lower")],
                   error_coords=[{}, dict(levels=[1, 2]), dict(ellipse=False), dict(traditional_layout=False)],
                   error_ellipse=[{}, dict(level=2)]).items():
    def _f(a, c, n=_n):
        from attitude import stereonet
        return getattr(stereonet, n)(a[0], a[1], **a[2])
    CALLS["st." + _n] = (lambda rs, o=_o: [_rot(rs), _cov(rs), dict(_opts(rs, *o), n=5)], _f)


def _odd(rs):
    """Error axes as they come out of degenerate data: zero, negative, huge or undefined."""
    return N.array([rs.choice([4., 0., 1e300, 9.]), rs.choice([2., 0., -1., 1e-300]), rs.choice([-1., 0., N.nan, N.inf, -1.])])


@call("angular_errors.odd", lambda rs: [_odd(rs)])
def _(a, c):
    from attitude.stereonet import scale_errors
    from attitude.error.axes import angular_errors, axis_angular_error, apply_error_scaling
    return [angular_errors(a[0]), axis_angular_error(a[0], 0.), scale_errors(a[0])]


@call("degenerate", lambda rs: [N.outer(N.linspace(-5, 5, 6), rs.randn(3)) if rs.rand() < .5 else N.ones((5, 3)) * rs.randn(3)])
def _(a, c):
    from attitude import Orientation
    from attitude.error import axes as A
    o = Orientation(a[0])
    o.to_mapping()
    for f in ("noise_axes", "sampling_axes", "jolliffe_axes", "francq_axes", "babamoradi_axes", "regression_axes"):
        try:
            getattr(A, f)(o)
        except N.linalg.LinAlgError:
            pass
    return None


@call("scale_errors", lambda rs: [_hyp(rs)])
def _(a, c):
    from attitude.stereonet import scale_errors
    from attitude.error import to_normal_errors, from_normal_errors
    from attitude.error.axes import angular_errors, axis_angular_error
    return [scale_errors(a[0]), to_normal_errors(a[0]), from_normal_errors(a[0]), angular_errors(a[0]), axis_angular_error(a[0], 3.)]


def _mk_he(rs):
    kw = {}
    if rs.rand() < .6:
        kw["transformation"] = _rot(rs)
    if rs.rand() < .7:
        q = _rot(rs)
        kw["axes"] = N.ascontiguousarray(q[:2])
    if rs.rand() < .5:
        kw["means"] = rs.randn(2)
    return [_hyp(rs), N.linspace(-5, 5, 6), kw]


@call("hyperbolic_errors", _mk_he)
def _(a, c):
    from attitude.display.hyperbola import hyperbolic_errors
    return hyperbolic_errors(a[0], a[1], **a[2])


@call("hyperbolic_errors.reverse", lambda rs: (lambda m: [m[0], m[1], dict(m[2], reverse=True)])(_mk_he(rs)))
def _(a, c):
    from attitude.display.hyperbola import hyperbolic_errors
    return hyperbolic_errors(a[0], a[1], **a[2])


@call("hyperbolic_errors_parametric", _mk_he)
def _(a, c):
    from attitude.display.hyperbola import hyperbolic_errors_parametric
    return hyperbolic_errors_parametric(a[0], a[1], **a[2])


@call("hyperbola_values", lambda rs: [_hyp(rs)[:2].copy(), N.linspace(-4, 4, 5), _rot(rs)[:2].copy()])
def _(a, c):
    from attitude.display.hyperbola import hyperbola_values, apparent_dip_correction
    return [hyperbola_values(a[0], a[1]), apparent_dip_correction(a[2])]


@call("HyperbolicErrors", lambda rs: [_mk_he(rs), _mk_he(rs), dict(fc="red", alpha=.5)])
def _(a, c):
    from attitude.display import HyperbolicErrors
    from .ops import drawn
    ax = c.ax("plain")

    def go():
        h = HyperbolicErrors(a[0][0], a[0][1], **a[0][2])
        h.plot(ax, **a[2])
        h.plot_nominal(ax)
        h.update_data(a[1][0], a[1][1], **a[1][2])
    return drawn(ax, go)


# ---- conics
def _mk_conic(rs):
    m = _cov(rs)
    out = N.identity(4)
    q = _rot(rs)
    out[:3, :3] = q @ N.diag(1 / N.diag(m)) @ q.T
    out[3, 3] = -1
    return out


@call("conic", lambda rs: [_mk_conic(rs), rs.uniform(60, 90, 3), rs.randn(3), _hyp(rs)])
def _(a, c):
    from attitude.geom.conics import conic, Conic
    from attitude.geom.util import plane
    k = conic(a[0]).translate(a[1])
    p = plane(a[2], 1.5)
    return [k, k.dual(), k.center(), k.polar_plane(a[2]), k.contains(a[2]), Conic.from_axes(a[3]), Conic.from_semiaxes(a[3]),
            k.slice(p)[0], k.pole(k.polar_plane(a[2]))]


@call("conic.view", lambda rs: [_mk_conic(rs), rs.randn(3), _rot(rs), rs.uniform(60, 90, 3)])
def _(a, c):
    from attitude.geom.conics import Conic
    from attitude.geom.util import plane, augment_tensor
    k = a[0].view(Conic)
    p = plane(a[1])
    t = k.translate(a[3])
    return [k.transform(augment_tensor(a[2])), k.slice(p, axes=a[2][:2])[0], k.dual(), k.semiaxes(), k.major_axes(), k.is_elliptical(),
            t.projection()[0], t.angle_subtended(), t.angle_subtended(tangent=True), k.solve(N.append(a[1], 1)), k.contains(a[1], shell_only=True),
            t.projection(viewpoint=-a[3])[0]]


@call("geom.util", lambda rs: [rs.randn(3), rs.randn(3), rs.randn(3, 3)])
def _(a, c):
    from attitude.geom import util as u
    p = u.plane(a[0], 2.)
    return [u.angle(a[0], a[1]), u.unit_vector(a[0]), u.augment(a[0]), u.augment_tensor(a[2]), u.perpendicular_vector(a[1]), u.column(a[0]),
            p.hessian_normal(), p.offset(), p.normal(), u.dot(a[2], a[0])]


# ---- plotting
@call("parametric", lambda rs: [N.array([3., 2.]) * rs.uniform(.5, 2), rs.randn(2)])
def _(a, c):
    from attitude.display.parametric import hyperbola, ellipse
    return [hyperbola(a[0], center=a[1], n=7), ellipse(a[0], center=a[1], n=5), hyperbola(a[0], n=5, opens_up=False), ellipse(a[0], n=4)]


@call("plot_conjugate_conics", lambda rs: [N.array([3., 2.]) * rs.uniform(.5, 2)])
def _(a, c):
    from attitude.display.parametric import plot_conjugate_conics
    from .ops import drawn
    ax = c.ax("plain")
    return drawn(ax, lambda: plot_conjugate_conics(ax, a[0], plot_foci=True))


@call("ErrorShell", lambda rs: [_rot(rs), _cov(rs)])
def _(a, c):
    from attitude.orientation.reconstructed import ErrorShell
    s = ErrorShell(a[0], a[1])
    return [s.cartopy_normal(), s.cartopy_girdle()]


@call("shell.draw", lambda rs: [_rot(rs), _cov(rs), dict(facecolor="red")])
def _(a, c):
    from attitude.orientation.reconstructed import ErrorShell
    from attitude.display import girdle_error, pole_error
    from attitude.display import polar
    from .ops import drawn
    s = ErrorShell(a[0], a[1])
    ax, px = c.ax("stereo"), c.ax("polar")
    return [drawn(ax, lambda: girdle_error(ax, s, **a[2])), drawn(ax, lambda: pole_error(ax, s, **a[2])),
            drawn(px, lambda: polar.pole_error(px, s, **a[2]))]


@call("cov_types", lambda rs: [_hyp(rs)[:2].copy(), N.linalg.qr(rs.randn(2, 2))[0], rs.randn(2), N.linspace(-3, 3, 5), rs.randn(20), rs.randn(20, 3)])
def _(a, c):
    from attitude.display.plot.cov_types import hyperbola, ci, augment
    return [hyperbola(a[0], a[1], a[2], a[3]), ci(a[4]), ci(a[5], axis=0), augment(a[4])]


@call("error.ellipse", lambda rs: [rs.randn(2), _cov(rs)[:2, :2].copy()])
def _(a, c):
    from attitude.error.ellipse import ellipse
    from attitude.orientation.base import ellipse as e2
    return [ellipse(tuple(a[0]), a[1], n=5), e2(tuple(a[0]), a[1], level=2, n=5)]


@call("bootstrap", lambda rs: [rs.randn(6, 3), rs.randn(6, 3)])
def _(a, c):
    from attitude.display.plot.cov_types.regressions import bootstrap_resampled, bootstrap_noise

    def stat(x):
        x *= 2
        return 1.0
    return [bootstrap_resampled(a[0], stat, n=3), bootstrap_noise(a[1], stat, n=3), bootstrap_noise(a[0], stat, n=2, symmetric=False)]


# ---- exports
def _rec1(rs):
    """A record as users write them: any subset of the usual keys, some of their own."""
    full = dict(uid="u%d" % rs.randint(99), strike=rs.uniform(0, 360), dip=rs.uniform(0, 90), rake=10., color="red", disabled=False, member_of=None,
                axes=[[1., 0, 0], [0, 1., 0], [0, 0, 1.]], hyperbolic_axes=[3., 2., .1], center=[1., 2., 3.], min_angular_error=1., max_angular_error=4.,
                tags=["t", ["u"]], notes=dict(k=[1, 2]), members=["a", "b"], centered_array=[[0., 1., 2.]])
    keys = sorted(full)
    n = rs.choice([0, 1, 2, 3, 6, len(keys)])
    return {k: full[k] for k in [keys[i] for i in rs.permutation(len(keys))[:n]]}


def _mk_rec(rs):
    return [[_rec1(rs) for _ in range(rs.randint(1, 4))], dict(name="x", tags=["t"])]


@call("to_mapping", lambda rs: [_coords(rs), _mk_rec(rs)[1]])
def _(a, c):
    from attitude import Orientation, ReconstructedPlane
    from attitude.error import pca_to_mapping
    o = Orientation(a[0])
    return [o.to_mapping(**a[1]), pca_to_mapping(o, **a[1]), ReconstructedPlane(10, 20, 30, 1, 5).to_mapping(**a[1])]


@call("plot_interactive", _mk_rec)
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


@call("plot_interactive.tuple", lambda rs: [tuple(_rec1(rs) for _ in range(2))])
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


@call("plot_interactive.mixed", lambda rs: [[_rec1(rs)], _coords(rs)])
def _(a, c):
    from attitude import Orientation
    from attitude.display import plot_interactive
    return plot_interactive(a[0] + [Orientation(a[1])])


def _planes(rs):
    from attitude import Orientation
    return [Orientation(_coords(rs)) for _ in range(2 + rs.randint(2))]


@call("plot_interactive.planes", lambda rs: [_planes(rs)])
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


@call("plot_interactive.planes-and-records", lambda rs: [[_rec1(rs)] + _planes(rs)])
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


@call("plot_interactive.one", lambda rs: [_rec1(rs)])
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


@call("plot_interactive.bad", lambda rs: [[dict(uid="a", bad={1, 2}), dict(uid="b")]])
def _(a, c):
    from attitude.display import plot_interactive
    return plot_interactive(a[0])


def snapshot(v):
    if isinstance(v, N.ndarray):
        b = v.base if isinstance(v.base, N.ndarray) else None
        return ("arr", v.shape, v.dtype.str, v.tobytes(), None if b is None else b.tobytes())
    if isinstance(v, dict):
        return ("dict", [(k, snapshot(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snapshot(x) for x in v])
    if hasattr(v, "to_mapping"):
        return (type(v).__name__, id(v))
    return repr(v)
