"""Catalogue of the public operations on planes, each with a few argument variants.

An operation is fn(obj, arg, world) -> raw result.  `scrib` marks results that are computed for the caller (and which
the caller may therefore overwrite); `cheap` ones form the audit that follows every history.
"""
import copy as _copy, pickle as _pickle
import numpy as N

P = ("pca", "weighted", "saved", "group")
OPS = {}
XV = N.linspace(-3, 4, 5)


class Op:
    def __init__(self, name, kinds, args, fn, scrib, cheap, weight, fam, arity):
        self.name, self.kinds, self.args, self.fn = name, kinds, args, fn
        self.scrib, self.cheap, self.weight, self.fam, self.arity = scrib, cheap, weight, fam, arity


def op(name, kinds, args=(None,), scrib=False, cheap=False, weight=1.0, fam="query", arity=1):
    def d(fn):
        for n in (name if isinstance(name, (list, tuple)) else [name]):
            OPS[n] = Op(n, kinds, list(args), fn, scrib, cheap, weight, fam, arity)
        return fn
    return d


def _method(name, kinds, args=({},), **kw):
    op(name, kinds, args, **kw)(lambda o, a, w, name=name: getattr(o, name)(**a))


def _prop(name, kinds, **kw):
    op(name, kinds, (None,), **kw)(lambda o, a, w, name=name: getattr(o, name))


CL = [{}, {"confidence_level": .68}, {"confidence_level": .99}]

# ------------------------------------------------------------------ plane methods and properties
_method("strike_dip", P, [{}, {"degrees": True}], cheap=True)
_method("strike_dip_rake", P + ("recon",), [{}], cheap=True)
_method("rake", P, [{}])
_method("dip_direction", P, [{}, {"uncertainties": True}])
_method("gradient", P + ("linear",), [{}, {"uncertainties": True}])
_method("angular_errors", P, [{}, {"degrees": False}], cheap=True)
OPS["recon.angular_errors"] = Op("recon.angular_errors", ("recon",), [{}], lambda o, a, w: o.angular_errors(), False, True, 1, "query", 1)
_method("angular_error", P, [{"axis_length": 1.5}, {"axis_length": 40.}, {"axis_length": "x"}])
_method("errors", P, [{}])
_method("standard_errors", P, [{}])
_method("rotated", P, [{}], scrib=True, cheap=True)
_method("residuals", P, [{}], scrib=True, cheap=True)
_method("as_conic", P, [{}, {"level": 2}, {"level": "x"}], scrib=True)
_method("as_hyperbola", P, [{}, {"rotated": True}], scrib=True)
_method("plane_errors", P, [dict(n=7), dict(n=7, sheet="lower"), dict(n=5, sheet="nominal"), dict(n=5, level=2),
                            dict(n=5, traditional_layout=False), dict(n=4, sheet="lower", level=.5, traditional_layout=False), dict(n=4, level="x"),
                            dict(n=4, sheet="sideways")],
        scrib=True, cheap=True)
_method("error_coords", P, [dict(n=6), dict(n=4, levels=[1, 2]), dict(n=5, ellipse=False), dict(n=5, traditional_layout=False),
                            dict(n=3, levels=[.5, 3], ellipse=False)], scrib=True)
_method("error_ellipse", P, [{}, dict(level=2), dict(vector=True), dict(spherical=False), dict(level=.5, vector=True)], weight=.6)
_method("to_mapping", P + ("recon",), [{}, dict(name="x", color="red"), dict(uid="mine"), dict(centered_array=None),
                                       dict(disabled=True, note="it's </b>")], scrib=True, cheap=True, weight=2)
for n_ in ("azimuth", "slope", "coefficients"):
    _prop(n_, P)
for n_ in ("hyperbolic_axes", "eigenvalues", "covariance_matrix", "principal_axes"):
    _prop(n_, P, scrib=True, cheap=True)
_prop("rotated_covariance", P, scrib=True)
_prop("explained_variance", P)
_prop("U", P, cheap=True)
op("hash", P + ("recon",), cheap=True)(lambda o, a, w: o.hash)
op("repr", P)(lambda o, a, w: repr(o))

ATTRS = {
    "pca": ["array", "arr", "mean", "n", "axes", "V", "sigma", "singular_values", "normal", "strike", "dip_dr",
            "offset", "center", "centered_array", "disabled"],
    "linear": ["azimuth", "slope", "coefficients", "covariance_matrix", "rotation"],
    "regr": ["C", "Z", "nobs", "ncoef", "df_e", "df_r", "n", "k"],
    "recon": ["normal", "axes", "hyperbolic_axes", "covariance_matrix", "center", "centered_array", "disabled"],
}


@op("attrs", P + ("linear", "regr", "recon"), cheap=True)
def _attrs(o, a, w):
    k = type(o).__name__
    names = ATTRS[{"LinearOrientation": "linear", "Regression": "regr", "ReconstructedPlane": "recon"}.get(k, "pca")]
    return {n: getattr(o, n) for n in names if hasattr(o, n)}


# regression
op("linear.strike_dip", ("linear",), [{}, {"uncertainties": True}], cheap=True)(lambda o, a, w: o.strike_dip(**a))
op("linear.dip_direction", ("linear",), [{}, {"uncertainties": True}])(lambda o, a, w: o.dip_direction(**a))
op("linear.errors", ("linear",), [None], cheap=True)(lambda o, a, w: o.errors())
op("linear.standard_errors", ("linear",))(lambda o, a, w: o.standard_errors())
op("linear.rotated_covariance", ("linear",), scrib=True)(lambda o, a, w: o.rotated_covariance)
op("linear.error_ellipse", ("linear",), [{}, dict(level=2), dict(spherical=False), dict(vector=True)], scrib=True, cheap=True)(
    lambda o, a, w: o.error_ellipse(**a))
for n_ in ("coefficients", "predictions", "residuals", "covariance_matrix"):
    op("regr." + n_, ("regr",), cheap=True)(lambda o, a, w, n=n_: getattr(o, n))
op("regr.standard_errors", ("regr",), cheap=True)(lambda o, a, w: o.standard_errors())

# ------------------------------------------------------------------ error axes
AX = {"sampling_axes": CL + [dict(dof=3), dict(chisq=True), dict(variance_on_all_axes=False)],
      "noise_axes": CL + [dict(dof=3), dict(chisq=True), dict(variance_on_all_axes=False)],
      "statistical_axes": [{}, dict(method="sampling"), dict(method="noise", confidence_level=.5)],
      "francq_axes": CL + [dict(variance_on_all_axes=False)], "babamoradi_axes": CL, "jolliffe_axes": CL,
      "regression_axes": CL, "eigenvalue_axes": [{}], "variance_axes": [{}],
      "sampling_covariance": [{}], "noise_covariance": [{}, dict(dof=1)],
      "hyperbolic_axes": CL + [dict(type="sampling"), dict(type="sampling", confidence_level=.5)]}
for n_, v_ in AX.items():
    def _f(o, a, w, n=n_):
        from attitude.error import axes
        return getattr(axes, n)(o, **a)
    op("axes." + n_, P + (("recon",) if n_ == "hyperbolic_axes" else ()), v_, scrib=True,
       cheap=n_ in ("sampling_axes", "noise_axes"), fam="axes")(_f)
    if n_ == "hyperbolic_axes":
        OPS["axes.hyperbolic_axes"].scrib = False   # for reconstructed planes this is the plane's own stored array


@op("axes.angular_errors", P, CL, fam="axes")
def _ae(o, a, w):
    from attitude.error.axes import sampling_axes, angular_errors
    return angular_errors(sampling_axes(o, **a))


@op("pca_to_mapping", P, [{}, "noise", {"name": "a"}], scrib=True, fam="export")
def _ptm(o, a, w):
    from attitude.error import pca_to_mapping
    from attitude.error.axes import noise_axes
    return pca_to_mapping(o, method=noise_axes) if a == "noise" else pca_to_mapping(o, **a)


@op("normal_errors_axes", P + ("recon",), fam="axes", scrib=True)
def _tne(o, a, w):
    from attitude.error import to_normal_errors, from_normal_errors
    h = o.hyperbolic_axes
    return [to_normal_errors(h), from_normal_errors(to_normal_errors(h))]


# ------------------------------------------------------------------ geometry
@op("aligned_covariance", P, ["noise", "sampling"], scrib=True, fam="geom")
def _ac(o, a, w):
    from attitude.geom import aligned_covariance
    return aligned_covariance(o, a)


@op("fit_angle", P + ("recon",), arity=2, fam="geom")
def _fa(o, a, w):
    from attitude.geom import fit_angle
    return fit_angle(o, w.other)


@op("fit_similarity", P, arity=2, fam="geom")
def _fs(o, a, w):
    from attitude.geom import fit_similarity
    return fit_similarity(o, w.other)


@op("conic_chain", P, [1, 2], fam="geom")
def _cc(o, a, w):
    c = o.as_conic(level=a)
    h = o.as_hyperbola(rotated=True)
    return [c.center(), c.dual(), h.semiaxes(), c.is_elliptical(), h.is_hyperbolic(), c.polar_plane(N.array([1., 2, 3])),
            c.pole(c.polar_plane(N.array([1., 2, 3]))), c.major_axes()]


@op("bingham", P, [(.3, .2), (-1., .9)], fam="geom", weight=.3)
def _bp(o, a, w):
    from attitude.bingham import bingham_pdf
    return bingham_pdf(o)(a)


@op("hyperbolic_errors", P, [{}, dict(axes=0), dict(axes=1, reverse=True), dict(means=1)], scrib=True, fam="geom")
def _he(o, a, w):
    from attitude.display.hyperbola import hyperbolic_errors
    from attitude.error.axes import sampling_axes
    from attitude.geom import axis_aligned_transforms
    kw = dict(a)
    if "axes" in kw:
        kw["axes"] = axis_aligned_transforms()[1 + kw["axes"]]
        kw["transformation"] = o.axes
    if "means" in kw:
        kw["means"] = N.array([1., 2.])
    return hyperbolic_errors(sampling_axes(o), XV.copy(), **kw)


@op("HyperbolicErrors", P, [0, 1], fam="geom")
def _He(o, a, w):
    from attitude.display import HyperbolicErrors
    return HyperbolicErrors(o.hyperbolic_axes if a else o.singular_values, XV.copy(),
                            axes=N.array([[0., 1, 0], [0, 0, 1]])).data


# ------------------------------------------------------------------ stereonet curves
def _curve(fn):
    def f(o, a, w):
        from attitude import stereonet
        kw = dict(a)
        cov = o.covariance_matrix
        if kw.pop("diag", False):
            from attitude.error.axes import hyperbolic_axes
            cov = N.diag(hyperbolic_axes(o))
        return getattr(stereonet, fn)(o.axes, cov, **kw)
    return f


op("st.plane_errors", P + ("recon",), [dict(n=5), dict(n=5, sheet="lower"), dict(n=5, diag=True, level=2),
                                       dict(n=5, traditional_layout=False)], scrib=True, fam="curve")(_curve("plane_errors"))
op("st.normal_errors", P + ("recon",), [dict(n=5), dict(n=5, diag=True), dict(n=5, traditional_layout=False)],
   scrib=True, fam="curve", cheap=True)(_curve("normal_errors"))
op("st.iterative_normal_errors", P + ("recon",), [dict(n=4), dict(n=4, traditional_layout=False)], scrib=True, fam="curve")(
    _curve("iterative_normal_errors"))
op("st.iterative_plane_errors", P + ("recon",), [dict(n=4), dict(n=4, sheet="lower"), dict(n=3, sheet="nominal")],
   scrib=True, fam="curve")(_curve("iterative_plane_errors"))
op("st.error_coords", P + ("recon",), [dict(n=4), dict(n=4, levels=[1, 2], ellipse=False)], scrib=True, fam="curve")(
    _curve("error_coords"))
op("st.error_ellipse", P + ("recon",), [dict(n=4)], scrib=True, fam="curve")(_curve("error_ellipse"))


@op("cartopy", P, [("girdle", {}), ("normal", {}), ("girdle", dict(confidence_level=.5)), ("normal", dict(type="sampling"))],
    fam="draw", weight=.6)
def _cp(o, a, w):
    from attitude.display import cartopy as C
    return getattr(C, "cartopy_" + a[0])(o, **a[1])


op("recon.cartopy", ("recon",), ["girdle", "normal"], fam="draw")(lambda o, a, w: getattr(o, "cartopy_" + a)())


# ------------------------------------------------------------------ drawing
def drawn(ax, call):
    """Run call, return the shapes it added to ax, and take them off again."""
    from . import canon
    before = {id(c) for c in ax.get_children()}
    try:
        call()
        return [canon.artist(c) for c in ax.get_children() if id(c) not in before]
    finally:
        for c in list(ax.get_children()):
            if id(c) not in before:
                try:
                    c.remove()
                except Exception:
                    pass


@op("draw.girdle_error", P + ("recon",), [{}, dict(facecolor="red", alpha=.4)], fam="draw")
def _dg(o, a, w):
    from attitude.display import girdle_error
    ax = w.ax("stereo")
    return drawn(ax, lambda: girdle_error(ax, o, **a))


@op("draw.pole_error", P + ("recon",), [{}, dict(facecolor="blue", zorder=7)], fam="draw")
def _dp(o, a, w):
    from attitude.display import pole_error
    ax = w.ax("stereo")
    return drawn(ax, lambda: pole_error(ax, o, **a))


@op("draw.polar_pole_error", P + ("recon",), [{}, dict(facecolor="blue")], fam="draw")
def _dpp(o, a, w):
    from attitude.display.polar import pole_error
    ax = w.ax("polar")
    return drawn(ax, lambda: pole_error(ax, o, **a))


@op("draw.uncertain", ("recon", "pca"), [0, 1, 2], fam="draw")
def _du(o, a, w):
    from attitude.display import stereonet as S, polar
    args = tuple(o.strike_dip_rake()) + tuple(o.angular_errors())
    ax = w.ax("polar" if a == 2 else "stereo")
    f = [S.uncertain_plane, S.uncertain_pole, polar.uncertain_pole][a]
    return drawn(ax, lambda: f(ax, *args))


@op("draw.strike_dip", ("linear",), [dict(), dict(levels=[1, 2], alpha=[.5, .2]), dict(facecolor="red")], fam="draw")
def _dsd(o, a, w):
    from attitude.display import strike_dip
    ax = w.ax("plain")
    return drawn(ax, lambda: strike_dip(o, ax=ax, **a))


@op("draw.error_ellipse", ("linear",), fam="draw", weight=.5)
def _dee(o, a, w):
    from attitude.display import error_ellipse
    return error_ellipse(o)


@op("draw.hyperbola", P, [0, 1], fam="draw")
def _dh(o, a, w):
    from attitude.display import HyperbolicErrors
    from attitude.error.axes import noise_axes
    ax = w.ax("plain")

    def call():
        h = HyperbolicErrors(noise_axes(o), XV.copy())
        h.plot(ax, fc="#cccccc", alpha=.3)
        if a:
            h.plot_nominal(ax, color="red")
    return drawn(ax, call)


@op("draw.conjugate", P, [0, 1], fam="draw", weight=.5)
def _dc(o, a, w):
    from attitude.display.parametric import plot_conjugate_conics
    ax = w.ax("plain")
    return drawn(ax, lambda: plot_conjugate_conics(ax, N.sqrt(o.hyperbolic_axes[1:]), plot_foci=bool(a)))


def _newfig(call):
    import matplotlib.pyplot as plt
    from . import canon
    f = call()
    try:
        return canon.canon(f)
    finally:
        plt.close(f)


@op("draw.plot_aligned", P, [{}, {"colormap": "viridis"}, dict(sparse=False)], fam="draw", weight=.08)
def _dpa(o, a, w):
    from attitude import plot_aligned
    return _newfig(lambda: plot_aligned(o, **a))


@op("draw.error_comparison", P, [{}, dict(width=30, height=2)], fam="draw", weight=.08)
def _dec(o, a, w):
    from attitude.display import error_comparison
    return _newfig(lambda: error_comparison(o, **a))


@op("show", P + ("recon",), [0, 1], fam="export", weight=.6)
def _show(o, a, w):
    from attitude.display import plot_interactive
    return plot_interactive([o, dict(uid="extra", strike=1)] if a else o)


# ------------------------------------------------------------------ copies and refits
op("copy", P + ("recon",), fam="copy")(lambda o, a, w: _copy.copy(o).to_mapping())
op("deepcopy", P + ("recon",), fam="copy", weight=.5)(lambda o, a, w: _copy.deepcopy(o).to_mapping())
op("pickle", P + ("recon",), fam="copy", weight=.7)(lambda o, a, w: _pickle.loads(_pickle.dumps(o)).to_mapping())


@op("refit", P, ["data", "saved", "weighted", "centered"], fam="copy", scrib=True)
def _refit(o, a, w):
    from attitude import Orientation
    if a == "data":
        return Orientation(o.array).to_mapping()
    if a == "saved":
        return Orientation(o.array, axes=o.principal_axes).to_mapping()
    if a == "centered":
        return Orientation(o.centered_array).to_mapping()
    return Orientation(o.array, weights=N.array([1., 2., 1.])).to_mapping()


@op("reconstruct", P, fam="copy")
def _rec(o, a, w):
    from attitude import ReconstructedPlane
    r = ReconstructedPlane(*o.strike_dip_rake(), *o.angular_errors())
    return [r.normal, r.axes, r.hyperbolic_axes, r.to_mapping()]


@op("regress", P, fam="copy")
def _reg(o, a, w):
    from attitude.orientation.linear import LinearOrientation
    r = LinearOrientation(o.array)
    return [r.strike_dip(), r.covariance_matrix]


# ------------------------------------------------------------------ grouping (copying mode)
G = ("pca", "weighted", "saved")


def _maps(coll):
    return [o.to_mapping() for o in coll]


@op("create_groups", G, [{}, dict(same_plane=True), "unknown", "twice"], arity=2, fam="group", weight=1.5)
def _cg(o, a, w):
    from attitude import create_groups
    p = w.other
    if a == "unknown":
        return _maps(create_groups([o, p], [o.hash, "ffffffff"]))
    if a == "twice":
        return _maps(create_groups([o, p], [o.hash, p.hash], [o.hash]))
    return _maps(create_groups([o, p], [o.hash, p.hash], **a))


@op("GroupedOrientation", G, [{}, dict(same_plane=True)], arity=2, fam="group")
def _go(o, a, w):
    from attitude.orientation.grouped import GroupedOrientation
    g = GroupedOrientation(_copy.copy(o), _copy.copy(w.other), **a)
    return [g.to_mapping(), g.rotated()]


@op("regroup", ("group",), fam="group")
def _rg(o, a, w):
    from attitude import create_groups
    return _maps(create_groups(list(o.members) + [o]))


def candidates(kind, arity_ok=True):
    return [o for o in OPS.values() if kind in o.kinds and (arity_ok or o.arity == 1)]


def execute(name, arg, obj, world):
    """-> ("ok", raw) or ("exc", TypeName)"""
    return OPS[name].fn(obj, OPS[name].args[arg], world)

op("regr.copy", ("regr",), [0, 1], fam="copy")(
    lambda o, a, w: (lambda c: [c.residuals, c.covariance_matrix])(_copy.deepcopy(o) if a else _copy.copy(o)))
op("regr.all", ("regr",), [0, 1, 2], fam="query")(
    lambda o, a, w: [getattr(o, n) for n in (["covariance_matrix", "residuals", "coefficients"], ["predictions", "covariance_matrix"],
                                             ["residuals", "coefficients", "covariance_matrix"])[a]])
op("U.copy", ("saved",), [0, 1], fam="copy")(lambda o, a, w: (_copy.deepcopy(o) if a else _copy.copy(o)).U)
