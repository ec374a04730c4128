"""A page of real matplotlib figures (pyplot-registered and bare) prepared before any simulated run, and drawing calls on them."""
import numpy as N
from . import canon

WORLD = {}
P = ("pca", "weighted", "saved", "group")
XV = N.linspace(-3, 4, 5)
DRAW = {}


def draw(name, kinds, axkind, args=({},), weight=1.0):
    def d(fn):
        DRAW[name] = dict(name=name, kinds=kinds, ax=axkind, args=list(args), fn=fn, weight=weight)
        return fn
    return d


def world():
    """In the zygote: figures 1-3 known to pyplot, two that are not, several axes each, some with content of the user's."""
    if WORLD:
        return WORLD
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.patches import Polygon
    import mplstereonet  # noqa
    plt.close("all")
    figs, axes = [], []
    for pp, kinds in ((True, ["plain", "polar"]), (True, ["stereo", "plain"]), (True, ["plain"]), (False, ["stereo", "plain"]),
                      (False, ["polar", "plain", "stereo"])):
        if pp:
            f = plt.figure()
        else:
            f = Figure()
            FigureCanvasAgg(f)
        figs.append(f)
        for i, k in enumerate(kinds):
            a = f.add_subplot(1, len(kinds), i + 1, projection={"plain": None, "polar": "polar", "stereo": "stereonet"}[k])
            axes.append(dict(ax=a, kind=k, fig=len(figs) - 1))
    for j, d in enumerate(axes):
        a = d["ax"]
        if j % 2 == 0:
            a.plot([0, .1 * j + .1], [0, .2], color="green")
            a.add_patch(Polygon([[0, 0], [.1, 0], [.1, .1 + j]]))
            a.text(0, 0, "user %d" % j)
            a.set_title("t%d" % j)
    figs[0].text(.5, .5, "figure text")
    plt.figure(figs[1].number)
    WORLD.update(figs=figs, axes=axes)
    return WORLD


def figure_state(f):
    return dict(axes=[str(id(a)) for a in f.axes], arts=[str(id(a)) for a in f.get_children()],
                texts=[t.get_text() for t in f.texts], n=[len(f.lines), len(f.patches), len(f.images), len(f.legends)])


def axes_state(a):
    """Everything visible of an axes nobody drew on."""
    return dict(arts=canon.canon([canon.artist(c) for c in drawn_children(a)]), ids=[str(id(c)) for c in drawn_children(a)],
                xlim=N.array(a.get_xlim()), ylim=N.array(a.get_ylim()), title=a.get_title(), x=a.get_xlabel(), y=a.get_ylabel(),
                legend=a.get_legend() is not None, vis=a.get_visible())


def drawn_children(ax):
    """The artists added to ax by drawing (not spines, axis, title and background)."""
    skip = set(map(id, list(ax.spines.values()) + [ax.patch, getattr(ax, "xaxis", None), getattr(ax, "yaxis", None), ax.title,
                                                   getattr(ax, "_left_title", None), getattr(ax, "_right_title", None)]))
    return [c for c in ax.get_children() if id(c) not in skip]


# ------------------------------------------------------------------ calls on given axes
@draw("girdle_error", P + ("recon",), "stereo", [{}, dict(facecolor="red", alpha=.4), dict(zorder=9)], 2)
def _(o, a, ax):
    from attitude.display import girdle_error
    girdle_error(ax, o, **a)


@draw("pole_error", P + ("recon",), "stereo", [{}, dict(facecolor="blue", zorder=7)], 2)
def _(o, a, ax):
    from attitude.display import pole_error
    pole_error(ax, o, **a)


@draw("polar_pole_error", P + ("recon",), "polar", [{}, dict(facecolor="blue")], 2)
def _(o, a, ax):
    from attitude.display.polar import pole_error
    pole_error(ax, o, **a)


@draw("polar_pole", P + ("recon",), "polar", [{}, dict(color="red")])
def _(o, a, ax):
    from attitude.display import polar
    s, d = o.strike_dip_rake()[:2]
    polar.pole(ax, s, d, "o", **a)


@draw("uncertain_plane", ("recon", "pca"), "stereo", [{}, dict(facecolor="red")])
def _(o, a, ax):
    from attitude.display.stereonet import uncertain_plane
    uncertain_plane(ax, *o.strike_dip_rake(), *o.angular_errors(), **a)


@draw("uncertain_pole", ("recon", "pca"), "stereo", [{}, dict(alpha=.5)])
def _(o, a, ax):
    from attitude.display.stereonet import uncertain_pole
    uncertain_pole(ax, *o.strike_dip_rake(), *o.angular_errors(), **a)


@draw("polar_uncertain_pole", ("recon", "pca"), "polar", [{}, dict(alpha=.5)])
def _(o, a, ax):
    from attitude.display.polar import uncertain_pole
    uncertain_pole(ax, *o.strike_dip_rake(), *o.angular_errors(), **a)


@draw("strike_dip", ("linear",), "plain", [{}, dict(levels=[1, 2], alpha=[.5, .2]), dict(facecolor="red", spherical=True)], 3)
def _(o, a, ax):
    from attitude.display import strike_dip
    strike_dip(o, ax=ax, **a)


@draw("hyperbola", P, "plain", [0, 1], 2)
def _(o, a, ax):
    from attitude.display import HyperbolicErrors
    from attitude.error.axes import noise_axes
    h = HyperbolicErrors(noise_axes(o), XV.copy(), axes=N.array([[0., 1, 0], [0, 0, 1]]))
    h.plot(ax, fc="#cccccc", alpha=.3)
    if a:
        h.plot_nominal(ax, color="red")


@draw("conjugate", P, "plain", [0, 1])
def _(o, a, ax):
    from attitude.display.parametric import plot_conjugate_conics
    plot_conjugate_conics(ax, N.sqrt(o.hyperbolic_axes[1:]), plot_foci=bool(a))


@draw("montecarlo", ("pca", "saved", "weighted"), "stereo", [{}], .7)
def _(o, a, ax):
    from attitude.display import strike_dip_montecarlo
    strike_dip_montecarlo(o, n=20, ax=ax)


# ------------------------------------------------------------------ calls that make their own figure
@draw("plot_aligned", P, None, [{}, dict(colormap="viridis")], .25)
def _(o, a, ax):
    from attitude import plot_aligned
    return plot_aligned(o, **a)


@draw("error_comparison", P, None, [{}, dict(width=30, height=2)], .25)
def _(o, a, ax):
    from attitude.display import error_comparison
    return error_comparison(o, **a)


@draw("error_ellipse", ("linear",), None, [{}], .7)
def _(o, a, ax):
    from attitude.display import error_ellipse
    return error_ellipse(o)


@draw("setup_figure", P + ("recon", "linear"), None, [{}, dict(projection=None), dict(projection="polar", figsize=(3, 2))], .3)
def _(o, a, ax):
    from attitude.display import setup_figure
    return setup_figure(**a)[0]


# ------------------------------------------------------------------ calls that fail on this kind of plane, given axes
for _n in ("trend_plunge", "normal", "plane_confidence", "error_asymptotes"):
    def _fn(o, a, ax, n=_n):
        import io, contextlib
        from attitude import display
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(display, n)(o, ax=ax)
    draw("failing_" + _n, P + ("linear",), "stereo", [{}], .25)(_fn)
