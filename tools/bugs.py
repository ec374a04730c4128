PCA, AXES, STEREO, GROUPED = ("attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/stereonet.py", "attitude/orientation/grouped.py")
BASE, NB, HYP, DEM = ("attitude/orientation/base.py", "attitude/display/nbextension.py", "attitude/display/hyperbola.py", "attitude/helpers/dem.py")
REG, DST, BOOT = ("attitude/orientation/linear/regression.py", "attitude/display/stereonet.py", "attitude/display/plot/cov_types/regressions.py")

# ------------------------------------------------------------------ C01
bug("c01-rotated-cache", "C01", [(PCA, "        return N.dot(self.arr,self.V.T)\n", """        if getattr(self, '_rotated', None) is None:
            self._rotated = N.dot(self.arr,self.V.T)
        return self._rotated
""")], "residuals() before any other use of the despun data", "rotated() is cached, residuals() zeroes its last column in place",
"""
p, q = Orientation(plane()), Orientation(plane())
p.residuals()
if not close(p.rotated(), q.rotated()) or not close(p.covariance_matrix, q.covariance_matrix): bad("residuals() changed rotated()")
""")
bug("c01-strike-flip", "C01", [(PCA, """            dip = 180 - dip
            strike += 180
""", """            dip = 180 - dip
            strike += 180
            # remember the upright axes
            self.axes = self.axes*N.array([[1],[1],[-1]])
""")], "a fit whose third axis points down, asked for strike/dip", "strike_dip() changes the fit's axes, its uid and later error curves",
"""
for s in range(40):
    p = Orientation(plane(s, strike=9*s)); q = Orientation(plane(s, strike=9*s))
    p.strike_dip(); p.strike_dip()
    if p.hash != q.hash or not close(p.axes, q.axes): bad("strike_dip() changed axes")
""")
# ------------------------------------------------------------------ C02
bug("c02-scratch-bundle", "C02", [(STEREO, """    bundle = dot(ell, d[:2])
    res = d[2]*level*2

    # Switch hemispheres if PCA is upside-down
    # Normal vector is always correctly fit
    #if traditional_layout:
""", """    # Reuse the work array for bundles of the same size
    bundle = _work.setdefault(len(ell), N.empty((len(ell),d.shape[1])))
    bundle[:] = dot(ell, d[:2])
    res = d[2]*level*2

    # Switch hemispheres if PCA is upside-down
    # Normal vector is always correctly fit
    #if traditional_layout:
"""), (STEREO, "def plane_errors(axes, covariance_matrix, sheet='upper',**kwargs):\n", "_work = {}\n\ndef plane_errors(axes, covariance_matrix, sheet='upper',**kwargs):\n")],
"two threads inside plane_errors with the same number of points", "error curves mix the two callers' planes",
"""
p, q = Orientation(plane(1)), Orientation(plane(2, strike=200))
want = p.plane_errors(n=9)
k = 1
while True:
    lines, res, exc = at_line(k, in_thread(lambda: q.plane_errors(n=9, sheet="lower")), lambda: p.plane_errors(n=9))
    if k > lines: break
    if exc is not None or not close(res, want): bad("concurrent caller changed the answer at line %d" % k)
    k += 1
""")
bug("c02-method-swap", "C02", [(AXES, """        else:
            return sampling_axes(fit, **kwargs)
    except AttributeError:
""", """        else:
            previous = fit.method
            fit.method = sampling_axes
            try:
                return fit.method(fit, **kwargs)
            finally:
                fit.method = previous
    except AttributeError:
""")], "one thread asking sampling axes while another exports the same plane", "an exported record holds sampling errors instead of noise errors",
"""
from attitude.error.axes import hyperbolic_axes
p = Orientation(plane())
want = p.to_mapping()["hyperbolic_axes"]
k = 1
while True:
    got = []
    lines, res, exc = at_line(k, in_thread(lambda: got.append(p.to_mapping()["hyperbolic_axes"])), lambda: hyperbolic_axes(p, type="sampling"))
    if k > lines: break
    if got and not close(got[0], want): bad("exported record used the other caller's method")
    k += 1
""")
# ------------------------------------------------------------------ C03
bug("c03-method-leak", "C03", [(PCA, """        hyp_axes = self.method(self)
        return N.arctan2(hyp_axes[-1],axis_length)
""", """        method, self.method = self.method, None
        hyp_axes = method(self)
        self.method = method
        return N.arctan2(hyp_axes[-1],axis_length)
""")], "an interrupt while angular_error runs", "after an aborted call the plane cannot be exported",
"""
k = 1
while True:
    p = Orientation(plane())
    lines, res, exc = at_line(k, interrupt, lambda: p.angular_error(3.))
    if k > lines: break
    try:
        p.to_mapping()
    except Exception as e:
        bad("plane unusable after an interrupt: %r" % e)
    k += 1
""")
bug("c03-swallow", "C03", [(PCA, """        except ValueError:
            # Can't do this in 2D cases
            self.dip_dr = None
""", """        except (ValueError, MemoryError):
            # Can't do this in 2D cases
            self.dip_dr = None
"""), (PCA, """        _ = self.strike_dip()
        return (_[0],_[1], self.rake())
""", """        _ = self.strike_dip()
        try:
            rake = self.rake()
        except Exception:
            # no rake in 2D cases
            rake = 0.0
        return (_[0],_[1], rake)
""")], "memory running out during rake()", "a record with rake 0 is exported instead of the error reaching the caller",
"""
def oom(): raise MemoryError("demo")
p = Orientation(plane())
want = p.strike_dip_rake()
k = 1
while True:
    lines, res, exc = at_line(k, oom, lambda: p.strike_dip_rake())
    if k > lines: break
    if exc is None and not close(res, want): bad("a failed call returned %r" % (res,))
    k += 1
""")
# ------------------------------------------------------------------ C04
bug("c04-level-inplace", "C04", [(STEREO, """    res = d[2]*level*2

    # Switch hemispheres if PCA is upside-down
    # Normal vector is always correctly fit
    #if traditional_layout:
""", """    res = d[2]
    if level == 1:
        res = res*2
    else:
        res *= level*2

    # Switch hemispheres if PCA is upside-down
    # Normal vector is always correctly fit
    #if traditional_layout:
""")], "plane_errors called with a covariance matrix the caller keeps, at a level other than 1", "the caller's covariance matrix is overwritten",
"""
from attitude.stereonet import plane_errors
p = Orientation(plane()); cov = N.diag([9., 4., 1.]); keep = cov.copy()
plane_errors(p.axes, cov, level=2, n=5)
if not N.array_equal(cov, keep): bad("covariance matrix was modified")
""")
bug("c04-apparent-dip", "C04", [(HYP, """    a1 = axes[0].copy()
    a1[-1] = 0
    cosa = angle(axes[0],a1,cos=True)
    _ = 1-cosa**2
    if _ > 1e-12:
""", """    a0 = axes[0].copy()
    a1 = axes[0]
    a1[-1] = 0
    cosa = angle(a0,a1,cos=True)
    a1[-1] = a0[-1]
    _ = 1-cosa**2
    if _ > 1e-12:
""")], "an interrupt between the two writes, or another thread reading the axes meanwhile", "the caller's axes array is left flattened",
"""
from attitude.display.hyperbola import hyperbolic_errors
from attitude.display import hyperbola as H
k = 1
while True:
    axes = N.array([[.6, 0, .8], [0, 1., 0]]); keep = axes.copy()
    lines, res, exc = at_line(k, interrupt, lambda: hyperbolic_errors(N.array([9., 4., 1.]), N.linspace(-3, 3, 5), axes=axes))
    if k > lines: break
    if not N.array_equal(axes, keep): bad("aborted call left the caller's axes modified")
    k += 1
""")
# ------------------------------------------------------------------ C05
bug("c05-eigen-cache", "C05", [(PCA, """        return self.singular_values**2/(self.n-1)
""", """        if getattr(self, '_eigenvalues', None) is None:
            self._eigenvalues = self.singular_values**2/(self.n-1)
        return self._eigenvalues
"""), (AXES, "    nominal = fit.eigenvalues\n\n    if method == 'sampling':", "    nominal = fit.eigenvalues.copy()\n\n    if method == 'sampling':"),
(AXES, "    return apply_error_scaling(e,h, n=n, **kw)\n", "    return apply_error_scaling(e.copy(),h, n=n, **kw)\n")],
"the caller modifies an eigenvalue or principal-variance array it was given", "later error axes are computed from the caller's scribbles",
"""
from attitude.error.axes import eigenvalue_axes
p, q = Orientation(plane()), Orientation(plane())
v = eigenvalue_axes(p); v *= 0
if not close(p.hyperbolic_axes, q.hyperbolic_axes): bad("overwriting a result changed the plane")
""")
bug("c05-cov-memo", "C05", [(PCA, """        return self._covariance_matrix()
""", """        key = self.n
        memo = self.__dict__.setdefault('_cov_memo', {})
        if key not in memo:
            memo[key] = self._covariance_matrix()
        return memo[key]
""")], "the caller scales a covariance matrix in place", "later curves, ellipses and records change",
"""
p, q = Orientation(plane()), Orientation(plane())
c = p.covariance_matrix
c[0] *= 4
if not close(p.plane_errors(n=5), q.plane_errors(n=5)): bad("scaling a returned covariance changed the plane's error curve")
""")
# ------------------------------------------------------------------ C06
bug("c06-u-halfway", "C06", [(PCA, """            sinv = N.diag(1/self.singular_values)
            self._U = dot(self.arr,self.V.T,sinv)
""", """            self._U = dot(self.arr,self.V.T)
            self._U = self._U/self.singular_values
""")], "first use of a restored fit's scores interrupted between the two steps, or observed by another thread", "unscaled scores are kept for good",
"""
a = plane(); ax = N.array(Orientation(a).principal_axes)
want = Orientation(a, axes=ax).U
k = 1
while True:
    p = Orientation(a, axes=ax)
    lines, res, exc = at_line(k, interrupt, lambda: p.U)
    if k > lines: break
    if not close(p.U, want): bad("scores wrong after an interrupted first use")
    k += 1
""")
bug("c06-coef-order", "C06", [(REG, """        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ = N.dot(self.xTx,self.xy)
        return self.__coefficients__
""", """        self.__coefficients__ = N.zeros(self.ncoef)
        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ += N.dot(self.xTx,self.xy)
        return self.__coefficients__
""")], "a second thread asking while the first computes, or a failed/aborted first attempt", "zero coefficients are returned and kept",
"""
from attitude.orientation.linear import Regression
a = plane(); want = Regression(a).coefficients
k = 1
while True:
    r = Regression(a)
    lines, res, exc = at_line(k, interrupt, lambda: r.coefficients)
    if k > lines: break
    if not close(r.coefficients, want): bad("coefficients wrong after an interrupted first use")
    k += 1
""")
# ------------------------------------------------------------------ C07
bug("c07-stale-member", "C07", [(GROUPED, """        # Get rid of and recreate group membership
        o.member_of = None
""", """        # Get rid of and recreate group membership
        if o.member_of in orientations:
            o.member_of = None
""")], "a collection from which the caller removed a group before grouping again", "a measurement names a group that is no longer there",
"""
L = [Orientation(plane(i)) for i in range(4)]
G = create_groups(L, [L[0].hash, L[1].hash])
H = create_groups([o for o in G if not hasattr(o, "members")], [L[2].hash, L[3].hash])
for o in H:
    if o.member_of is not None and not any(o.member_of is x for x in H): bad("measurement names a group outside its collection")
""")
bug("c07-member-order", "C07", [(GROUPED, """        self.members = orientations
""", """        self.members = sorted(orientations, key=lambda o: -o.n)
""")], "members of different sizes, smallest first", "group members are reordered", """
L = [Orientation(plane(i, n=5+3*i)) for i in range(3)]
G = create_groups(L, [o.hash for o in L])
if [o.n for o in G[-1].members] != [o.n for o in L] or G[-1].to_mapping()["members"] != [o.hash for o in L]: bad("members reordered")
""")
# ------------------------------------------------------------------ C08
bug("c08-index-pop", "C08", [(GROUPED, """    def find(uid):
        try:
            val = next(x for x in orientations if x.hash == uid)
            if val in grouped:
""", """    index = {}
    for o in orientations:
        try:
            index.setdefault(o.hash, o)
        except AttributeError:
            pass

    def find(uid):
        try:
            val = index.pop(uid, None)
            if val is None:
                orientations.remove(next(x for x in orientations if x.hash == uid))
                raise StopIteration
            if val in grouped:
""")], "a request naming the same measurement twice, in place", "a refused call removes the measurement from the collection",
"""
L = [Orientation(plane(i)) for i in range(4)]
try:
    create_groups(L, [L[0].hash, L[1].hash], [L[1].hash, L[2].hash], copy=False)
except Exception:
    pass
if sum(not hasattr(o, "members") for o in L) != 4: bad("a refused call lost a measurement")
""")
bug("c08-shared-state", "C08", [(GROUPED, """        for o in orientations:
            if hasattr(o,'members'):
                raise GroupedPlaneError("Cannot group already-grouped planes")
""", """        for o in orientations:
            if hasattr(o,'members'):
                raise GroupedPlaneError("Cannot group already-grouped planes")
            # normalise coordinates in place so that stacking is cheap
            o.arr -= o.arr.mean(axis=0)
            o.array[:] = o.arr + o.mean
""")], "grouping with copy=True (members share arrays with the caller's planes)", "the caller's measurements are rewritten by rounding noise",
"""
L = [Orientation(plane(i, off=(1e6, 3e6, 1e3))) for i in range(3)]
keep = [o.array.copy() for o in L]; keep2 = [o.arr.copy() for o in L]
create_groups(L, [o.hash for o in L])
if any(not N.array_equal(o.array, k) for o, k in zip(L, keep)) or any(not N.array_equal(o.arr, k) for o, k in zip(L, keep2)): bad("caller's planes were rewritten")
""")
# ------------------------------------------------------------------ C09
bug("c09-mean-of-means", "C09", [(GROUPED, "        self.mean = all_values.mean(axis=0)\n", "        self.mean = N.mean([o.mean for o in orientations],axis=0)\n")],
"members with different numbers of points", "the group's location is the mean of means",
"""
L = [Orientation(plane(1, n=5)), Orientation(plane(2, n=50, off=(900., 10., 5.)))]
G = create_groups(L, [o.hash for o in L])
if not close(G[-1].center, N.vstack([o.array for o in L]).mean(axis=0)): bad("wrong group center")
""")
bug("c09-skip-disabled", "C09", [(GROUPED, """        if self.same_plane:
            array = all_values
        else:
            array = N.vstack([o.centered_array for o in orientations])
""", """        if self.same_plane:
            array = all_values
        else:
            array = N.vstack([o.centered_array for o in orientations
                              if not o.disabled or len(orientations) < 3])
""")], "a group of three or more with a disabled member", "points of a member are left out of the pooled fit",
"""
from attitude.orientation.grouped import disable_orientations
L = [Orientation(plane(i, strike=30+i)) for i in range(3)]
disable_orientations(L, L[0].hash)
G = create_groups(L, [o.hash for o in L])
if G[-1].n != 60: bad("group has %d points" % G[-1].n)
""")
# ------------------------------------------------------------------ C10
bug("c10-flag-first", "C10", [(NB, """    display(Javascript(get_library('attitude-ui.js')))
    __ATTITUDE_INITIALIZED = True
""", """    __ATTITUDE_INITIALIZED = True
    display(Javascript(get_library('attitude-ui.js')))
""")], "a failing first delivery, or a second caller arriving during the first", "init reports success though nothing was delivered",
"""
from attitude.display import nbextension as nb
sent = []; fail = [True]
def disp(x):
    if fail[0]: raise RuntimeError("no front end")
    sent.append(x)
nb.display = disp
try: nb.init_notebook_mode()
except RuntimeError: pass
fail[0] = False
nb.init_notebook_mode()
if not sent: bad("init returned normally without delivering the library")
""")
bug("c10-partial-cache", "C10", [(NB, """    dn = path.join(lib,fn)
    with open(dn) as f:
        return f.read()
""", """    dn = path.join(lib,fn)
    if fn not in _library:
        _library[fn] = []
        with open(dn) as f:
            for block in iter(lambda: f.read(65536), ""):
                _library[fn].append(block)
    return "".join(_library[fn])
"""), (NB, "def get_library(fn):\n", "_library = {}\n\ndef get_library(fn):\n")], "a read error in the middle of the file, then another attempt", "a truncated library is delivered and init reports success",
"""
import builtins
from attitude.display import nbextension as nb
whole = open(os.path.join(os.path.dirname(nb.__file__), "lib", "attitude-ui.js")).read()
sent = []
nb.display = lambda x: sent.append(x.data)
real = builtins.open
class F:
    def __init__(self, f): self.f, self.n = f, 0
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def read(self, *a):
        self.n += 1
        if self.n > 1 or not a: raise OSError(5, "demo")
        return self.f.read(*a)
builtins.open = lambda p, *a, **k: F(real(p, *a, **k)) if str(p).endswith("attitude-ui.js") else real(p, *a, **k)
try: nb.init_notebook_mode()
except OSError: pass
builtins.open = real
nb.init_notebook_mode()
if not any(whole in s for s in sent): bad("init returned normally, library not delivered completely")
""")
# ------------------------------------------------------------------ C11
bug("c11-random-name", "C11", [(NB, """    classname = "A"+str(uuid4())
""", """    classname = "A{:012x}".format(getrandbits(48))
"""), (NB, "from uuid import uuid4\n", "from random import getrandbits\n")], "the user seeds the random module, as reproducible notebooks do", "two plots share a container name",
"""
import random
from attitude.display import nbextension as nb
out = []
nb.display = lambda x: out.append(x.data)
p = Orientation(plane())
random.seed(1); nb.plot_interactive(p)
random.seed(1); nb.plot_interactive(p)
import re
ids = [re.search("id='([^']*)'", h).group(1) for h in out]
if ids[0] == ids[1]: bad("container name repeats")
""")
bug("c11-drop-disabled", "C11", [(NB, """    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
""", """    mapped = {}
    for a in attitudes:
        m = a.to_mapping() if hasattr(a,'to_mapping') else a
        # The frontend identifies planes by uid
        mapped[m.get('uid')] = m
    attitudes = list(mapped.values())
""")], "two planes with the same uid (e.g. translated copies, or user records without uid) in one plot", "a plane is missing from the plot",
"""
from attitude.display import nbextension as nb
import json, re
out = []
nb.display = lambda x: out.append(x.data)
nb.plot_interactive([dict(strike=1, dip=2), dict(strike=3, dip=4)])
if out[0].count("strike") != 2: bad("a record was dropped")
""")
# ------------------------------------------------------------------ C12
bug("c12-style-leak", "C12", [(DST, """    defaults = dict(zorder=2)
    defaults.update(kwargs)

    path = Path(vertices, codes)
    patch = PathPatch(path, **defaults)
""", """    _style.update(kwargs)

    path = Path(vertices, codes)
    patch = PathPatch(path, **_style)
"""), (DST, "def plot_patch(ax, vertices, codes, **kwargs):\n", "_style = dict(zorder=2)\n\ndef plot_patch(ax, vertices, codes, **kwargs):\n")],
"a call with style options followed by one without", "style options leak into later drawings on other axes",
"""
from matplotlib.figure import Figure
import mplstereonet
from attitude.display.stereonet import girdle_error
p = Orientation(plane())
f = Figure(); a = f.add_subplot(121, projection="stereonet"); b = f.add_subplot(122, projection="stereonet")
girdle_error(a, p, alpha=.2, facecolor="red")
girdle_error(b, p)
if b.patches[-1].get_alpha() is not None: bad("style leaked")
""")
bug("c12-sca", "C12", [(DST, """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
""", """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
    if ax.figure.number in _open_figures():
        # bring pyplot along
        _pyplot().sca(ax)
"""), (DST, "def plot_patch(ax, vertices, codes, **kwargs):\n", """def _pyplot():
    import matplotlib.pyplot
    return matplotlib.pyplot

def _open_figures():
    return _pyplot().get_fignums()

def plot_patch(ax, vertices, codes, **kwargs):
""")], "drawing on axes of a pyplot figure that is not the current one", "the global current figure changes", """
import matplotlib.pyplot as plt, mplstereonet
from attitude.display.stereonet import pole_error
p = Orientation(plane())
f, a = plt.subplots(subplot_kw=dict(projection="stereonet")); g, b = plt.subplots()
pole_error(a, p)
if plt.gcf() is not g: bad("current figure changed")
""")
# ------------------------------------------------------------------ C13
bug("c13-sticky-options", "C13", [(HYP, """        self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)
""", """        self.kwargs = dict(getattr(self, 'kwargs', {}), **kwargs)
        self.data = hyperbolic_errors(*args,**self.kwargs)
        self.__set_plot_data(self.data)
""")], "an update with options followed by one without", "options of an earlier update stick",
"""
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors
ax = Figure().add_subplot(111)
h, x = N.array([9., 4., 1.]), N.linspace(-3, 3, 5)
axes = N.array([[1., 0, 0], [0, 0, 1.]])
e = HyperbolicErrors(); e.plot(ax)
e.update_data(h, x, axes=axes, means=N.array([5., 5.]))
e.update_data(h, x, axes=axes)
n = hyperbolic_errors(h, x, axes=axes)
if not close(e.poly.get_xy()[:10], N.concatenate((n[1], n[2]), axis=1).T): bad("region is not that of the last update")
""")
bug("c13-shared-coords", "C13", [(HYP, """        coords = N.concatenate((n[1],n[2]),axis=1).T
        self.poly.set_xy(coords)
""", """        coords = n[1].T
        self.poly.set_xy(coords)
        # close the region along its upper edge
        coords = N.concatenate((coords,n[2].T))
        self.poly.set_xy(coords)
""")], "an update aborted between the two edges", "half a region is shown", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
h, x = N.array([9., 4., 1.]), N.linspace(-3, 3, 5)
axes = N.array([[1., 0, 0], [0, 0, 1.]])
k = 1
while True:
    ax = Figure().add_subplot(111)
    e = HyperbolicErrors(); e.plot(ax); e.update_data(h, x, axes=axes)
    old = e.poly.get_xy().copy()
    lines, res, exc = at_line(k, interrupt, lambda: e.update_data(h*2, x, axes=axes))
    if k > lines: break
    now = e.poly.get_xy()
    if len(now) != len(old): bad("half a region is shown")
    k += 1
""")
# ------------------------------------------------------------------ C14
bug("c14-noise-accumulate", "C14", [(BOOT, "        boot_dist.append(func(data+arr))\n", """        # avoid allocating a new sample every time
        N.add(data, arr, out=arr)
        boot_dist.append(func(arr))
""")], "noise on one coordinate only (symmetric=False)", "later replicates accumulate data and noise on the other coordinates",
"""
from attitude.display.plot.cov_types.regressions import bootstrap_noise
a = plane()
seen = []
bootstrap_noise(a, lambda s: seen.append(s.copy()) or 0, n=3, symmetric=False)
if any(not close(s[:, :2], a[:, :2]) for s in seen): bad("noise on unrequested coordinates")
""")
bug("c14-reuse-sample", "C14", [(BOOT, """        sample = data.take(resampler, axis=0)
        boot_dist.append(func(sample))
""", """        sample = data.take(resampler, axis=0, out=sample, mode='clip')
        boot_dist.append(func(sample))
"""), (BOOT, """    rs = N.random.RandomState()

    boot_dist = []
""", """    rs = N.random.RandomState()

    boot_dist = []
    sample = N.empty_like(data)
""")], "a statistic that keeps its sample", "earlier replicates change when later ones are drawn", """
from attitude.display.plot.cov_types.regressions import bootstrap_resampled
a = plane(); kept = []; was = []
bootstrap_resampled(a, lambda s: (kept.append(s), was.append(s.copy())) and 0, n=3)
if any(not N.array_equal(x, y) for x, y in zip(kept, was)): bad("kept replicates changed")
""")
# ------------------------------------------------------------------ C15
bug("c15-nodata-edge", "C15", [("attitude/helpers/interpolation.py", "            array = array.astype(float).filled(N.nan)\n", "            array = array.astype(float).filled(array.min() if array.count() else N.nan)\n")],
"a line vertex next to a missing cell", "elevations are made up from missing data",
"""
import rasterio
from rasterio.io import MemoryFile
from shapely.geometry import LineString
from attitude.helpers.dem import extract_line
z = N.arange(100, dtype="float32").reshape(10, 10); z[5, 5] = -9999
with MemoryFile() as m:
    with m.open(driver="GTiff", width=10, height=10, count=1, dtype="float32", nodata=-9999, transform=rasterio.transform.from_origin(0, 10, 1, 1)) as d:
        d.write(z, 1)
    with m.open() as d:
        c = extract_line(LineString([(2.5, 7.5), (5.4, 4.6), (8.5, 2.5)]), d, subdivide=None)
if not N.isnan(c[1, 2]): bad("missing cell was filled in: %r" % c[1, 2])
""")
bug("c15-window-cache", "C15", [(DEM, """    z = dem.read(band,
        window=window,
        masked=True)

    # mask out unused area
    z[msk == False] = N.ma.masked
""", """    key = (id(dem), band, window)
    if key not in _tiles:
        _tiles.clear()
        _tiles[key] = dem.read(band,
            window=window,
            masked=True)
    z = _tiles[key]

    # mask out unused area
    z[msk == False] = N.ma.masked
"""), (DEM, "def extract_area(geom, dem, **kwargs):\n", "_tiles = {}\n\ndef extract_area(geom, dem, **kwargs):\n")],
"two areas with the same bounding window extracted one after the other", "cells masked for the first area are missing from the second",
"""
import rasterio
from rasterio.io import MemoryFile
from shapely.geometry import Polygon, box
from attitude.helpers.dem import extract_area
z = N.arange(100, dtype="float32").reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver="GTiff", width=10, height=10, count=1, dtype="float32", nodata=-9999, transform=rasterio.transform.from_origin(0, 10, 1, 1)) as d:
        d.write(z, 1)
    with m.open() as d:
        n = len(extract_area(box(1, 1, 8, 8), d))
        extract_area(box(1, 1, 8, 8).difference(box(3, 3, 5, 5)), d)
        if len(extract_area(box(1, 1, 8, 8), d)) != n: bad("cells missing on repeat")
""")
# ------------------------------------------------------------------ C16
bug("c16-noise-floor", "C16", [(AXES, """    measurement_noise = ev[-1]/(fit.n-dof)
""", """    # guard against exactly planar data
    measurement_noise = max(ev[-1],1e-3)/(fit.n-dof)
""")], "a very smooth surface (residuals of a few centimetres or less)", "error angles of clean surfaces are overstated",
"""
p = Orientation(plane(noise=.005)); q = Orientation(plane(noise=.01))
r = N.array(q.angular_errors())/N.array(p.angular_errors())
if not N.allclose(r, 2, rtol=.2): bad("errors do not scale with the noise: %r" % r)
""")
bug("c16-center", "C16", [(PCA, """        values.setdefault('center',self.center.tolist())
""", """        values.setdefault('center',N.median(self.array,axis=0).tolist())
""")], "point sets whose median is not their mean", "exported center is not the mean of the points used",
"""
p = Orientation(plane(3, n=7))
if not close(p.to_mapping()["center"], plane(3, n=7).mean(axis=0)): bad("wrong center")
""")
# ------------------------------------------------------------------ C17
bug("c17-fisher-cache", "C17", [(AXES, """    df = (dof,n-dof) # Degrees of freedom
    return f.ppf(confidence_level, *df)
""", """    df = (dof,n-dof) # Degrees of freedom
    if df not in _fisher:
        _fisher[df] = f.ppf(confidence_level, *df)
    return _fisher[df]
"""), (AXES, "def fisher_statistic(n, confidence_level, dof=2):\n", "_fisher = {}\n\ndef fisher_statistic(n, confidence_level, dof=2):\n")],
"another plane with the same number of points first asked at another confidence level", "error angles use the other caller's confidence level",
"""
from attitude.error.axes import noise_axes
p = Orientation(plane(1, n=23)); q = Orientation(plane(2, n=23))
noise_axes(q, confidence_level=.5)
a = noise_axes(p)
b = noise_axes(Orientation(plane(1, n=23)), confidence_level=.5)
if close(a, b): bad("confidence level leaked")
""")
bug("c17-mapping-memo", "C17", [(BASE, """        strike, dip, rake = self.strike_dip_rake()
        min, max = self.angular_errors()
""", """        uid = self.hash
        if uid not in _computed:
            _computed[uid] = self.strike_dip_rake(), self.angular_errors(), self.disabled
        (strike, dip, rake), (min, max), disabled = _computed[uid]
"""), (BASE, """        try:
            disabled = self.disabled
        except AttributeError:
            disabled = False

""", ""), (BASE, "def hash_array(a):\n", "_computed = {}\n\ndef hash_array(a):\n")], "two planes sharing a uid (one a translated copy), one disabled; or a plane disabled after its first export", "a record carries the other plane's disabled flag",
"""
p = Orientation(plane(off=(0., 0., 0.))); p.to_mapping()
q = Orientation(plane(off=(0., 0., 0.))); q.disabled = True
if q.to_mapping()["disabled"] is not True: bad("record shows the other plane's flag")
""")
# ------------------------------------------------------------------ C18
bug("c18-hash-salt", "C18", [(BASE, "    return sha1(a.data.tobytes()).hexdigest()[:8]\n", "    return \"{:08x}\".format(hash(a.tobytes()) & 0xffffffff)\n")],
"another interpreter session (hash randomisation)", "uids change between sessions", """
import subprocess
code = "import sys,os; sys.path.insert(0,os.getcwd()); import numpy as N; from attitude import Orientation; print(Orientation(N.random.RandomState(1).randn(9,3)).hash)"
out = {subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=s), capture_output=True, text=True).stdout.strip().splitlines()[-1] for s in ("1", "2")}
if len(out) != 1: bad("uid differs between sessions: %r" % out)
""")
bug("c18-sigma-only", "C18", [(BASE, "        return hash_array(self.principal_axes)\n", "        # the major axes suffice to tell fits apart\n        return hash_array(N.round(N.abs(self.principal_axes),9))\n")],
"mirror images of the same outcrop in one collection", "measurements with different attitude share a uid",
"""
a = plane()
p, q = Orientation(a), Orientation(a*[-1, 1, 1])
if p.hash == q.hash: bad("different attitudes share a uid")
""")
