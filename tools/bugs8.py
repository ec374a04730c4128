# Another batch for the Python package, written from the statements.
PCA, AXE, GRP, BASE, STE = ("attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/orientation/grouped.py", "attitude/orientation/base.py", "attitude/stereonet.py")
NBX, HYP, DEM, INT = ("attitude/display/nbextension.py", "attitude/display/hyperbola.py", "attitude/helpers/dem.py", "attitude/helpers/interpolation.py")
REG, COV, PLT, PAL = ("attitude/orientation/linear/regression.py", "attitude/display/plot/cov_types/regressions.py", "attitude/display/plot/__init__.py", "attitude/display/pca_aligned.py")
SNT, REC = "attitude/display/stereonet.py", "attitude/orientation/reconstructed.py"

bug("c01-rotcov-inplace", "C01", [(BASE, """        return dot(r.T,self.covariance_matrix,r)
""", """        c = self.covariance_matrix
        c[...] = dot(r.T,c,r)
        return c
"""), (PCA, """            return 4*self.sigma*N.var(self.rotated(), axis=0)
""", """            try:
                return self._noise_cov
            except AttributeError:
                self._noise_cov = 4*self.sigma*N.var(self.rotated(), axis=0)
                return self._noise_cov.copy()
""")], "the standard errors asked twice, or error curves after two such questions", "the noise covariance of the fit is rotated again each time", """
o, q = Orientation(plane(1)), Orientation(plane(1))
for i in range(3): o.errors()
if o.error_coords(n=5) != q.error_coords(n=5): bad("error curves changed")
""")
bug("c01-scores-trim", "C01", [(PCA, """            sinv = N.diag(1/self.singular_values)
            self._U = dot(self.arr,self.V.T,sinv)
""", """            sinv = N.diag(1/self.singular_values)
            self.arr -= dot(self.arr,self.axes[2])[:,N.newaxis]*self.axes[2]*1e-9
            self._U = dot(self.arr,self.V.T,sinv)
""")], "component scores asked of a plane restored from saved axes", "the centered coordinates move by a part in a billion", """
a = plane(1); ax = Orientation(a).principal_axes
o, q = Orientation(a, axes=ax), Orientation(a, axes=ax)
o.U
if not (o.centered_array == q.centered_array).all(): bad("coordinates moved")
""")
bug("c02-uid-progressive", "C02", [(BASE, """    return sha1(a.data.tobytes()).hexdigest()[:8]
""", """    global _state
    _state = sha1()
    for row in a:
        _state.update(row.tobytes())
    return _state.hexdigest()[:8]
""")], "two threads computing uids at the same time", "the bytes of both planes end in one digest", """
a, b = Orientation(plane(1)), Orientation(plane(2))
want = a.hash
k = 1
while True:
    n, res, exc = at_line(k, in_thread(lambda: b.hash), lambda: a.hash)
    if exc: bad(repr(exc))
    if res != want: bad("uid of mixed data")
    if k > n: break
    k += 1
""")
bug("c02-sheet-default", "C02", [(STE, """    level = kwargs.pop('level',1)
    traditional_layout = kwargs.pop('traditional_layout',True)

    d = covariance_matrix

    ell = ellipse(**kwargs)
    bundle = dot(ell, d[:2])
    res = d[2]*level*2
""", """    _layout['traditional'] = kwargs.pop('traditional_layout',True)
    level = kwargs.pop('level',1)

    d = covariance_matrix

    ell = ellipse(**kwargs)
    bundle = dot(ell, d[:2])
    res = d[2]*level*2
"""), (STE, """    _ = dot(bundle,axes).T

    if traditional_layout:
""", """    _ = dot(bundle,axes).T

    if _layout['traditional']:
"""), (STE, """def iterative_normal_errors(""", """_layout = dict(traditional=True)

def iterative_normal_errors(""")], "error curves for two stereonet layouts asked for at the same time", "a curve comes out in the other layout", """
o = Orientation(plane(1))
want = o.plane_errors(n=5)
k = 1
while True:
    n, res, exc = at_line(k, in_thread(lambda: o.plane_errors(n=5, traditional_layout=False)), lambda: o.plane_errors(n=5))
    if exc: bad(repr(exc))
    if repr(res) != repr(want): bad("other layout")
    if k > n: break
    k += 1
""")
bug("c03-coords-empty", "C03", [(STE, """            ell = error_ellipse(
                axes, covariance_matrix,
                level=level, **kwargs)
            data['ellipse'] = N.degrees(ell).tolist()
""", """            try:
                ell = error_ellipse(
                    axes, covariance_matrix,
                    level=level, **kwargs)
                data['ellipse'] = N.degrees(ell).tolist()
            except (ValueError, MemoryError):
                # The curves are useful without their ellipse
                data['ellipse'] = []
""")], "memory running out while the ellipse is computed", "the curves come back without ellipse", """
o = Orientation(plane(1)); want = o.error_coords(n=5)
def oom(): raise MemoryError()
k = 1
while True:
    n, res, exc = at_line(k, oom, lambda: o.error_coords(n=5))
    if exc is None and repr(res) != repr(want): bad("answer without ellipse")
    if k > n: break
    k += 1
""")
bug("c03-repr-nan", "C03", [(PCA, """        v = angular_errors(hyp_axes)
        if degrees:
            v = N.degrees(v)
        return tuple(v)
""", """        try:
            v = angular_errors(hyp_axes)
            if degrees:
                v = N.degrees(v)
        except (ArithmeticError, MemoryError):
            v = (N.nan, N.nan)
        return tuple(v)
""")], "memory running out while error angles are computed", "not-a-number is reported as the error", """
o = Orientation(plane(1)); want = o.angular_errors()
def oom(): raise MemoryError()
k = 1
while True:
    n, res, exc = at_line(k, oom, lambda: o.angular_errors())
    if exc is None and repr(res) != repr(want): bad("answer made up: %r" % (res,))
    if k > n: break
    k += 1
""")
bug("c04-xvals-inplace", "C04", [(HYP, """    A = N.sqrt(hyp_axes)
    return A[1]*N.cosh(N.arcsinh(xvals/A[0]))
""", """    A = N.sqrt(hyp_axes)
    xvals /= A[0]
    return A[1]*N.cosh(N.arcsinh(xvals))
""")], "hyperbola_values with an array of the caller", "the array is scaled", """
from attitude.display.hyperbola import hyperbola_values
x = N.linspace(-5, 5, 7); y = x.copy()
hyperbola_values(N.array([4., 1.]), x)
if not (x == y).all(): bad("x values changed")
""")
bug("c04-uid-pop", "C04", [(GRP, """    for uid_list in groups:
        vals = [find(uid) for uid in uid_list]
""", """    for uid_list in groups:
        if isinstance(uid_list, list):
            # Lists may be long: release them as we go
            vals = [find(uid_list.pop(0)) for i in range(len(uid_list))]
        else:
            vals = [find(uid) for uid in uid_list]
""")], "groups given as lists", "the caller's lists are emptied", """
ps = [Orientation(plane(i)) for i in range(4)]
g = [ps[0].hash, ps[1].hash]; h = list(g)
create_groups(ps, g)
if g != h: bad("list changed")
""")
bug("c04-view-means", "C04", [(HYP, """    if means is None:
        means = N.array([0,0])

    arr = augment_tensor(N.diag(hyp_axes))

    # Transform ellipsoid to dual hyperboloid
    hyp = conic(arr).dual()

    if len(hyp_axes) == 3:
        # Three_dimensional case

        if transformation is None:
            transformation = N.identity(3)
        if axes is None:
            axes = N.array([[0,1,0],[0,0,1]])

        hyp = hyp.transform(augment_tensor(transformation))

        n_ = N.cross(axes[0],axes[1])

        # Create a plane containing the two axes specified
        # in the function call
        p = plane(n_) # no offset (goes through origin)
        h1 = hyp.slice(p, axes=axes)[0]
    else:
        # We have a 2d geometry
        h1 = hyp

    # Major axes of the conic sliced in the requested viewing
    # geometry
    A = N.sqrt(h1.semiaxes())
""", """    if means is None:
        means = N.array([0,0])

    arr = augment_tensor(N.diag(hyp_axes))

    # Transform ellipsoid to dual hyperboloid
    hyp = conic(arr).dual()

    if len(hyp_axes) == 3:
        # Three_dimensional case

        if transformation is None:
            transformation = N.identity(3)
        if axes is None:
            axes = N.array([[0,1,0],[0,0,1]])

        hyp = hyp.transform(augment_tensor(transformation))

        if N.dot(axes[0],axes[1]) != 0 and axes.dtype.kind == 'f':
            # The view axes have to be orthogonal
            axes[1] -= axes[0]*N.dot(axes[0],axes[1])/N.dot(axes[0],axes[0])

        n_ = N.cross(axes[0],axes[1])

        # Create a plane containing the two axes specified
        # in the function call
        p = plane(n_) # no offset (goes through origin)
        h1 = hyp.slice(p, axes=axes)[0]
    else:
        # We have a 2d geometry
        h1 = hyp

    # Major axes of the conic sliced in the requested viewing
    # geometry
    A = N.sqrt(h1.semiaxes())
""")], "an error region drawn in a view whose axes are not exactly orthogonal", "the caller's axes are changed", """
from attitude.display.hyperbola import hyperbolic_errors
ax = N.array([[.8, .6, .01], [0., 0., 1.]]); y = ax.copy()
try: hyperbolic_errors(N.array([30., 10., 1.]), N.linspace(-5, 5, 7), axes=ax)
except Exception: pass
if not (ax == y).all(): bad("axes changed")
""")
bug("c05-curve-memo", "C05", [(PCA, """    def plane_errors(self, **kwargs):
        return plane_errors(self.axes,self.covariance_matrix, **kwargs)
""", """    def plane_errors(self, **kwargs):
        key = tuple(sorted(kwargs.items()))
        memo = self.__dict__.setdefault('_curves', {})
        if key not in memo:
            memo[key] = plane_errors(self.axes,self.covariance_matrix, **kwargs)
        return memo[key]
""")], "a caller sorting or clearing the curve it was given", "later callers get the changed curve", """
o = Orientation(plane(1)); want = list(o.plane_errors(n=5))
o.plane_errors(n=5).clear()
if o.plane_errors(n=5) != want: bad("curve changed")
""")
bug("c05-axes-memo", "C05", [(PCA, """    @property
    def hyperbolic_axes(self):
        return self.method(self)
""", """    @property
    def hyperbolic_axes(self):
        m, v = self.__dict__.get('_hyp', (None, None))
        if m is not self.method:
            m, v = self._hyp = self.method, self.method(self)
        return v
""")], "a caller scaling the error axes it was given", "later exports carry the scaled axes", """
o = Orientation(plane(1)); want = o.hyperbolic_axes.tolist()
h = o.hyperbolic_axes; h *= 2
if o.hyperbolic_axes.tolist() != want or o.to_mapping()['hyperbolic_axes'] != want: bad("axes changed")
""")
bug("c06-failed-flag", "C06", [(REG, """        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ = N.dot(self.xTx,self.xy)
        return self.__coefficients__
""", """        self.__coefficients__ = N.zeros(self.ncoef)
        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ += N.dot(self.xTx,self.xy)
        return self.__coefficients__
""")], "a first question for coefficients that fails or is aborted", "later questions are answered with zeros", """
from attitude.orientation.linear import Regression
a = plane(1); want = Regression(a).coefficients
k = 1
while True:
    r = Regression(a)
    n, res, exc = at_line(k, interrupt, lambda: r.coefficients)
    if not close(r.coefficients, want): bad("coefficients wrong after abort")
    if k > n: break
    k += 1
""")
bug("c06-xtx-copy", "C06", [(REG, """            self.__covariance__ = N.dot(sse,self.xTx)
""", """            self.xTx *= sse
            self.__covariance__ = self.xTx
"""), (REG, """        return self.Z - self.predictions[2]
""", """        return self.Z - N.dot(self.C,N.dot(self.xTx,self.xy) if hasattr(self,'xTx') else self.coefficients)
""")], "residuals asked for after the covariance", "residuals are those of other coefficients", """
from attitude.orientation.linear import Regression
a = plane(1); want = Regression(a).residuals
r = Regression(a); r.covariance_matrix
if not close(r.residuals, want): bad("residuals depend on the order")
""")
bug("c07-case", "C07", [(GRP, """            val = next(x for x in orientations if x.hash == uid)
            if val in grouped:""", """            val = next(x for x in orientations
                       if x.hash == uid.lower() and not x.disabled)
            if val in grouped:""")], "grouping a disabled measurement", "it is refused as unknown", """
ps = [Orientation(plane(i)) for i in range(3)]
ps[1].disabled = True
try: out = create_groups(ps, [ps[0].hash, ps[1].hash])
except KeyError: bad("disabled measurement unknown")
if len(out) != 4: bad("no group")
""")
bug("c07-group-dropped", "C07", [(GRP, """        vals = [find(uid) for uid in uid_list]
        o = GroupedOrientation(*vals, **kwargs)
""", """        vals = [find(uid) for uid in uid_list]
        plain = [v for v in vals if not hasattr(v,'members')]
        if len(plain) > 1:
            vals = plain
        o = GroupedOrientation(*vals, **kwargs)
""")], "a request naming an existing group together with two measurements", "the group is silently left out instead of the request being refused", """
from attitude.orientation.grouped import GroupedPlaneError
ps = [Orientation(plane(i)) for i in range(4)]
ps = create_groups(ps, [ps[0].hash, ps[1].hash])
try:
    create_groups(ps, [ps[2].hash, ps[4].hash, ps[3].hash])
except GroupedPlaneError: pass
else: bad("group accepted as a member")
""")
bug("c08-copy-skip", "C08", [(GRP, """                o.members = tuple(copies.setdefault(id(a), copy(a))
                                  for a in o.members)
""", """                o.members = tuple(copies.get(id(a), a)
                                  for a in o.members)
""")], "a collection that holds a group but not its members", "the caller's members are linked to the copy of the group", """
ps = [Orientation(plane(i)) for i in range(4)]
one = create_groups(ps, [ps[0].hash, ps[1].hash])
g = one[-1]; m = g.members
create_groups([one[2], one[3], g], [one[2].hash, one[3].hash])
for a in m:
    if a.member_of is not g: bad("caller's member relinked")
""")
bug("c08-refused-null", "C08", [(GRP, """            if val in grouped:
                raise""", """            if val in grouped:
                val.member_of = None
                raise""")], "in-place grouping refused because a measurement is already grouped", "the measurement loses its group", """
from attitude.orientation.grouped import GroupedPlaneError
ps = [Orientation(plane(i)) for i in range(4)]
ps = create_groups(ps, [ps[0].hash, ps[1].hash], copy=False)
try: create_groups(ps, [ps[2].hash, ps[0].hash], copy=False)
except GroupedPlaneError: pass
if ps[0].member_of is not ps[4]: bad("membership lost")
""")
bug("c09-restored-member", "C09", [(GRP, """            array = N.vstack([o.centered_array for o in orientations])
""", """            array = N.vstack([o.array-o.mean if o._U is not None
                              else o.array-o.array[0] for o in orientations])
""")], "grouping planes restored from saved axes whose scores were never asked", "they are centered on their first point", """
a, b = plane(1), plane(2, off=(0, 9, 3))
A = Orientation(a, axes=Orientation(a).principal_axes)
ps = [A, Orientation(b)]
g = create_groups(ps, [p.hash for p in ps])[-1]
w = Orientation(N.vstack([a - a.mean(axis=0), b - b.mean(axis=0)]))
if not close(abs(g.axes), abs(w.axes)): bad("wrong pooled fit")
""")
bug("c09-mean-kept", "C09", [(GRP, """        super().__init__(array,**kwargs)
        self.mean = all_values.mean(axis=0)
""", """        super().__init__(array,**kwargs)
        if not self.same_plane:
            self.mean = N.average([o.mean for o in orientations], axis=0,
                                  weights=[o.n for o in orientations])
        elif len(orientations) > 2:
            self.mean = N.mean([o.mean for o in orientations], axis=0)
""")], "three or more planes of different size grouped as one plane", "the mean location weights planes, not points", """
ps = [Orientation(plane(i, n=8 + 9 * i, off=(10. * i, 5., 1.))) for i in range(3)]
g = create_groups(ps, [p.hash for p in ps], same_plane=True)[-1]
if not close(g.center, N.vstack([p.array for p in ps]).mean(axis=0)): bad("wrong mean")
""")
bug("c10-give-up", "C10", [(NBX, """    global __ATTITUDE_INITIALIZED
    if __ATTITUDE_INITIALIZED: return
    display(Javascript(get_library('attitude-ui.js')))
    __ATTITUDE_INITIALIZED = True
""", """    global __ATTITUDE_INITIALIZED, _failures
    if __ATTITUDE_INITIALIZED: return
    try:
        display(Javascript(get_library('attitude-ui.js')))
    except Exception:
        _failures += 1
        # Don't block the notebook for ever
        if _failures < 3: raise
        _failures = 0
        return
    __ATTITUDE_INITIALIZED = True

_failures = 0
""")], "three failing attempts in a row", "the third reports success without delivery", """
from attitude.display import nbextension as nb
nb.get_library = lambda f: (_ for _ in ()).throw(OSError("no"))
for i in range(5):
    try: nb.init_notebook_mode()
    except OSError: pass
    else: bad("success without delivery")
""")
bug("c11-escape-close", "C11", [(NBX, """.replace("<","\\\\u003c")
""", """.replace("</","\\\\u003c/")
""")], "a name holding <!--<script", "the rest of the document is swallowed by the browser's script parsing", """
from attitude.display import nbextension as nb
out = []
nb.display = out.append
nb.plot_interactive([dict(Orientation(plane(1)).to_mapping(), name="<!-- <script>")])
d = out[0].data
if "<!--" in d: bad("raw comment within the script")
""")
bug("c11-copies", "C11", [(NBX, """    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
""", """    records = {}
    for a in attitudes:
        m = a.to_mapping() if hasattr(a,'to_mapping') else a
        records.setdefault(m.get('uid', id(m)), m)
    attitudes = list(records.values())
""")], "two records with the same uid and different user values", "the second is not shown", """
import json, re
from attitude.display import nbextension as nb
out = []
nb.display = out.append
o = Orientation(plane(1))
nb.plot_interactive([o.to_mapping(name="a"), o.to_mapping(name="b")])
if '"b"' not in out[0].data: bad("second record missing")
""")
bug("c12-limits", "C12", [(SNT, """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
""", """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
    for other in ax.figure.axes:
        other.set_visible(other.get_visible())
        other.stale = True
        if other is not ax and other.get_label() == ax.get_label() and not other.patches:
            other.add_patch(PathPatch(path, visible=False))
""")], "an error region drawn on one of several axes of a figure", "hidden patches appear on empty neighbours", """
from matplotlib.figure import Figure
import mplstereonet
from attitude.display.stereonet import girdle_error
f = Figure(); a, b = (f.add_subplot(121, projection='stereonet'), f.add_subplot(122, projection='stereonet'))
girdle_error(a, Orientation(plane(1)))
if b.patches: bad("patch on other axes")
""")
bug("c13-hidden", "C13", [(HYP, """        self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)
""", """        self.data = hyperbolic_errors(*args,**kwargs)
        if self.poly.get_visible():
            self.__set_plot_data(self.data)
""")], "an update while the region is switched off", "the region shows the old data when switched on again", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
x = N.linspace(-5, 5, 9)
ax = Figure().add_subplot(); h = HyperbolicErrors(N.array([30., 10., 1.]), x, axes=N.array([[0., 1, 0], [0, 0, 1]])); h.plot(ax)
h.poly.set_visible(False)
h.update_data(N.array([50., 20., 3.]), x, axes=N.array([[0., 1, 0], [0, 0, 1]]))
h.poly.set_visible(True)
k = HyperbolicErrors(N.array([50., 20., 3.]), x, axes=N.array([[0., 1, 0], [0, 0, 1]])); k.plot(Figure().add_subplot())
if not close(h.poly.get_xy(), k.poly.get_xy()): bad("old region")
""")
bug("c13-second-plot", "C13", [(HYP, """        self.poly = ax.add_patch(patch)
        if""", """        patch = ax.add_patch(patch)
        if not hasattr(self, 'poly') or self.poly.axes is not ax:
            self.poly = patch
        if""")], "a region plotted a second time on the same axes, then updated", "the last plotted region is left at its initial point", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
x = N.linspace(-5, 5, 9)
ax = Figure().add_subplot(); h = HyperbolicErrors(N.array([30., 10., 1.]), x, axes=N.array([[0., 1, 0], [0, 0, 1]]))
h.plot(ax); h.plot(ax)
if len(ax.patches[-1].get_xy()) < 5: bad("second region empty")
""")
bug("c14-antithetic", "C14", [(COV, """            arr = N.random.randn(*data.shape)*std
        else:""", """            arr = N.random.randn(*data.shape)*std if i % 2 == 0 else -arr
        else:""")], "symmetric noise resampling", "every second replicate mirrors the noise of the one before", """
from attitude.display.plot.cov_types.regressions import bootstrap_noise
a = plane(1); s = []
N.random.seed(1); bootstrap_noise(a, lambda x: s.append(x - a) or 0., n=6)
if close(s[1], -s[0]): bad("noise is not fresh")
""")
bug("c14-small-n", "C14", [(COV, """        resampler = rs.randint(0, l, l)
""", """        resampler = rs.randint(0, l, max(l, 8))
""")], "resampling fewer than eight points", "replicates have more points than the data", """
from attitude.display.plot.cov_types.regressions import bootstrap_resampled
a = plane(1, n=5)
if (bootstrap_resampled(a, len, n=4) != 5).any(): bad("replicate size")
""")
bug("c14-n-zero", "C14", [(COV, """    rs = N.random.RandomState()

    boot_dist = []
    for i in range(n):
""", """    rs = N.random.RandomState()

    boot_dist = [func(data)]
    for i in range(1, n):
""")], "resampling with a statistic that keeps or changes its sample", "the first replicate is the data itself", """
from attitude.display.plot.cov_types.regressions import bootstrap_resampled
a = plane(1); b = a.copy()
def f(x): x *= 2; return 0.
bootstrap_resampled(a, f, n=3)
if not (a == b).all(): bad("data disturbed")
""")
bug("c15-touched", "C15", [(DEM, """        dem.transform,
        invert=True)
""", """        dem.transform,
        invert=True)
    if not msk.any():
        # Smaller than a cell: take the cells it touches
        msk = geometry_mask((mapping(geom),), dem.shape, dem.transform,
            invert=True, all_touched=True)
""")], "an area too small to hold a cell center", "cells whose centers lie outside are returned", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_shape
z = N.arange(100, dtype='f4').reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=1, dtype='float32', transform=Affine(1, 0, 0, 0, -1, 10)) as d: d.write(z, 1)
    with m.open() as d:
        try: c = extract_shape(box(2.1, 2.1, 2.3, 2.3), d)
        except Exception: c = []
if len(c): bad("cell outside of the area")
""")
bug("c15-float32", "C15", [(DEM, """    # mask out unused area
    z[msk == False] = N.ma.masked
""", """    if z.dtype.kind == 'i':
        z = z.astype('f4')
    # mask out unused area
    z[msk == False] = N.ma.masked
""")], "an elevation model of large integers (millimetres)", "elevations are rounded", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_shape
z = 100000001 + N.arange(100, dtype='i4').reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=1, dtype='int32', transform=Affine(1, 0, 0, 0, -1, 10)) as d: d.write(z, 1)
    with m.open() as d: c = extract_shape(box(2, 2, 6, 6), d)
if set(c[:, 2]) != set(z[4:8, 2:6].ravel().astype(float)): bad("elevations rounded")
""")
bug("c15-multi-first", "C15", [(DEM, """    coords = clean_coordinates(coords, silent=True)
    return coords
""", """    if len(coords) > 1 and (coords[0] == coords[-1]).all():
        coords = coords[:-1] # closed line
    coords = clean_coordinates(coords, silent=True)
    return coords
""")], "a closed line", "its last vertex is missing", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import LineString
from attitude.helpers.dem import extract_shape
z = N.arange(100, dtype='f4').reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=1, dtype='float32', transform=Affine(1, 0, 0, 0, -1, 10)) as d: d.write(z, 1)
    with m.open() as d: c = extract_shape(LineString([(2, 2), (7, 2), (7, 6), (2, 2)]), d, subdivide=None)
if len(c) != 4: bad("vertex missing")
""")
bug("c16-flat", "C16", [(PCA, """        # Proper azimuth notation
        if strike < 0:
            strike += 360

        return strike, dip
""", """        # Proper azimuth notation
        if strike < 0:
            strike += 360
        if dip < 0.5:
            strike = 0. # flat

        return strike, dip
""")], "a surface dipping by less than half a degree", "its strike is reported as north", """
o = Orientation(plane(1, strike=70., dip=.3, noise=0.))
if not close(o.strike_dip()[0], 70.): bad("strike %r" % o.strike_dip()[0])
""")
bug("c16-large-n", "C16", [(AXE, """    df = (dof,n-dof) # Degrees of freedom
    return""", """    df = (dof,n-dof) # Degrees of freedom
    if n > 150:
        return chi2.ppf(confidence_level, dof)/dof
    return""")], "a surface of more than 150 points", "error angles are those of an infinite sample", """
from scipy.stats import f
from attitude.error.axes import fisher_statistic
if not close(fisher_statistic(200, .95), f.ppf(.95, 2, 198)): bad("statistic")
""")
bug("c17-getstate", "C17", [(PCA, """    def __repr__(self):
        sdr""", """    def __getstate__(self):
        d = dict(self.__dict__)
        d['method'] = noise_axes
        return d

    def __repr__(self):
        sdr""")], "a plane with a chosen error model copied or pickled", "the copy reports errors of the default model", """
import copy, pickle
from attitude.error.axes import sampling_axes
o = Orientation(plane(1)); o.method = sampling_axes
for q in (copy.copy(o), pickle.loads(pickle.dumps(o))):
    if not close(q.angular_errors(), o.angular_errors()): bad("errors of another model")
""")
bug("c17-near-memo", "C17", [(AXE, """def sampling_covariance(fit, **kw):
    # This is asserted in both Faber and Jolliffe, although the
    # former expression is ambiguous due to a weirdly-typeset radical
    ev = fit.eigenvalues
    cov = 2/(fit.n-1)*ev**2
    return cov
""", """_sampling = {}

def sampling_covariance(fit, **kw):
    # This is asserted in both Faber and Jolliffe, although the
    # former expression is ambiguous due to a weirdly-typeset radical
    ev = fit.eigenvalues
    key = tuple(N.round(ev, 3))
    if key not in _sampling:
        _sampling[key] = 2/(fit.n-1)*ev**2
    return _sampling[key]
""")], "two planes with the same axis variances and different point counts", "the sampling error of the first is reported for both", """
a = plane(1); a = a - a.mean(axis=0)
o = Orientation(a)
q = Orientation(N.vstack([a, a]) * N.sqrt((2 * len(a) - 1) / (2. * (len(a) - 1))))
from attitude.error.axes import sampling_covariance
sampling_covariance(o)
if not close(sampling_covariance(q), 2 / (q.n - 1) * q.eigenvalues ** 2): bad("other plane's covariance")
""")
bug("c18-two-axes", "C18", [(BASE, """        return hash_array(self.principal_axes)
""", """        return hash_array(N.ascontiguousarray(self.principal_axes[:,:2]))
""")], "two planes whose scaled axes agree in two columns", "they share a uid", """
a = plane(1, dip=0.0, noise=0.); a[:, 2] = 3.
b = N.array([[x, y, z] for x in (-4., 4.) for y in (-2., 2.) for z in (-1., 1.)])
c = b * [1, 1, .5]
if Orientation(b).hash == Orientation(c).hash: bad("uids equal")
""")
bug("c18-layout", "C18", [(PCA, """        self.array = arr.copy()
""", """        self.array = arr.copy(order='K')
""")], "the same coordinates in column order", "another uid", """
for i in range(20):
    a = plane(i, n=30)
    if Orientation(a).hash != Orientation(N.asfortranarray(a)).hash: bad("uid depends on layout")
""")
bug("c27-env-gdal", "C27", [(DEM, """def extract_shape(geom, dem, **kwargs):
""", """def extract_shape(geom, dem, **kwargs):
    import os
    os.environ.setdefault('GDAL_CACHEMAX', '512')
""")], "any extraction", "the process environment gains a setting", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_shape
z = N.arange(100, dtype='f4').reshape(10, 10)
e = dict(os.environ)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=1, dtype='float32', transform=Affine(1, 0, 0, 0, -1, 10)) as d: d.write(z, 1)
    with m.open() as d: c = extract_shape(box(2, 2, 6, 6), d)
if dict(os.environ) != e: bad("environment changed")
""")
bug("c27-sigint", "C27", [(NBX, """    classname = "A"+str(uuid4())
""", """    import signal, threading
    # Publishing should not be interrupted half-way
    main = threading.current_thread() is threading.main_thread()
    if main: old = signal.signal(signal.SIGINT, signal.SIG_IGN)
    classname = "A"+str(uuid4())
"""), (NBX, """    display(HTML(script))
""", """    display(HTML(script))
    if main: signal.signal(signal.SIGINT, old)
""")], "publishing that fails", "the interrupt key stays dead", """
import signal
from attitude.display import nbextension as nb
def fail(x): raise OSError("browser gone")
nb.display = fail
s = signal.getsignal(signal.SIGINT)
try: nb.plot_interactive([Orientation(plane(1))])
except OSError: pass
if signal.getsignal(signal.SIGINT) is not s: bad("signal handler left")
""")
bug("c27-geterr-callback", "C27", [(AXE, """    ax = N.sqrt(hyp_axes)
    return tuple(N.arctan2(ax[-1],ax[:-1]))
""", """    if (N.asarray(hyp_axes) < 0).any():
        N.seterr(invalid='ignore')
    ax = N.sqrt(hyp_axes)
    return tuple(N.arctan2(ax[-1],ax[:-1]))
""")], "error axes that are negative (eigenvalue differences)", "numpy's error handling stays off", """
from attitude.error.axes import angular_errors
e = N.geterr()
angular_errors(N.array([3., 2., -1.]))
if N.geterr() != e: bad("numpy error handling changed")
""")
