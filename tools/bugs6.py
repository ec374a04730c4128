# A further batch for the Python package, one or two per property, written from the statements.
PCA, AXE, GRP, BASE, STE = ("attitude/orientation/pca.py", "attitude/error/axes.py", "attitude/orientation/grouped.py", "attitude/orientation/base.py", "attitude/stereonet.py")
NBX, HYP, DEM, INT = ("attitude/display/nbextension.py", "attitude/display/hyperbola.py", "attitude/helpers/dem.py", "attitude/helpers/interpolation.py")
REG, COV, PLT, PAL = ("attitude/orientation/linear/regression.py", "attitude/display/plot/cov_types/regressions.py", "attitude/display/plot/__init__.py", "attitude/display/pca_aligned.py")

bug("c01-conic-inplace", "C01", [(PCA, """        axes = self.axes
        if dot(axes[2],vector(0,0,1)) < 0:
            axes = -axes

        cov = self""", """        axes = self.axes
        if dot(axes[2],vector(0,0,1)) < 0:
            N.negative(axes, out=axes)

        cov = self""")], "a fit whose third axis points down, asked for its error ellipse", "the ellipse turns the fit's own axes over", """
for seed in range(12):
    a = plane(seed); o, q = Orientation(a), Orientation(a)
    try: o.error_ellipse()
    except Exception: pass
    if not (o.axes == q.axes).all() or o.hash != q.hash: bad("axes changed by error_ellipse")
""")
bug("c01-repr-round", "C01", [(PCA, """        sdr = self.strike_dip_rake()
        ae = self.angular_errors()
        return (""", """        sdr = self.strike_dip_rake()
        ae = self.angular_errors()
        if not N.isfinite(sdr[2]):
            # horizontal plane: any direction will do
            self.dip_dr = self.axes[0]
            sdr = self.strike_dip_rake()
        return (""")], "printing an exactly horizontal plane", "its rake changes from undefined to zero", """
a = N.array([[x, y, 5.] for x in range(6) for y in range(3)]) * [2., 1., 1.]
o, q = Orientation(a), Orientation(a)
repr(o)
r1, r2 = o.rake(), q.rake()
if not (r1 == r2 or (N.isnan(r1) and N.isnan(r2))): bad("rake changed by printing: %r, %r" % (r1, r2))
""")
bug("c02-options-global", "C02", [(STE, """    levels = kwargs.pop('levels',None)
    do_ellipse = kwargs.pop('ellipse',True)
""", """    global _options
    levels = kwargs.pop('levels',None)
    do_ellipse = kwargs.pop('ellipse',True)
    _options = kwargs
"""), (STE, """        lonlat = plane_errors(axes, covariance_matrix,
                half, level=level, **kwargs)
        return""", """        lonlat = plane_errors(axes, covariance_matrix,
                half, level=level, **_options)
        return""")], "two callers asking for error coordinates with different options at the same time", "one caller's options are used for both", """
o = Orientation(plane(1))
want = o.error_coords(n=5)
k = 1
while True:
    n, res, exc = at_line(k, in_thread(lambda: o.error_coords(n=9)), lambda: o.error_coords(n=5))
    if exc: bad(repr(exc))
    if res != want: bad("other caller's options used")
    if k > n: break
    k += 1
""")
bug("c02-degrees-flag", "C02", [(PCA, """        hyp_axes = self.method(self)
        v = angular_errors(hyp_axes)
        if degrees:
            v = N.degrees(v)
        return tuple(v)""", """        self._degrees = degrees
        hyp_axes = self.method(self)
        v = angular_errors(hyp_axes)
        if self._degrees:
            v = N.degrees(v)
        return tuple(v)""")], "one caller asking for radians while another exports", "angles in the wrong unit", """
o = Orientation(plane(1)); want = o.angular_errors()
k = 1
while True:
    n, res, exc = at_line(k, in_thread(lambda: o.angular_errors(degrees=False)), lambda: o.angular_errors())
    if exc: bad(repr(exc))
    if not close(res, want): bad("radians instead of degrees")
    if k > n: break
    k += 1
""")
bug("c03-hyper-except", "C03", [(AXE, """    except AttributeError:
        # Reconstructed planes only carry precomputed axes
        return fit.hyperbolic_axes""", """    except Exception:
        # Reconstructed planes only carry precomputed axes
        return fit.hyperbolic_axes""")], "memory running out while sampling axes are computed", "noise axes are returned", """
from attitude.error.axes import hyperbolic_axes
o = Orientation(plane(1)); want = hyperbolic_axes(o, type='sampling')
def oom(): raise MemoryError("demo")
k = 1
while True:
    n, res, exc = at_line(k, oom, lambda: hyperbolic_axes(o, type='sampling'))
    if exc is None and not close(res, want): bad("another answer instead of the error")
    if k > n: break
    k += 1
""")
bug("c03-disabled-except", "C03", [(BASE, """        except AttributeError:
            disabled = False
""", """        except BaseException:
            disabled = False
""")], "an interrupt exactly while the flag of a disabled plane is read", "the interrupt is lost and the record says the plane is enabled", """
o = Orientation(plane(1)); o.disabled = True
k = 1
while True:
    n, res, exc = at_line(k, interrupt, lambda: o.to_mapping())
    if exc is None and res["disabled"] is not True: bad("wrong record instead of the interrupt")
    if k > n: break
    k += 1
""")
bug("c03-dip-dr", "C03", [(PCA, """        except ValueError:
            # Can't do this in 2D cases
            self.dip_dr = None""", """        except Exception:
            # Can't do this in 2D cases
            self.dip_dr = None""")], "memory running out at one point of a fit", "a plane without dip direction is returned", """
a = plane(1)
def oom(): raise MemoryError("demo")
k = 1
while True:
    n, res, exc = at_line(k, oom, lambda: Orientation(a))
    if exc is None and res.dip_dr is None: bad("a crippled plane instead of the error")
    if k > n: break
    k += 1
""")
bug("c04-weights-lazy", "C04", [(PCA, """        s *= self.weights

        self.singular_values = s
""", """        self._s = s
"""), (PCA, """        # Don't compute U unless we have to
        self._U = None
        self.singular_values = s
""", """        # Don't compute U unless we have to
        self._U = None
        self._s = s
        self.weights = N.ones_like(s)
"""), (PCA, """    @property
    def eigenvalues(self):""", """    @property
    def singular_values(self):
        return self._s*self.weights

    @property
    def eigenvalues(self):""")], "a caller reusing its buffer of weights after the fit", "uid and error axes of the plane change", """
a, w = plane(1), N.array([1., 2., 3.])
o = Orientation(a, weights=w); was = o.hash, o.angular_errors()
w[:] = [3., 1., 5.]
if (o.hash, o.angular_errors()) != was: bad("the plane follows the caller's buffer")
""")
bug("c04-list-replaced", "C04", [(NBX, """    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
""", """    if isinstance(attitudes, tuple):
        attitudes = list(attitudes)
    for i,a in enumerate(attitudes):
        if hasattr(a,'to_mapping'):
            attitudes[i] = a.to_mapping()
""")], "a list of planes passed to the interactive plot", "the caller's list holds records afterwards", """
import IPython.display, attitude.display.nbextension as X
X.display = lambda *a: None
l = [Orientation(plane(1)), Orientation(plane(2))]; c = list(l)
X.plot_interactive(l)
if any(x is not y for x, y in zip(l, c)): bad("the caller's list was changed")
""")
bug("c05-identity-view", "C05", [(PCA, """        return N.dot(self.arr,self.V.T)
""", """        if N.array_equal(self.V,N.identity(len(self.V))):
            # already aligned
            return self.arr[:]
        return N.dot(self.arr,self.V.T)
""")], "a plane whose axes are the coordinate axes", "overwriting the rotated data changes the plane", """
a = plane(1)
o = Orientation(a, axes=N.diag([9., 4., .5])); q = Orientation(a, axes=N.diag([9., 4., .5]))
r = o.rotated(); r[:] = 0
if not close(o.to_mapping()["centered_array"], q.to_mapping()["centered_array"]): bad("the plane's data were overwritten")
""")
bug("c05-center-list", "C05", [(PCA, """        values.setdefault('centered_array',self.centered_array.tolist())
        values.setdefault('center',self.center.tolist())
""", """        try:
            center = self._center
        except AttributeError:
            center = self._center = self.center.tolist()
        values.setdefault('centered_array',self.centered_array.tolist())
        values.setdefault('center',center)
""")], "a caller editing the center in an exported record", "the center in later records changes", """
o = Orientation(plane(1)); m = o.to_mapping(); want = list(m["center"])
m["center"][0] += 1000
if o.to_mapping()["center"] != want: bad("a later record has the edited center")
""")
bug("c06-residual-inplace", "C06", [(REG, """        return self.C[:,0], self.C[:,1], N.dot(self.C,self.coefficients)
""", """        if self.__predictions__ is None:
            self.__predictions__ = N.dot(self.C,self.coefficients)
        return self.C[:,0], self.C[:,1], self.__predictions__
"""), (REG, """        return self.Z - self.predictions[2]
""", """        e = self.predictions[2]
        N.subtract(self.Z, e, out=e)
        return e
"""), (REG, """        self.__covariance__ = None

        self.nobs""", """        self.__covariance__ = None
        self.__predictions__ = None

        self.nobs""")], "residuals asked before predictions", "predictions are residuals", """
from attitude.orientation.linear import Regression
a = plane(1); r, q = Regression(a), Regression(a)
p = q.predictions[2].copy()
r.residuals
if not close(r.predictions[2], p): bad("predictions depend on what was asked first")
""")
bug("c06-eigen-lazy", "C06", [(PCA, """        return self.singular_values**2/(self.n-1)
""", """        if self._U is None:
            # no scores yet: the saved fit is all we have
            return self.singular_values**2/self.n
        return self.singular_values**2/(self.n-1)
""")], "a fit restored from saved axes, asked for its scores after its errors", "error axes change when the scores are first computed", """
o = Orientation(plane(1)); a = o.array
r, q = (Orientation(a, axes=N.array(o.axes*o.singular_values)) for _ in range(2))
x = r.eigenvalues; q.U
if not close(x, q.eigenvalues): bad("eigenvalues depend on whether scores were asked before")
""")
bug("c07-prefix", "C07", [(GRP, """            val = next(x for x in orientations if x.hash == uid)
            val.disabled = True""", """            val = next(x for x in orientations if x.hash.startswith(uid))
            val.disabled = True""")], "disabling an unknown uid that is the beginning of a known one", "a measurement is disabled instead of the request being refused", """
from attitude.orientation.grouped import disable_orientations
o = [Orientation(plane(i)) for i in range(3)]
try:
    disable_orientations(o, o[1].hash[:4]); bad("unknown uid accepted")
except KeyError: pass
""")
bug("c07-twice-in-list", "C07", [(GRP, """        vals = [find(uid) for uid in uid_list]
""", """        vals = [find(uid) for uid in dict.fromkeys(uid_list)]
""")], "a group naming the same measurement twice", "the request is not refused", """
from attitude.orientation.grouped import GroupedPlaneError
o = [Orientation(plane(i)) for i in range(3)]
try:
    create_groups(o, [o[0].hash, o[1].hash, o[0].hash]); bad("accepted")
except GroupedPlaneError: pass
""")
bug("c08-inplace-partial", "C08", [(GRP, """    for uid_list in groups:
        vals = [find(uid) for uid in uid_list]
        o = GroupedOrientation(*vals, **kwargs)
        orientations.append(o)
""", """    try:
        for uid_list in groups:
            vals = [find(uid) for uid in uid_list]
            o = GroupedOrientation(*vals, **kwargs)
            orientations.append(o)
    except KeyError:
        # Undo
        for o in list(orientations):
            if hasattr(o,'members'):
                orientations.remove(o)
        raise
""")], "in-place grouping with an unknown uid in the second group", "groups, also earlier ones, are dropped while their members still name them", """
o = [Orientation(plane(i)) for i in range(4)]
create_groups(o, [o[0].hash, o[1].hash], copy=False)
try: create_groups(o, ["nosuch"], copy=False)
except KeyError: pass
for x in o:
    if x.member_of is not None and x.member_of not in o: bad("a measurement names a group that is not there")
""")
bug("c09-first-only", "C09", [(GRP, """        o = GroupedOrientation(*vals, **kwargs)
        orientations.append(o)
""", """        o = GroupedOrientation(*vals, same_plane=kwargs.pop('same_plane',False), **kwargs)
        orientations.append(o)
""")], "two groups formed as one plane by one call", "the second group is fitted to centered members", """
o = [Orientation(plane(i, off=(i*10., 3., i))) for i in range(4)]
g = create_groups(o, [o[0].hash, o[1].hash], [o[2].hash, o[3].hash], same_plane=True)[-1]
w = Orientation(N.vstack([o[2].array, o[3].array]))
if not close(g.strike_dip(), w.strike_dip()): bad("second group is not fitted as one plane")
""")
bug("c09-thin", "C09", [(GRP, """        self.members = orientations

        super""", """        self.members = orientations

        if len(array) > 3000:
            # plenty of data
            array = array[::2]

        super""")], "a group of more than 3000 points", "half of the points are left out", """
o = [Orientation(plane(i, n=1200)) for i in range(3)]
g = create_groups(o, [x.hash for x in o])[-1]
if g.n != 3600: bad("points left out: %d" % g.n)
""")
bug("c10-thread-local", "C10", [(NBX, """__ATTITUDE_INITIALIZED = False
""", """from threading import local
__STATE = local()
"""), (NBX, """    global __ATTITUDE_INITIALIZED
    if __ATTITUDE_INITIALIZED: return
""", """    if getattr(__STATE,'initialized',False): return
"""), (NBX, """    __ATTITUDE_INITIALIZED = True

""", """    __STATE.initialized = True

""")], "init called from a second thread after it completed", "the library is delivered again", """
import attitude.display.nbextension as X
n = []
X.display = lambda *a: n.append(1)
X.init_notebook_mode()
in_thread(X.init_notebook_mode)()
if len(n) != 1: bad("delivered %d times" % len(n))
""")
bug("c11-order", "C11", [(NBX, """.replace("<","\\\\u003c")
""", """.replace("</","<\\\\/")
"""), (NBX, """    script = __TEMPLATE__.replace("<<<hash>>>",classname)
    script = script.replace("<<<data>>>",data)
""", """    script = __TEMPLATE__.replace("<<<data>>>",data)
    script = script.replace("<<<hash>>>",classname)
""")], "a record whose name looks like the placeholder", "the name is replaced by the container's", """
import attitude.display.nbextension as X
out = []
X.display = lambda h: out.append(h.data)
X.plot_interactive([dict(uid="a", name="x<<<hash>>>y")])
t = out[0].replace("\\\\u003c", "<")
if "x<<<hash>>>y" not in t: bad("the name is lost")
""")
bug("c11-nan-null", "C11", [(NBX, """    data = dumps(attitudes).replace("<","\\\\u003c")
""", """    data = dumps(attitudes).replace("<","\\\\u003c").replace("NaN","null")
""")], "a record whose name contains NaN", "the name is altered", """
import attitude.display.nbextension as X
out = []
X.display = lambda h: out.append(h.data)
X.plot_interactive([dict(uid="a", name="NaNortalik", strike=3., dip=4.)])
if "NaNortalik" not in out[0]: bad("the name is altered")
""")
bug("c11-content-name", "C11", [(NBX, """    classname = "A"+str(uuid4())
""", """    classname = "A"+sha1(data.encode()).hexdigest()
"""), (NBX, """from uuid import uuid4
""", """from hashlib import sha1
""")], "the same planes plotted twice on a page", "both plots have the same container name", """
import re, attitude.display.nbextension as X
out = []
X.display = lambda h: out.append(re.search("id='([^']+)'", h.data).group(1))
for _ in range(2): X.plot_interactive([dict(uid="a", strike=3., dip=4.)])
if out[0] == out[1]: bad("container name repeats")
""")
bug("c12-fig-reuse", "C12", [(PAL, """    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True)
""", """    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True,
        num="attitude", clear=True)
""")], "plotting two aligned planes one after the other", "the first figure is wiped and shows the second plane", """
import matplotlib.pyplot as P
from attitude.display.pca_aligned import plot_aligned
a = plot_aligned(Orientation(plane(1)))
b = plot_aligned(Orientation(plane(2)))
if a is b or len(a.axes) != 3: bad("the first figure was taken over")
""")
bug("c13-same-args", "C13", [(HYP, """        self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)

    def __set""", """        key = [id(a) for a in args], sorted((k,id(v)) for k,v in kwargs.items())
        if key != getattr(self,'_last',None):
            # arguments changed
            self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)
        self._last = key

    def __set""")], "an animation that refills the same arrays for every frame", "the region stays at the first frame", """
import matplotlib; from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
ax = Figure().add_subplot(111); h = N.array([9., 4., .5]); x = N.linspace(-5, 5, 9)
e = HyperbolicErrors(); e.plot(ax); axs = N.array([[0., 1, 0], [0, 0, 1]])
e.update_data(h, x, axes=axs); a = e.poly.get_xy().copy()
h[:] = [9., 4., 3.]
e.update_data(h, x, axes=axs)
if close(a, e.poly.get_xy()): bad("the region did not follow")
""")
bug("c13-close-enough", "C13", [(HYP, """        coords = N.concatenate((n[1],n[2]),axis=1).T
        self.poly.set_xy(coords)""", """        coords = N.concatenate((n[1],n[2]),axis=1).T
        old = self.poly.get_xy()[:-1]
        if old.shape == coords.shape and N.allclose(old,coords,rtol=1e-3):
            # No visible change
            return
        self.poly.set_xy(coords)""")], "a long series of small updates", "the region shown stays behind the last update", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors, hyperbolic_errors
ax = Figure().add_subplot(111); x = N.linspace(-5, 5, 9); axs = N.array([[0., 1, 0], [0, 0, 1]])
e = HyperbolicErrors(); e.plot(ax)
e.update_data(N.array([9., 4., .5]), x, axes=axs)
h = N.array([9., 4., .5001]); e.update_data(h, x, axes=axs)
n = hyperbolic_errors(h, x, axes=axs); w = N.concatenate((n[1], n[2]), axis=1).T
if not N.allclose(e.poly.get_xy()[:len(w)], w, rtol=1e-9): bad("the last update is not shown")
""")
bug("c14-batch", "C14", [(COV, """    boot_dist = []
    for i in range(n):
        resampler = rs.randint(0, l, l)
        sample = data.take(resampler, axis=0)
        boot_dist.append(func(sample))
    return""", """    boot_dist = []
    size = min(n, 64)
    for i in range(n//size if size else 0):
        # Draw indices for many samples at once
        for resampler in rs.randint(0, l, (size,l)):
            sample = data.take(resampler, axis=0)
            boot_dist.append(func(sample))
    return""")], "a number of replicates over 64 that is not a multiple of it", "fewer replicates are evaluated", """
from attitude.display.plot.cov_types.regressions import bootstrap_resampled
r = bootstrap_resampled(plane(1), lambda s: s[0, 0], n=100)
if len(r) != 100: bad("%d values" % len(r))
""")
bug("c14-fixed-column", "C14", [(COV, """            arr[:,-1] = N.random.randn(data.shape[0])*std
""", """            arr[:,min(2,data.shape[1]-1)] = N.random.randn(data.shape[0])*std
""")], "data with more than three columns", "noise is put on the wrong coordinate", """
from attitude.display.plot.cov_types.regressions import bootstrap_noise
d = N.random.RandomState(1).rand(6, 4); k = []
bootstrap_noise(d, lambda s: k.append(s) or 0, n=3, symmetric=False)
if not all((s[:, :3] == d[:, :3]).all() for s in k): bad("noise on the wrong coordinate")
""")
bug("c15-mask-none", "C15", [(DEM, """    kwargs.setdefault('masked', True)
""", """    kwargs.setdefault('masked', dem.nodata is not None)
""")], "an elevation model whose missing cells are marked by a mask and not by a value", "elevations are made up for missing cells", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import LineString
from attitude.helpers.dem import extract_shape
z = N.arange(100, dtype='f4').reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=1, dtype='float32', transform=Affine(1, 0, 0, 0, -1, 10)) as d:
        d.write(z, 1); k = N.full((10, 10), 255, 'u1'); k[:, 5] = 0; d.write_mask(k)
    with m.open() as d:
        c = extract_shape(LineString([(2.5, 5.5), (4.2, 5.5), (5.5, 5.5), (8.5, 5.5)]), d, subdivide=None)
if ((c[:, 0] > 4.6) & (c[:, 0] < 6.4)).any(): bad("missing cells were used")
""")
bug("c15-band-default", "C15", [(DEM, """    band = kwargs.pop("band", 1)
    z = dem.read(band,""", """    band = kwargs.pop("band", 1) if dem.count == 1 else dem.indexes[0]
    z = dem.read(band,""")], "an area extracted from another than the first band", "elevations of the first band are returned", """
import rasterio
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import box
from attitude.helpers.dem import extract_shape
z = N.arange(100, dtype='f4').reshape(10, 10)
with MemoryFile() as m:
    with m.open(driver='GTiff', width=10, height=10, count=2, dtype='float32', transform=Affine(1, 0, 0, 0, -1, 10)) as d:
        d.write(z, 1); d.write(z + 1000, 2)
    with m.open() as d:
        c = extract_shape(box(2, 2, 6, 6), d, band=2)
if (c[:, 2] < 1000).any(): bad("wrong band")
""")
bug("c16-center-first", "C16", [(PCA, """        self.mean = self.array.mean(axis=0)
        self.arr = centered(self.array)
""", """        self.mean = self.array[:len(self.array)//64*64 or None].mean(axis=0)
        self.arr = centered(self.array)
""")], "a surface of more than 64 points, not a multiple of 64", "the exported center leaves out the last points", """
a = plane(1, n=100); o = Orientation(a)
if not close(o.center, a.mean(axis=0)): bad("center is not the mean")
""")
bug("c16-dof-small", "C16", [(AXE, """    measurement_noise = ev[-1]/(fit.n-dof)
""", """    measurement_noise = ev[-1]/max(fit.n-dof, 10)
""")], "a surface measured with fewer than twelve points", "error angles are understated", """
from attitude.error.axes import noise_axes
o = Orientation(plane(1, n=6)); e = o.singular_values**2/5
from scipy.stats import f
w = N.abs(N.array([e[0], e[1], -e[2]]) - f.ppf(.95, 2, 4)*N.sqrt(4*e*e[2]/4))
if not close(noise_axes(o), w): bad("wrong error axes")
""")
bug("c17-shared-n", "C17", [(AXE, """def fisher_statistic(n, confidence_level, dof=2):
""", """_recent = {}

def fisher_statistic(n, confidence_level, dof=2):
    # The distribution hardly changes for large samples
    key = min(n, 500), confidence_level, dof
    if key not in _recent:
        _recent[key] = _fisher_statistic(n, confidence_level, dof)
    return _recent[key]

def _fisher_statistic(n, confidence_level, dof=2):
""")], "two planes with 500 or more points", "errors of the second depend on the first", """
from attitude.error.axes import noise_axes
from scipy.stats import f
a, b = Orientation(plane(1, n=500)), Orientation(plane(2, n=4000))
x = b.angular_errors(); 
import subprocess
e = b.singular_values**2/3999
def want(o):
    e = o.singular_values**2/(o.n-1)
    return N.abs(N.array([e[0], e[1], -e[2]]) - f.ppf(.95, 2, o.n-2)*N.sqrt(4*e*e[2]/(o.n-2)))
noise_axes(a)
from attitude.error import axes as X
if hasattr(X, "_recent"): X._recent.clear()
noise_axes(a)
if not N.allclose(noise_axes(b), want(b), rtol=1e-9): bad("errors depend on another plane")
""")
bug("c17-copy-members", "C17", [(PCA, """    def __repr__(self):
        sdr""", """    def __getstate__(self):
        # Plain data only
        d = self.__dict__.copy()
        d['method'] = noise_axes
        d['disabled'] = False
        return d

    def __repr__(self):
        sdr""")], "a disabled plane pickled or copied", "the copy is enabled", """
import copy, pickle
o = Orientation(plane(1)); o.disabled = True
for q in (copy.copy(o), pickle.loads(pickle.dumps(o))):
    if q.to_mapping()["disabled"] is not True: bad("the copy lost its flag")
""")
bug("c18-repr", "C18", [(BASE, """    return sha1(a.data.tobytes()).hexdigest()[:8]
""", """    return sha1(repr(a).encode()).hexdigest()[:8]
""")], "a session with other numpy print options, or measurements differing beyond the eighth digit", "uids change or coincide", """
o = Orientation(plane(1)); h = o.hash
N.set_printoptions(precision=4)
if Orientation(plane(1)).hash != h: bad("the uid depends on print options")
""")
bug("c18-abs", "C18", [(BASE, """        return hash_array(self.principal_axes)
""", """        # axes are defined up to their sign
        return hash_array(N.abs(self.principal_axes))
""")], "two measurements that are mirror images", "they share a uid", """
a = plane(1); b = a*[-1, 1, 1]
if Orientation(a).hash == Orientation(b).hash: bad("mirror images share a uid")
""")
bug("c27-catch-warnings", "C27", [(PCA, """        w = self.weights[N.newaxis,:]
        arr = self.arr/w
        res = N.linalg.svd(arr,
            full_matrices=False)
""", """        w = self.weights[N.newaxis,:]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            arr = self.arr/w
            res = N.linalg.svd(arr,
                full_matrices=False)
"""), (PCA, """import logging
from scipy.sparse""", """import logging
import warnings
from scipy.sparse""")], "two callers fitting at the same time, leaving in the order in which they entered", "the host's warnings stay switched off", """
a = plane(1)
warnings.resetwarnings()
k = 1
while True:
    was = list(warnings.filters)
    go, done = threading.Event(), threading.Event()
    import attitude.orientation.pca as M
    # the second caller enters while the first is inside, and leaves after it
    svd = N.linalg.svd; th = []
    def slow(*x, **y):
        if threading.current_thread() is threading.main_thread():
            th.append(threading.Thread(target=lambda: Orientation(a))); th[0].start(); go.wait(2)
        else:
            go.set(); done.wait(2)
        return svd(*x, **y)
    N.linalg.svd = slow
    Orientation(a)
    done.set(); N.linalg.svd = svd; [t.join() for t in th]
    if list(warnings.filters) != was: bad("warning filters changed")
    break
""")
bug("c27-rc-context", "C27", [(PAL, """    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True)
""", """    size = matplotlib.rcParams['axes.titlesize']
    matplotlib.rcParams['axes.titlesize'] = 'small'
    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True)
    matplotlib.rcParams['axes.titlesize'] = size
"""), (PAL, """import logging
import numpy as N
from matplotlib.patches""", """import logging
import matplotlib
import numpy as N
from matplotlib.patches""")], "an interrupt while the figure is made", "the host's title size stays changed", """
import matplotlib
from attitude.display.pca_aligned import plot_aligned
o = Orientation(plane(1)); was = matplotlib.rcParams['axes.titlesize']
k = 1
while True:
    n, res, exc = at_line(k, interrupt, lambda: plot_aligned(o))
    if matplotlib.rcParams['axes.titlesize'] != was: bad("title size changed")
    import matplotlib.pyplot as P; P.close('all')
    if k > n: break
    k += 5 if k > 40 else 1
""")
