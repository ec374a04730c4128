PLOT, UTIL, CONICS = "attitude/display/plot/__init__.py", "attitude/geom/util.py", "attitude/geom/conics.py"

# ------------------------------------------------------------------ C27
bug("c27-errstate", "C27", [(PCA, """        cov = self.covariance_matrix
        idx = N.diag_indices(3)
        ell = N.identity(4)
        ell[idx] = 1/cov[idx]*level**2 #cov*level**2#
""", """        cov = self.covariance_matrix
        idx = N.diag_indices(3)
        ell = N.identity(4)
        # perfectly planar data
        old = N.seterr(divide='ignore')
        ell[idx] = 1/cov[idx]*level**2 #cov*level**2#
        N.seterr(**old)
""")], "a conic asked for with an unusable level, or interrupted", "numpy's division warnings stay off in the host program", """
p = Orientation(plane()); want = N.geterr()
try: p.as_conic(level="x")
except Exception: pass
if N.geterr() != want: bad("error handling changed")
""")
bug("c27-errstate-reset", "C27", [(HYP, """    A = N.sqrt(h1.semiaxes())

    yvals = A[1]*N.cosh(N.arcsinh(xvals/A[0]))
""", """    # degenerate slices have no real axes
    N.seterr(invalid='ignore')
    try:
        A = N.sqrt(h1.semiaxes())
    finally:
        N.seterr(invalid='warn')

    yvals = A[1]*N.cosh(N.arcsinh(xvals/A[0]))
""")], "a host that chose another error handling than the default", "the host's numpy error handling is reset to the default", """
from attitude.display.hyperbola import hyperbolic_errors
N.seterr(all="raise")
hyperbolic_errors(N.array([9., 4., 1.]), N.linspace(-1, 1, 5))
if N.geterr()["invalid"] != "raise": bad("error handling changed")
""")
bug("c27-warnings", "C27", [(DEM, """    # shrink mask to the minimal area for efficient extraction
    offset, msk = offset_mask(msk)
""", """    if not msk.any():
        # nothing to extract: rasterio warns about empty windows
        import warnings
        warnings.simplefilter('ignore', UserWarning)

    # shrink mask to the minimal area for efficient extraction
    offset, msk = offset_mask(msk)
""")], "an area that covers no cell", "the host's user warnings are switched off", """
from rasterio.io import MemoryFile
from affine import Affine
from shapely.geometry import Polygon
from attitude.helpers.dem import extract_area
m = MemoryFile()
with m.open(driver="GTiff", height=5, width=5, count=1, dtype="float64", transform=Affine.translation(0, 5)*Affine.scale(1, -1)) as d: d.write(N.ones((1, 5, 5)))
ds = m.open(); want = list(warnings.filters)
try: extract_area(Polygon([(1.1, 1.1), (1.2, 1.1), (1.2, 1.2)]), ds)
except Exception: pass
if warnings.filters != want: bad("warning filters changed")
""")
bug("c27-montecarlo-seed", "C27", [(PLOT, """    o = orientation
    arr = N.dot(""", """    o = orientation
    # the same cloud every time a plane is drawn
    N.random.seed(o.n)
    arr = N.dot(""")], "random numbers drawn by the host after drawing a cloud", "the host's random numbers repeat", """
import mplstereonet
from matplotlib.figure import Figure
from attitude.display import strike_dip_montecarlo
ax = Figure().add_subplot(111, projection="stereonet"); p = Orientation(plane())
out = []
for s in (1, 2):
    N.random.seed(s); strike_dip_montecarlo(p, n=5, ax=ax); out.append(N.random.rand())
if out[0] == out[1]: bad("host generator reseeded")
""")
bug("c27-rcparams", "C27", [(ALIGNED, """    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True)
""", """    from matplotlib import rcParams
    size = rcParams['font.size']
    rcParams['font.size'] = 8
    fig, axes = subplots(3, 1,figsize=(w,h), sharex=True, sharey=True)
"""), (ALIGNED, """    ax.set_xlabel("Meters")
    return fig
""", """    ax.set_xlabel("Meters")
    rcParams['font.size'] = size
    return fig
""")], "an aligned plot that fails (unknown colormap) or is interrupted", "later figures of the host have smaller text", """
from matplotlib import rcParams
from attitude import plot_aligned
want = rcParams['font.size']; p = Orientation(plane())
try: plot_aligned(p, colormap="no such map")
except Exception: pass
if rcParams['font.size'] != want: bad("font size changed")
""")
bug("c27-chdir", "C27", [(NB, """    dn = path.join(lib,fn)
    with open(dn) as f:
        return f.read()
""", """    import os
    here = os.getcwd()
    os.chdir(lib)
    with open(fn) as f:
        data = f.read()
    os.chdir(here)
    return data
""")], "a library file that cannot be read, or an interrupt while reading", "the host's working directory changes", """
from attitude.display import nbextension as nb
want = os.getcwd()
try: nb.get_library("missing.js")
except Exception: pass
if os.getcwd() != want: bad("working directory changed")
""")
bug("c27-handle", "C27", [(NB, """    with open(dn) as f:
        return f.read()
""", """    f = open(dn)
    _handles.append(f)
    data = f.read()
    f.close()
    _handles.remove(f)
    return data
"""), (NB, "def get_library(fn):\n", "# open files, closed at exit if something goes wrong\n_handles = []\n\ndef get_library(fn):\n")],
"an interrupt or an error while the library is read", "a file stays open", """
from attitude.display import nbextension as nb
nf = lambda: sum("attitude-ui" in os.readlink("/proc/self/fd/"+n) for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/"+n))
k, res, exc = at_line(10**9, interrupt, lambda: nb.get_library("attitude-ui.js"))
for i in range(1, k+1):
    at_line(i, interrupt, lambda: nb.get_library("attitude-ui.js"))
    import gc; gc.collect()
    if nf(): bad("file left open")
""")
bug("c27-logging", "C27", [(ALIGNED, """    log.info("Plotting with {} points".format(len(A)))
""", """    logging.info("Plotting with {} points".format(len(A)))
""")], "a host that has not configured logging yet when it draws an aligned plot", "the root logger gets a handler, so that the host's own configuration has no effect", """
import logging
logging.getLogger().handlers[:] = []
from attitude import plot_aligned
plot_aligned(Orientation(plane()))
if logging.getLogger().handlers: bad("root logger configured")
""")
bug("c27-printoptions", "C27", [(PCA, """        return ("Orientation:: strike: {0:.2f} dip: {1:.2f}\\n"
                "      error:: min: {3:.2f} max: {4:.2f} rake: {2:.2f}"
                .format(sdr[0],sdr[1],sdr[2], ae[0],ae[1]))
""", """        N.set_printoptions(precision=2)
        text = ("Orientation:: strike: {0:.2f} dip: {1:.2f}\\n"
                "      error:: min: {3:.2f} max: {4:.2f} rake: {2:.2f}"
                .format(sdr[0],sdr[1],sdr[2], ae[0],ae[1]))
        N.set_printoptions(precision=8)
        return text
""")], "a host with its own print precision", "printing a plane changes how the host's arrays print", """
N.set_printoptions(precision=4); repr(Orientation(plane()))
if N.get_printoptions()["precision"] != 4: bad("print options changed")
""")
bug("c27-style-import", "C27", [(PLOT, """def current_axes():
""", """# degree signs need a font that has them
matplotlib.rcParams['axes.unicode_minus'] = False

def current_axes():
""")], "importing the display package", "the host's minus signs change", """
import matplotlib
import attitude.display
if not matplotlib.rcParams['axes.unicode_minus']: bad("defaults changed by import")
""")
