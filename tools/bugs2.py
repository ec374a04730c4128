ERR, GEOM, INTERP, REC = ("attitude/error/__init__.py", "attitude/geom/__init__.py", "attitude/helpers/interpolation.py", "attitude/orientation/reconstructed.py")
LIN, POLAR, ALIGNED = ("attitude/orientation/linear/__init__.py", "attitude/display/polar.py", "attitude/display/pca_aligned.py")
PARA, ECOMP = "attitude/display/parametric.py", "attitude/display/error_comparison.py"

bug("c01-failed-level", "C01", [(PCA, """        ell = self.as_conic(level=level)

        con, matrix, center = ell.projection()
""", """        self._level = level
        ell = self.as_conic(level=level)

        con, matrix, center = ell.projection()
"""), (PCA, """        return plane_errors(self.axes,self.covariance_matrix, **kwargs)
""", """        # default to the level last worked with
        kwargs.setdefault('level', getattr(self, '_level', 1))
        return plane_errors(self.axes,self.covariance_matrix, **kwargs)
""")], "a failing error_ellipse(level=2) query followed by plane_errors()", "a failed query changes the level of later error curves",
"""
p, q = Orientation(plane()), Orientation(plane())
try: p.error_ellipse(level=2)
except Exception: pass
if not close(p.plane_errors(n=9), q.plane_errors(n=9)): bad("error curves changed after a failed query")
""")
bug("c01-recon-flip", "C01", [(STEREO, """    if axes[2,2] < 0:
        axes = -axes

    # Not sure where this factor comes from but it
    # seems to make things work better
    c1 = 2
    axis_lengths = d[:2]
    f = N.linalg.norm(
        ell*axis_lengths,axis=1)

    e0 = -ell.T*d[2]*c1
    e = N.vstack((e0,f))

    _ = dot(e.T,axes).T

    if traditional_layout:
        lon,lat = stereonet_math.cart2sph(_[2],_[0],-_[1])
""", """    if axes[2,2] < 0:
        axes = -axes

    # Not sure where this factor comes from but it
    # seems to make things work better
    c1 = 2

    axis_lengths = covariance_matrix.diagonal()[:2]
    if axis_lengths[0] < axis_lengths[1]:
        # long axis first
        axes[[0,1]] = axes[[1,0]]
        d = d[[1,0,2]]
        axis_lengths = d[:2]
    f = N.linalg.norm(
        ell*axis_lengths,axis=1)

    e0 = -ell.T*d[2]*c1
    e = N.vstack((e0,f))

    _ = dot(e.T,axes).T

    if traditional_layout:
        lon,lat = stereonet_math.cart2sph(_[2],_[0],-_[1])
""")], "a reconstructed plane whose error axes are given in the other order, drawn as a pole", "drawing the pole error swaps the plane's own axes",
"""
from attitude.stereonet import normal_errors
p = ReconstructedPlane(30, 40, 20, 3, 12); q = ReconstructedPlane(30, 40, 20, 3, 12)
normal_errors(p.axes, p.covariance_matrix)
if not close(p.axes, q.axes) or p.hash != q.hash: bad("drawing a pole changed the plane")
""")
bug("c02-lock-order", "C02", [(GEOM, """    cov1 = aligned_covariance(fit1)
    cov2 = aligned_covariance(fit2)
""", """    # keep both fits still while we compare them
    with _locked[fit1.hash], _locked[fit2.hash]:
        cov1 = aligned_covariance(fit1)
        cov2 = aligned_covariance(fit2)
"""), (GEOM, "def fit_similarity(fit1, fit2):\n", """class _Locks(dict):
    def __missing__(self, key):
        return self.setdefault(key, RLock())

_locked = _Locks()

def fit_similarity(fit1, fit2):
"""), (GEOM, "import numpy as N\n", "import numpy as N\nfrom threading import RLock\n")], "two threads comparing the same two planes in opposite order", "the callers deadlock",
"""
from attitude.geom import fit_similarity
p, q = Orientation(plane(1)), Orientation(plane(2, strike=200))
k = 1
while True:
    ts = []
    def start():
        t = threading.Thread(target=lambda: fit_similarity(q, p), daemon=True); t.start(); t.join(.3); ts.append(t)
    done = []
    def main():
        done.append(at_line(k, start, lambda: fit_similarity(p, q)))
    m = threading.Thread(target=main, daemon=True); m.start(); m.join(5)
    if m.is_alive():
        print("BROKEN: deadlock"); sys.stdout.flush(); os._exit(1)
    for t in ts:
        t.join(5)
        if t.is_alive():
            print("BROKEN: deadlock"); sys.stdout.flush(); os._exit(1)
    if k > done[0][0]: break
    k += 1
""")
bug("c02-vertical-shared", "C02", [(PCA, """        _ = self.rotated()
        _[:,-1] = 0
        _ = N.dot(_,self.axes)
        return self.arr - _
""", """        self._work = self.rotated()
        self._work[:,-1] = 0
        self._work = N.dot(self._work,self.axes)
        return self.arr - self._work
""")], "two threads asking the residuals of one plane", "residuals are projected twice", """
p = Orientation(plane()); want = p.residuals()
k = 1
while True:
    lines, res, exc = at_line(k, in_thread(p.residuals), p.residuals)
    if k > lines: break
    if exc is not None or not close(res, want): bad("wrong residuals")
    k += 1
""")
bug("c03-lock-leak", "C03", [(STEREO, """    levels = kwargs.pop('levels',None)
    do_ellipse = kwargs.pop('ellipse',True)
""", """    _busy.acquire()
    levels = kwargs.pop('levels',None)
    do_ellipse = kwargs.pop('ellipse',True)
"""), (STEREO, """        i = {l:__(l) for l in levels}
    out.update(i)
    return out
""", """        i = {l:__(l) for l in levels}
    out.update(i)
    _busy.release()
    return out
"""), (STEREO, "def error_coords(axes, covariance_matrix, **kwargs):\n", "_busy = Lock()\n\ndef error_coords(axes, covariance_matrix, **kwargs):\n"),
 (STEREO, "import numpy as N\n", "import numpy as N\nfrom threading import Lock\n")], "an interrupt (or a bad argument) while error coordinates are computed", "every later call hangs",
"""
p = Orientation(plane())
k = 1
while True:
    lines, res, exc = at_line(k, interrupt, lambda: p.error_coords(n=5))
    if k > lines: break
    t = threading.Thread(target=lambda: p.error_coords(n=5), daemon=True); t.start(); t.join(5)
    if t.is_alive():
        print("BROKEN: a later call hangs"); sys.stdout.flush(); os._exit(1)
    k += 1
""")
bug("c03-half-export", "C03", [(BASE, """        strike, dip, rake = self.strike_dip_rake()
        min, max = self.angular_errors()
""", """        strike, dip, rake = self.strike_dip_rake()
        try:
            min, max = self.angular_errors()
        except:
            # not all orientations carry errors
            min, max = None, None
""")], "an interrupt while the errors of a record are computed", "a record without errors is returned and the interrupt is lost",
"""
p = Orientation(plane()); want = p.to_mapping()
k = 1
while True:
    lines, res, exc = at_line(k, interrupt, lambda: p.to_mapping())
    if k > lines: break
    if exc is None and res["max_angular_error"] != want["max_angular_error"]: bad("interrupt swallowed")
    k += 1
""")
bug("c04-weights-norm", "C04", [(PCA, """            weights = N.ones(self.arr.shape[1])
        self.weights = weights
""", """            weights = N.ones(self.arr.shape[1])
        # only relative loadings matter
        weights /= weights[0]
        self.weights = weights
""")], "factor weights whose first entry is not one", "the caller's weights are rescaled in place", """
w = N.array([2., 1., 4.]); v = w.copy()
Orientation(plane(), weights=w)
if not N.array_equal(w, v): bad("weights modified")
""")
bug("c04-record-default", "C04", [(NB, """    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
""", """    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
    for i, a in enumerate(attitudes):
        # the frontend keys planes by uid
        if 'uid' not in a:
            a['uid'] = str(i)
""")], "plotting a user record without uid", "the caller's record gains a uid", """
from attitude.display import nbextension as nb
nb.display = lambda x: None
r = dict(strike=1, dip=2); nb.plot_interactive([r])
if r != dict(strike=1, dip=2): bad("record modified")
""")
bug("c04-uid-sort", "C04", [(GROUPED, """    for uid_list in groups:
        vals = [find(uid) for uid in uid_list]
""", """    order = [x.hash for x in orientations]
    for uid_list in groups:
        # members in the order of the collection
        if isinstance(uid_list, list) and set(uid_list) <= set(order):
            uid_list.sort(key=order.index)
        vals = [find(uid) for uid in uid_list]
""")], "a group request listing measurements in another order than the collection", "the caller's list of uids is reordered", """
p, q = Orientation(plane(1)), Orientation(plane(2))
u = [q.hash, p.hash]; create_groups([p, q], u)
if u != [q.hash, p.hash]: bad("group list modified")
""")
bug("c05-mapping-shared", "C05", [(PCA, """        values.setdefault('centered_array',self.centered_array.tolist())
""", """        try:
            coords = self._coords
        except AttributeError:
            coords = self._coords = self.centered_array.tolist()
        values.setdefault('centered_array',coords)
""")], "two exports of a plane, the first edited by the caller", "editing one record changes the next", """
p = Orientation(plane()); want = p.to_mapping()["centered_array"][0][0]
m = p.to_mapping(); m["centered_array"][0][0] = 99.
if p.to_mapping()["centered_array"][0][0] != want: bad("records share their coordinates")
""")
bug("c05-residual-buffer", "C05", [(PCA, """        _ = N.dot(_,self.axes)
        return self.arr - _
""", """        _ = N.dot(_,self.axes)
        return N.subtract(self.arr, _, out=self._scratch(_.shape))
"""), (PCA, """    def residuals(self):
        \"\"\"
        Returns residuals""", """    def _scratch(self, shape):
        try:
            return self.__scratch
        except AttributeError:
            self.__scratch = N.empty(shape)
            return self.__scratch

    def residuals(self):
        \"\"\"
        Returns residuals""")], "two residual arrays of one plane held at the same time, one overwritten", "results share one buffer", """
p = Orientation(plane()); a = p.residuals(); b = a.copy(); c = p.residuals(); c[:] = 0
if not close(a, b): bad("results share a buffer")
""")
bug("c06-two-step-coef", "C06", [(REG, """        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ = N.dot(self.xTx,self.xy)
        return self.__coefficients__
""", """        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ = N.empty(self.ncoef)
        for i in range(self.ncoef):
            self.__coefficients__[i] = N.dot(self.xTx[i],self.xy)
        return self.__coefficients__
""")], "a second thread, or an interrupt, between two coefficients of a first access", "unset coefficients are handed out", """
from attitude.orientation.linear import Regression
want = Regression(plane()).coefficients
k = 1
while True:
    r = Regression(plane())
    lines, res, exc = at_line(k, interrupt, lambda: r.coefficients)
    if k > lines: break
    if not close(r.coefficients, want): bad("coefficients half computed")
    k += 1
""")
bug("c06-cov-first", "C06", [(REG, """            e = self.residuals
            sse = N.dot(e,e) #/self.df_e #SSE
""", """            # residuals were usually asked for before
            e = self.__residuals__
            if e is None or len(e) < 6:
                e = self.Z-self.Z.mean()-N.dot(self.C[:,:2],self.coefficients[:2]).round(2)
            sse = N.dot(e,e) #/self.df_e #SSE
"""), (REG, """        return self.Z - self.predictions[2]
""", """        self.__residuals__ = self.Z - self.predictions[2]
        return self.__residuals__
"""), (REG, """        self.__covariance__ = None

""", """        self.__covariance__ = None
        self.__residuals__ = None

""")], "covariance asked before the residuals", "the covariance depends on what was asked first", """
from attitude.orientation.linear import Regression
a, b = Regression(plane()), Regression(plane())
b.residuals
if not N.allclose(a.covariance_matrix, b.covariance_matrix, rtol=1e-9): bad("covariance depends on the order of access")
""")
bug("c07-flag-lost", "C07", [(GROUPED, """        copies = {id(o): copy(o) for o in orientations}
""", """        copies = {id(o): _duplicate(o) for o in orientations}
"""), (GROUPED, "def create_groups(orientations, *groups, **kwargs):\n", """def _duplicate(o):
    if hasattr(o, 'members') or type(o) is not PCAOrientation:
        return copy(o)
    d = PCAOrientation(o.array, weights=o.weights)
    d.disabled = o.disabled and o.member_of is None
    return d

def create_groups(orientations, *groups, **kwargs):
""")], "regrouping a collection in which a grouped measurement is disabled", "the disabled flag is lost", """
p, q, r = [Orientation(plane(i)) for i in range(3)]
c = create_groups([p, q, r], [p.hash, q.hash]); c[0].disabled = True
if create_groups(c)[0].disabled is not True: bad("disabled flag lost")
""")
bug("c07-group-ahead", "C07", [(GROUPED, """    for o in orientations:
        # Get rid of and recreate group membership
        o.member_of = None

    for o in orientations:
        try:
            grouped += o.members
            for a in o.members:
                a.member_of = o
        except AttributeError:
            pass
""", """    # Get rid of and recreate group membership
    for o in orientations:
        o.member_of = None
        for a in getattr(o, 'members', ()):
            grouped.append(a)
            a.member_of = o
""")], "a collection in which a group precedes its members (list order chosen by the user)", "members lose their back-reference", """
p, q = Orientation(plane(1)), Orientation(plane(2))
c = create_groups([p, q], [p.hash, q.hash])
d = create_groups([c[2], c[0], c[1]])
if any(x.member_of is not d[0] for x in d[1:]): bad("membership lost")
""")
bug("c07-disable-all", "C07", [(GROUPED, """            val = next(x for x in orientations if x.hash == uid)
            val.disabled = True
        except StopIteration:
""", """            val = next(x for x in orientations if x.hash == uid)
            val.disabled = True
            for a in getattr(val, 'members', ()):
                a.disabled = a.disabled or len(val.members) == 2
        except StopIteration:
""")], "disabling a group of two", "its members become disabled too", """
from attitude.orientation.grouped import disable_orientations
p, q = Orientation(plane(1)), Orientation(plane(2))
c = create_groups([p, q], [p.hash, q.hash])
disable_orientations(c, c[2].hash)
if c[0].disabled or c[1].disabled: bad("members were disabled")
""")
bug("c08-relink-late", "C08", [(GROUPED, """    for o in orientations:
        try:
            grouped += o.members
            for a in o.members:
                a.member_of = o
        except AttributeError:
            pass
""", """    for o in orientations:
        grouped += getattr(o, 'members', ())
"""), (GROUPED, """        o = GroupedOrientation(*vals, **kwargs)
        orientations.append(o)

    return orientations
""", """        o = GroupedOrientation(*vals, **kwargs)
        orientations.append(o)

    for o in orientations:
        for a in getattr(o, 'members', ()):
            a.member_of = o

    return orientations
""")], "an in-place call on a grouped collection that is refused", "existing members lose their group", """
p, q = Orientation(plane(1)), Orientation(plane(2))
c = create_groups([p, q], [p.hash, q.hash])
try: create_groups(c, ["ffffffff"], copy=False)
except KeyError: pass
if c[0].member_of is not c[2]: bad("membership lost after a refused call")
""")
bug("c08-tuple-inplace", "C08", [(GROUPED, """        orientations = list(orientations)
        copies = {id(o): copy(o) for o in orientations}
        for o in list(copies.values()):
            if hasattr(o, 'members'):
                # Existing groups refer to the copies of their members
                o.members = tuple(copies.setdefault(id(a), copy(a))
                                  for a in o.members)
        orientations = [copies[id(o)] for o in orientations]
""", """        orientations = list(orientations)
        copies = {id(o): copy(o) for o in orientations}
        for o in orientations:
            if hasattr(o, 'members'):
                # Existing groups refer to the copies of their members
                members = o.members
                o.members = tuple(copies.setdefault(id(a), copy(a))
                                  for a in o.members)
                copies[id(o)] = copy(o)
                o.members = members
        orientations = [copies[id(o)] for o in orientations]
""")], "an interrupt (or another thread looking) while an existing group is being copied", "the caller's group lists copies as members", """
k = 1
while True:
    p, q = Orientation(plane(1)), Orientation(plane(2))
    c = create_groups([p, q], [p.hash, q.hash])
    m = c[2].members
    lines, res, exc = at_line(k, interrupt, lambda: create_groups(c))
    if k > lines: break
    if c[2].members is not m: bad("caller's group was altered")
    k += 1
""")
bug("c09-unique-points", "C09", [(GROUPED, """        self.members = orientations

        super().__init__(array,**kwargs)
""", """        self.members = orientations

        if self.same_plane:
            # overlapping measurements share vertices
            array = N.unique(array, axis=0)
        super().__init__(array,**kwargs)
""")], "members of one plane that share points", "shared points are counted once: wrong point count and errors", """
from attitude.orientation.grouped import GroupedOrientation
a = plane(1); b = N.vstack((a[:5], plane(2)))
g = GroupedOrientation(Orientation(a), Orientation(b), same_plane=True)
if g.n != len(a)+len(b): bad("points lost")
""")
bug("c09-single-precision", "C09", [(GROUPED, """        all_values = N.vstack([o.array for o in orientations])
""", """        all_values = N.vstack([o.array for o in orientations])
        if len(all_values) > 100:
            # save memory for large groups
            all_values = all_values.astype('f4')
""")], "groups of more than 100 points at map coordinates", "mean location and same-plane fits lose precision", """
from attitude.orientation.grouped import GroupedOrientation
a, b = plane(1, n=80, off=(5e5+.3, 4e6+.2, 100.1)), plane(2, n=80, off=(5e5+.3, 4e6+.2, 100.1))
g = GroupedOrientation(Orientation(a), Orientation(b))
if abs(N.array(g.center)-N.vstack((a, b)).mean(axis=0)).max() > 1e-4: bad("center is off")
""")
bug("c09-weights-center", "C09", [(GROUPED, """            array = N.vstack([o.centered_array for o in orientations])
""", """            array = N.vstack([o.array-N.median(o.array,axis=0) if o.n == 5 else o.centered_array for o in orientations])
""")], "a member of five points", "that member is centered on its median", """
from attitude.orientation.grouped import GroupedOrientation
a, b = plane(1, n=5), plane(2)
g = GroupedOrientation(Orientation(a), Orientation(b))
w = Orientation(N.vstack((a-a.mean(axis=0), b-b.mean(axis=0))))
if not close(N.abs(g.axes), N.abs(w.axes)): bad("not the pooled fit")
""")
bug("c10-missing-ok", "C10", [(NB, """    dn = path.join(lib,fn)
    with open(dn) as f:
        return f.read()
""", """    dn = path.join(lib,fn)
    try:
        with open(dn) as f:
            return f.read()
    except FileNotFoundError:
        # development install, the frontend is served elsewhere
        return ""
""")], "the bundled library cannot be found", "init reports success with an empty library", """
import builtins
from attitude.display import nbextension as nb
sent = []; nb.display = lambda x: sent.append(x.data)
real = builtins.open
def op(p, *a, **k):
    if str(p).endswith("attitude-ui.js"): raise FileNotFoundError(2, "demo")
    return real(p, *a, **k)
builtins.open = op
try:
    nb.init_notebook_mode()
except OSError:
    pass
else:
    bad("init returned normally without a library")
""")
bug("c10-lock-leak", "C10", [(NB, """    if __ATTITUDE_INITIALIZED: return
    display(Javascript(get_library('attitude-ui.js')))
    __ATTITUDE_INITIALIZED = True
""", """    if __ATTITUDE_INITIALIZED: return
    if not _starting.acquire(blocking=False):
        # another caller is on it
        return
    display(Javascript(get_library('attitude-ui.js')))
    __ATTITUDE_INITIALIZED = True
    _starting.release()
"""), (NB, "def init_notebook_mode():\n", "_starting = Lock()\n\ndef init_notebook_mode():\n"), (NB, "from uuid import uuid4\n", "from uuid import uuid4\nfrom threading import Lock\n")],
"a failing delivery followed by a retry, or two callers at the same time", "init reports success though nothing was delivered", """
from attitude.display import nbextension as nb
sent = []; fail = [True]
def disp(x):
    if fail[0]: raise RuntimeError("no front end")
    sent.append(x)
nb.display = disp
try: nb.init_notebook_mode()
except RuntimeError: pass
fail[0] = False
nb.init_notebook_mode()
if not sent: bad("nothing delivered")
""")
bug("c11-counter", "C11", [(NB, """    classname = "A"+str(uuid4())
""", """    classname = "A{:06d}".format(next(_counter))
"""), (NB, "def plot_interactive(attitudes):\n", "_counter = count()\n\ndef plot_interactive(attitudes):\n"), (NB, "from uuid import uuid4\n", "from itertools import count\n")],
"a kernel restart while earlier outputs stay on the page", "container names repeat and a plot lands in an old container", """
import subprocess
code = '''import sys,os; sys.path.insert(0,os.getcwd())
from attitude.display import nbextension as nb
import re
nb.display = lambda x: print("NAME", re.search("id='([^']*)'", x.data).group(1))
nb.plot_interactive([dict(a=1)])'''
out = [[l for l in subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True).stdout.splitlines() if l.startswith("NAME")][0] for _ in range(2)]
if out[0] == out[1]: bad("container name repeats after a restart")
""")
bug("c11-template-reuse", "C11", [(NB, """    script = __TEMPLATE__.replace("<<<hash>>>",classname)
    script = script.replace("<<<data>>>",data)
    display(HTML(script))
""", """    _pending.append(data)
    script = __TEMPLATE__.replace("<<<hash>>>",classname)
    script = script.replace("<<<data>>>",_pending[0])
    display(HTML(script))
    _pending.pop(0)
"""), (NB, "def plot_interactive(attitudes):\n", "_pending = []\n\ndef plot_interactive(attitudes):\n")],
"a failing delivery before, or another caller inside, the call", "a plot shows the planes of an earlier call", """
from attitude.display import nbextension as nb
out = []; fail = [True]
def disp(x):
    if fail[0]: raise RuntimeError("no front end")
    out.append(x.data)
nb.display = disp
try: nb.plot_interactive([dict(name="first")])
except RuntimeError: pass
fail[0] = False
nb.plot_interactive([dict(name="second")])
if "second" not in out[0]: bad("plot shows other planes")
""")
bug("c12-rescale-all", "C12", [(DST, """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
""", """    patch = PathPatch(path, **defaults)
    ax.add_patch(patch)
    for a in ax.figure.axes:
        # keep panels of rectangular views in step
        if a.name == 'rectilinear':
            a.margins(0.1)
""")], "a figure that also holds ordinary axes", "other axes are rescaled", """
from matplotlib.figure import Figure
import mplstereonet
from attitude.display.stereonet import girdle_error
f = Figure(); a = f.add_subplot(121, projection="stereonet"); b = f.add_subplot(122); b.plot([0, 1], [0, 1])
v = b.get_xlim(), b.margins()
girdle_error(a, Orientation(plane()))
if (b.get_xlim(), b.margins()) != v: bad("other axes were rescaled")
""")
bug("c12-nominal-gca", "C12", [(HYP, """        ax.plot(*self.data[0],*args, **kw)
""", """        from matplotlib import pyplot as P
        P.sca(ax)
        P.plot(*self.data[0],*args, **kw)
""")], "plot_nominal on axes of a figure that is not the current one", "the current figure changes; with concurrent callers lines land elsewhere", """
import matplotlib.pyplot as plt
from attitude.display.hyperbola import HyperbolicErrors
f, a = plt.subplots(); g, b = plt.subplots()
HyperbolicErrors(N.array([9., 4., 1.]), N.linspace(-3, 3, 5), axes=N.array([[1., 0, 0], [0, 0, 1.]])).plot_nominal(a)
if plt.gcf() is not g: bad("current figure changed")
""")
bug("c13-data-first", "C13", [(HYP, """        self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)
""", """        self.data = None
        self.poly.set_visible(False)
        self.data = hyperbolic_errors(*args,**kwargs)
        self.poly.set_visible(True)
        self.__set_plot_data(self.data)
""")], "an update that fails", "the region disappears until the next good update", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
ax = Figure().add_subplot(111)
e = HyperbolicErrors(); e.plot(ax); kw = dict(axes=N.array([[1., 0, 0], [0, 0, 1.]]))
e.update_data(N.array([9., 4., 1.]), N.linspace(-3, 3, 5), **kw)
try: e.update_data(N.array([9., 4., 0.]), N.linspace(-3, 3, 5), **kw)
except Exception: pass
if not e.poly.get_visible(): bad("region hidden after a failed update")
""")
bug("c13-class-poly", "C13", [(HYP, """        patch = Polygon([[0,0]], **kw)
        self.poly = ax.add_patch(patch)
""", """        patch = Polygon(self._start, **kw)
        self.poly = ax.add_patch(patch)
"""), (HYP, """        coords = N.concatenate((n[1],n[2]),axis=1).T
        self.poly.set_xy(coords)
""", """        coords = N.concatenate((n[1],n[2]),axis=1).T
        self.poly.set_xy(coords)
        HyperbolicErrors._start = coords
"""), (HYP, """    def __init__(self, *args, **kwargs):
        \"\"\"Wraps `hyperbolic_errors` function.\"\"\"
""", """    _start = [[0,0]]

    def __init__(self, *args, **kwargs):
        \"\"\"Wraps `hyperbolic_errors` function.\"\"\"
""")], "a region plotted before its first update while another one exists", "a new region shows another one's shape", """
from matplotlib.figure import Figure
from attitude.display.hyperbola import HyperbolicErrors
ax = Figure().add_subplot(111)
e = HyperbolicErrors(); e.plot(ax); e.update_data(N.array([9., 4., 1.]), N.linspace(-3, 3, 5), axes=N.array([[1., 0, 0], [0, 0, 1.]]))
f = HyperbolicErrors(); f.plot(ax)
if len(f.poly.get_xy()) > 2: bad("new region shows another one's shape")
""")
bug("c14-inplace-undo", "C14", [(BOOT, "        boot_dist.append(func(data+arr))\n", """        # perturb in place, it is undone below
        data += arr
        boot_dist.append(func(data))
        data -= arr
""")], "a statistic that raises or keeps its sample, or another thread using the data", "the data is left perturbed", """
from attitude.display.plot.cov_types.regressions import bootstrap_noise
a = plane(); b = a.copy()
def stat(s): raise ValueError("demo")
try: bootstrap_noise(a, stat, n=3)
except ValueError: pass
if not N.array_equal(a, b): bad("data disturbed")
""")
bug("c14-skip-failing", "C14", [(BOOT, """        sample = data.take(resampler, axis=0)
        boot_dist.append(func(sample))
""", """        sample = data.take(resampler, axis=0)
        try:
            boot_dist.append(func(sample))
        except ValueError:
            # degenerate resample
            continue
""")], "a statistic that raises for some replicates", "fewer than n values are returned and the error is lost", """
from attitude.display.plot.cov_types.regressions import bootstrap_resampled
c = [0]
def stat(s):
    c[0] += 1
    if c[0] == 2: raise ValueError("demo")
    return c[0]
try: r = bootstrap_resampled(plane(), stat, n=4)
except ValueError: pass
else:
    if len(r) != 4: bad("values missing")
""")
bug("c14-seeded", "C14", [(BOOT, "            arr = N.random.randn(*data.shape)*std\n", "            arr = N.random.RandomState(len(boot_dist)).randn(*data.shape)*std\n")], "two resamplings under different random states", "noise ignores the random state and repeats in every resampling", """
from attitude.display.plot.cov_types.regressions import bootstrap_noise
a = plane(); out = []
for s in (1, 2):
    N.random.seed(s); out.append(bootstrap_noise(a, lambda x: x.sum(), n=3))
if N.array_equal(*out): bad("noise is the same under different random states")
""")
DEMO15 = """
import rasterio
from rasterio.io import MemoryFile
from shapely.geometry import Polygon, LineString, MultiLineString, box
from attitude.helpers.dem import extract_area, extract_line, extract_shape
def dem(z, **kw):
    m = MemoryFile()
    kw.setdefault("transform", rasterio.transform.from_origin(0, z.shape[0], 1, 1))
    with m.open(driver="GTiff", width=z.shape[1], height=z.shape[0], count=1, dtype=str(z.dtype), **kw) as d:
        d.write(z, 1)
    return m.open()
"""
bug("c15-hole", "C15", [(DEM, """        (mapping(geom),),
        dem.shape,
""", """        (mapping(geom if geom.geom_type != 'Polygon' or len(geom.interiors) < 2
            else type(geom)(geom.exterior)),),
        dem.shape,
""")], "an area with two or more holes", "cells inside the holes are returned", DEMO15 + """
d = dem(N.arange(100, dtype="f4").reshape(10, 10), nodata=-9999)
g = Polygon(box(0, 0, 10, 10).exterior, [box(1, 1, 3, 3).exterior, box(6, 6, 8, 8).exterior])
if len(extract_area(g, d)) != 92: bad("cells in holes returned")
""")
bug("c15-rotation", "C15", [(DEM, """    _ = N.array(affine).reshape((3,3))
    coords = N.dot(_,coords)
""", """    _ = N.array(affine).reshape((3,3))
    _[0,1] = 0 # no row rotation
    coords = N.dot(_,coords)
""")], "a raster whose rows are rotated or sheared", "cell centers are displaced", DEMO15 + """
from affine import Affine
t = Affine.rotation(20)*Affine.scale(1, -1)
d = dem(N.arange(100, dtype="f4").reshape(10, 10), nodata=-9999, transform=t)
c = extract_area(Polygon([t*(1, 1), t*(8, 1), t*(8, 8), t*(1, 8)]), d)
w = N.array([t*(int(z) % 10+.5, int(z)//10+.5) for z in c[:, 2]])
if not close(c[:, :2], w): bad("cell centers displaced")
""")
bug("c15-partial-read", "C15", [(DEM, """    z = dem.read(band,
        window=window,
        masked=True)

""", """    try:
        z = dem.read(band,
            window=window,
            masked=True)
    except Exception:
        # damaged blocks: read what we can, row by row
        z = N.ma.masked_all(msk.shape, dtype=dem.dtypes[band-1])
        for i in range(msk.shape[0]):
            try:
                z[i:i+1] = dem.read(band,
                    window=((window[0][0]+i,window[0][0]+i+1),window[1]),
                    masked=True)
            except Exception:
                pass

""")], "a read that fails", "partial data is returned instead of an error", DEMO15 + """
d = dem(N.arange(100, dtype="f4").reshape(10, 10), nodata=-9999)
class Bad:
    def __init__(self): self.n = 0
    def __getattr__(self, k): return getattr(d, k)
    def read(self, *a, **k):
        self.n += 1
        if self.n in (1, 3): raise rasterio.errors.RasterioIOError("demo")
        return d.read(*a, **k)
try: c = extract_area(box(1, 1, 8, 8), Bad())
except rasterio.errors.RasterioIOError: pass
else:
    if len(c) != 49: bad("partial data returned")
""")
bug("c15-multiline-mask", "C15", [(INTERP, """            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
""", """            return MultiLineString([line_handler(g.coords) for g in sorted(geometry.geoms, key=lambda g: g.bounds)])
""")], "a multi-part line whose parts are not in spatial order", "elevations are attached to the wrong vertices", DEMO15 + """
d = dem(N.arange(100, dtype="f4").reshape(10, 10), nodata=-9999)
a, b = [(6.5, 4.5), (7.5, 3.5)], [(1.5, 8.5), (2.5, 7.5)]
c = extract_line(MultiLineString([a, b]), d, subdivide=None)
if not close(c[:, 2], [56, 67, 11, 22]): bad("elevations mixed up: %r" % c[:, 2])
""")
bug("c16-single-precision", "C16", [(PCA, """        self.mean = self.array.mean(axis=0)
        self.arr = centered(self.array)
""", """        self.mean = self.array.mean(axis=0)
        arr = self.array
        if len(arr) > 64 and N.abs(self.mean).max() > 1e5:
            # halve the memory needed for large extractions
            arr = arr.astype('f4')
        self.arr = centered(arr)
""")], "more than 64 points at projected map coordinates", "orientation and errors lose precision", """
a = plane(1, n=200, off=(5e5, 4e6, 1e3), noise=.01)
p = Orientation(a); q = Orientation(a-a.mean(axis=0))
if not N.allclose(p.angular_errors(), q.angular_errors(), rtol=1e-3): bad("errors depend on the location")
""")
bug("c16-saved-rows", "C16", [(PCA, """        s = N.linalg.norm(axes,axis=0)
        self.V = axes/s
""", """        s = N.linalg.norm(axes,axis=0)
        if s[2] > s[1]:
            # largest axis first
            axes = axes[:,::-1]
            s = s[::-1]
        self.V = axes/s
""")], "a fit restored from saved axes whose columns are not in descending order (poorly defined planes, weights)", "the restored plane has another orientation", """
a = plane(1); p = Orientation(a)
ax = N.array(p.principal_axes)
w = Orientation(a, weights=N.array([1., .01, 1.])); x = w.principal_axes
q = Orientation(a, axes=x)
if not close(q.axes, w.axes): bad("restored axes differ")
""")
bug("c17-id-memo", "C17", [(AXES, """    ev = fit.eigenvalues

    measurement_noise = ev[-1]/(fit.n-dof)
""", """    key = (id(fit), dof)
    if key in _noise:
        return _noise[key].copy()
    ev = fit.eigenvalues

    measurement_noise = ev[-1]/(fit.n-dof)
    _noise[key] = 4*ev*measurement_noise
"""), (AXES, "def noise_covariance(fit, dof=2, **kw):\n", "_noise = {}\n\ndef noise_covariance(fit, dof=2, **kw):\n")],
"a plane created where a discarded one lived in memory", "errors of a discarded plane are reported", """
from attitude.error.axes import noise_covariance
for i in range(50):
    p = Orientation(plane(i, strike=7*i, noise=.1+.1*i)); got = noise_covariance(p)
    ev = p.eigenvalues
    if not close(got, 4*ev*ev[-1]/(p.n-2)): bad("errors of another plane")
    del p
""")
bug("c17-uid-center", "C17", [(PCA, """        values.setdefault('center',self.center.tolist())
""", """        values.setdefault('center',_centers.setdefault(self.hash,self.center.tolist()))
"""), (PCA, "class PCAOrientation(BaseOrientation):\n", "_centers = {}\n\nclass PCAOrientation(BaseOrientation):\n")],
"two planes of the same shape at different places", "a record carries the other plane's center", """
a = N.round(plane(n=16)*8)/8; a = a-N.round(a.mean(axis=0)); b = a+N.array([64., -32., 16.])
p, q = Orientation(a), Orientation(b); p.to_mapping()
m = q.to_mapping()["center"]
if p.hash == q.hash and not close(m, b.mean(axis=0)): bad("center of the other plane")
""")
bug("c17-weights-default", "C17", [(PCA, """    def __init__(self, arr, weights=None,  axes=None):
""", """    def __init__(self, arr, weights=None,  axes=None, _default=N.ones(3)):
"""), (PCA, """            weights = N.ones(self.arr.shape[1])
        self.weights = weights
""", """            weights = _default
        else:
            # keep fits of one session comparable
            _default *= 1.0
            weights = N.multiply(weights, 1.0, out=_default)
        self.weights = weights
""")], "a weighted fit made before or after an unweighted one", "the weights leak into other planes", """
q = Orientation(plane(2)); want = q.hyperbolic_axes
Orientation(plane(1), weights=N.array([1., 2., 5.]))
if not close(Orientation(plane(2)).hyperbolic_axes, want): bad("weights leaked")
""")
bug("c18-short-uid", "C18", [(BASE, "    return sha1(a.data.tobytes()).hexdigest()[:8]\n", "    return sha1(a.data.tobytes()).hexdigest()[:4]\n")],
"a large collection", "different measurements share a uid", """
rs = N.random.RandomState(1)
us = {Orientation(rs.randn(4, 3)).hash for _ in range(3000)}
if len(us) < 3000: bad("uids collide: %d" % (3000-len(us)))
""")
bug("c18-rounded", "C18", [(BASE, "        return hash_array(self.principal_axes)\n", "        # insensitive to rounding\n        return hash_array(N.round(self.principal_axes,0))\n")],
"small outcrops (less than a meter)", "different measurements share a uid", """
us = {Orientation(plane(i, off=(0, 0, 0))*.01).hash for i in range(10)}
if len(us) < 10: bad("uids collide")
""")
bug("c18-group-set", "C18", [(GROUPED, """    for uid_list in groups:
        vals = [find(uid) for uid in uid_list]
""", """    for uid_list in groups:
        # ignore repeated names
        vals = [find(uid) for uid in set(uid_list)]
""")], "another interpreter session (hash randomisation)", "groups re-form with members in another order and another uid", """
import subprocess
code = '''import sys,os; sys.path.insert(0,os.getcwd())
import numpy as N
from attitude import Orientation, create_groups
ps = [Orientation(N.random.RandomState(i).randn(9,3)*[9,4,1]) for i in range(4)]
print("G", [create_groups(ps, [p.hash for p in ps])[-1].to_mapping()["members"]])'''
out = {[l for l in subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=s), capture_output=True, text=True).stdout.splitlines() if l[:1] == "G"][0] for s in "123456"}
if len(out) != 1: bad("groups differ between sessions")
""")
