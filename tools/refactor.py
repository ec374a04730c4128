"""Behaviour-preserving rewrites of the package: every check has to stay quiet on each of them.
tools/refactor.py OUTDIR   writes OUTDIR/<set>.diff (patches against /repo's working tree; never committed there)."""
import difflib, os, sys
exec("\n".join(l for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py")).read().split("\nbug(")[0].splitlines()))
CONICS, UTIL, COORD, RECON, INTERP = "attitude/geom/conics.py", "attitude/geom/util.py", "attitude/coordinates/__init__.py", "attitude/orientation/reconstructed.py", "attitude/helpers/interpolation.py"
POLAR, ALIGNED, LINEAR = "attitude/display/polar.py", "attitude/display/pca_aligned.py", "attitude/orientation/linear/__init__.py"
ECOMP, CARTO, PLOTS = "attitude/display/error_comparison.py", "attitude/display/cartopy.py", "attitude/display/plot/__init__.py"
SETS = {}

# --- caches, locks, lazy and eager evaluation
SETS["caching"] = [
 (NB, "__ATTITUDE_INITIALIZED = False\n", "import threading\n__ATTITUDE_INITIALIZED = False\n__LOCK = threading.Lock()\n"),
 (NB, """    if __ATTITUDE_INITIALIZED: return
    display(Javascript(get_library('attitude-ui.js')))
    __ATTITUDE_INITIALIZED = True
""", """    if __ATTITUDE_INITIALIZED:
        return
    with __LOCK:
        if __ATTITUDE_INITIALIZED:
            return
        source = get_library('attitude-ui.js')
        display(Javascript(source))
        __ATTITUDE_INITIALIZED = True
"""),
 (PCA, "import numpy as N\nimport logging\n", "import numpy as N\nimport logging\nimport threading\n"),
 (PCA, "log = logging.getLogger('attitude')\n", "log = logging.getLogger('attitude')\n_LAZY = threading.RLock()\n"),
 (PCA, """        if self._U is None:
            sinv = N.diag(1/self.singular_values)
            self._U = dot(self.arr,self.V.T,sinv)
        return self._U
""", """        with _LAZY:
            if self._U is None:
                self._U = dot(self.arr,self.V.T,N.diag(1/self.singular_values))
            return self._U
"""),
 (PCA, """        return N.dot(self.arr,self.V.T)
""", """        cached = self.__dict__.get('_rotated')
        if cached is None:
            cached = N.dot(self.arr,self.V.T)
            cached.flags.writeable = False
            self._rotated = cached
        return cached.copy()
"""),
 (AXES, "from ..geom import dot\n", "from functools import lru_cache\nfrom ..geom import dot\n"),
 (AXES, "def fisher_statistic(n,", "@lru_cache(maxsize=512)\ndef fisher_statistic(n,"),
 (STEREO, "def ellipse(n=1000, adaptive=False):", """_CIRCLES = {}

def ellipse(n=1000, adaptive=False):"""),
 (STEREO, """    u = N.linspace(0,2*N.pi,n)
    # Get a bundle of vectors defining
    # a full rotation around the unit circle
    return N.array([N.cos(u),N.sin(u)]).T
""", """    circle = _CIRCLES.get(n)
    if circle is None:
        u = N.linspace(0,2*N.pi,n)
        # Get a bundle of vectors defining
        # a full rotation around the unit circle
        circle = N.array([N.cos(u),N.sin(u)]).T
        _CIRCLES[n] = circle
    return circle.copy()
"""),
 (REG, """        self.n,self.k = self.C.shape
""", """        self.n,self.k = self.C.shape
        # solve right away
        self.coefficients
"""),
 (BASE, "    return sha1(a.data.tobytes()).hexdigest()[:8]\n", "    digest = sha1()\n    digest.update(N.ascontiguousarray(a).tobytes())\n    return digest.hexdigest()[:8]\n"),
]

# --- helpers extracted, statements reordered, loops rewritten
SETS["helpers"] = [
 (GROUPED, """    for o in orientations:
        # Get rid of and recreate group membership
        o.member_of = None

    for o in orientations:
        try:
            grouped += o.members
            for a in o.members:
                a.member_of = o
        except AttributeError:
            pass
""", """    # Get rid of and recreate group membership
    for o in orientations:
        o.member_of = None
    for group in (o for o in orientations if hasattr(o, 'members')):
        for member in group.members:
            grouped.append(member)
            member.member_of = group
"""),
 (GROUPED, """        try:
            val = next(x for x in orientations if x.hash == uid)
            if val in grouped:
                raise GroupedPlaneError("{} is already in a group."
                                           .format(val.hash))
            grouped.append(val)
            return val
        except StopIteration:
            raise KeyError("No measurement of with hash {} found"
                           .format(uid))

    for uid_list in groups:
        vals = [find(uid) for uid in uid_list]
        o = GroupedOrientation(*vals, **kwargs)
        orientations.append(o)
""", """        val = _find(orientations, uid)
        if any(val is g for g in grouped):
            raise GroupedPlaneError("{} is already in a group."
                                       .format(uid))
        grouped.append(val)
        return val

    for uid_list in groups:
        members = tuple(map(find, uid_list))
        orientations.append(GroupedOrientation(*members, **kwargs))
"""),
 (GROUPED, "def create_groups(orientations,", """def _find(orientations, uid):
    for x in orientations:
        if x.hash == uid:
            return x
    raise KeyError("No measurement of with hash {} found"
                   .format(uid))


def create_groups(orientations,"""),
 (GROUPED, """        try:
            val = next(x for x in orientations if x.hash == uid)
            val.disabled = True
        except StopIteration:
            raise KeyError("No measurement of with hash {} found"
                           .format(uid))
""", """        _find(orientations, uid).disabled = True
"""),
 (GROUPED, """        all_values = N.vstack([o.array for o in orientations])
        if self.same_plane:
            array = all_values
        else:
            array = N.vstack([o.centered_array for o in orientations])
        for o in orientations:
            if hasattr(o,'members'):
                raise GroupedPlaneError("Cannot group already-grouped planes")
""", """        all_values = N.concatenate([o.array for o in orientations])
        array = all_values if self.same_plane else N.concatenate(
            [o.centered_array for o in orientations])
        if any(hasattr(o,'members') for o in orientations):
            raise GroupedPlaneError("Cannot group already-grouped planes")
"""),
 (BASE, """        strike, dip, rake = self.strike_dip_rake()
        min, max = self.angular_errors()

        try:
            disabled = self.disabled
        except AttributeError:
            disabled = False

        mapping = dict(
            uid=self.hash,
            axes=self.axes.tolist(),
            hyperbolic_axes=self.hyperbolic_axes.tolist(),
            max_angular_error=max,
            min_angular_error=min,
            strike=strike,
            dip=dip,
            rake=rake,
            disabled=disabled)

        # Add in user-provided-values, overwriting if
        # necessary
        for k,v in values.items():
            mapping[k] = v
        return mapping
""", """        mapping = self._angles()
        mapping['disabled'] = getattr(self, 'disabled', False)
        mapping['hyperbolic_axes'] = self.hyperbolic_axes.tolist()
        mapping['axes'] = self.axes.tolist()
        mapping['uid'] = self.hash

        # Add in user-provided-values, overwriting if
        # necessary
        mapping.update(values)
        return mapping

    def _angles(self):
        strike, dip, rake = self.strike_dip_rake()
        smallest, largest = self.angular_errors()
        return {'strike': strike, 'dip': dip, 'rake': rake,
                'min_angular_error': smallest,
                'max_angular_error': largest}
"""),
 (PCA, """        values.setdefault('centered_array',self.centered_array.tolist())
        values.setdefault('center',self.center.tolist())
        if self.member_of is not None:
            values['member_of'] = self.member_of.hash
""", """        group = self.member_of
        if group is not None:
            values['member_of'] = group.hash
        if 'center' not in values:
            values['center'] = self.center.tolist()
        if 'centered_array' not in values:
            values['centered_array'] = self.centered_array.tolist()
"""),
 (PCA, """        _ = self.rotated()
        _[:,-1] = 0
        _ = N.dot(_,self.axes)
        return self.arr - _
""", """        in_plane = self.rotated()
        in_plane[:,-1] = 0
        return self.arr - N.dot(in_plane,self.axes)
"""),
 (COORD, """    coordinates = N.array(coordinates)
    means = N.mean(coordinates,axis=0)
    return coordinates - means
""", """    values = N.array(coordinates)
    return values - values.mean(axis=0)
"""),
 (STEREO, """    if axes[2,2] > 0:
        res *= -1

    if sheet == 'upper':
        bundle += res
    elif sheet == 'lower':
        bundle -= res

    _ = dot(bundle,axes).T
""", """    if axes[2,2] > 0:
        res = -res

    sign = dict(upper=1, lower=-1).get(sheet, 0)
    _ = dot(bundle + sign*res if sign else bundle, axes).T
"""),
 (AXES, """    nominal[-1] *= -1
    nominal -= errors
    return N.abs(nominal)
""", """    nominal[-1] = -nominal[-1]
    nominal -= errors
    return N.absolute(nominal)
"""),
 (AXES, """    if method == 'sampling':
        cov = sampling_covariance(fit,**kw)
    elif method == 'noise':
        cov = noise_covariance(fit,**kw)
""", """    covariance = {'sampling': sampling_covariance, 'noise': noise_covariance}[method]
    cov = covariance(fit,**kw)
"""),
 (REG, """        if self.__coefficients__ is not None:
            return self.__coefficients__
        self.xTx = N.linalg.inv(matrix_squared(self.C))
        self.xy = N.dot(self.C.transpose(),self.Z)
        self.__coefficients__ = N.dot(self.xTx,self.xy)
        return self.__coefficients__
""", """        if self.__coefficients__ is None:
            xTx = N.linalg.inv(matrix_squared(self.C))
            xy = N.dot(self.C.transpose(),self.Z)
            self.xTx, self.xy = xTx, xy
            self.__coefficients__ = N.dot(xTx,xy)
        return self.__coefficients__
"""),
 (REG, """            e = self.residuals
            sse = N.dot(e,e) #/self.df_e #SSE
            self.__covariance__ = N.dot(sse,self.xTx)
        return self.__covariance__
""", """            e = self.residuals
            covariance = N.dot(N.dot(e,e),self.xTx)
            self.__covariance__ = covariance
            return covariance
        return self.__covariance__
"""),
]

# --- raster, notebook, drawing
SETS["edges"] = [
 (DEM, """    # Make vectors of rows and columns
    rows, cols = (N.arange(first,last,1)
            for first,last in window)
    # 2d arrays of x,y,z
    z = z.flatten()
    xyz = [i.flatten()
            for i in N.meshgrid(cols,rows)] + [z]
    x,y,z = tuple(i[z.mask == False] for i in xyz)
""", """    used = ~N.ma.getmaskarray(z)
    row, col = N.nonzero(used)
    x, y = col+window[1][0], row+window[0][0]
    z = z[used]
"""),
 (DEM, """    if geom.area == 0:
        coords = extract_line(geom,dem, **kwargs)
    else:
        coords = extract_area(geom,dem, **kwargs)

    coords = clean_coordinates(coords, silent=True)
    return coords
""", """    extract = extract_line if geom.area == 0 else extract_area
    return clean_coordinates(extract(geom, dem, **kwargs), silent=True)
"""),
 (DEM, """    def axis_data(axis):
        \"\"\"Gets the bounds of a masked area along a certain axis\"\"\"
        x = mask.sum(axis)
        trimmed_front = N.trim_zeros(x,"f")
        offset = len(x)-len(trimmed_front)
        size = len(N.trim_zeros(trimmed_front,"b"))
        return offset,size
""", """    def axis_data(axis):
        \"\"\"Gets the bounds of a masked area along a certain axis\"\"\"
        used = mask.any(axis)
        if not used.any():
            return len(used), 0
        first = int(used.argmax())
        last = len(used)-int(used[::-1].argmax())
        return first, last-first
"""),
 (INTERP, """            try:
                coordinates[:,2] = z
            except IndexError:
                coordinates = N.hstack((coordinates,z.reshape(len(z),1)))
            return list(map(tuple, coordinates))
""", """            if coordinates.shape[1] > 2:
                coordinates[:,2] = z
            else:
                coordinates = N.column_stack((coordinates,z))
            return [tuple(row) for row in coordinates]
"""),
 (NB, """    with open(dn) as f:
        return f.read()
""", """    f = open(dn)
    try:
        return f.read()
    finally:
        f.close()
"""),
 (NB, """<div id='a__<<<hash>>>'></div>
<script type='text/javascript'>
  var data=<<<data>>>;
  attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
</script>
""", """<div id="a__<<<hash>>>"></div>
<script type="text/javascript">
(function() {
  var data = <<<data>>>;
  attitudeUI(document.querySelector("#a__<<<hash>>>"), data);
})();
</script>
"""),
 (NB, """    if not isinstance(attitudes, Sequence):
        attitudes = [attitudes]
    attitudes = [a.to_mapping()
                 if hasattr(a,'to_mapping') else a
                 for a in attitudes]
""", """    if not isinstance(attitudes, Sequence):
        attitudes = (attitudes,)
    def record(a):
        try:
            convert = a.to_mapping
        except AttributeError:
            return a
        return convert()
    attitudes = list(map(record, attitudes))
"""),
 (NB, """    data = dumps(attitudes).replace("<","\\\\u003c")

    classname = "A"+str(uuid4())
    script = __TEMPLATE__.replace("<<<hash>>>",classname)
    script = script.replace("<<<data>>>",data)
    display(HTML(script))
""", """    data = dumps(attitudes, separators=(",", ":"))
    for char in "<>&":
        data = data.replace(char, "\\\\u%04x" % ord(char))
    name = "A{}".format(uuid4().hex)
    head, tail = __TEMPLATE__.replace("<<<hash>>>",name).split("<<<data>>>")
    display(HTML(head + data + tail))
"""),
 (HYP, """        coords = N.concatenate((n[1],n[2]),axis=1).T
        self.poly.set_xy(coords)
""", """        lower, upper = n[1], n[2]
        self.poly.set_xy(N.hstack((lower,upper)).T)
"""),
 (HYP, """        self.data = hyperbolic_errors(*args,**kwargs)
        self.__set_plot_data(self.data)
""", """        data = hyperbolic_errors(*args,**kwargs)
        self.data = data
        self.__set_plot_data(data)
"""),
 (HYP, """    t = dot(vals,ax1).T+means[:,N.newaxis]
    # Btm
    vals[:,-1] *= -1
    b = dot(vals,ax1).T+means[:,N.newaxis]
""", """    t = dot(vals,ax1).T+means[:,N.newaxis]
    # Btm
    b = dot(vals*N.array([1,-1]),ax1).T+means[:,N.newaxis]
"""),
 (DST, """    vertices = []
    codes = []
    for sheet in ('upper','lower'):
        err = plane_errors(fit.axes, fit.covariance_matrix,
                sheet=sheet)
        lonlat = N.array(err)
        lonlat *= -1
        n = len(lonlat)
        if sheet == 'lower':
            lonlat = lonlat[::-1]
        vertices += list(lonlat)
        codes.append(Path.MOVETO)
        codes += [Path.LINETO]*(n-1)
""", """    cov = fit.covariance_matrix
    upper, lower = (-N.array(plane_errors(fit.axes, cov, sheet=i))
        for i in ('upper','lower'))
    vertices, codes = [], []
    for ring in (upper, lower[::-1]):
        vertices.extend(ring)
        codes.extend([Path.MOVETO] + [Path.LINETO]*(len(ring)-1))
"""),
 (PCA, """        cov = self.covariance_matrix
        idx = N.diag_indices(3)
        ell = N.identity(4)
        ell[idx] = 1/cov[idx]*level**2 #cov*level**2#
        ell[3,3] = -1
""", """        with N.errstate(divide='ignore'):
            scale = 1/N.diagonal(self.covariance_matrix)*level**2
        ell = N.diag(list(scale) + [-1.])
"""),
 (CONICS, """        d = N.abs(N.diagonal(self)[:-1])
        return d**-1
""", """        with N.errstate(divide='ignore'):
            return N.abs(N.diagonal(self)[:-1])**-1
"""),
 (RECON, """        self.axes = ax
        if self.axes[-1,-1] < 0:
            self.axes *= -1
""", """        self.axes = -ax if ax[-1,-1] < 0 else ax
"""),
 (LINEAR, """        values = self.fit.coefficients
        val = values[0]**2+values[1]**2
        self.azimuth""", """        values = self.fit.coefficients
        self.azimuth"""),
]
if __name__ == "__main__":
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    for name, edits in SETS.items():
        files = {}
        for f, old, new in edits:
            src = files.setdefault(f, [open("/repo/" + f).read()] * 2)
            if src[1].count(old) != 1:
                sys.exit("EDIT DOES NOT MATCH %s %s %d %r" % (name, f, src[1].count(old), old[:70]))
            files[f] = [src[0], src[1].replace(old, new)]
        open(os.path.join(out, name + ".diff"), "w").write("".join("".join(difflib.unified_diff(a.splitlines(True), z.splitlines(True), "a/" + f, "b/" + f)) for f, (a, z) in files.items()))
        print(name, len(edits), "edits")
