"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

ORI = ["attitude/orientation/pca.py", "attitude/orientation/base.py", "attitude/orientation/reconstructed.py",
       "attitude/orientation/grouped.py", "attitude/orientation/linear/__init__.py", "attitude/orientation/linear/regression.py"]
ERR = ["attitude/error/__init__.py", "attitude/error/axes.py", "attitude/stereonet.py", "attitude/geom/__init__.py",
       "attitude/geom/conics.py", "attitude/geom/util.py", "attitude/bingham.py"]
DSP = ["attitude/display/stereonet.py", "attitude/display/polar.py", "attitude/display/hyperbola.py",
       "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", "attitude/display/plot/__init__.py",
       "attitude/display/cartopy.py", "attitude/display/parametric.py", "attitude/display/nbextension.py"]

p("C01", "Using a fit never changes it",
  "A fitted, reconstructed, grouped or regression plane gives every answer (strike/dip/rake, axes, error axes and angles, scores, residuals, uid, exported record, error curves, drawn shapes) exactly as an identical plane that has never been used would give it. This holds after any sequence of queries, exports, plots and groupings, including queries that themselves fail.",
  ["histories", "configurations", "inputs"],
  "every finite sequence of public operations, with any documented options, on any mix of planes of every kind and facing",
  "The tests call one or two operations on a throw-away random plane; none re-queries a plane after other operations, so an order-dependent answer is invisible to them.",
  ORI + ERR + DSP,
  [("error functions work on fresh arrays, never on the fit's own", "attitude/error/axes.py apply_error_scaling / statistical_axes; attitude/orientation/pca.py eigenvalues, covariance_matrix"),
   ("facing is handled on a local copy of the axes", "attitude/orientation/pca.py as_conic; attitude/stereonet.py normal_errors; attitude/display/polar.py pole_error")],
  [("axes / V / normal", "principal axes of the fit and its upward normal", "attitude/orientation/pca.py __compute_derived_parameters"),
   ("singular_values, sigma, arr, mean, n, method", "what all answers derive from", "attitude/orientation/pca.py __init__")],
  ["return values of every public query", "artists added to matplotlib axes", "exported mappings"])

p("C02", "Concurrent callers of shared planes get the single-caller answers",
  "When several threads query, export, plot and group the same plane objects at the same time, every call completes and returns exactly what the same call returns when it runs alone on an unused plane. No exported record mixes states, and no caller's options leak into another caller's answer.",
  ["schedules", "configurations"],
  "every interleaving, at bytecode granularity, of any set of concurrent callers running any public operations on shared planes",
  "All tests are single-threaded; a race needs a preemption between particular bytecodes of two calls.",
  ORI + ERR + DSP,
  [("queries are read-only or publish a complete value in one assignment", "attitude/orientation/pca.py U; attitude/orientation/linear/regression.py coefficients, covariance_matrix"),
   ("no shared scratch state at module level", "attitude/error, attitude/stereonet.py, attitude/display/parametric.py")],
  [("lazily filled attributes", "scores U, regression coefficients and covariance", "attitude/orientation/pca.py, attitude/orientation/linear/regression.py")],
  ["return value of each call, per thread"])

p("C03", "An aborted operation leaves no trace and never returns a wrong answer",
  "If any query, export, plot or grouping is aborted at any point (kernel interrupt, out of memory), the abort reaches the caller or the call returns its normal answer, never a different one. Afterwards every plane involved, and a repeat of the aborted call, answers as if the aborted call had never been made.",
  ["crash_points", "fault_sequences", "histories"],
  "an exception injected at every reachable bytecode of every public operation, any number of times in a history",
  "No test makes an operation fail half-way, let alone checks the object afterwards.",
  ORI + ERR + DSP,
  [("operations compute into locals and never park temporary state on the plane", "attitude/orientation/pca.py, attitude/orientation/base.py to_mapping"),
   ("exceptions are not swallowed", "attitude/error/axes.py hyperbolic_axes")],
  [], ["the exception or value of the aborted call", "answers of all planes afterwards"])

p("C04", "Caller-owned data is never written and may be reused after the call",
  "Coordinate arrays, weights, axes, covariance matrices, group lists and attitude records that a caller passes to fitting, grouping, error-surface, conic, plotting or export calls are left unmodified, whether the call succeeds, fails or is aborted. A plane or group made from caller data keeps giving the same answers, also in groups made later, after the caller overwrites or resizes those buffers.",
  ["histories", "crash_points", "inputs"],
  "every sequence of calls taking caller-owned buffers, every abort point, and every later overwrite of those buffers",
  "Tests never look at their inputs after a call and never reuse a buffer.",
  ["attitude/orientation/pca.py", "attitude/orientation/grouped.py", "attitude/orientation/linear/regression.py", "attitude/coordinates/__init__.py", "attitude/stereonet.py", "attitude/display/hyperbola.py", "attitude/display/nbextension.py", "attitude/geom/conics.py", "attitude/display/polar.py", "attitude/display/parametric.py"],
  [("coordinates are copied and centered on entry", "attitude/orientation/pca.py __init__; attitude/coordinates/__init__.py centered"),
   ("conics and hyperbolas copy what they transform", "attitude/geom/conics.py conic; attitude/display/hyperbola.py")],
  [("array / arr / weights", "raw, centered and weighting inputs kept by a fit", "attitude/orientation/pca.py")],
  ["byte content of every buffer handed in", "answers after the buffers were overwritten"])

p("C05", "Results handed out stay independent of the plane and of each other",
  "A result that a fitted or grouped plane computes for a call (rotated data, residuals, error axes and curves, eigenvalues, principal axes, covariance, exported records) never changes afterwards because of later operations on the plane. A caller may overwrite any such computed result (not the plane's own stored attributes) without changing any later answer of the plane or any other result.",
  ["histories", "schedules"],
  "every sequence of operations with arbitrary overwriting of previously returned results in between",
  "Tests discard results at once; aliasing between a result and internal state needs a later operation to show.",
  ORI + ["attitude/error/axes.py", "attitude/error/__init__.py", "attitude/stereonet.py", "attitude/display/parametric.py"],
  [("computed quantities are built fresh on each call", "attitude/orientation/pca.py rotated, residuals, eigenvalues, hyperbolic_axes, covariance_matrix; attitude/orientation/base.py principal_axes, to_mapping")],
  [], ["content of all results still held by callers", "later answers"])

p("C06", "Deferred results do not depend on when or by whom they are first asked",
  "Quantities a plane computes on first use (component scores of a fit restored from saved axes; coefficients, predictions, residuals and covariance of a regression) have the same value whichever of them is asked first, by whichever thread, and after earlier attempts that failed or were aborted. The values are those of the original fit, respectively of the least-squares solution of the data.",
  ["schedules", "crash_points", "histories"],
  "every order of first access, every interleaving of concurrent first accesses, every abort point of a first access",
  "Tests access each deferred value once, from one thread, without failures.",
  ["attitude/orientation/pca.py", "attitude/orientation/linear/regression.py", "attitude/orientation/linear/__init__.py"],
  [("value computed completely before it is stored", "attitude/orientation/pca.py U; attitude/orientation/linear/regression.py coefficients, covariance_matrix"),
   ("restored fits recover directions and singular values from scaled axes", "attitude/orientation/pca.py __load_saved_fit")],
  [("_U", "None until scores are first asked", "attitude/orientation/pca.py"),
   ("__coefficients__, __covariance__, xTx", "regression results filled on first use", "attitude/orientation/linear/regression.py")],
  ["values returned by each access"])

p("C07", "Group membership stays consistent through any grouping history",
  "After any sequence of grouping, regrouping and disabling calls, each measurement belongs to at most one group, a measurement names a group exactly when that group of the same collection lists it, and exported records cross-reference each other by uid the same way. Measurements are never lost, duplicated or reordered, disabled flags persist, and requests naming an unknown uid, an already grouped measurement or a group are refused with the documented errors.",
  ["histories", "schedules"],
  "every sequence of grouping calls (copying or in place), list filterings and reorderings, disabling and exports, by one or several callers sharing a collection",
  "There is no test of the grouping functions at all (the tests named grouped plane only stack arrays).",
  ["attitude/orientation/grouped.py", "attitude/orientation/base.py", "attitude/orientation/pca.py"],
  [("membership is rebuilt on every call and links copies to copies", "attitude/orientation/grouped.py create_groups"),
   ("already grouped measurements are refused", "attitude/orientation/grouped.py find / GroupedOrientation.__init__")],
  [("member_of", "group a measurement belongs to", "attitude/orientation/pca.py"), ("members", "measurements of a group", "attitude/orientation/grouped.py")],
  ["returned collection", "exported member_of / members / disabled"])

p("C08", "Grouping spares the caller's collection, and a failed call leaves no debris",
  "By default grouping never alters the collection, planes or groups it is given, whether it succeeds, is refused, fails while fitting a group or is interrupted anywhere. In in-place mode a call that is refused or whose fit fails leaves every measurement's membership consistent with the groups actually present, so the collection can still be exported and regrouped.",
  ["fault_sequences", "crash_points", "histories"],
  "every failure (unknown uid, refused member, unusable options, failing decomposition, out of memory, interrupt) at every point of a grouping call, in any history",
  "No test covers grouping, let alone failing in the middle of it.",
  ["attitude/orientation/grouped.py"],
  [("work on copies by default", "attitude/orientation/grouped.py create_groups copy"),
   ("members are linked only after the group is fitted", "attitude/orientation/grouped.py GroupedOrientation.__init__")],
  [], ["membership, members, flags and answers of the input collection after the call", "export after failure"])

p("C09", "A group's orientation is the fit of its members' pooled data",
  "A group reports the orientation, error estimates, point count and mean location obtained by pooling all points of its members: each member centered on its own mean by default, or taken as one plane when asked to. This holds whatever order or history the group was formed in, whatever was previously plotted, exported or failed, and whoever else groups the same measurements meanwhile.",
  ["histories", "schedules", "configurations"],
  "every collection, grouping history, member order, pooling option and interleaving of callers",
  "Tests only stack arrays by hand; they never build a group object or compare one with its members.",
  ["attitude/orientation/grouped.py", "attitude/orientation/pca.py"],
  [("centered member arrays are stacked; the mean comes from the raw ones", "attitude/orientation/grouped.py GroupedOrientation.__init__")],
  [], ["axes, singular values, uid, count, center, errors and export of the group"])

p("C10", "The notebook library is delivered before init reports success, once per kernel",
  "When initialising the notebook returns normally, the complete bundled javascript library has been delivered to the browser at least once since the kernel started, also when several callers initialise at the same time. If the library cannot be read or delivered the call raises and a later call tries again; calls that begin after a completed delivery deliver nothing more.",
  ["fault_sequences", "schedules", "histories"],
  "every sequence and interleaving of initialisations with read and delivery failures, interrupts and kernel restarts",
  "Initialisation is not tested; the interesting cases need an I/O failure or a second caller at the right moment.",
  ["attitude/display/nbextension.py", "attitude/display/lib"],
  [("flag set only after delivery", "attitude/display/nbextension.py init_notebook_mode")],
  [("__ATTITUDE_INITIALIZED", "library already delivered in this kernel", "attitude/display/nbextension.py")],
  ["messages published to the frontend", "outcome of each call"])

p("C11", "Each interactive plot shows exactly its own planes in its own container",
  "Every interactive plot call publishes exactly one document whose script, run in a browser, hands the exported records of exactly the planes passed, in order and with all user-provided values intact, to a container that exists in that document. Container names never repeat across calls, concurrent callers or kernel restarts sharing a page; if publishing fails the call raises and nothing is shown.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every sequence and interleaving of calls over any planes and records with any text values, with publishing failures and restarts",
  "Interactive plotting is not tested; collisions and mixed-up data need many calls or interleavings.",
  ["attitude/display/nbextension.py", "attitude/orientation/base.py", "attitude/orientation/pca.py"],
  [("random container id per call", "attitude/display/nbextension.py plot_interactive uuid4"),
   ("data escaped for the script it is embedded in", "attitude/display/nbextension.py plot_interactive")],
  [], ["published HTML, executed by a real JavaScript engine"])

p("C12", "Drawing on given axes affects only those axes",
  "A plotting call given explicit axes adds its shapes to those axes only: other axes and figures, their artists, and the global current figure stay as they were, also when callers interleave or a call is aborted. The shapes each caller ends up with are those the same calls produce alone; calls that create their own figure return one holding only their own content.",
  ["schedules", "histories", "crash_points"],
  "every sequence and interleaving of plotting calls on several axes and figures, with aborts at any point",
  "Image tests draw one figure in a fresh process; leaks into another figure or the global state cannot show.",
  DSP,
  [("artists are added to the axes argument", "attitude/display/stereonet.py plot_patch; attitude/display/polar.py; attitude/display/plot/__init__.py; attitude/display/hyperbola.py"),
   ("the current axes are consulted only when none are given", "attitude/display/plot/__init__.py current_axes")],
  [], ["artists of every open axes, pyplot's figure registry"])

p("C13", "An animated error region always shows its last applied update",
  "After any sequence of creating, plotting and updating hyperbolic error regions, each drawn region is exactly the one computed from the arguments of its own last successful update. A failed or aborted update leaves the shown region at the previous or the new value as a whole, and never affects another region; a repeated update then succeeds.",
  ["histories", "crash_points", "schedules"],
  "every interleaved sequence of updates of several regions, with failing arguments and aborts at any point",
  "Tests compute a region once and never update one.",
  ["attitude/display/hyperbola.py"],
  [("region recomputed completely, then swapped in one call", "attitude/display/hyperbola.py HyperbolicErrors.update_data")],
  [("data / poly", "computed bounds and the drawn patch", "attitude/display/hyperbola.py")],
  ["vertices of each patch"])

p("C14", "Resampling evaluates n valid replicates and never disturbs the data",
  "A bootstrap calls the statistic exactly n times and returns its n values in call order; every replicate is either a selection of whole data points or the data plus fresh random noise on the requested coordinates only. The data, earlier replicates and concurrent resamplings are never disturbed, even when the statistic modifies or keeps its sample, raises, or is aborted, and noise resampling is reproducible for a given random state.",
  ["histories", "schedules", "crash_points"],
  "every random stream, every statistic (mutating, retaining, failing), every interleaving of resamplings",
  "Resampling is not tested; the failure modes need a misbehaving statistic or a second resampling in flight.",
  ["attitude/display/plot/cov_types/regressions.py", "attitude/display/error_comparison.py"],
  [("each replicate is a new array", "attitude/display/plot/cov_types/regressions.py bootstrap_noise, bootstrap_resampled")],
  [], ["samples seen by the statistic", "returned values", "data afterwards"])

p("C15", "Extraction from elevation models returns every valid cell and nothing else",
  "Extracting an area returns exactly the centers of the valid cells inside it with their true elevations; extracting a line returns its vertices with elevations interpolated from the surrounding cells; locations touched by missing data are dropped, never filled in. If a read fails the call raises instead of returning partial data, a repeat returns the complete result, and concurrent or repeated extractions never affect each other, the geometry or the dataset.",
  ["fault_sequences", "schedules", "inputs"],
  "every raster, geometry, pattern of missing cells, and sequence of read failures, aborts and interleaved extractions",
  "The extraction helpers have no tests (the module could not even be imported).",
  ["attitude/helpers/dem.py", "attitude/helpers/interpolation.py"],
  [("mask shrunk to its bounding window and re-offset", "attitude/helpers/dem.py offset_mask, extract_area"),
   ("invalid coordinates removed", "attitude/helpers/dem.py clean_coordinates; masked cells become NaN in attitude/helpers/interpolation.py")],
  [], ["returned coordinates against the raster"])

p("C16", "The attitude recovered from a surface survives data loss, retries and restarts",
  "Measuring a planar surface on an elevation model (extract, fit, group, export) reports the surface's true strike, dip and center location and the documented error angles for the points actually used, no matter which cells are missing, which reads failed and were retried, in which order workers deliver their pieces, or how often the process was restarted in between.",
  ["fault_sequences", "schedules", "crash_points", "inputs"],
  "every planar or noisy planar surface of any attitude, every loss pattern leaving a definable plane, every delivery order, retry and restart history",
  "No test runs the pipeline; unit tests check single formulas on one random plane, with no data loss, failure or restart.",
  ["attitude/helpers/dem.py", "attitude/orientation/pca.py", "attitude/orientation/base.py", "attitude/orientation/grouped.py", "attitude/error/axes.py"],
  [("orientation is a function of the set of points", "attitude/orientation/pca.py"), ("export carries all derived quantities", "attitude/orientation/base.py to_mapping")],
  [], ["exported record"])

p("C17", "Planes in one process never influence each other",
  "The answers of a plane do not depend on which other planes exist, were created, queried with other options (confidence level, error model, sheet, weights), copied, pickled or discarded before or meanwhile. Two planes that share a property (point count, uid, location, error axes) still each report their own data.",
  ["histories", "configurations", "schedules"],
  "every sequence of creating, querying, copying, pickling and discarding planes with any options, in particular look-alike planes",
  "Each test makes one plane at a time and never compares answers across planes or option settings.",
  ORI + ERR,
  [("no state outside the plane object", "whole package: no module-level caches; per-instance method and weights in attitude/orientation/pca.py")],
  [], ["answers of every plane against an isolated process"])

p("C18", "A measurement's uid is stable across sessions and identifies its data",
  "The same coordinates, in whatever memory layout, give the same uid and the same exported record in every session, process, thread, copy and hash-randomisation setting, before and after any use, so groups recorded by uid in one session re-form identically after a crash or restart. Measurements with different shape or attitude in a collection have different uids.",
  ["crash_points", "histories", "configurations"],
  "every sequence of sessions over the same stored coordinates, crashing at any point, with any interpreter settings and any use in between",
  "Tests run in one process with one hash seed and never compare two sessions.",
  ["attitude/orientation/base.py", "attitude/orientation/pca.py", "attitude/orientation/reconstructed.py", "attitude/orientation/grouped.py"],
  [("uid is a digest of the scaled axes' bytes", "attitude/orientation/base.py hash_array, hash")],
  [], ["uids and records of separate interpreter sessions"])

p("C19", "A saved plane reads back exactly, or saving fails loudly",
  "When saving plane coordinates (two or more points) to the fixture store returns normally, loading them returns the same arrays exactly, whatever was stored under that name before; several arrays saved together come back as the same list. If the disk is full or failing, save or load raises instead of reporting success.",
  ["fault_sequences", "crash_points", "histories"],
  "every sequence of saves and loads of one or several arrays, with disk errors, short writes and a full disk at any point",
  "Tests only load two committed files; saving is never exercised.",
  ["attitude/test/io.py"],
  [("text round trip at full precision, arrays separated by a marker line", "attitude/test/io.py save_test_plane, load_test_plane")],
  [], ["arrays loaded after each save"])

# properties this technique does not decide (pure functions of their input)
p("C20", "The fitted plane minimises orthogonal distance to the points",
  "For every point set of at least three points the fitted plane passes through their mean and minimises the sum of squared orthogonal (weighted, if requested) distances; moving, rotating or scaling the points moves, rotates or scales the fit accordingly.",
  ["inputs"], "all point sets and weights", "Tests sample one random distribution.",
  ["attitude/orientation/pca.py"], [("singular value decomposition of centered data", "attitude/orientation/pca.py")])
p("C21", "Strike, dip and rake follow the right-hand rule for every attitude",
  "Strike is reported in 0 to 360 degrees with the plane dipping to its right, dip in 0 to 90 degrees, and rake as the in-plane angle of the longest axis from the dip direction, for every plane including horizontal, vertical and overturned ones.",
  ["inputs"], "all attitudes", "The cardinal-direction tests are yield tests that no longer run.",
  ["attitude/orientation/pca.py", "attitude/orientation/linear/__init__.py"], [("quadrant correction", "attitude/orientation/pca.py strike_dip")])
p("C22", "Error angles follow the documented statistics",
  "Minimum and maximum angular errors follow the noise (or sampling) error model at the requested confidence level, grow with noise and confidence, shrink with point count, and minimum never exceeds maximum.",
  ["inputs", "configurations"], "all fits, models and confidence levels", "Tests compare a few quantities on one random plane.",
  ["attitude/error/axes.py"], [("statistical_axes", "attitude/error/axes.py")])
p("C23", "Conic and hyperbolic error geometry is exact",
  "Duals, poles, polar planes, slices, projections and tangent angles of ellipsoids and hyperboloids satisfy their defining relations for every non-degenerate conic, plane and viewpoint.",
  ["inputs"], "all non-degenerate conics, planes and viewpoints", "Tests check hand-picked axis-aligned cases.",
  ["attitude/geom/conics.py", "attitude/geom/util.py", "attitude/display/hyperbola.py"], [("matrix representation of conics", "attitude/geom/conics.py")])
p("C24", "Coordinate and stereonet conversions are consistent",
  "Spherical and cartesian, stereonet and map coordinate conversions are inverse to each other and agree with the orientation conventions of the fits for every direction.",
  ["inputs"], "all directions", "Only one stale test exists.",
  ["attitude/coordinates/__init__.py", "attitude/coordinates/rotations.py", "attitude/stereonet.py"], [("conversion formulas", "attitude/coordinates")])
p("C25", "A plane reconstructed from its export reproduces the original error region",
  "Reconstructing a plane from strike, dip, rake and angular errors yields the normal, axes, uncertainty and error curves of the plane they came from, for every plane.",
  ["inputs"], "all planes and error angles", "The only test fails at the pinned commit.",
  ["attitude/orientation/reconstructed.py"], [("axes from stereonet pole and rake", "attitude/orientation/reconstructed.py")])
p("C26", "The JavaScript front end draws the same error curves as the Python module",
  "For every exported plane the error girdles and poles computed in the browser equal those computed by the Python module.",
  ["inputs"], "all exported planes", "The parity test needs a tool and script that no longer exist.",
  ["frontend/packages/attitude/src/functions.ts", "attitude/stereonet.py"], [("parallel implementations", "frontend/packages/attitude/src")])

p("C27", "Calls leave the host process's settings and resources as they were",
  "No import or call of the package (fit, query, export, grouping, plot on given axes, figure, interactive plot, resampling, extraction) leaves the host process's own settings changed: numpy error handling and print options, warning filters, matplotlib defaults and backend, logging configuration, working directory, environment, locale, signal handlers, or the contents of third-party modules. Random numbers are drawn only by the documented random functions, which never reseed the host's generator; no file, thread, process or file handle is left behind. This holds for calls that fail or are aborted anywhere, and with several callers at once.",
  ["histories", "crash_points", "schedules", "configurations"],
  "every sequence and interleaving of calls, every abort point, every host configuration",
  "Tests run in a default configuration, never compare process state before and after, and never abort a call.",
  ORI + ERR + DSP + ["attitude/helpers/dem.py", "attitude/display/plot/cov_types/regressions.py"],
  [("no call sets process-wide state", "whole package"), ("figures are made without touching matplotlib defaults", "attitude/display/plot/__init__.py setup_figure"),
   ("library file closed after reading", "attitude/display/nbextension.py get_library")],
  [], ["settings of numpy, matplotlib, warnings, logging, os, random before and after each call", "open files, threads and children"])

FE = "frontend/packages/"
p("C28", "Drawing in the browser never changes the data or options it was given",
  "No front-end call (drawing planes, poles, hyperbolas or labels, computing error curves or coordinates, converting axes, rotating or centering a stereonet) changes the records, axes, covariance matrices, arrays or option objects a page hands to it, nor anything it returned or handed to a callback earlier. This holds when a callback fails, when the page refuses an element half-way, and when a callback draws elsewhere.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of front-end calls over shared records and option objects, with failures at any point",
  "The front end's two tests compare one curve each; none looks at its input after a call.",
  [FE + "attitude/src/functions.ts", FE + "attitude/src/math.ts", FE + "attitude/src/hyperbola.ts", FE + "attitude/src/selection.ts", FE + "attitude/src/reconstruct.ts", FE + "attitude/src/util.ts", FE + "attitude/src/stereonet/index.ts"],
  [("vectors and options are copied before they are scaled or completed", FE + "attitude/src/math.ts, functions.ts, hyperbola.ts")],
  [], ["text of every record, option object and array handed in", "text of every earlier result"])

p("C29", "A browser drawing does not depend on what was drawn before it",
  "A stereonet or hyperbola drawer produces for a record and its options the same shapes, classes, clip paths, labels and returned curves as a new drawer on an empty page with the same settings, whatever records, options and failed drawings came before, on that drawer or on any other of the page; drawing again replaces or adds only what the call names.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of drawings, settings, failures and redraws on any number of drawers on one page",
  "No test draws anything in a page, let alone twice.",
  [FE + "attitude/src/hyperbola.ts", FE + "attitude/src/stereonet/index.ts", FE + "attitude/src/stereonet/horizontal.ts", FE + "attitude/src/stereonet/vertical.ts", FE + "attitude/src/functions.ts"],
  [("per-call values of generators and masks, unique clip-path names", FE + "attitude/src/hyperbola.ts, stereonet/index.ts")],
  [("options of a drawer", "levels, margins, scale, styles set through its accessors", FE + "attitude/src/hyperbola.ts, stereonet/index.ts")],
  ["document tree after each call", "returned curves"])

p("C30", "Dragging and centering keep picture, labels and listeners in step",
  "Dragging a stereonet rotates exactly the net that was pressed, by a third of a degree per pixel of pointer travel since the press (page coordinates, latitude limited to 90 degrees), until the release; moves without a press rotate nothing. After every press, move, release, centering or drawing, each path and label of a net is drawn at the rotation it reports, and its rotate listeners have been told of that rotation. Nets on one page, and pointer handlers of the page itself, do not displace each other; a failing listener leaves neither an old picture nor a net stuck to the pointer.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of pointer events, centerings and drawings on any number of nets, with listeners failing at any point",
  "No test dispatches an event.",
  [FE + "attitude/src/stereonet/interaction.ts", FE + "attitude/src/stereonet/labels.ts", FE + "attitude/src/stereonet/index.ts", FE + "attitude/src/stereonet/horizontal.ts", FE + "attitude/src/stereonet/vertical.ts"],
  [("drag state kept per net, listeners registered under a name of the net's own", FE + "attitude/src/stereonet/interaction.ts, labels.ts, index.ts")],
  [("rotation of the projection", "what every path and label is drawn at", FE + "attitude/src/stereonet/index.ts")],
  ["rotation reported by the net, paths, labels, calls of listeners after each event"])

p("C31", "A React plot shows what a fresh mount of its present props would show",
  "After any history of new props (data, hovered records, planes and poles, center, clip angle, callbacks), re-renders, switches, hovers, drags and remounts, each stereonet component (interactive, switched, clipped and rectangular) shows exactly the shapes of a fresh mount with its present props, at the rotation it was dragged to since; hovered records lie on top, and only the present callbacks are called, with the record concerned. Components on one page do not affect each other, and nothing fails when a callback is missing.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of updates and user events, applied one by one or batched, on any number of components",
  "No test mounts a component.",
  [FE + "notebook-ui/src/components/stereonet.ts", FE + "plots/src/vertical.ts", FE + "plots/src/rectangular.ts", FE + "plots/src/graticule-labels.ts", FE + "attitude/src/stereonet/index.ts"],
  [("componentDidUpdate redraws what changed, effects redraw on their dependencies", FE + "notebook-ui/src/components/stereonet.ts, " + FE + "plots/src")],
  [("props and state of each component", "what is to be shown", FE + "notebook-ui/src/components/stereonet.ts")],
  ["document tree after each event", "calls of callbacks"])

p("C32", "The web app's sheet, its saved copy and its plot always agree",
  "Editing or pasting into the sheet changes exactly the named cells (and orders the two errors of a row so that the larger is the maximum); adding rows keeps what is there; resetting brings back the sample data. The plot always shows exactly the rows whose five numbers are all numbers, in their order, with their colour if it is one. What was last edited is what a reload or a second tab opened later starts from; damaged storage gives the sample data and full storage only costs the saved copy. The clip angle is kept likewise.",
  ["histories", "fault_sequences", "schedules", "inputs"],
  "every sequence of edits, pastes, resets, plot changes, reloads and storage failures in one or two tabs",
  "The web app has no tests.",
  [FE + "webapp/src/sheet.ts", FE + "webapp/src/app.ts", FE + "plots/src/vertical.ts", FE + "plots/src/rectangular.ts"],
  [("edits are applied to a copy of the sheet, which is saved and plotted", FE + "webapp/src/sheet.ts, app.ts")],
  [("orientation-data", "the sheet as saved in the browser", FE + "webapp/src/app.ts")],
  ["table, plotted records and saved text after each event"])

p("C33", "The notebook panel's list, selection, hover and plot always agree",
  "In the notebook panel, clicking a record toggles its selection (groups only when that is allowed) and nothing else's, also when several clicks precede the next render; hovering a record, or its shape in the plot, marks it, or the group it belongs to with all delivered members, in list, plot and description, until the pointer leaves. The list shows all records (groups only while switched on), the plot all records or just the selected ones while zoomed, the clipboard receives the selected uids in order, and delivering the data again keeps all of this. No order of these steps fails, also for groups some of whose members were not delivered.",
  ["histories", "schedules", "inputs"],
  "every sequence of clicks, hovers, switches, re-renders and deliveries over any records and groups",
  "The notebook panel has no tests.",
  [FE + "notebook-ui/src/index.ts", FE + "notebook-ui/src/components/list.ts", FE + "notebook-ui/src/components/data-panel.ts", FE + "notebook-ui/src/components/stereonet.ts"],
  [("state updates compute from the previous state and never change it in place", FE + "notebook-ui/src/index.ts")],
  [("selected, hovered, zoom and group switch", "what is marked and shown", FE + "notebook-ui/src/index.ts")],
  ["list, marks, plot, description and clipboard after each event"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
