# ------------------------------------------------------------------ C28
jsbug("c28-close-ring", "C28", [(FUNJS, """  const obj = createFeature("LineString", d.nominal);
""", """  const ring = d.nominal;
  if (String(ring[0]) !== String(ring[ring.length - 1])) {
    // a great circle is closed
    ring.push(ring[0]);
  }
  const obj = createFeature("LineString", ring);
""")], "a nominal plane made from curves computed before", "those curves gain a point", """
const w = await page("core"), r = rec(0), e = w.M.math.combinedErrors(r.hyperbolic_axes, r.axes, { n: 10 }); e.nominal.pop(); const was = show(e);
w.M.functions.nominalPlane(e);
same(show(e), was, "curves");
""")
jsbug("c28-lengths-sort", "C28", [(HYPJS, """    const s = M.sqrt(d.lengths).map((d) => 1 / d);
""", """    if (d.lengths[0] < d.lengths[1]) {
      // longest axis first
      d.lengths.sort((a, b) => b - a);
    }
    const s = M.sqrt(d.lengths).map((d) => 1 / d);
""")], "a record whose first error axis is not the longest", "its error axes are re-ordered", """
const w = await page("core"), r = rec(0, { hyperbolic_axes: [10, 40, 2] }), d = new w.M.PlaneData(r, [0, 0, 0]);
const x = w.d3.scaleLinear().domain([-1, 1]).range([0, 100]); d.offset = [0, 0, 0];
const g = w.el("g", "svg"); w.d3.select(g).datum(d).each(w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, x));
same(r.hyperbolic_axes, [10, 40, 2], "error axes");
""")
jsbug("c28-rect-defaults", "C28", [(NET, """    let {
      width = scale - 2 * margin,
      height = scale - 2 * margin,
      x = margin,
      y = margin,
    } = opts;
""", """    opts.width ??= scale - 2 * margin;
    opts.height ??= scale - 2 * margin;
    const { width, height, x = margin, y = margin } = opts;
""")], "a rectangular net with only one side given", "the caller's sizes are completed", """
const w = await page("core"), o = { width: 200 }; w.M.Stereonet().rectangular(o);
same(o, { width: 200 }, "options");
""")
jsbug("c28-center-scratch", "C28", [(NET, """    let centerPos;
    return (centerPos = proj.invert([scale / 2, scale / 2]));
""", """    return Object.assign(lastCenter, proj.invert([scale / 2, scale / 2]));
"""), (NET, """  const uid = uuid.v4();

""", """  const uid = uuid.v4();
  const lastCenter = [0, 0];

""")], "a center position kept while the net turns", "the kept position follows the net", """
const w = await page("core"), s = w.M.Stereonet(); net(w, s);
s.rotate([10, 20]); const a = s.centerPosition(), was = show(a); s.rotate([40, 50]); s.centerPosition();
same(show(a), was, "kept position");
""")

# ------------------------------------------------------------------ C29
jsbug("c29-mask-by-uid", "C29", [(HYPJS, """      mid = uuid.v4();
      mask""", """      mid = d.data?.uid ? "mask-" + d.data.uid : uuid.v4();
      mask""")], "a record drawn twice on one page", "the second hyperbola is cut by the mask of the first", """
const w = await page("core"), x = w.d3.scaleLinear().domain([-1, 1]).range([0, 100]), ids = [];
for (const width of [100, 300]) {
  const d = new w.M.PlaneData(rec(0), [0, 0, 0]); d.offset = [0, 0, 0];
  const g = w.el("g", "svg"); w.d3.select(g).datum(d).each(w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, x).width(width));
  ids.push(g.querySelectorAll("mask")[0].getAttribute("id"));
}
same(ids[0] !== ids[1], true, "masks have names of their own");
""")
jsbug("c29-t-flip", "C29", [(HYPJS, """    T = M.matrix([
      [1, 0],
      [0, 0],
      [0, 1],
    ]);
""", """    T = M.matrix([
      [1, 0],
      [0, 0],
      // screen coordinates
      [0, ratios.ratioY < 0 ? -1 : 1],
    ]);
""")], "a digitized line drawn after a hyperbola with an upward scale", "the line is upside down", """
const go = async (first) => {
  const w = await page("core"), x = w.d3.scaleLinear().domain([-1, 1]).range([0, 100]), y = w.d3.scaleLinear().domain([-1, 1]).range([100, 0]);
  const d = new w.M.PlaneData(rec(0, { centered_array: [[1, 2, 3], [4, 5, 7]] }), [0, 0, 0]); d.offset = [0, 0, 0];
  if (first) w.d3.select(w.el("g", "svg")).datum(d).each(w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, y));
  const p = w.el("path", "svg"); w.d3.select(p).datum(d).each(w.M.digitizedLine(0.3, w.d3.line())); return p.getAttribute("d");
};
same(await go(true), await go(false), "digitized line");
""")
jsbug("c29-line-axes", "C29", [(HYPJS, """const digitizedLine = function (viewpoint, lineGenerator) {
  let axes = M.eye(3);
""", """let axes = M.eye(3);

const digitizedLine = function (viewpoint, lineGenerator) {
""")], "two line drawers, one with axes of its own", "the other uses them as well", """
const w = await page("core"), d = new w.M.PlaneData(rec(0, { centered_array: [[1, 2, 3], [4, 5, 7]] }), [0, 0, 0]); d.offset = [0, 0, 0];
const at = () => { const p = w.el("path", "svg"); w.d3.select(p).datum(d).each(w.M.digitizedLine(0.3, w.d3.line())); return p.getAttribute("d"); };
const was = at(); w.M.digitizedLine(0.3, w.d3.line()).axes([[0, 1, 0], [1, 0, 0], [0, 0, 1]]);
same(at(), was, "digitized line");
""")
jsbug("c29-level-sticks", "C29", [(FUNJS, """    const f_ = function (sheet) {
      opts.sheet = sheet;
""", """    const f_ = function (sheet) {
      opts.sheet = sheet;
      if (props.level != null) {
        // records may ask for a level of their own
        opts.level = props.level;
      }
""")], "a record that carries a level, drawn before others by the same call", "the others are drawn at its level", """
const go = async (l) => { const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s); s.ellipses(l); return paths(svg).pop(); };
same(await go([rec(0, { level: 3 }), rec(1)]), await go([rec(0), rec(1)]), "last ellipse");
""")
jsbug("c29-mask-once", "C29", [(HYPJS, """    hyp.classed("in_group", d.inGroup);
""", """    if (d.inGroup) {
      hyp.classed("in_group", true);
    }
""")], "an element drawn again for a record that is not in a group", "it keeps the class of the former record", """
const w = await page("core"), x = w.d3.scaleLinear().domain([-1, 1]).range([0, 100]), g = w.el("g", "svg");
for (const in_group of [true, false]) {
  const d = new w.M.PlaneData(rec(0, { in_group }), [0, 0, 0]); d.offset = [0, 0, 0];
  w.d3.select(g).datum(d).each(w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, x));
}
same(/in_group/.test(g.getAttribute("class") || ""), false, "class of the group");
""")

# ------------------------------------------------------------------ C30
jsbug("c30-release-ignored", "C30", [(DRAG, """      try {
        mousemove();
      } finally {
        // The drag is over, even if a listener of the rotation fails
        m0 = null;
      }
""", """      m0 = null;
""")], "a release away from the last move", "the last part of the travel is lost", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
ev(w, svg, "mousedown", 100, 100); ev(w, w.document.body, "mouseup", 130, 100);
same(s.rotate().slice(0, 2).map(Math.round), [10, 0], "rotation");
""")
jsbug("c30-edge-press", "C30", [(DRAG, """  const mousemove = function() {
    if (m0) {
""", """  const mousemove = function() {
    if (m0 && m0[0] && m0[1]) {
""")], "a press at the very edge of the page", "the drag does nothing", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
drag(w, svg, [0, 100], [30, 100]);
same(s.rotate().slice(0, 2).map(Math.round), [10, 0], "rotation");
""")
jsbug("c30-stop", "C30", [(DRAG, """  const mousemove = function() {
    if (m0) {
""", """  const mousemove = function() {
    if (m0) {
      event.stopImmediatePropagation();
""")], "a page that follows the pointer itself", "its handler is not called during a drag", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s); let n = 0;
w.window.addEventListener("mousemove", () => n++);
drag(w, svg, [100, 100], [130, 100]);
same(n, 1, "calls of the page's handler");
""")
jsbug("c30-overlay-stale", "C30", [(NET, """    return el.selectAll("path").attr("d", path.pointRadius(2));
""", """    return el
      .selectAll("defs path, .interior path, .point")
      .attr("d", path.pointRadius(2));
""")], "a net with its horizontal line that is turned", "the line stays behind", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s); s.call(w.M.globalLabels());
s.rotate([20, 30]);
const p = svg.querySelectorAll("g.horizontal > path")[0];
same(p.getAttribute("d"), s.path()(p.__data__), "horizontal line");
""")
jsbug("c30-listener-name", "C30", [(NET, """  f.on = (event, callback) => dispatch.on(uid + event, callback);
""", """  f.on = (event, callback) => {
    const [type, name = ""] = event.split(".");
    // names are short
    return dispatch.on(uid + type + "." + name.slice(0, 2), callback);
  };
""")], "two listeners with similar names", "the second displaces the first", """
const w = await page("core"), s = w.M.Stereonet(); net(w, s); let n = 0;
s.on("rotate.map1", () => n++); s.on("rotate.map2", () => n++); s.rotate([10, 10]);
same(n, 2, "listeners called");
""")

# ------------------------------------------------------------------ C31
jsbug("c31-same-uids", "C31", [(COMP, """    const dataChanged = data !== prevProps.data;
""", """    const dataChanged =
      data !== prevProps.data &&
      data.map((d) => d.uid).join() !== prevProps.data.map((d) => d.uid).join();
""")], "new values under the same uids", "the old shapes stay", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, n = [rec(0, { hyperbolic_axes: [9, 4, 1] })], host = mount(w, C, { data: [rec(0)], drawPoles: true, precision: 2 });
mount(w, C, { data: n, drawPoles: true, precision: 2 }, host);
same(paths(host.querySelectorAll("g.poles")[0]), paths(mount(w, C, { data: n, drawPoles: true, precision: 2 }).querySelectorAll("g.poles")[0]), "shapes");
""")
jsbug("c31-empty-clipped", "C31", [(CLIPPED, """    if (ref.current == null) return;
    buildPlot""", """    if (ref.current == null || data.length === 0) return;
    buildPlot""")], "the last record going away", "the clipped plot still shows it", """
const w = await page("components"), C = w.M.plots.VerticalClippedStereonet, host = mount(w, C, { data: [rec(0)] });
mount(w, C, { data: [] }, host);
same(host.querySelectorAll("g.normal").length, 0, "poles");
""")
jsbug("c31-rotate-stale", "C31", [(COMP, """      return this.props.onRotate(center);
""", """      return onRotate(center);
"""), (COMP, """    let { data, center, precision, margin } = this.props;
""", """    let { data, center, precision, margin, onRotate } = this.props;
""")], "a new rotation callback", "the old one is called", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, data = [rec(0)], c = [0, 0]; let a = 0, b = 0;
const host = mount(w, C, { data, center: c, precision: 2, onRotate: () => a++ }); mount(w, C, { data, center: c, precision: 2, onRotate: () => b++ }, host);
drag(w, host.querySelectorAll("svg")[0], [100, 100], [130, 100]);
same([a > 0, b > 0], [false, true], "callbacks called");
""")
jsbug("c31-hover-order", "C31", [(COMP, """    if (dataChanged || prevProps.drawPoles !== drawPoles) {
      this.updatePoles();
      hoveredChanged = true;
    }
""", """    if (dataChanged || prevProps.drawPoles !== drawPoles) {
      this.updatePoles();
    }
""")], "poles switched while records are hovered", "the hovered shapes do not follow the switch", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, data = [rec(0)], hovered = [data[0]], c = [0, 0], o = { data, hovered, center: c, precision: 2 };
const host = mount(w, C, { ...o, drawPoles: false }); mount(w, C, { ...o, drawPoles: true }, host);
same(host.querySelectorAll("g.hovered > g").map((g) => g.getAttribute("class")), mount(w, C, { ...o, drawPoles: true }).querySelectorAll("g.hovered > g").map((g) => g.getAttribute("class")), "hovered shapes");
""")

# ------------------------------------------------------------------ C32
jsbug("c32-dedupe", "C32", [(APP, """    .filter((d) => d != null);
""", """    .filter((d) => d != null)
    // plot each measurement once
    .filter(
      (d, i, all) =>
        i === all.findIndex((q) => JSON.stringify(q) === JSON.stringify(d))
    );
""")], "two equal rows", "one of them is not plotted", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([10, 8, 2, 20, 8, "#65499e"].map((value, col) => ({ row: 3, col, value: col < 5 ? String(value) : value }))); w.flush();
same(host.querySelectorAll("g.poles > g.normal").length, 3, "poles");
""")
jsbug("c32-number", "C32", [(SHEET, """    transform = (d) => parseFloat(d),
""", """    transform = (d) => Number(d),
""")], "a row with an empty cell among its numbers", "the row is plotted as if it were zero", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 1, col: 4, value: "" }]); w.flush();
same(host.querySelectorAll("g.poles > g.normal").length, 1, "poles");
""")
jsbug("c32-negative", "C32", [(SHEET, """    isValid = (d) => !isNaN(d),
""", """    isValid = (d) => d > -360,
""")], "a row with a large negative angle", "the row is not plotted", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 1, col: 0, value: "-400" }]); w.flush();
same(host.querySelectorAll("g.poles > g.normal").length, 2, "poles");
""")
jsbug("c32-memo-first", "C32", [(APP, """  const cleanedData: Orientation[] = data
    .map(constructOrientation)
    .filter((d) => d != null);
""", """  const key = data
    .slice(0, 10)
    .map((row) => row.map((d) => d.value))
    .join("|");
  const cleanedData: Orientation[] = useMemo(
    () => data.map(constructOrientation).filter((d) => d != null),
    [key, data.length]
  );
"""), (APP, """import h from "@macrostrat/hyper";
""", """import { useMemo } from "react";
import h from "@macrostrat/hyper";
""")], "an edit below the tenth row", "the plot does not follow", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.fire(host.querySelectorAll("button").find((b) => /Add/.test(b.textContent)), "click"); w.flush();
w.sheet.onCellsChanged([40, 30, 2, 20, 8].map((value, col) => ({ row: 12, col, value: String(value) }))); w.flush();
same(host.querySelectorAll("g.poles > g.normal").length, 3, "poles");
""")

# ------------------------------------------------------------------ C33
jsbug("c33-batched-click", "C33", [(UI, """    return this.setState((state, props) => {
      // Start from a copy, so that what was rendered before isn't changed
      const collectedIDs = [...state.selection];
""", """    const { state, props } = this;
    return this.setState(() => {
      // Start from a copy, so that what was rendered before isn't changed
      const collectedIDs = [...state.selection];
""")], "two clicks before the next render", "only the second counts", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
const li = host.querySelectorAll("li"); w.R.ReactDOM.unstable_batchedUpdates(() => { for (const u of ["p0", "p1"]) w.fire(li.find((l) => l.textContent === u), "click"); }); w.flush();
same(host.querySelectorAll("li").filter((l) => /selected/.test(l.getAttribute("class") || "")).map((l) => l.textContent), ["p0", "p1"], "selected");
""")
jsbug("c33-click-unhovers", "C33", [(UI, """      return { selection: collectedIDs };
""", """      return { selection: collectedIDs, hovered: null };
""")], "a click on the record under the pointer", "it is no longer marked although the pointer is still there", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
const li = () => host.querySelectorAll("li").find((l) => l.textContent === "p0");
w.fire(li(), "mouseover"); w.flush(); w.fire(li(), "click"); w.flush();
same(/hovered/.test(li().getAttribute("class") || ""), true, "mark");
""")
jsbug("c33-deliver-clears", "C33", [(UI, """  componentDidMount() {
    return d3""", """  componentDidUpdate(prevProps) {
    if (prevProps.attitudes.length !== this.props.attitudes.length) {
      // start over with other data
      this.setState({ selection: [], hovered: null });
    }
  }

  componentDidMount() {
    return d3""")], "data delivered again with a record more", "the selection is lost", """
const w = await page("notebook"), p = { stereonetPrecision: 2 }, host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0)], ...p });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "click"); w.flush();
mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], ...p }, host);
same(host.querySelectorAll("li").filter((l) => /selected/.test(l.getAttribute("class") || "")).map((l) => l.textContent), ["p0"], "selected");
""")
jsbug("c33-clear-unzooms", "C33", [(UI, """      onClearSelection: (d) => this.setState({ selection: [] }),
""", """      onClearSelection: (d) =>
        this.setState({ selection: [], zoomedToSelection: false }),
""")], "the selection cleared while zoomed to it", "all records are shown", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "click"); w.flush();
const b = (r) => host.querySelectorAll("button").find((b) => r.test(b.textContent));
w.fire(b(/^Show/), "click"); w.flush(); w.fire(b(/^Clear/), "click"); w.flush();
same(b(/^Show/).textContent, "Show all data", "button");
""")
jsbug("c33-member-first", "C33", [(UI, """    if (d.member_of != null) {
      const newSel = this.findAttitudes([d.member_of])[0];
      if (newSel != null) {
""", """    if (d.member_of != null && this.state.showGroups) {
      const newSel = this.findAttitudes([d.member_of])[0];
      if (newSel != null) {
""")], "a member hovered while groups are switched off", "its group is not marked in the plot", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0, { member_of: "g" }), rec(1, { uid: "g", members: ["p0"] })], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("label.switch").find((l) => /groups/.test(l.textContent)), "change"); w.flush();
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "mouseover"); w.flush();
same(host.querySelectorAll("g.hovered > g.normal").map((g) => g.__data__.uid), ["g", "p0"], "hovered");
""")
