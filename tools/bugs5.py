# ------------------------------------------------------------------ C28
jsbug("c28-axes-cached", "C28", [(FUNJS, """    hyperbolic_axes = v.hyp;
    axes = v.axes;
""", """    // no need to do this again for the next drawing
    hyperbolic_axes = props.hyperbolic_axes = v.hyp;
    axes = props.axes = v.axes;
""")], "a record given by angles that is drawn", "the record gains axes, and later edits of its angles are not drawn", """
const w = await page("core"), r = { strike: 30, dip: 20, rake: 10, maxError: 8, minError: 2 };
w.M.functions.errorEllipse({ n: 10 })(r);
same(Object.keys(r), ["strike", "dip", "rake", "maxError", "minError"], "record changed");
""")
jsbug("c28-center-wrap", "C28", [(NET, """    if (c === "vertical") {
      c = [0, 90];
    }
""", """    if (c === "vertical") {
      c = [0, 90];
    } else if (Math.abs(c[0]) > 180) {
      // keep longitudes on the map
      c[0] -= 360 * Math.round(c[0] / 360);
    }
""")], "a center beyond 180 degrees of longitude", "the caller's center is changed", """
const w = await page("core"), s = w.M.Stereonet(), c = [190, 20]; net(w, s); s.center(c);
same(c, [190, 20], "center changed");
""")
jsbug("c28-best-on-top", "C28", [(NET, """    const sel = con
      .selectAll("g.normal")
      .data(data)
""", """    const sel = con
      .selectAll("g.normal")
      // the best constrained on top
      .data(data.sort((a, b) => b.max_angular_error - a.max_angular_error))
""")], "records not in the order of their errors", "the caller's list is re-ordered", """
const w = await page("core"), s = w.M.Stereonet(), l = [rec(0, { max_angular_error: 2 }), rec(1, { max_angular_error: 9 })]; net(w, s); s.ellipses(l);
same(l.map((d) => d.uid), ["p0", "p1"], "order of the caller's list");
""")
jsbug("c28-memo-result", "C28", [(MATHJS, """  const ell = ellipse(opts);
  return ell(s[0], s[1]).map(stepFunc).map(cart2sph(opts));
};

const combinedErrors""", """  // Plots ask for the same curve over and over
  const key = JSON.stringify([axesCovariance, axes, opts]);
  if (!curves.has(key)) {
    const ell = ellipse(opts);
    curves.set(key, ell(s[0], s[1]).map(stepFunc).map(cart2sph(opts)));
  }
  return curves.get(key);
};

const curves = new Map();

const combinedErrors""")], "the same curve asked for twice, once for an ellipse that has to be wound the other way round", "the curve returned first is reversed", """
const w = await page("core"), r = rec(0), o = { n: 10, degrees: true, traditionalLayout: false, level: 1 };
for (const sheet of ["upper", "lower"]) {
  for (const upperHemisphere of [true, false]) {
    const q = { ...o, upperHemisphere, sheet }, a = w.M.math.normalErrors(r.hyperbolic_axes, r.axes, q), was = show(a);
    w.M.functions.errorEllipse(q)(r);
    same(show(a), was, "earlier result changed");
  }
}
""")

# ------------------------------------------------------------------ C29
jsbug("c29-graticule-cache", "C29", [(NET, """    return (graticule = d3
      .geoGraticule()
      .stepMinor([lon, lat])
      .stepMajor([90, lat])
      .extentMinor([
        [-180, -90 + lat - s],
        [180, 90 - lat + s],
      ])
      .extentMajor([
        [-180, -90 + s],
        [180, 90 - s],
      ]));
""", """    graticules[lon] ??= d3
      .geoGraticule()
      .stepMinor([lon, lat])
      .stepMajor([90, lat])
      .extentMinor([
        [-180, -90 + lat - s],
        [180, 90 - lat + s],
      ])
      .extentMajor([
        [-180, -90 + s],
        [180, 90 - s],
      ]);
    return (graticule = graticules[lon]);
"""), (NET, """const getterSetter = (main) =>""", """const graticules = {};

const getterSetter = (main) =>""")], "two nets with the same longitude but different latitude steps", "the second one has the first one's graticule", """
const go = async (first) => { const w = await page("core"); if (first) net(w, w.M.Stereonet().graticule(30, 30)); return paths(net(w, w.M.Stereonet().graticule(30, 10))); };
same(await go(true), await go(false), "graticule depends on an earlier net");
""")
jsbug("c29-ratio-cache", "C29", [(HYPJS, """const getRatios = function (x, y) {
  // Ratios for x and y axes
""", """const knownRatios = new Map();
const getRatios = function (x, y) {
  // The scales of a page seldom change
  const key = [x.range(), y.range(), x.domain()[0]].join();
  if (!knownRatios.has(key)) {
    knownRatios.set(key, computeRatios(x, y));
  }
  return knownRatios.get(key);
};

const computeRatios = function (x, y) {
  // Ratios for x and y axes
""")], "two drawers on scales with the same ranges but different extents", "the second one has the first one's vertical exaggeration", """
const go = async (first) => {
  const w = await page("core"), x = w.d3.scaleLinear().range([0, 400]).domain([0, 10]), y = (m) => w.d3.scaleLinear().range([200, 0]).domain([-m, m]);
  const draw = (m) => { const h = w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, y(m)), g = w.d3.select(w.el("g", "svg")); g.datum(new w.M.PlaneData(rec(1, { center: [0, 0, 0] }))).each(h); return g.select("path").attr("d"); };
  if (first) draw(5);
  return draw(20);
};
same(await go(true), await go(false), "hyperbola depends on another drawer");
""")
jsbug("c29-dip-ticks", "C29", [(VERT, """    if (dipLabels == null) {
      dipLabels = scaleLinear().domain([0.1, clipAngle]).nice().ticks(nLabels);
    }
""", """    if (dipLabels == null) {
      ticks[nLabels] ??= scaleLinear()
        .domain([0.1, clipAngle])
        .nice()
        .ticks(nLabels);
      dipLabels = ticks[nLabels];
    }
"""), (VERT, """const d2r = Math.PI / 180;
""", """const d2r = Math.PI / 180;
const ticks = {};
""")], "two clipped nets with different clip angles", "the second one has the first one's dip labels", """
const go = async (first) => { const w = await page("core"), mk = (a) => { const s = w.M.Stereonet({ interactive: false }).clipAngle(a), svg = net(w, s); s.vertical(); return svg.querySelectorAll("text.inner").map((t) => t.textContent); }; if (first) mk(15); return mk(60); };
same(await go(true), await go(false), "labels depend on an earlier net");
""")
# ------------------------------------------------------------------ C30
jsbug("c30-shared-drag", "C30", [(DRAG, """export default (function(stereonet){
  // modified from http://bl.ocks.org/1392560
  let m0 = undefined;
  let o0 = undefined;
""", """// There is only one pointer
let m0 = undefined;
let o0 = undefined;

export default (function(stereonet){
  // modified from http://bl.ocks.org/1392560
""")], "two nets on one page", "dragging one turns the other as well", """
const w = await page("core"), a = w.M.Stereonet(), b = w.M.Stereonet(), svg = net(w, a); net(w, b);
drag(w, svg, [100, 100], [130, 100]);
same(b.rotate().map(Math.round), [0, 0, 0], "rotation of the other net");
""")
jsbug("c30-dead-zone", "C30", [(DRAG, """    if (m0) {
      const m1 = [
        event.pageX,
        event.pageY
      ];
""", """    if (m0) {
      const m1 = [
        event.pageX,
        event.pageY
      ];
      // A click with a shaky hand is not a drag
      if (Math.abs(m1[0] - m0[0]) < 3 && Math.abs(m1[1] - m0[1]) < 3) {
        return;
      }
""")], "a drag that comes back to within three pixels of where it began", "the net stays at the last rotation further out", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
drag(w, svg, [200, 200], [260, 200], [200, 200]);
same(s.rotate().slice(0, 2).map((v) => Math.round(v)), [0, 0], "rotation after dragging there and back");
""")
jsbug("c30-half-limit", "C30", [(DRAG, """      o1[1] = o1[1] > limit ? limit : o1[1] < -limit ? -limit : o1[1];
""", """      o1[1] = Math.min(o1[1], limit);
""")], "a drag far down", "the net is turned beyond the pole", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
drag(w, svg, [200, 200], [200, 600]);
same(s.rotate().slice(0, 2).map((v) => Math.round(v)), [0, -90], "rotation");
""")
jsbug("c30-hidden-labels", "C30", [(LABEL, """      v.select('text')
        .attr('stroke', 'white')""", """      v.filter(function(){ return this.style.display !== 'none'; })
        .select('text')
        .attr('stroke', 'white')""")], "a label that comes into view", "it is shown where it was when it was last in view", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
s.call(w.M.globalLabels());
const at = () => svg.querySelectorAll("g.label").filter((g) => g.style.getPropertyValue("display") !== "none").map((g) => g.textContent + g.querySelectorAll("text")[0].getAttribute("transform"));
s.rotate([0, 0]); s.rotate([140, 10]); const a = at(); s.rotate([140, 10]);
same(a, at(), "labels");
""")

# ------------------------------------------------------------------ C31
jsbug("c31-drag-lost", "C31", [(COMP, """    if (prevProps.center != this.props.center) {
""", """    if (dataChanged || prevProps.center != this.props.center) {
""")], "new data after a drag", "the net jumps back to its center", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, c = [0, 0], host = mount(w, C, { data: [rec(0)], center: c, precision: 2 });
const svg = host.querySelectorAll("svg")[0], g = () => svg.querySelectorAll("path.graticule")[0].getAttribute("d");
drag(w, svg, [100, 100], [160, 130]); const was = g();
mount(w, C, { data: [rec(1)], center: c, precision: 2 }, host);
same(g(), was, "graticule after new data");
""")
jsbug("c31-hover-emptied", "C31", [(COMP, """    this.stereonet.dataArea().select("g.hovered").remove();
    if (hovered == null) {
      return;
    }
    if (hovered.length === 0) {
      return;
    }
""", """    if (hovered?.length === 0) {
      return;
    }
    this.stereonet.dataArea().select("g.hovered").remove();
    if (hovered == null) {
      return;
    }
""")], "the list of hovered records becoming empty instead of missing", "the old ones stay highlighted", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, data = [rec(0)], host = mount(w, C, { data, hovered: [data[0]], precision: 2 });
mount(w, C, { data, hovered: [], precision: 2 }, host);
same(host.querySelectorAll("g.hovered g").length, 0, "highlighted shapes");
""")
jsbug("c31-hover-shape", "C31", [(COMP, """      .on("mouseenter", function (d) {
        d = d3.select(this.parentElement).datum();
        return onHover?.(d);
      });
""", """      .on("mouseenter", function (d, i) {
        const { data } = this.parentElement.classList.contains("hovered")
          ? { data: hovered }
          : this.__props ?? { data: shown };
        return onHover?.(data[i % data.length]);
      });
"""), (COMP, """  __finishUpdate() {
    const { onHover } = this.props;
""", """  __finishUpdate() {
    const { onHover, hovered, data: shown } = this.props;
""")], "a record whose plane has too large errors to be drawn, with planes and poles switched on", "hovering reports a neighbouring record", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, data = [rec(0, { max_angular_error: 60 }), rec(1), rec(2)]; let got = [];
const host = mount(w, C, { data, drawPlanes: true, drawPoles: true, precision: 2, onHover: (d) => got.push(d.uid) }), want = [];
for (const p of host.querySelectorAll("path.error")) { want.push(p.parentNode.__data__.uid); w.fire(p, "mouseenter"); }
same(got, want, "records reported");
""")
jsbug("c31-rect-length", "C31", [(RECT, """    drawStereonet(ref.current, data);
  }, [ref, data]);
""", """    drawStereonet(ref.current, data);
  }, [ref, data.map((d) => d.uid).join()]);
""")], "a record changed under the same uid", "the rectangular stereonet keeps the old shape", """
const w = await page("components"), C = w.M.plots.RectangularStereonet, host = mount(w, C, { data: [rec(0)] });
mount(w, C, { data: [rec(0, { hyperbolic_axes: [9, 4, 1] })] }, host);
same(paths(host.querySelectorAll("svg")[0]), paths(mount(w, C, { data: [rec(0, { hyperbolic_axes: [9, 4, 1] })] }).querySelectorAll("svg")[0]), "shapes");
""")

# ------------------------------------------------------------------ C32
jsbug("c32-clip-kept", "C32", [(APP, """    return !isNaN(val) && val > 0 && val <= 90;
""", """    return !isNaN(val) && val >= 5 && val <= 60;
""")], "a clip angle over 60 degrees and a reload", "the clip angle is back at 15", """
const w = await page("webapp");
w.localStorage.setItem("clipAngle", "75");
const host = mount(w, w.M.app.App, {});
w.fire(host.querySelectorAll("[data-tab=upper-hemisphere]")[0] || host.querySelectorAll("li.tab")[1], "click"); w.flush();
same(host.querySelectorAll("input.numeric")[0].getAttribute("data-value"), "75", "clip angle");
""")
jsbug("c32-color-carry", "C32", [(APP, """    let ix = 0;
    let orientation: Partial<Orientation> = {};
""", """    let ix = 0;
    let orientation: Partial<Orientation> = defaults;
    defaults = { ...defaults };
"""), (APP, """function constructOrientation(row: GridElement[]): Orientation {
""", """let defaults: Partial<Orientation> = {};

function constructOrientation(row: GridElement[]): Orientation {
  defaults = { ...defaults };
"""), (APP, """    return orientation as Orientation;
""", """    defaults = { color: orientation.color };
    return orientation as Orientation;
""")], "a row without a colour below one with a colour", "it is plotted in the colour of the row above", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 1, col: 5, value: "" }]); w.flush();
same(host.querySelectorAll("g.poles > g.normal").map((g) => g.__data__.color ?? null), ["#65499e", null], "colours");
""")
jsbug("c32-compact-rows", "C32", [(SHEET, """            updateData(addEmptyRows(data, 10, 10));
""", """            // blank rows are only needed at the end
            const filled = data.filter((row) => row.some((c) => c.value));
            updateData(addEmptyRows(filled, 10, 10 + data.length - filled.length));
""")], "rows added to a sheet with blank rows or zeros between others", "the rows below move up", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 4, col: 0, value: "7" }]); w.flush();
w.fire(host.querySelectorAll("button").find((b) => /Add/.test(b.textContent)), "click"); w.flush();
same(w.sheet.data[4][0].value, "7", "cell");
""")
jsbug("c32-merge-cell", "C32", [(SHEET, """        spec[row][col] = { $set: { value } };
""", """        spec[row][col] = { value: { $apply: (v) => value || v } };
""")], "a cell that is emptied", "the old value stays", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 0, col: 0, value: "" }]); w.flush();
same(w.sheet.data[0][0].value, "", "cell");
""")

# ------------------------------------------------------------------ C33
jsbug("c33-clipboard-order", "C33", [(LIST, """    const cid = this.props.selection.map((v) => `\\"${v.uid}\\"`);
""", """    const { attitudes, selection } = this.props;
    const cid = attitudes
      .filter((d) => selection.some((v) => v.uid === d.uid))
      .map((v) => `\\"${v.uid}\\"`);
""")], "records selected in another order than that of the list", "the clipboard has them in the list's order", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
for (const u of ["p1", "p0"]) { w.fire(host.querySelectorAll("li").find((l) => l.textContent === u), "click"); w.flush(); }
w.fire(host.querySelectorAll(".copy-to-clipboard")[0], "click");
same(w.clipboard, '["p1","p0"]', "clipboard");
""")
jsbug("c33-hidden-groups", "C33", [(UI, """        return this.setState({ showGroups: !this.state.showGroups });
""", """        return this.setState({
          showGroups: !showGroups,
          // what is not shown cannot be selected
          selection: showGroups
            ? selection.filter((d) => d.members == null)
            : selection,
        });
""")], "groups switched off while one is selected", "its selection is lost", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0, { member_of: "g" }), rec(1, { uid: "g", members: ["p0"] })], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "g"), "click"); w.flush();
for (let i = 0; i < 2; i++) { w.fire(host.querySelectorAll("label.switch").find((l) => /groups/.test(l.textContent)), "change"); w.flush(); }
const c = host.querySelectorAll("li").find((l) => l.textContent === "g").getAttribute("class") || "";
same(/selected/.test(c), true, "mark of the selected group");
""")
jsbug("c33-mark-first", "C33", [(LIST, """      isHovered = hovered.find((hov) => hov.uid === d.uid);
""", """      isHovered = hovered[0].uid === d.uid || hovered[0].uid === d.member_of;
""")], "a group whose members do not refer back to it", "its members are not marked in the list", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1, { uid: "g", members: ["p0"] })], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "g"), "mouseover"); w.flush();
const c = host.querySelectorAll("li").find((l) => l.textContent === "p0").getAttribute("class") || "";
same(/hovered/.test(c), true, "mark of the member");
""")
jsbug("c33-angle-update", "C33", [(PANEL, """class AngularMeasurement extends React.Component {
  render() {""", """class AngularMeasurement extends React.Component {
  shouldComponentUpdate(next) {
    // Only one decimal is shown
    return Math.abs(next.datum - this.props.datum) >= 0.1;
  }
  render() {""")], "two records whose strikes differ by less than a tenth, or one without a strike, hovered one after the other", "the description keeps the first one's value", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0, { strike: 10.04, dip: 5 }), rec(1, { strike: 10.06, dip: 5 })], stereonetPrecision: 2 });
const over = (u) => { w.fire(host.querySelectorAll("li").find((l) => l.textContent === u), "mouseover"); w.flush(); };
over("p0"); over("p1");
same(host.querySelectorAll("span.data")[1].textContent.trim(), "10.1", "strike");
""")
