FE = "frontend/packages/"
NET, HYPJS, FUNJS, MATHJS = FE + "attitude/src/stereonet/index.ts", FE + "attitude/src/hyperbola.ts", FE + "attitude/src/functions.ts", FE + "attitude/src/math.ts"
DRAG, LABEL, VERT = FE + "attitude/src/stereonet/interaction.ts", FE + "attitude/src/stereonet/labels.ts", FE + "attitude/src/stereonet/vertical.ts"
UTILJS, RECON = FE + "attitude/src/util.ts", FE + "attitude/src/reconstruct.ts"
COMP, LIST, PANEL, UI = FE + "notebook-ui/src/components/stereonet.ts", FE + "notebook-ui/src/components/list.ts", FE + "notebook-ui/src/components/data-panel.ts", FE + "notebook-ui/src/index.ts"
SHEET, APP, CLIPPED, RECT = FE + "webapp/src/sheet.ts", FE + "webapp/src/app.ts", FE + "plots/src/vertical.ts", FE + "plots/src/rectangular.ts"

# ------------------------------------------------------------------ C28
jsbug("c28-centered-inplace", "C28", [(HYPJS, """      this.centered = this.array.map((d) => M.subtract(d, this.mean));
""", """      // avoid allocating every point a second time
      for (const d of this.array) {
        for (let i = 0; i < 3; i++) d[i] -= this.mean[i];
      }
      this.centered = this.array;
""")], "a record with extracted points but without centered ones", "making a plane for drawing moves the caller's extracted points", """
const w = await page("core"), r = rec(0, { center: [11, 21, 32], extracted: [[10, 20, 30], [11, 22, 31], [13, 21, 35]] }), was = show(r);
new w.M.PlaneData(r);
same(show(r), was, "record changed");
""")
jsbug("c28-level-sort", "C28", [(FUNJS, """  if (Array.isArray(levels)) {
    // Return""", """  if (Array.isArray(levels)) {
    // Largest first, so that smaller ellipses are drawn on top
    levels.sort((a, b) => b - a);
    // Return""")], "a list of levels in ascending order", "the caller's list of levels is re-ordered", """
const w = await page("core"), o = { level: [1, 2, 3], n: 10 };
w.M.functions.errorEllipse(o);
same(o.level, [1, 2, 3], "levels changed");
""")
jsbug("c28-overturned-rake", "C28", [(RECON, """  const { strike, dip, rake, minError, maxError } = orientation;
""", """  if (orientation.minError > orientation.maxError) {
    // tolerate swapped errors
    const e = orientation.minError;
    orientation.minError = orientation.maxError;
    orientation.maxError = e;
  }
  const { strike, dip, rake, minError, maxError } = orientation;
""")], "a record whose two errors are swapped", "drawing a record exchanges its errors", """
const w = await page("core"), r = { strike: 30, dip: 20, rake: 10, maxError: 2, minError: 8 };
w.M.functions.errorEllipse({ n: 10 })(r);
same([r.maxError, r.minError], [2, 8], "record changed");
""")
jsbug("c28-dip-labels", "C28", [(VERT, """    const proj = stereonet.projection();
""", """    // labels beyond the edge of the plot cannot be shown
    while (dipLabels.length && dipLabels[dipLabels.length - 1] > clipAngle) {
      dipLabels.pop();
    }

    const proj = stereonet.projection();
""")], "dip labels beyond the clip angle handed in as an option", "the caller's list of dip labels is shortened", """
const w = await page("core"), o = { dipLabels: [5, 10, 30] }, s = w.M.Stereonet().size(300).clipAngle(15);
net(w, s); s.vertical(o);
same(o.dipLabels, [5, 10, 30], "labels changed");
""")

# ------------------------------------------------------------------ C29
jsbug("c29-shared-opts", "C29", [(NET, """    const fn = functions.plane(opts);

    const sel = con""", """    if (o.n != null) {
      opts.n = o.n;
    }
    const fn = functions.plane(opts);

    const sel = con""")], "planes drawn once with a number of points of their own", "every later drawing on the page uses that number of points", """
const go = async (first) => { const w = await page("core"), a = w.M.Stereonet(), b = w.M.Stereonet(); net(w, a); const svg = net(w, b); if (first) a.planes([rec(0)], { n: 8 }); b.ellipses([rec(1)]); return paths(svg); };
same(await go(true), await go(false), "another net's earlier planes change this net's poles");
""")
jsbug("c29-shared-alpha", "C29", [(NET, """const opacityByCertainty = function (colorFunc, accessor = null) {
  let angularError = (d) => d.max_angular_error ?? d.maxError;
  const darkenStroke = 0.2;
  let maxOpacity = 5;
  let alphaScale = d3.scalePow(4).range([0.8, 0.1]).domain([0, maxOpacity]);
  alphaScale.clamp(true);
""", """const defaultAlphaScale = d3
  .scalePow(4)
  .range([0.8, 0.1])
  .domain([0, 5])
  .clamp(true);

const opacityByCertainty = function (colorFunc, accessor = null) {
  let angularError = (d) => d.max_angular_error ?? d.maxError;
  const darkenStroke = 0.2;
  let maxOpacity = 5;
  let alphaScale = defaultAlphaScale;
""")], "one style with a domain of its own", "all other styles of the page take over its domain", """
const go = async (first) => { const w = await page("core"), a = w.M.Stereonet(), svg = net(w, a); if (first) w.M.opacityByCertainty((d) => d.color).domain([0, 40]); a.ellipses([rec(0, { max_angular_error: 4 })]).each(w.M.opacityByCertainty((d) => d.color, "path.error")); return svg.querySelectorAll("g.normal path").map((p) => p.getAttribute("fill")); };
same(await go(true), await go(false), "style depends on another style");
""")
jsbug("c29-hidden-stays", "C29", [(HYPJS, """      .attr("visibility", "visible")
      .attr(
        "transform",""", """      .attr(
        "transform","""), (HYPJS, """  const __hideIfErrorsTooLarge = false;
""", """  const __hideIfErrorsTooLarge = true;
"""), (HYPJS, """    if (angularError > 90 && __hideIfErrorsTooLarge) {""", """    if (angularError > 150 && __hideIfErrorsTooLarge) {""")],
"a plane with very large errors drawn, then another one on the same element", "the second plane stays hidden", """
const go = async (first) => {
  const w = await page("core"), x = w.d3.scaleLinear().range([0, 400]).domain([-10, 10]), y = w.d3.scaleLinear().range([200, 0]).domain([-5, 5]);
  const h = w.M.hyperbolicErrors(0.3, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], x, y), g = w.d3.select(w.el("g", "svg"));
  const draw = (r) => g.datum(new w.M.PlaneData({ center: [0, 0, 0], ...r })).each(h);
  if (first) draw(rec(0, { hyperbolic_axes: [0.01, 0.01, 9] }));
  draw(rec(1)); return g.attr("visibility") || "visible";
};
same(await go(true), await go(false), "visibility depends on the plane drawn before");
""")
jsbug("c29-ellipse-cache", "C29", [(MATHJS, """  const ell = ellipse(opts);
  return ell(s[0], s[1]).map(stepFunc).map(cart2sph(opts));
};

interface NormalErrorsOpts {""", """  // The nominal plane and its errors share their ellipse
  const key = `${s[0]},${s[1]}`;
  if (lastEllipse.key !== key) {
    lastEllipse = { key, coords: ellipse(opts)(s[0], s[1]) };
  }
  return lastEllipse.coords.map(stepFunc).map(cart2sph(opts));
};

let lastEllipse = { key: null, coords: null };

interface NormalErrorsOpts {""")], "the same record drawn twice with different numbers of points", "the second drawing has the first one's number of points", """
const go = async (first) => { const w = await page("core"), r = rec(0); if (first) w.M.math.planeErrors(r.hyperbolic_axes, r.axes, { n: 20 }); return w.M.math.planeErrors(r.hyperbolic_axes, r.axes, { n: 60 }).length; };
same(await go(true), await go(false), "curve depends on an earlier one");
""")

# ------------------------------------------------------------------ C30
jsbug("c30-client-coords", "C30", [(DRAG, """  const mousedown = function() {
    m0 = [
      event.pageX,
      event.pageY
    ];""", """  const mousedown = function() {
    m0 = [
      event.clientX,
      event.clientY
    ];""")], "a drag on a page that is scrolled", "the net jumps by the scroll distance", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
w.fire(svg, "mousedown", { pageX: 100, pageY: 500, clientX: 100, clientY: 200 });
w.fire(w.document.body, "mousemove", { pageX: 103, pageY: 503, clientX: 103, clientY: 203 });
same(s.rotate().slice(0, 2).map((v) => Math.round(v)), [1, -1], "rotation");
""")
jsbug("c30-incremental", "C30", [(DRAG, """      o1[1] = o1[1] > limit ? limit : o1[1] < -limit ? -limit : o1[1];
      return stereonet.rotate(o1);
""", """      o1[1] = o1[1] > limit ? limit : o1[1] < -limit ? -limit : o1[1];
      // continue from here
      m0 = m1;
      o0 = o1;
      return stereonet.rotate(o1);
""")], "a drag beyond the pole and back", "the net does not come back with the pointer", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
drag(w, svg, [200, 200], [200, -200], [200, 200]);
same(s.rotate().slice(0, 2).map((v) => Math.round(v)), [0, 0], "rotation after dragging beyond the pole and back");
""")
jsbug("c30-rotate-guard", "C30", [(NET, """    proj.rotate(coords);
    let redrawn;""", """    const [lon, lat] = proj.rotate();
    if (lon === coords[0] && lat === coords[1]) {
      // nothing to do
      return;
    }
    proj.rotate(coords);
    let redrawn;""")], "a rotation that changes only the roll angle", "the net keeps its old roll", """
const w = await page("core"), s = w.M.Stereonet(); net(w, s);
s.rotate([10, 20]); s.rotate([10, 20, 30]);
same(s.rotate().map((v) => Math.round(v)), [10, 20, 30], "rotation");
""")
jsbug("c30-label-center", "C30", [(LABEL, """    const updateLabels = function() {
      proj = this.projection();
      const centerPos = proj.invert([sz/2,sz/2]);
      const width = stereonet.size();
""", """    let centerPos = null;
    let tilt = null;
    const updateLabels = function() {
      proj = this.projection();
      const [, lat, roll] = proj.rotate();
      if (tilt !== lat + roll) {
        // what is in front only changes with the tilt
        tilt = lat + roll;
        centerPos = proj.invert([sz/2,sz/2]);
      }
      const width = stereonet.size();
""")], "a rotation about the vertical axis only", "labels on the far side are shown, those in front are hidden", """
const w = await page("core"), s = w.M.Stereonet(), svg = net(w, s);
s.call(w.M.globalLabels());
const shown = () => svg.querySelectorAll("g.label").map((g) => g.textContent + g.style.getPropertyValue("display"));
s.rotate([0, 1]); s.rotate([120, 0]); const want = shown(); s.rotate([0, 5]); s.rotate([0, 0]); s.rotate([120, 0]);
same(shown(), want, "labels");
""")

# ------------------------------------------------------------------ C31
jsbug("c31-stale-hover", "C31", [(COMP, """  __finishUpdate() {
    const { onHover } = this.props;
    this.stereonet.draw();
    return this.stereonet
      .dataArea()
      .selectAll("path.error")
""", """  __finishUpdate() {
    const { onHover } = this.props;
    this.stereonet.draw();
    return this.stereonet
      .dataArea()
      .selectAll("path.error:not(.interactive)")
      .classed("interactive", true)
""")], "a new hover callback with the data unchanged", "shapes keep calling the old callback", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, data = [rec(0)]; let got = [];
const host = mount(w, C, { data, precision: 2, onHover: () => got.push("old") });
mount(w, C, { data, precision: 2, onHover: () => got.push("new") }, host);
w.fire(host.querySelectorAll("path.error")[0], "mouseenter");
same(got, ["new"], "callback");
""")
jsbug("c31-center-value", "C31", [(COMP, """    if (prevProps.center != this.props.center) {
""", """    if (String(prevProps.center) !== String(this.props.center)) {
""")], "the vertical button pressed again after a drag", "the net is not centered", """
const w = await page("components"), host = mount(w, w.M.stereonet.InteractiveStereonetComponent, { data: [rec(0)], precision: 2 });
const press = () => { w.fire(host.querySelectorAll("button").find((b) => b.textContent === "Vertical"), "click"); w.flush(); };
press(); const want = paths(host.querySelectorAll("svg")[0]);
drag(w, host.querySelectorAll("svg")[0], [100, 100], [160, 130]); press();
same(paths(host.querySelectorAll("svg")[0]), want, "paths after pressing vertical again");
""")
jsbug("c31-clip-deps", "C31", [(CLIPPED, """  }, [ref, data, clipAngle]);""", """  }, [ref, data.length, clipAngle]);""")], "new data with as many records as before", "the clipped stereonet keeps the old records", """
const w = await page("components"), C = w.M.plots.VerticalClippedStereonet, host = mount(w, C, { data: [rec(0)] });
mount(w, C, { data: [rec(1)] }, host);
same(host.querySelectorAll("g.normal").map((g) => g.__data__.uid), ["p1"], "records shown");
""")
jsbug("c31-member-style", "C31", [(COMP, """    this.stereonet.dataArea().select("g.poles").remove();
    if (!drawPoles) {""", """    const old = this.stereonet.dataArea().select("g.poles");
    if (old.size() && old.selectAll("g.normal").size() !== data.length) {
      old.remove();
    }
    if (!drawPoles) {""")], "new data with as many records while poles are drawn", "the old poles stay", """
const w = await page("components"), C = w.M.stereonet.StereonetComponent, host = mount(w, C, { data: [rec(0), rec(1)], drawPoles: true, precision: 2 });
mount(w, C, { data: [rec(1), rec(2)], drawPoles: true, precision: 2 }, host);
same(host.querySelectorAll("g.poles > g.normal > path").map((g) => g.getAttribute("fill")), mount(w, C, { data: [rec(1), rec(2)], drawPoles: true, precision: 2 }).querySelectorAll("g.poles > g.normal > path").map((g) => g.getAttribute("fill")), "colors shown");
""")

# ------------------------------------------------------------------ C32
jsbug("c32-string-errors", "C32", [(SHEET, """  if (parseFloat(row[3]?.value) < parseFloat(row[4]?.value)) {""", """  if (row[3]?.value < row[4]?.value) {""")], "errors typed as text with different numbers of digits", "the errors of a row are ordered as text", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 0, col: 3, value: "9" }, { row: 0, col: 4, value: "10" }]); w.flush();
same(w.sheet.data[0].slice(3, 5).map((c) => c.value), ["10", "9"], "errors");
""")
jsbug("c32-falsy-zero", "C32", [(SHEET, """    transform = (d) => parseFloat(d),
    isValid = (d) => !isNaN(d),
""", """    transform = (d) => parseFloat(d) || NaN,
    isValid = (d) => !isNaN(d),
""")], "a strike, dip or rake of exactly zero", "the row is not plotted", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 0, col: 0, value: "0" }]); w.flush();
same(host.querySelectorAll("g.poles > g.normal").length, 2, "plotted rows");
""")
jsbug("c32-paste-row", "C32", [(SHEET, """      changes.forEach(({ cell, row, col, value }) => {
        if (!(row in spec)) spec[row] = {};
        spec[row][col] = { $set: { value } };
      });
""", """      let last = null;
      changes.forEach(({ cell, row, col, value }) => {
        if (row !== last) spec[row] = {};
        last = row;
        spec[row][col] = { $set: { value } };
      });
""")], "cells pasted column by column", "only the last column of a paste is kept", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([[0, 0, "1"], [1, 0, "2"], [0, 1, "3"], [1, 1, "4"]].map(([row, col, value]) => ({ row, col, value }))); w.flush();
same(w.sheet.data.slice(0, 2).map((r) => r.slice(0, 2).map((c) => c.value)), [["1", "3"], ["2", "4"]], "cells");
""")
jsbug("c32-shared-rows", "C32", [(SHEET, """    newRow[3] = row[4];
    newRow[4] = row[3];
    return newRow;
""", """    newRow[3] = row[4];
    newRow[4] = row[3];
    row[3].value = newRow[3].value;
    return newRow;
""")], "errors in the wrong order", "the smaller error is lost", """
const w = await page("webapp"), host = mount(w, w.M.app.App, {});
w.sheet.onCellsChanged([{ row: 0, col: 4, value: "33" }]); w.flush();
same(w.sheet.data[0].slice(3, 5).map((c) => c.value), ["33", 20], "errors");
""")

# ------------------------------------------------------------------ C33
jsbug("c33-clear-inplace", "C33", [(UI, """      onClearSelection: (d) => this.setState({ selection: [] }),
""", """      onClearSelection: (d) => {
        selection.length = 0;
        return this.setState({ selection });
      },
""")], "clearing the selection while zoomed to it", "the plot keeps showing the selected records", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
const press = (re) => { w.fire(host.querySelectorAll("button").find((b) => re.test(b.textContent)), "click"); w.flush(); };
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "click"); w.flush();
press(/only selection/); press(/Clear/);
same(host.querySelectorAll("g.poles > g.normal").length, 0, "records shown");
""")
jsbug("c33-identity-selected", "C33", [(LIST, """    const selected = selection.find((sel) => sel.uid === d.uid);
""", """    const selected = selection.includes(d);
""")], "data delivered again while something is selected", "selected records are no longer marked", """
const w = await page("notebook"), U = w.M.AttitudeUI, host = mount(w, U, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "click"); w.flush();
mount(w, U, { attitudes: [rec(0), rec(1)], stereonetPrecision: 2 }, host);
const c = host.querySelectorAll("li").find((l) => l.textContent === "p0").getAttribute("class") || "";
same(/selected/.test(c), true, "mark of the selected record");
""")
jsbug("c33-hover-group", "C33", [(UI, """    if (d.members != null) {
      hovered = [d, ...this.findAttitudes(d.members)];
    } else {""", """    if (d.members != null) {
      hovered = this.findAttitudes(d.members);
      hovered.splice(0, 0, d);
      if (hovered.length <= d.members.length) {
        // incomplete group
        hovered = [d];
      }
    } else {""")], "hovering over a group one of whose members was not delivered", "the delivered members are not marked", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [rec(0, { member_of: "g" }), rec(1, { uid: "g", members: ["p0", "gone"] })], stereonetPrecision: 2 });
w.fire(host.querySelectorAll("li").find((l) => l.textContent === "p0"), "mouseover"); w.flush();
same(host.querySelectorAll("g.hovered > g.normal").map((g) => g.__data__.uid), ["g", "p0"], "hovered");
""")
jsbug("c33-zoom-stale", "C33", [(UI, """        return this.setState({
          zoomedToSelection: !this.state.zoomedToSelection,
        });""", """        return this.setState({
          zoomedToSelection: !zoomedToSelection && selection.length > 0,
        });""")], "the zoom button of an empty panel", "the button does nothing", """
const w = await page("notebook"), host = mount(w, w.M.AttitudeUI, { attitudes: [], stereonetPrecision: 2 });
const b = () => host.querySelectorAll("button").find((b) => /^Show/.test(b.textContent));
w.fire(b(), "click"); w.flush();
same(b().textContent, "Show all data", "button");
""")
