"""Behaviour-preserving rewrites of the front end, for testing that the checks C28-C33 stay quiet:  refactor_js.py OUTDIR  writes a changed copy of /repo."""
import os, subprocess, sys
out = sys.argv[1]
os.makedirs(out)
subprocess.run("git -C /repo archive HEAD | tar x -C " + out, shell=True, check=True)
FE = "frontend/packages/"


def edit(f, *pairs):
    p = os.path.join(out, FE + f)
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) == 1, (f, s.count(a), a[:80])
        s = s.replace(a, b)
    open(p, "w").write(s)


def between(f, start, end, new):
    p = os.path.join(out, FE + f)
    s = open(p).read()
    i = s.index(start)
    j = s.index(end, i)
    open(p, "w").write(s[:i] + new + s[j:])


# ---- math.ts: defaults through a helper, loops rewritten
edit("attitude/src/math.ts", ("const norm = function (d) {", """const withDefaults = (opts: any, defaults: any) => {
  const out = { ...opts };
  for (const k of Object.keys(defaults)) {
    if (out[k] == null) {
      out[k] = defaults[k];
    }
  }
  return out;
};

const norm = function (d) {"""))
between("attitude/src/math.ts", "const cart2sph = function (opts) {", "  const c = opts.degrees", """const cart2sph = function (opts) {
  opts = withDefaults(opts, { degrees: false, traditionalLayout: false, upperHemisphere: true });
""")
between("attitude/src/math.ts", "const convolveAxes = function", "export {", """const convolveAxes = function (axes, sv) {
  const unit = deconvolveAxes(axes)[1];
  const out = [];
  for (let i = 0; i < unit.length; i++) {
    const row = [];
    for (const e of unit[i]) {
      row.push(e * sv[i]);
    }
    out.push(row);
  }
  return out;
};

function deconvolveAxes(axes) {
  const sv = transpose(axes).map(norm);
  const scaled = axes.map((row) => row.map((e, i) => e / sv[i]));
  return [sv, scaled];
}

""")
between("attitude/src/math.ts", "const combinedErrors = function", "const convolveAxes", """const combinedErrors = (sv, ax, opts) => {
  const out: any = {};
  for (const sheet of ["nominal", "upper", "lower"]) {
    out[sheet] = planeErrors(sv, ax, Object.assign({}, opts, { sheet, degrees: true }));
  }
  return out;
};

""")
# ---- functions.ts: winding in a helper, options passed on instead of kept
between("attitude/src/functions.ts", "    const f_ = function (sheet) {", "    const v = [", """    const f_ = function (sheet) {
      const o = { ...opts, sheet };
      const errors = math.normalErrors(hyperbolic_axes, axes, o);
      let f = createFeature("Polygon", [errors]);
      let area = geoArea(f);
      if (area > 2 * Math.PI) {
        f = createFeature("Polygon", [[...errors].reverse()]);
        area = geoArea(f);
      }
      f.properties = { area, level: o.level, sheet };
      f.data = props;
      return f;
    };

""")
between("attitude/src/functions.ts", "  const __fnAtLevel", "export {", """  const make = (level) => __createErrorEllipse(cloneOptions(opts, { level }));
  if (!Array.isArray(levels)) {
    return make(levels);
  }
  const out = [];
  for (const level of levels) {
    out.push(make(level));
  }
  return out;
};

""")
# ---- hyperbola.ts: accessors generated, the projection matrix fixed, helpers extracted
edit("attitude/src/hyperbola.ts", ("let T = M.matrix([", "const T = M.matrix(["), ("""    //# Matrix to map down to 2 dimensions
    T = M.matrix([
      [1, 0],
      [0, 0],
      [0, 1],
    ]);

    /* Project""", """    /* Project"""), ("""    if (d.offset == null) {
      d.offset = [0, 0, 0];
    }
""", """    d.offset ??= [0, 0, 0];
"""), ("""    // Semiaxes of hyperbola
    const cutAngle = Math.atan2(b, a);
    const angularError = (cutAngle * 2 * 180) / Math.PI;
""", """    // Semiaxes of hyperbola
    const degrees = (rad) => (rad * 180) / Math.PI;
    const cutAngle = Math.atan2(b, a);
    const angularError = degrees(2 * cutAngle);
"""))
between("attitude/src/hyperbola.ts", "  dfunc.scaleErrorAngles = function (o) {", "  return dfunc;\n};\n\nconst digitizedLine", """  const accessor = (get, set) => (o) => {
    if (o == null) {
      return get();
    }
    set(o);
    return dfunc;
  };
  dfunc.scaleErrorAngles = accessor(() => scaleErrorAngles, (o) => (scaleErrorAngles = o));
  dfunc.width = accessor(() => __width, (o) => (__width = o));
  dfunc.nominal = accessor(() => nominal, (o) => (nominal = o));
  dfunc.alphaScale = accessor(() => alphaScale, (o) => (alphaScale = o));

""")
# ---- stereonet: colour lookup shared, redraw split
edit("attitude/src/stereonet/index.ts", ("""        let color;
        if (typeof o.color === "function") {
          color = o.color(d);
        } else {
          ({ color } = o);
        }
        const e = select(this);
        e.selectAll("path.error").attrs({ fill: color });
        return e
          .selectAll("path.nominal")""", """        const color = colorOf(o, d);
        const e = select(this);
        e.selectAll("path.error").attr("fill", color);
        e.selectAll("path.nominal")"""), ("""      let color, e;
      if (typeof o.color === "function") {
        color = o.color(d);
      } else {
        ({ color } = o);
      }
      return (e = select(this).selectAll("path.error").attrs({ fill: color }));""", """      select(this).selectAll("path.error").attr("fill", colorOf(o, d));"""),
 ("""function Stereonet(o1 = {}) {""", """const colorOf = (o, d) => (typeof o.color === "function" ? o.color(d) : o.color);

function Stereonet(o1 = {}) {"""),
 ("""    for (let item of Array.from(callStack)) {
      item();
    }""", """    callStack.forEach((item) => item());"""))
between("attitude/src/stereonet/index.ts", "  f.rotate = (coords) => {", "  f.centerPosition", """  f.rotate = function (coords) {
    if (coords == null) {
      return proj.rotate();
    }
    proj.rotate(coords);
    // draw first, then tell everybody
    const out = __redraw();
    dispatch.call(uid + "rotate", f);
    __redraw();
    return out;
  };

""")
# ---- dragging: one state object, helpers
between("attitude/src/stereonet/interaction.ts", "export default", "NOTHING" if False else "  // Each stereonet listens", """const position = () => [event.pageX, event.pageY];
const clamp = (v, limit) => Math.max(-limit, Math.min(limit, v));

export default (function(stereonet){
  let press = null;
  const el = stereonet.node();

  const mousedown = function() {
    press = { at: position(), from: stereonet.rotate() };
    event.preventDefault();
  };

  const mousemove = function() {
    if (press == null) { return; }
    const [x, y] = position();
    const { at, from } = press;
    stereonet.rotate([
      from[0] + ((x - at[0]) / 3),
      clamp(from[1] + ((at[1] - y) / 3), 90)
    ]);
  };

  const mouseup = function() {
    const p = press;
    if (p == null) { return; }
    const [x, y] = position();
    press = null;
    stereonet.rotate([
      p.from[0] + ((x - p.at[0]) / 3),
      clamp(p.from[1] + ((p.at[1] - y) / 3), 90)
    ]);
  };

""")
# ---- labels: the features made once, visibility extracted
edit("attitude/src/stereonet/labels.ts", ("""  for (let l of Array.from(labels)) {
    l.type = 'Feature';
    l.geometry = {type: 'Point', coordinates: l.c};
  }
""", """  const features = labels.map(l => ({...l, type: 'Feature', geometry: {type: 'Point', coordinates: l.c}}));
"""), ("      .data(labels)", "      .data(features)"), ("""      return v.style("display", function(d){
          const dist = geoDistance(centerPos,d.geometry.coordinates);
          if ((d.name === 'Up') || (d.name === 'Down')) {
            if (dist < (Math.PI/4)) { return 'none'; }
          }
          if (dist < 0.01) { return 'none'; }
          if (dist > ((Math.PI/2)+0.01)) { return 'none'; } else { return 'inline'; }
      });""", """      const visible = (d) => {
        const dist = geoDistance(centerPos, d.geometry.coordinates);
        const pole = d.name === 'Up' || d.name === 'Down';
        return dist >= (pole ? Math.PI/4 : 0.01) && dist <= (Math.PI/2) + 0.01;
      };
      v.each(function(d){ this.style.setProperty("display", visible(d) ? 'inline' : 'none', ''); });"""))
# ---- vertical labels: loops
edit("attitude/src/stereonet/vertical.ts", ("""    sel = dip.selectAll("text").data(dipLabels.map(feat));
    sel
      .enter()
      .append("text")
      .attr("class", "inner")""", """    sel = dip.selectAll("text").data(Array.from(dipLabels, (v) => feat(v)));
    sel
      .enter()
      .append("text")
      .classed("inner", true)"""))
# ---- component: layers through one method; the switched one as a function component
edit("notebook-ui/src/components/stereonet.ts", ("""    this.updatePoles();
    this.updatePlanes();
    this.__finishUpdate();
    this.updateHovered();

""", """    this.redrawAll();

"""), ("  updateHovered() {", """  redrawAll() {
    this.updatePoles();
    this.updatePlanes();
    this.__finishUpdate();
    this.updateHovered();
  }

  updateHovered() {"""), ("""    if (hovered == null) {
      return;
    }
    if (hovered.length === 0) {
      return;
    }
    if (drawPlanes) {""", """    if (!hovered?.length) {
      return;
    }
    if (drawPlanes) {"""), ("""      .on("mouseenter", function (d) {
        d = d3.select(this.parentElement).datum();
        return onHover?.(d);
      });""", """      .on("mouseenter", function () {
        if (onHover) {
          onHover(d3.select(this.parentNode).datum());
        }
      });"""), ('import React, { useEffect } from "react";', 'import React, { useState, useCallback } from "react";'))
between("notebook-ui/src/components/stereonet.ts", "class InteractiveStereonetComponent", "export {", """function InteractiveStereonetComponent(props) {
  const [drawPlanes, setPlanes] = useState(props.drawPlanes ?? false);
  const [drawPoles, setPoles] = useState(props.drawPoles ?? true);
  const [center, setCenter] = useState([0, 0]);
  const vertical = useCallback(() => setCenter([0, -90]), []);
  return h("div.stereonet-outer", [
    h(StereonetComponent, { ...props, drawPlanes, drawPoles, center }),
    h(Card, { className: "controls" }, [
      h(Switch, { checked: drawPlanes, onChange: () => setPlanes((v) => !v), label: "Planes" }),
      h(Switch, { checked: drawPoles, onChange: () => setPoles((v) => !v), label: "Poles" }),
      h(Button, { onClick: vertical, className: "bp3-small" }, "Vertical"),
    ]),
  ]);
}

""")
# ---- notebook panel: handlers as methods, hovered looked up with a map
edit("notebook-ui/src/index.ts", ("""      zoomToSelection: () => {
        return this.setState({
          zoomedToSelection: !this.state.zoomedToSelection,
        });
      },
      onToggleShowGroups: () => {
        return this.setState({ showGroups: !this.state.showGroups });
      },""", """      zoomToSelection: () => this.toggle("zoomedToSelection"),
      onToggleShowGroups: () => this.toggle("showGroups"),"""), ("  getData() {", """  toggle(key) {
    this.setState((s) => ({ [key]: !s[key] }));
  }

  getData() {"""))
between("notebook-ui/src/index.ts", "    const out = [];\n    for (var o", "  }\n\n  render()", """    const known = new Map(attitudes.map((d) => [d.uid, d]));
    return list.map((uid) => known.get(uid)).filter((d) => d != null);
""")
edit("notebook-ui/src/components/list.ts", ("""    const selected = selection.find((sel) => sel.uid === d.uid);
    let isHovered = false;
    const inGroup = d.member_of != null;
    if (hovered != null) {
      isHovered = hovered.find((hov) => hov.uid === d.uid);
    }
""", """    const has = (list) => (list ?? []).some((v) => v.uid === d.uid);
    const selected = has(selection);
    const isHovered = has(hovered);
    const inGroup = d.member_of != null;
"""))
# ---- plots and web app
edit("plots/src/vertical.ts", ('  el.innerHTML = "";', '  d3.select(el).selectAll("*").remove();'), ("import { useEffect, useRef }", "import { useLayoutEffect, useRef }"), ("  useEffect(() => {", "  useLayoutEffect(() => {"))
edit("plots/src/rectangular.ts", ('  el_.innerHTML = "";', '  while (el_.firstChild) el_.removeChild(el_.firstChild);'))
edit("webapp/src/app.ts", ("""  const cleanedData: Orientation[] = data
    .map(constructOrientation)
    .filter((d) => d != null);
""", """  const cleanedData: Orientation[] = useMemo(
    () => data.map(constructOrientation).filter((d) => d != null),
    [data]
  );
"""), ('import h from "@macrostrat/hyper";', 'import h from "@macrostrat/hyper";\nimport { useMemo } from "react";'))
between("webapp/src/sheet.ts", "      let spec: Spec<SheetContent> = {};", "    },\n  });\n}\n\nexport function DataArea", """      const next = data.map((row) => [...row]);
      for (const { row, col, value } of changes) {
        next[row][col] = { value };
      }
      updateData(next.map(finalizeRow));
""")
edit("webapp/src/sheet.ts", ("""    let newRow = [...row];
    newRow[3] = row[4];
    newRow[4] = row[3];
    return newRow;
""", """    const [strike, dip, rake, max, min, ...rest] = row;
    return [strike, dip, rake, min, max, ...rest];
"""), ("""  const emptyData = Array(orientationFields.length).fill({ value: null });
  const addedRows = Array(nToAdd).fill(emptyData);
  return [...data, ...addedRows];""", """  const addedRows = Array.from({ length: nToAdd }, () =>
    orientationFields.map(() => ({ value: null }))
  );
  return data.concat(addedRows);"""))
print("written", out)
