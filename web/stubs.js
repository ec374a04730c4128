"use strict";
/* Third-party packages that are not available offline, reduced to what the front end relies on. */
module.exports = function (world, n) {
  const { React } = world.R, h = world.h, e = React.createElement;
  switch (n) {
    case "attitude/src/versor": return {
      versor_fromAxisAngle([lon, lat], deg) {
        const r = Math.PI / 180, a = (deg * r) / 2, s = Math.sin(a), c = Math.cos(lat * r);
        return [Math.cos(a), s * c * Math.cos(lon * r), s * c * Math.sin(lon * r), s * Math.sin(lat * r)];
      },
      versor_multiply: ([a1, b1, c1, d1], [a2, b2, c2, d2]) => [a1 * a2 - b1 * b2 - c1 * c2 - d1 * d2, a1 * b2 + b1 * a2 + c1 * d2 - d1 * c2, a1 * c2 - b1 * d2 + c1 * a2 + d1 * b2, a1 * d2 + b1 * c2 - c1 * b2 + d1 * a2],
    };
    case "attitude/src/matrix": return {
      versor_toRotationMatrix: ([w, x, y, z]) => [
        [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]],
    };
    case "classnames": {
      const cn = (...a) => a.flatMap((x) => (!x ? [] : typeof x === "string" ? [x] : Array.isArray(x) ? [cn(...x)] : Object.keys(x).filter((k) => x[k]))).filter(Boolean).join(" ");
      return cn;
    }
    case "react-copy-to-clipboard": return { CopyToClipboard: ({ text, children }) => e("span", { className: "copy-to-clipboard", onClick: () => { world.clipboard = text; } }, children) };
    case "@blueprintjs/core": {
      class Tabs extends React.Component {
        constructor(p) { super(p); this.state = { sel: p.defaultSelectedTabId ?? null }; }
        render() {
          const tabs = (Array.isArray(this.props.children) ? this.props.children : [this.props.children]).flat(9).filter((t) => t && t.props && t.props.id != null);
          const sel = this.state.sel ?? (tabs[0] && tabs[0].props.id);
          const shown = this.props.renderActiveTabPanelOnly ? tabs.filter((t) => t.props.id === sel) : tabs;
          return e("div", { className: "tabs " + (this.props.className || "") },
            e("ul", { className: "tab-list" }, tabs.map((t) => e("li", { key: t.props.id, className: "tab", "data-tab": t.props.id, onClick: () => this.setState({ sel: t.props.id }) }, t.props.title))),
            shown.map((t) => e("div", { key: "panel" + t.props.id, className: "tab-panel", "data-panel": t.props.id }, t.props.panel)));
        }
      }
      Tabs.Expander = () => e("span", { className: "expander" });
      return {
        Tabs, Tab: () => null, Expander: Tabs.Expander,
        FocusStyleManager: { onlyShowFocusOnTabs() {} },
        Card: (p) => e("div", p), ButtonGroup: (p) => e("div", { className: "button-group" }, p.children), Label: (p) => e("label", p),
        Button: ({ onClick, disabled, children, className, text }) => e("button", { className, disabled: !!disabled, onClick: (ev) => { if (!disabled && onClick) onClick(ev); } }, children, text),
        Switch: ({ checked, onChange, label }) => e("label", { className: "switch", "data-label": label, "data-checked": String(!!checked), onChange }, label),
        NumericInput: ({ value, onValueChange }) => e("input", { className: "numeric", "data-value": String(value), onChange: (ev) => onValueChange && onValueChange(ev.value, String(ev.value)) }),
        Popover: ({ children }) => e("span", null, children),
        Intent: {}, Classes: {}, Callout: (p) => e("div", null, p.children), NonIdealState: (p) => e("div", null, p.children),
      };
    }
    case "@blueprintjs/popover2": return { Popover2: ({ children, content }) => e("span", { className: "popover" }, content, children) };
    case "react-color": return { SketchPicker: (p) => { world.picker = p; return e("div", { className: "picker", "data-color": p.color }); } };
    case "react-datasheet": {
      const DataEditor = (p) => e("input", { className: "data-editor" });
      class ReactDataSheet extends React.Component {
        render() {
          const p = this.props;
          world.sheet = p;
          const rows = p.data.map((row, i) => {
            const cells = row.map((c, j) => e("td", { key: j, className: "cell " + (c.className || ""), ...(p.attributesRenderer ? p.attributesRenderer(c, i, j) : {}) }, p.valueRenderer(c, i, j) == null ? "" : String(p.valueRenderer(c, i, j))));
            return p.rowRenderer ? e(p.rowRenderer, { key: i, row: i, cells: row }, cells) : e("tr", { key: i }, cells);
          });
          return p.sheetRenderer ? e(p.sheetRenderer, { data: p.data, className: "data-grid" }, rows) : e("table", { className: "data-grid" }, e("tbody", null, rows));
        }
      }
      return Object.assign(ReactDataSheet, { default: ReactDataSheet, DataEditor, __esModule: true });
    }
    case "immutability-helper": {
      const copy = (o) => (Array.isArray(o) ? o.slice() : o && typeof o === "object" ? Object.assign(Object.create(Object.getPrototypeOf(o)), o) : o);
      const update = (o, spec) => {
        if (typeof spec === "function") return spec(o);
        if ("$set" in spec) return spec.$set;
        if ("$apply" in spec) return spec.$apply(o);
        if ("$push" in spec) return spec.$push.length ? o.concat(spec.$push) : o;
        if ("$unshift" in spec) return spec.$unshift.concat(o);
        if ("$merge" in spec) return Object.assign(copy(o), spec.$merge);
        if ("$splice" in spec) { const c = o.slice(); for (const a of spec.$splice) c.splice(...a); return c; }
        if ("$unset" in spec) { const c = copy(o); for (const k of spec.$unset) delete c[k]; return c; }
        let out = o;
        for (const k of Object.keys(spec)) {
          const v = update(o[k], spec[k]);
          if (v !== out[k] || (v === undefined && !(k in out))) { if (out === o) out = copy(o); out[k] = v; }
        }
        return out;
      };
      return Object.assign(update, { default: update });
    }
    case "@macrostrat/ui-components": return {
      ErrorBoundary: (p) => e(React.Fragment, null, p.children),
      useStoredState(key, dflt, check = () => true) {
        const [v, set] = React.useState(() => {
          try { const s = JSON.parse(world.localStorage.getItem(key)); if (s != null && check(s)) return s; } catch (err) {}
          return dflt;
        });
        const up = (x) => { set(() => x); try { world.localStorage.setItem(key, JSON.stringify(x)); } catch (err) {} };
        return [v, up, () => up(dflt)];
      },
    };
    case "kld-path-parser": return { PathParser: class { setHandler(x) { this.hd = x; } parseData(d) { if (d == null) throw new Error("no path"); this.hd.shapes = d; } } };
    case "kld-intersections/lib/PathHandler": return class { constructor() { this.shapes = []; } };
    case "kld-intersections": return {
      Shapes: { line: (x1, y1, x2, y2) => ({ x1, y1, x2, y2 }), path: (d) => ({ d }) },
      Intersection: {
        intersect({ d }, L) {
          const points = [];
          for (const sub of String(d).split("M").slice(1)) {
            const ps = sub.replace("Z", "").split("L").map((t) => t.split(",").map(Number));
            for (let i = 1; i < ps.length; i++) {
              const [ax, ay] = ps[i - 1], [bx, by] = ps[i];
              const rx = bx - ax, ry = by - ay, sx = L.x2 - L.x1, sy = L.y2 - L.y1, q = rx * sy - ry * sx;
              if (q === 0) continue;
              const t = ((L.x1 - ax) * sy - (L.y1 - ay) * sx) / q, u = ((L.x1 - ax) * ry - (L.y1 - ay) * rx) / q;
              if (t >= 0 && t <= 1 && u >= 0 && u <= 1) points.push({ x: ax + t * rx, y: ay + t * ry });
            }
          }
          return { points };
        },
      },
    };
    case "core-js/stable": case "regenerator-runtime/runtime": return {};
  }
};
