"use strict";
/* Histories of drawing and computing calls on one page: several stereonets, shared records and option objects, failing
   callbacks, failing DOM insertions and callbacks that draw elsewhere (C28: inputs untouched; C29: every result as on a fresh page). */
const { World } = require("./world");
const { hash, round, canon, drawn, firstDiff, drops, Violation } = require("./lib");
const { record, axes } = require("./records");

const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)));

function genNet(r) {
  return { size: r.pick([300, 400, 520]), margin: r.pick([10, 25, 40]), clip: r.p(0.25) ? r.pick([15, 30, 60, 90]) : null,
    center: r.p(0.4) ? [round(r.u(-180, 180), 2), round(r.u(-90, 90), 2)] : null, grat: r.p(0.7) ? [r.pick([30, 45]), r.pick([30, 20])] : null,
    precision: r.pick([0.5, 1, 2]), interactive: r.p(0.7), ...(r.p(0.15) ? { rect: genRect(r) } : {}), ...(r.p(0.1) ? { open: true } : {}) };
}
function genRect(r) {
  const o = {};
  for (const [k, lo, hi] of [["width", 100, 400], ["height", 100, 400], ["x", 0, 60], ["y", 0, 60]]) if (r.p(0.45)) o[k] = r.i(lo, hi);
  return o;
}
function genOpt(r, kind) {
  const o = {};
  if (kind === "draw") {
    if (r.p(0.6)) o.color = r.p(0.5) ? r.pick(["#aa0000", "teal", "rgb(1,2,3)"]) : { fn: 1 };
    if (r.p(0.3)) o.n = r.pick([8, 12, 20]);
    if (r.p(0.25)) o.level = r.pick([0.5, 1, 2, 3]);
    if (r.p(0.2)) o.upperHemisphere = r.p(0.5);
    if (r.p(0.2)) o.traditionalLayout = r.p(0.5);
  } else {
    if (r.p(0.5)) o.n = r.pick([6, 10, 16]);
    if (r.p(0.3)) o.degrees = r.p(0.5);
    if (r.p(0.3)) o.level = r.pick([0.5, 1, 2]);
    if (r.p(0.3)) o.sheet = r.pick(["upper", "lower"]);
    if (r.p(0.3)) o.upperHemisphere = r.p(0.5);
    if (r.p(0.3)) o.traditionalLayout = r.p(0.5);
    if (r.p(0.15)) o.nominal = r.p(0.5);
    if (r.p(0.25)) return { n: r.pick([6, 10]), degrees: r.p(0.8), traditionalLayout: r.p(0.4), level: r.pick([1, 2]), upperHemisphere: r.p(0.5), sheet: r.pick(["upper", "lower"]) };      // nothing left to the defaults
  }
  return o;
}
function genStyle(r) {
  const o = {};
  if (r.p(0.5)) o.domain = [0, r.pick([1, 10, 45])];
  if (r.p(0.3)) o.max = r.i(2, 30);
  if (r.p(0.3)) o.error = r.i(1, 30);
  if (r.p(0.2)) o.scale = [0, r.i(3, 60)];
  return o;
}
function style(core, d3, q) {
  const f = core.opacityByCertainty(q.bad ? () => "nonsense" : (d) => d.color, "path.error"), o = q.set || {};
  if (o.scale) f.alphaScale(d3.scaleLinear().range([0.9, 0.2]).domain(o.scale).clamp(true));
  if (o.domain) f.domain(o.domain.slice());
  if (o.max) f.max(o.max);
  if (o.error) f.angularError(() => o.error);
  return f;
}
// something like what is there already, apart from one or two of its settings
function similar(r, old, fresh) {
  const o = clone(old), ks = Object.keys(fresh).filter((k) => k !== "uid");
  if (!ks.length) return o;
  for (const k of r.some(ks, 1, 2)) if (!(k in old) || old[k] === null || fresh[k] === null || typeof old[k] === typeof fresh[k]) o[k] = clone(fresh[k]);
  return o;
}
const vary = (r, list, p, make) => { const fresh = make(); return list.length && r.p(p) ? similar(r, r.pick(list), fresh) : fresh; };
function gen(r, depth = 1) {
  const nr = r.i(1, 4), recs = Array.from({ length: nr }, (_, i) => record(r, i));
  if (r.p(0.1)) for (const d of recs) if (d.hyperbolic_axes && r.p(0.5)) d.hyperbolic_axes = [round(r.u(0.01, 0.5), 3), round(r.u(0.005, 0.2), 4), round(r.u(1, 50), 3)];
  const plan = { recs, opts: [], nets: [], hyps: [], ops: [] };
  const no = r.i(1, 3);
  for (let i = 0; i < no; i++) plan.opts.push(vary(r, plan.opts, 0.3, () => genOpt(r, r.pick(["draw", "draw", "math"]))));
  const nn = r.i(1, 3);
  for (let i = 0; i < nn; i++) plan.nets.push(vary(r, plan.nets, 0.5, () => genNet(r)));
  const nh = r.i(1, 3);
  const genHyp = () => ({ view: round(r.u(-3, 3), 3), axes: r.p(0.5) ? [[1, 0, 0], [0, 1, 0], [0, 0, 1]] : axes(r), x: [round(r.u(5, 60), 2), r.pick([400, 650])], y: [round(r.u(5, 60), 2), r.pick([200, 300])], ...(r.p(0.15) ? { alpha: r.i(10, 90) } : {}) });
  for (let i = 0; i < nh; i++) plan.hyps.push(vary(r, plan.hyps, 0.5, genHyp));
  for (let i = 1; i < nr; i++) if (r.p(0.3) && ["axes", "covariance"].every((k) => k in recs[0] === k in recs[i])) { const d = similar(r, recs[0], recs[i]); if (r.p(0.5)) d.uid = recs[i].uid; recs[i] = d; }
  const n = r.i(3, 9 * depth);
  const opt = () => (r.p(0.6) ? { sh: r.i(0, no - 1) } : r.p(0.5) ? null : { own: genOpt(r, "draw") });
  const mopt = () => (r.p(0.6) ? { sh: r.i(0, no - 1) } : r.p(0.4) ? null : { own: genOpt(r, "math") });
  const data = () => { const l = []; const m = r.i(1, Math.min(3, nr)); for (let i = 0; i < m; i++) l.push(r.i(0, nr - 1)); return l; };
  const focus = r.p(0.35) ? r.pick([["hyper"], ["hyper", "plane"], ["planes", "ellipses", "opacity"], ["math", "fn", "again"], ["planes", "rotate", "center", "labels", "vertical", "where"], ["plane", "plane", "hyper"]]) : null;
  const one = (nested) => {
    const k = r.pick(focus || ["planes", "planes", "ellipses", "ellipses", "math", "math", "fn", "fn", "hyper", "hyper", "plane", "rotate", "center", "labels", "vertical", "horizontal", "opacity", "again", "refresh", "grid", "where"]);
    const op = { k };
    const net = () => r.i(0, nn - 1);
    if (k === "planes" || k === "ellipses") {
      Object.assign(op, { net: net(), recs: data(), opt: opt(), sel: r.p(0.55) });
      if (!nested && r.p(0.35)) {
        const kind = r.pick(["callback", "dom", "nested", "badcolor"]);
        op.fault = { kind, at: kind === "dom" ? r.i(1, 6) : r.i(1, op.recs.length) };
        if (kind === "nested") op.fault.op = { k: r.pick(["planes", "ellipses"]), net: net(), recs: data(), opt: opt(), sel: true };
      }
    } else if (k === "math") Object.assign(op, { fn: r.pick(["planeErrors", "normalErrors", "combinedErrors", "convolveAxes", "deconvolveAxes", "cart2sph", "transpose"]), rec: r.i(0, nr - 1), opt: mopt() });
    else if (k === "fn") Object.assign(op, { fn: r.pick(["errorEllipse", "errorEllipse", "errorEllipses", "errorSurface", "errorSurface", "nominalPlane", "plane", "reconstructErrors"]), rec: r.i(0, nr - 1), opt: mopt() });
    else if (k === "hyper") Object.assign(op, { h: r.i(0, nh - 1), rec: r.i(0, nr - 1), set: { scaleErrorAngles: r.p(0.6), width: r.pick([150, 400]) }, nominal: r.p(0.2), offset: r.p(0.7) ? [round(r.u(-5, 5), 2), round(r.u(-5, 5), 2), ...(r.p(0.85) ? [round(r.u(-2, 2), 2)] : [])] : null, grad: r.p(0.15), onto: r.p(0.5) ? r.i(0, 1) : null });
    else if (k === "plane") Object.assign(op, { fn: r.pick(["dip", "apparentDip", "transform", "transform", "line", "line", "centroid", "average", "path", "path"]), h: r.i(0, nh - 1), rec: r.i(0, nr - 1), az: round(r.u(-4, 4), 3), ...(r.p(0.4) ? { axes: axes(r) } : {}), ...(r.p(0.3) ? { width: r.pick([100, 250, 700]) } : {}), ...(r.p(0.35) ? { tag: "line" } : {}), ...(r.p(0.4) ? { group: r.i(0, nr - 1) } : {}) });
    else if (k === "rotate" || k === "center") Object.assign(op, { net: net(), to: r.p(0.2) ? [round(r.u(-200, 200), 2), round(r.u(-90, 90), 2), round(r.u(-90, 90), 2)] : [round(r.u(-200, 200), 2), round(r.u(-90, 90), 2)] });
    else if (k === "vertical") Object.assign(op, { net: net(), opt: r.p(0.5) ? { sh: r.i(0, no - 1) } : null, start: r.p(0.5) ? r.i(1, 30) : null, more: r.p(0.4) ? { ...(r.p(0.7) ? { dipLabels: r.some([2, 5, 10, 20, 35, 60, 85], 0, 4) } : {}), ...(r.p(0.3) ? { nLabels: r.i(1, 5) } : {}), ...(r.p(0.3) ? { labelPadding: r.i(0, 9) } : {}) } : null });
    else if (k === "opacity") Object.assign(op, { layer: r.i(0, 3), bad: r.p(0.2), ...(r.p(0.5) ? { set: genStyle(r) } : {}) });
    else if (k === "again") Object.assign(op, { res: r.i(0, 3), fn: r.pick(["errorSurface", "nominalPlane"]) });
    else op.net = net();
    return op;
  };
  for (let i = 0; i < n; i++) {
    if (i && r.p(0.2)) {                          // an earlier call once more, as it was or with one thing changed
      const o = clone(bare(r.pick(plan.ops)));
      for (const [k, m] of [["rec", nr], ["net", nn], ["h", nh]]) if (k in o && r.p(0.25)) o[k] = r.i(0, m - 1);
      if ((o.k === "math" || o.k === "fn") && r.p(0.5)) Object.assign(o, { k: r.pick(["math", "fn"]), opt: o.opt || mopt() }), (o.fn = r.pick(o.k === "math" ? ["planeErrors", "normalErrors", "normalErrors", "combinedErrors"] : ["errorEllipse", "errorEllipse", "plane", "errorSurface"]));
      plan.ops.push(o);
    } else plan.ops.push(one(false));
  }
  return plan;
}

const P3 = [[1, 0], [0, 1]];
class Page {
  constructor(plan, bundle, stats) {
    this.plan = plan;
    this.w = new World();
    this.core = this.w.load(bundle);
    this.recs = plan.recs.map(clone);
    this.opts = plan.opts.map((o) => this.options(o));
    this.nets = new Map();
    this.hyps = new Map();
    this.gs = new Map();
    this.layers = [];
    this.results = [];
    this.seq = 0;
    this.stats = stats || {};
    this.inputs = [];            // [what, object, canonical text before]
    this.fns = new Map();
  }
  bump(k) { this.stats[k] = (this.stats[k] || 0) + 1; }
  options(o) {
    const c = clone(o);
    if (c.color && typeof c.color === "object") c.color = (d) => d.color || "#123456";
    return c;
  }
  watch(what, obj) { if (obj && typeof obj === "object" && !this.inputs.some((i) => i[1] === obj)) this.inputs.push([what, obj, canon(obj, this.fns)]); }
  changed() { for (const [what, obj, was] of this.inputs) { const now = canon(obj, this.fns); if (now !== was) return [what, now, was]; } return null; }
  net(i, R) {
    if (!this.nets.has(i)) {
      const c = this.plan.nets[i], { w, core } = this;
      const s = core.Stereonet({ interactive: c.interactive }).size(c.size).margin(c.margin);
      if (c.grat) s.graticule(c.grat[0], c.grat[1]);
      if (c.open) s.clip(false);
      if (c.clip != null) s.clipAngle(c.clip);
      if (c.center) s.center(c.center.slice());
      if (c.rect) { const o = clone(c.rect); this.watch("the sizes of a rectangular net", o); s.rectangular(o); }
      s.projection().precision(c.precision);
      const svg = w.el("svg", "svg");
      w.d3.select(svg).call(s);
      this.nets.set(i, { s, svg });
    }
    const n = this.nets.get(i);
    if (R) n.s.rotate(R.slice());
    return n;
  }
  hyp(i) {
    if (!this.hyps.has(i)) {
      const c = this.plan.hyps[i], d3 = this.w.d3;
      const x = d3.scaleLinear().range([0, c.x[1]]).domain([-c.x[0], c.x[0]]), y = d3.scaleLinear().range([c.y[1], 0]).domain([-c.y[0], c.y[0]]);
      const ax = clone(c.axes);
      this.watch("the viewing axes", ax);
      const h = this.core.hyperbolicErrors(c.view, ax, x, y);
      if (c.alpha) h.alphaScale(d3.scaleLinear().range([0.9, 0.2]).domain([0, c.alpha]).clamp(true));
      this.hyps.set(i, { h, x, y, view: c.view });
    }
    return this.hyps.get(i);
  }
  opt(o) { if (o == null) return undefined; if (o.own) { const v = this.options(o.own); this.watch("an option object", v); return v; } return this.opts[o.sh]; }
  rec(i) { const d = this.recs[i]; this.watch("record " + d.uid, d); return d; }
  axesOf(d) { if (d.axes) return [d.hyperbolic_axes || d.covariance, d.axes]; const v = this.core.reconstructErrors(d); return [v.hyp, v.axes]; }

  // one operation; -> {layer} or {value} or {}; throws what the code under test throws
  exec(op, nested) {
    const { core, w } = this, d3 = w.d3;
    if (op.net != null) this.net(op.net);
    switch (op.k) {
      case "planes": case "ellipses": {
        const n = this.net(op.net), data = op.recs.map((i) => this.rec(i));
        this.watch("the data array", data);
        const cls = op.sel ? "L" + this.seq++ : op.k === "planes" ? "planes" : "poles";
        let o = this.opt(op.opt);
        const f = op.fault;
        const wrap = f && (f.kind === "callback" || f.kind === "nested" || f.kind === "badcolor" || f.kind === "plain");
        if (op.sel || wrap) {
          o = { ...(o || {}) };
          if (op.sel) o.selector = "g." + cls;
          if (wrap) {
            const c0 = o.color;
            let calls = 0;
            o.color = (d) => {
              if (++calls === f.at) {
                this.bump("fault:" + f.kind);
                if (f.kind === "callback") throw new Error("INJECTED");
                if (f.kind === "badcolor") return "no such colour";
                this.exec(f.op, true);
              }
              return typeof c0 === "function" ? c0(d) : c0 || d.color || "#aaaaaa";
            };
          }
          this.watch("the options", o);
        }
        if (!op.sel) {
          const g = n.s.dataArea().select("g." + cls);
          if (g.node()) { g.remove(); this.layers = this.layers.filter((l) => !(l.net === op.net && l.cls === cls)); }
        }
        const layer = { op, net: op.net, cls, ok: false };
        if (f && f.kind === "dom") { let k = 0; w.hooks.onInsert = () => { if (++k === f.at) { this.bump("fault:dom"); throw new Error("INJECTED"); } }; }
        let sel;
        try { sel = o === undefined ? n.s[op.k](data) : n.s[op.k](data, o); } finally { w.hooks.onInsert = null; }
        layer.ok = true;
        layer.sel = sel;
        this.layers.push(layer);
        return { layer };
      }
      case "math": {
        const d = this.rec(op.rec), o = this.opt(op.opt), M = core.math;
        const [hyp, ax] = this.axesOf(d);
        this.watch("the axes", ax);
        if (op.fn === "cart2sph") return { value: ax.map(M.cart2sph(o)) };
        if (op.fn === "transpose") return { value: M.transpose(ax) };
        if (op.fn === "deconvolveAxes") return { value: M.deconvolveAxes(ax) };
        if (op.fn === "convolveAxes") return { value: M.convolveAxes(ax, hyp) };
        return { value: o === undefined ? M[op.fn](hyp, ax) : M[op.fn](hyp, ax, o), combined: op.fn === "combinedErrors" };
      }
      case "fn": {
        const d = this.rec(op.rec), o = this.opt(op.opt), F = core.functions;
        if (op.fn === "reconstructErrors") return d.axes ? {} : { value: core.reconstructErrors(d) };
        if (op.fn === "errorEllipse") return { value: F.errorEllipse(o === undefined ? {} : o)(d) };
        if (op.fn === "errorEllipses") { const oo = { n: 8, degrees: true, level: [1, 2, 3] }; this.watch("an option object", oo); return { value: F.errorEllipse(oo).map((f) => f(d)) }; }
        if (op.fn === "plane") {
          const g = w.el("g", "svg");
          d3.select(g).datum(d).each(F.plane(o === undefined ? {} : o));
          return { value: [drawn(g), ...d3.select(g).selectAll("path").data()] };
        }
        const [hyp, ax] = this.axesOf(d);
        this.watch("the axes", ax);
        const e = core.math.combinedErrors(hyp, ax, { n: 10 });
        this.watch("the error coordinates", e);
        return { value: op.fn === "errorSurface" ? F.errorSurface(e, d) : F.nominalPlane(e, d) };
      }
      case "again": {
        const c = this.results.filter((x) => x.combined)[op.res];
        if (!c) return {};
        return { value: core.functions[op.fn](c.value) };
      }
      case "hyper": {
        const H = this.hyp(op.h), pd = this.planeData(op.rec);
        if (!pd) return {};
        if (op.offset) pd.offset = op.offset.slice();
        for (const k in op.set) H.h[k](op.set[k]);
        H.h.nominal(op.nominal);
        const key = op.onto == null ? null : op.onto + "/" + op.nominal;
        let g = key && this.gs.get(key);
        if (!g) { g = w.el("g", "svg"); if (key) this.gs.set(key, g); }
        d3.select(g).datum(pd).each(H.h);
        let grad = null;
        if (op.grad) { const svg = w.el("svg", "svg"); H.h.setupGradient(d3.select(svg)); grad = drawn(svg); }
        if (g.getAttribute("visibility") === "hidden") return { value: ["hidden", grad], spot: g };
        const path = d3.select(g).select("path.hyperbola").node();
        return { value: [drawn(g), path ? path.__data__ : null, grad, H.h.width(), H.h.scaleErrorAngles(), H.h.nominal()], spot: g };
      }
      case "plane": {
        const H = this.hyp(op.h), pd = this.planeData(op.rec);
        if (!pd) return {};
        pd.offset = [1, 2, 0.5];
        const other = op.group != null ? this.planeData(op.group) : null;
        if (op.fn === "dip") return { value: pd.dip() };
        if (op.fn === "apparentDip") return { value: pd.apparentDip(op.az) };
        if (other && op.fn !== "centroid" && op.fn !== "average") pd.group = other;
        if (op.fn === "transform") return { value: core.createTransform(op.az, H.x, H.y)(pd) };
        if (op.fn === "centroid") return pd.data.center ? { value: core.computeCentroidExtrema(other && other.data.center ? [pd, other] : [pd, pd]) } : {};
        if (op.fn === "average") return pd.data.center && (!other || other.data.center) ? { value: core.computeCentroidAverage(other ? [pd, other] : [pd, pd]) } : {};
        if (pd.centered == null && !(op.fn === "path" && op.tag)) return {};
        const el = w.el(op.fn === "path" && op.tag ? op.tag : "path", "svg");
        const f = op.fn === "line" ? core.digitizedLine(op.az, d3.line()) : core.apparentDip(op.az, H.x, H.y);
        if (op.axes) { const ax = clone(op.axes); this.watch("the axes", ax); f.axes(ax); }
        if (op.width && f.width) f.width(op.width);
        d3.select(el).datum(pd).each(f);
        return { value: drawn(el) };
      }
      case "rotate": case "center": {
        const to = op.to.slice(), n = this.net(op.net);
        this.watch("the rotation", to);
        n.to = op.to;
        n.s[op.k](to);
        return {};
      }
      case "grid": { const n = this.net(op.net); n.s.refresh(); return { value: [n.svg.querySelectorAll("path.graticule").map((e) => [drawn(e), e.__data__]), n.svg.querySelectorAll("rect").map((e) => ["x", "y", "width", "height"].map((k) => e.getAttribute(k)))] }; }
      case "where": { const n = this.net(op.net); return { value: [n.s.centerPosition(), n.s.rotate()] }; }
      case "refresh": this.net(op.net).s.refresh(); return {};
      case "labels": { const n = this.net(op.net); if (n.labels) return {}; n.labels = true; n.s.call(core.globalLabels()); return {}; }
      case "horizontal": { const n = this.net(op.net); const k = n.svg.querySelectorAll("g.overlay > g").length; n.s.horizontal(); return { value: n.svg.querySelectorAll("g.overlay > g").slice(k).map(drawn) }; }
      case "vertical": {
        const n = this.net(op.net);
        let o = this.opt(op.opt);
        if (op.more) { o = { ...(o || {}), ...clone(op.more) }; this.watch("the options", o); }
        if (op.start != null) { o = { ...(o || {}), startOffset: op.start }; this.watch("the options", o); }
        const k = n.svg.querySelectorAll("g.overlay > g").length;
        o === undefined ? n.s.vertical() : n.s.vertical(o);
        return { value: n.svg.querySelectorAll("g.overlay > g").slice(k).map(drawn) };
      }
      case "opacity": {
        const l = this.layers.filter((x) => !x.styled)[op.layer];
        if (!l) { style(core, d3, op); return {}; }
        l.styled = { bad: op.bad, set: op.set };
        l.sel.each(style(core, d3, op));
        return { layer: l };
      }
    }
    throw new Error("op " + op.k);
  }
  planeData(i) {
    const d = this.rec(i);
    if (!d.axes || !d.hyperbolic_axes) return null;
    return new this.core.PlaneData(d);
  }
  childTexts(l) { const g = this.net(l.net).s.dataArea().select("g." + l.cls).node(); return g ? Array.from(g.childNodes || [], drawn) : []; }
  layerText(l) { const g = this.net(l.net).s.dataArea().select("g." + l.cls).node(); return g ? drawn(g) : "nothing"; }
  do(op) {
    this.w.events++;
    let out;
    try { out = this.exec(op); } catch (e) { if (String(e && e.message).startsWith("MISSING-PACKAGE")) throw e; return { threw: String((e && e.message) || e) }; }
    if (out && "value" in out) this.results.push(out);
    return out || {};
  }
}

// -------------------------------------------------------------------- C28
function purity(plan, bundle) {
  const stats = {}, p = new Page(plan, bundle, stats), log = [];
  p.opts.forEach((o, i) => p.watch("option object " + i, o));
  p.recs.forEach((d) => p.watch("record " + d.uid, d));
  plan.ops.forEach((op, i) => {
    const out = p.do(op);
    if ("value" in out) p.watch("the result of operation " + p.results.length, out.value);
    log.push(op.k + (op.fn || "") + (out.threw ? "!" + out.threw : "") + ("value" in out ? hash(canon(out.value)) : ""));
    stats.comparisons = (stats.comparisons || 0) + p.inputs.length;
    const c = p.changed();
    if (c) throw new Violation(/^the result/.test(c[0]) ? "result changed" : "input changed", "operation " + i + " (" + op.k + (op.fn ? "." + op.fn : "") + ") changed " + c[0] + ": " + firstDiff(c[1], c[2]));
  });
  stats.ops = plan.ops.length;
  stats.events = p.w.events;
  return { stats, log, key: plan.ops.map((o) => o.k + (o.fn || "") + (o.fault ? o.fault.kind : "") + (o.net ?? "")).join() };
}

// -------------------------------------------------------------------- C29
function bare(op) { if (!op.fault) return op; const { fault, ...rest } = op; return rest; }
const calm = (op) => (op.fault && op.fault.kind !== "dom" ? { ...op, fault: { kind: "plain", at: -1 } } : bare(op));
function reference(plan, bundle, op, R, extra) {
  const p = new Page(plan, bundle);
  if (op.net != null) p.net(op.net, R);
  if (op.k === "hyper") op = { ...op, onto: null };
  const out = p.do(calm(op));
  if (out.threw) return { threw: out.threw };
  if (extra && extra.styled) out.layer.sel.each(style(p.core, p.w.d3, extra.styled));
  if (out.layer) return { text: p.layerText(out.layer).replace(/class=L\d+/, "class=L"), parts: p.childTexts(out.layer) };
  return { text: canon(out.value) };
}
function independence(plan, bundle) {
  const stats = {}, p = new Page(plan, bundle, stats), log = [];
  const refs = new Map();
  const ref = (op, R, extra) => {
    const k = JSON.stringify([calm(op), R, extra || null]);
    if (!refs.has(k)) { refs.set(k, reference(plan, bundle, op, R, extra)); stats.references = (stats.references || 0) + 1; }
    return refs.get(k);
  };
  const judge = (what, got, op, R, extra) => {
    stats.comparisons = (stats.comparisons || 0) + 1;
    const want = ref(op, R, extra);
    if (want.threw !== undefined) throw new Violation("drawing differs", what + " succeeded, alone on a fresh page it fails with " + want.threw);
    if (want.text !== got) throw new Violation("drawing differs", what + " differs from the same call alone on a fresh page: " + firstDiff(got, want.text));
  };
  const layer = (l, what) => judge(what, p.layerText(l).replace(/class=L\d+/, "class=L"), l.op, p.net(l.net).to, { styled: l.styled });
  const combinedOps = [];
  plan.ops.forEach((op, i) => {
    const name = "operation " + i + " (" + op.k + (op.fn ? "." + op.fn : "") + ")";
    const before = p.layers.length;
    const out = p.do(op);
    log.push(name + (out.threw ? "!" + out.threw : ""));
    if (out.threw) {
      const f = op.fault && op.fault.kind;
      if (out.threw === "INJECTED" || f === "badcolor") return;
      if (op.k === "again") throw new Violation("exception", name + " failed: " + out.threw);
      const want = ref(op, op.net != null ? p.net(op.net).to : null);
      if (want.threw !== out.threw) throw new Violation("exception", name + " failed with " + out.threw + ", alone on a fresh page it does not");
      return;
    }
    if (op.fault && op.fault.kind === "badcolor") { if (out.layer) p.layers = p.layers.filter((l) => l !== out.layer); return; }
    if (op.k === "opacity") { if (out.layer) layer(out.layer, name); }
    else if (out.layer) {
      layer(out.layer, name);
      if (op.recs.length > 1) {                  // each record as if drawn by a call of its own
        const R = p.net(op.net).to;
        const got = p.childTexts(out.layer), parts = op.recs.map((k) => ref({ ...op, recs: [k] }, R).parts);
        if (parts.every((x) => x && x.length === 1) && got.length === parts.length) parts.forEach((x, k) => {
          stats.comparisons = (stats.comparisons || 0) + 1;
          if (got[k] !== x[0]) throw new Violation("drawing differs", name + ": record " + k + " of the call differs from the same record drawn alone: " + firstDiff(got[k], x[0]));
        });
      }
    } else if (op.k === "again") {
      if (!("value" in out)) return;
      const src = combinedOps[op.res];
      const q = new Page(plan, bundle);
      q.do(src);
      const alone = q.do({ ...op, res: 0 });
      stats.comparisons = (stats.comparisons || 0) + 1;
      if (canon(alone.value) !== canon(out.value)) throw new Violation("drawing differs", name + " differs from the same call alone on a fresh page: " + firstDiff(canon(out.value), canon(alone.value)));
    } else if ("value" in out) judge(name, canon(out.value), op, op.net != null ? p.net(op.net).to : null);
    if (out.combined) combinedOps.push(op);
    void before;
  });
  for (const i of p.nets.keys()) { const op = { k: "grid", net: i }; judge("the graticule of net " + i + " at the end", canon(p.do(op).value), op, p.net(i).to); }
  for (const l of p.layers) if (l.ok) layer(l, "the drawing of " + l.op.k + " in " + l.cls + " at the end");
  stats.ops = plan.ops.length;
  stats.events = p.w.events;
  return { stats, log, key: plan.ops.map((o) => o.k + (o.fn || "") + (o.fault ? o.fault.kind : "") + (o.net ?? "")).join() };
}

function* shrink(plan) {
  for (const ops of drops(plan.ops, 1)) yield { ...plan, ops };
  for (let i = 0; i < plan.ops.length; i++) {
    const o = plan.ops[i];
    if (o.fault) yield { ...plan, ops: plan.ops.map((x, j) => (j === i ? bare(x) : x)) };
    if (o.recs && o.recs.length > 1) for (const recs of drops(o.recs, 1)) yield { ...plan, ops: plan.ops.map((x, j) => (j === i ? { ...x, recs } : x)) };
    if (o.opt) yield { ...plan, ops: plan.ops.map((x, j) => (j === i ? { ...x, opt: null } : x)) };
  }
  for (let i = 0; i < plan.opts.length; i++) for (const k of Object.keys(plan.opts[i])) { const o = { ...plan.opts[i] }; delete o[k]; yield { ...plan, opts: plan.opts.map((x, j) => (j === i ? o : x)) }; }
  for (let i = 0; i < plan.nets.length; i++) for (const k of ["clip", "center", "grat"]) if (plan.nets[i][k] != null) yield { ...plan, nets: plan.nets.map((x, j) => (j === i ? { ...x, [k]: null } : x)) };
}
module.exports = { C28: { bundle: "core", gen, run: purity, shrink }, C29: { bundle: "core", gen, run: independence, shrink } };
