"use strict";
/* The React plots (C31): whatever props, switches, hovers and rotations came before, the page shows what a fresh mount with the
   present props shows. Updates arrive one by one or batched; callbacks may fail; components come and go. */
const { World } = require("./world");
const { hash, round, canon, drops, Violation, firstDiff } = require("./lib");
const { record } = require("./records");
const { labelTexts, angleDiff } = require("./rotation");

const KINDS = ["plain", "plain", "plain", "switched", "switched", "clipped", "rectangular"];
function gen(r, depth = 1) {
  const nr = r.i(2, 5);
  const recs = Array.from({ length: nr }, (_, i) => { const d = record(r, i, r.pick(["axes", "axes", "cov", "angles"])); d.color ??= "teal"; if (r.p(0.2)) d.member_of = "r0"; if (r.p(0.15)) d.members = ["r1"]; return d; });
  const nc = r.i(1, 2), plan = { recs, mode: r.pick(["sync", "batched"]), comps: [], ops: [] };
  const subset = (lo) => { const out = []; for (let i = 0; i < nr; i++) if (r.p(0.6)) out.push(i); while (out.length < lo) out.push(out.length); return out; };
  const vals = {
    plain: { data: () => subset(0), hovered: () => (r.p(0.25) ? (r.p(0.5) ? [] : null) : subset(1).slice(0, 2)), drawPlanes: () => r.p(0.5), drawPoles: () => r.p(0.5), center: () => [round(r.u(-180, 180), 1), round(r.u(-90, 90), 1)], onHover: () => r.pick(["a", "b", "fail", null]), onRotate: () => r.pick(["a", "b", "fail"]) },
    switched: { data: () => subset(0), hovered: () => (r.p(0.25) ? (r.p(0.5) ? [] : null) : subset(1).slice(0, 2)), onHover: () => r.pick(["a", "b", null]), onRotate: () => r.pick(["a", "b"]) },
    clipped: { data: () => subset(0), clipAngle: () => r.pick([10, 15, 40, 60]) },
    rectangular: { data: () => subset(0) },
  };
  for (let i = 0; i < nc; i++) {
    const kind = r.pick(KINDS), props = { data: subset(1) };
    for (const k in vals[kind]) if (k !== "data" && r.p(0.5)) props[k] = vals[kind][k]();
    if ((kind === "plain" || kind === "switched") && r.p(0.9)) props.precision = r.pick([1, 3]);
    plan.comps.push({ kind, props });
  }
  const n = r.i(2, 8 * depth);
  for (let i = 0; i < n; i++) {
    const c = r.i(0, nc - 1), kind = plan.comps[c].kind, v = vals[kind];
    const k = r.pick(["props", "props", "props", "props", "hover", "hover", "drag", "again", "switch", "switch", "edit", "edit", "remount", "flush", "vertical"]);
    const op = { k, c };
    if (k === "props") { op.set = {}; for (const p of r.some(Object.keys(v), 1, 3)) op.set[p] = v[p](); op.batch = r.p(0.3); }
    else if (k === "hover") op.which = r.i(0, 5);
    else if (k === "drag") { op.d = [r.i(-120, 120), r.i(-120, 120)]; op.steps = r.i(1, 3); }
    else if (k === "edit") { op.rec = r.i(0, nr - 1); op.to = record(r, op.rec, r.pick(["axes", "cov", "angles"])); op.to.color ??= "teal"; for (const q of ["member_of", "members"]) if (recs[op.rec][q]) op.to[q] = recs[op.rec][q]; if (r.p(0.4)) op.to = { ...recs[op.rec], color: op.to.color }; }
    else if (k === "switch") op.label = r.pick(["Planes", "Poles"]);
    plan.ops.push(op);
  }
  return plan;
}

// a world in which every projection that is made is known
function page(plan, bundle) {
  const w = new World({ mode: plan.mode });
  w.projections = [];
  const d3 = w.d3, mk = d3.geoAzimuthalEqualArea;
  if (mk) d3.geoAzimuthalEqualArea = function () { const p = mk.apply(this, arguments); w.projections.push(p); return p; };
  const M = w.load(bundle);
  const T = { plain: M.stereonet.StereonetComponent, switched: M.stereonet.InteractiveStereonetComponent, clipped: M.plots.VerticalClippedStereonet, rectangular: M.plots.RectangularStereonet };
  return { w, T, recs: JSON.parse(JSON.stringify(plan.recs)) };
}
function realise(P, props, callbacks) {
  const out = {};
  for (const k in props) {
    const v = props[k];
    if (k === "data") out.data = v.map((i) => P.recs[i]);
    else if (k === "hovered") out.hovered = v == null ? v : v.map((i) => P.recs[i]);
    else if (k === "onHover" || k === "onRotate") { if (v != null) out[k] = callbacks(k, v); }
    else out[k] = Array.isArray(v) ? v.slice() : v;
  }
  return out;
}
// the drawing apart from its rotation: structure, attributes, styles, the geometry bound to each path
const IDS = () => { const m = new Map(); return (s) => String(s).replace(/uid-\d+-x/g, (x) => { if (!m.has(x)) m.set(x, m.size); return "uid" + m.get(x); }); };
function shape(root) {
  const norm = IDS();
  const walk = (n, inLabel) => {
    if (n.nodeType === 3) return JSON.stringify(n.data);
    const cls = n.getAttribute("class") || "";
    const lab = inLabel || /\blabels\b/.test(cls);
    const at = n.attributes.filter((a) => !(a.name === "d" || (lab && (a.name === "transform" || a.name === "text-anchor")))).sort((a, b) => (a.name < b.name ? -1 : 1));
    const st = [...n.style._m].filter(([k]) => !(lab && k === "display")).sort();
    let kids = n.childNodes.map((c) => walk(c, lab));
    if (/\bdata\b/.test(cls)) {                  // layers: their stacking order is free, except that the highlight is on top
      const top = n.childNodes.length && /\bhovered\b/.test(n.childNodes[n.childNodes.length - 1].getAttribute("class") || "");
      kids = [...kids].sort();
      if (n.childNodes.some((c) => /\bhovered\b/.test(c.getAttribute("class") || ""))) kids.push("top:" + top);
    }
    return "<" + n.localName + at.map((a) => " " + a.name + "=" + norm(a.name === "class" ? a.value.split(/\s+/).filter(Boolean).sort().join(" ") : a.value)).join("") + (st.length ? " style{" + st.map(([k, v]) => k + ":" + v).join(";") + "}" : "") +
      (n.localName === "path" ? " geometry=" + canonGeo(n.__data__) : "") + ">" + kids.join("") + "</>";
  };
  return walk(root, false);
}
const geo = new WeakMap();
function canonGeo(d) {
  if (d == null || typeof d !== "object") return String(d);
  if (!geo.has(d)) geo.set(d, hash(canon(d)));
  return geo.get(d);
}

function run(plan, bundle) {
  const P = page(plan, bundle), { w, T } = P, d3 = w.d3, h = w.h, stats = {}, log = [];
  const bump = (k, n = 1) => (stats[k] = (stats[k] || 0) + n);
  const calls = [], now = plan.recs.slice(), version = now.map(() => 0);       // records as they are at present
  const comps = plan.comps.map((c, i) => ({ ...c, i, props: { ...c.props }, host: w.document.body.appendChild(w.document.createElement("div")), on: null, cbs: {} }));
  const callbacks = (c) => (k, v) => {
    const key = k + v;
    if (!c.cbs[key]) c.cbs[key] = (x) => { calls.push([c.i, k, v, x]); if (v === "fail") { bump("fault:callback fails"); throw new Error("INJECTED"); } };
    return c.cbs[key];
  };
  const renderNow = (c) => {
    const n0 = w.projections.length;
    w.R.ReactDOM.render(w.R.React.createElement(T[c.kind], realised(c)), c.host);
    if (w.projections.length > n0) c.proj = w.projections[w.projections.length - 1];
  };
  // props that did not change keep their identity, as React users do with state
  const realised = (c) => {
    const fresh = realise(P, c.props, callbacks(c)), out = {};
    c.kept ??= {};
    for (const k in fresh) { const key = JSON.stringify([c.props[k], k === "data" || k === "hovered" ? (c.props[k] || []).map((i) => version[i]) : 0]); if (!c.kept[k] || c.kept[k].key !== key) c.kept[k] = { key, v: fresh[k] }; out[k] = c.kept[k].v; }
    return out;
  };
  const mount = (c) => {
    c.switches = c.kind === "switched" ? { Planes: false, Poles: true } : null;
    c.want = c.kind === "plain" ? (c.props.center || [0, 0]) : c.kind === "switched" ? [0, 0] : null;
    renderNow(c);
    settle(c);
    c.centerKey = JSON.stringify(c.props.center);
  };
  const settle = (c) => { const n0 = w.projections.length; w.flush(); w.advance(0); if (c && w.projections.length > n0) c.proj = w.projections[w.projections.length - 1]; };
  // the reference page: a fresh mount with the present props, on a page of its own
  const reference = (c) => {
    const Q = page({ ...plan, recs: now }, bundle), d = Q.w.document;
    const host = d.body.appendChild(d.createElement("div"));
    const props = realise(Q, c.props, () => () => {});
    Q.w.R.ReactDOM.render(Q.w.R.React.createElement(Q.T[c.kind], props), host);
    Q.w.flush();
    if (c.switches) for (const s of host.querySelectorAll("label.switch")) {
      const l = s.getAttribute("data-label");
      if (l in c.switches && String(c.switches[l]) !== s.getAttribute("data-checked")) { Q.w.fire(s, "change"); Q.w.flush(); }
    }
    bump("references");
    return { host, proj: Q.w.projections[Q.w.projections.length - 1], w: Q.w };
  };
  const cache = new Map();
  const check = (c, what) => {
    const key = JSON.stringify([c.kind, c.props, c.switches]);
    if (!cache.has(key)) cache.set(key, reference(c));
    const ref = cache.get(key), name = what + ": plot " + c.i + " (" + c.kind + ")";
    bump("comparisons", 2);
    const a = shape(c.host), b = (ref.shape ??= shape(ref.host));
    if (a !== b) throw new Violation("drawing", name + " differs from a fresh mount with the same props: " + firstDiff(a, b));
    const svg = c.host.querySelectorAll("svg")[0], rsvg = ref.host.querySelectorAll("svg")[0];
    const path = d3.geoPath().projection(c.proj).pointRadius(2);
    if (c.kind === "plain" || c.kind === "switched") for (const e of svg.querySelectorAll("path")) {
      const g = e.__data__;
      if (g && g.geometry && g.geometry.type === "Point") continue;
      if ((e.getAttribute("d") || "") !== (path(g) || "")) throw new Violation("picture", name + ": the drawing does not match the projection (" + (e.getAttribute("class") || "outline") + ")");
    } else {
      const da = svg.querySelectorAll("path").map((e) => e.getAttribute("d")), db = rsvg.querySelectorAll("path").map((e) => e.getAttribute("d"));
      if (da.join("|") !== db.join("|")) throw new Violation("picture", name + ": the drawing is not the one a fresh mount makes");
    }
    if (c.want) {
      const on = c.switches ? c.switches : { Planes: c.props.drawPlanes ?? true, Poles: c.props.drawPoles ?? false };
      const uids = (sel) => svg.querySelectorAll(sel).map((e) => (e.__data__ || {}).uid).join();
      const all = c.props.data.map((k) => P.recs[k].uid).join(), hov = (c.props.hovered || []).map((k) => P.recs[k].uid).join();
      for (const [sel, want] of [["g.planes > g.plane", on.Planes ? all : ""], ["g.poles > g.normal", on.Poles ? all : ""], ["g.hovered > g.plane", on.Planes ? hov : ""], ["g.hovered > g.normal", on.Poles ? hov : ""]])
        if (uids(sel) !== want) throw new Violation("records shown", name + ": " + sel + " shows " + uids(sel) + " instead of " + want);
      for (const e of svg.querySelectorAll("g.data path")) if (!(e.__data__ && typeof e.__data__.type === "string")) throw new Violation("geometry lost", name + ": a drawn path (" + e.getAttribute("class") + ") has lost its geometry");
      const rep = c.proj.rotate();
      if (Math.abs(rep[1] - c.want[1]) > 1e-6 || angleDiff(rep[0], c.want[0]) > 1e-6) throw new Violation("rotation", name + " is at rotation " + rep + " instead of " + c.want);
      // labels: as on the reference brought to the same rotation
      const size = 400, node = rsvg;
      const q = c.proj.rotate();
      if (c.stale) return;
      rotateRef(ref, q);
      const la = labelTexts(svg, c.proj, size, d3), lb = labelTexts(node, ref.proj, size, d3);
      bump("comparisons");
      if (la.length !== lb.length) throw new Violation("labels", name + " has " + la.length + " labels instead of " + lb.length);
      la.forEach((x, j) => {
        const y = lb[j];
        if (x.vague || y.vague || (x.display === "none" && y.display === "none")) return;
        if (x.name !== y.name || x.display !== y.display || x.anchor !== y.anchor || x.nums.some((v, i) => Math.abs(v - y.nums[i]) > 1e-4)) throw new Violation("labels", name + ": label " + x.name + " (" + [x.display, x.anchor, x.nums] + ") is not where it belongs at this rotation (" + [y.display, y.anchor, y.nums] + ")");
      });
    }
  };
  // bring a reference plot to a rotation by dragging it there (two axes, 3 px per degree)
  const rotateRef = (ref, to) => {
    const now = ref.proj.rotate();
    let d = [to[0] - now[0], to[1] - now[1]];
    d[0] = ((d[0] % 360) + 540) % 360 - 180;
    if (Math.abs(d[0]) < 1e-9 && Math.abs(d[1]) < 1e-9) return;
    const svg = ref.host.querySelectorAll("svg")[0], ev = (t, type, x, y) => ref.w.fire(t, type, { pageX: x, pageY: y, clientX: x, clientY: y });
    ev(svg, "mousedown", 1000, 1000);
    ev(ref.w.document.body, "mousemove", 1000 + d[0] * 3, 1000 - d[1] * 3);
    ev(ref.w.document.body, "mouseup", 1000 + d[0] * 3, 1000 - d[1] * 3);
    ref.w.flush();
  };
  const errors = (what) => {
    for (const e of w.window.errors.splice(0)) if (!String(e && e.message).includes("INJECTED")) throw new Violation("exception", what + " failed: " + ((e && e.message) || e));
  };
  comps.forEach(mount);
  errors("mounting");
  comps.forEach((c) => check(c, "mounting"));
  plan.ops.forEach((op, i) => {
    const c = comps[op.c], what = "operation " + i + " (" + op.k + ")", svg = () => c.host.querySelectorAll("svg")[0];
    calls.length = 0;
    w.events++;
    try {
      if (op.k === "props") {
        const go = () => {
          const set = { ...op.set };
          if ((("onRotate" in set ? set.onRotate : c.props.onRotate) === "fail") && c.kind === "plain") delete set.center;     // a callback failing while React updates takes the plot down
          Object.assign(c.props, set);
          renderNow(c);
        };
        if (op.batch) { bump("fault:updates batched"); w.batched(go); } else go();
        if (c.kind === "plain") { const key = JSON.stringify(c.props.center); if (key !== c.centerKey) { c.want = c.props.center || [0, 0]; c.centerKey = key; c.stale = false; } }
      } else if (op.k === "edit") {
        P.recs[op.rec] = JSON.parse(JSON.stringify(op.to));
        now[op.rec] = op.to;
        version[op.rec]++;
        cache.clear();
        for (const x of comps) { w.batched(() => renderNow(x)); settle(x); }
      } else if (op.k === "again") renderNow(c);
      else if (op.k === "remount") { w.R.ReactDOM.unmountComponentAtNode(c.host); c.host.innerHTML = ""; c.stale = false; bump("fault:unmounted"); mount(c); }
      else if (op.k === "switch" && c.switches) { const s = c.host.querySelectorAll("label.switch").find((e) => e.getAttribute("data-label") === op.label); w.fire(s, "change"); c.switches[op.label] = !c.switches[op.label]; }
      else if (op.k === "vertical" && c.switches) { const b = c.host.querySelectorAll("button")[0]; w.fire(b, "click"); c.want = [0, -90]; c.stale = false; }
      else if (op.k === "drag" && c.want) {
        const o = c.proj.rotate();
        const ev = (t, type, x, y) => w.fire(t, type, { pageX: x, pageY: y, clientX: x, clientY: y });
        ev(svg(), "mousedown", 200, 200);
        for (let s = 1; s <= op.steps; s++) ev(w.document.body, "mousemove", 200 + (op.d[0] * s) / op.steps, 200 + (op.d[1] * s) / op.steps);
        ev(w.document.body, "mouseup", 200 + op.d[0], 200 + op.d[1]);
        c.want = [o[0] + op.d[0] / 3, Math.max(-90, Math.min(90, o[1] - op.d[1] / 3))];
        c.stale = c.props.onRotate === "fail";
        const rot = c.props.onRotate;
        if (rot != null) {
          const got = calls.filter((q) => q[0] === c.i && q[1] === "onRotate" && q[2] === rot);
          if (!got.length) throw new Violation("callback", what + ": plot " + c.i + " was rotated and onRotate not called");
          const at = got[got.length - 1][3], want = c.want;
          if (Math.abs(at[1] + want[1]) > 1e-3 || (Math.abs(want[1]) < 89 && angleDiff(at[0], -want[0]) > 1e-3)) throw new Violation("callback", what + ": onRotate was told " + at + " at rotation " + want);
        }
        if (calls.some((q) => q[1] === "onRotate" && (q[0] !== c.i || q[2] !== rot))) throw new Violation("callback", what + ": an outdated or foreign onRotate was called");
      } else if (op.k === "hover" && c.want) {
        const g = svg().querySelectorAll("g.planes g.plane, g.poles g.normal"), e = g[op.which];
        const p = e && e.querySelectorAll("path.error")[0];
        if (p) {
          w.fire(p, "mouseenter");
          const cb = c.props.onHover, got = calls.filter((q) => q[1] === "onHover");
          if (cb == null ? got.length : !(got.length === 1 && got[0][0] === c.i && got[0][2] === cb && got[0][3] === e.__data__)) throw new Violation("callback", what + ": hovering over " + (e.__data__ || {}).uid + " called " + canon(got.map((q) => [q[0], q[1], q[2], (q[3] || {}).uid])) + " with onHover " + cb);
          if (!c.props.data.some((k) => P.recs[k] === e.__data__)) throw new Violation("callback", what + ": the shape hovered over belongs to no record shown");
        }
      } else if (op.k === "flush") settle(c);
    } catch (e) { if (e instanceof Violation) throw e; if (!String(e && e.message).includes("INJECTED")) throw new Violation("exception", what + " failed: " + ((e && e.message) || e)); c.stale = true; }
    settle(c);
    errors(what);
    log.push(op.k + hash(shape(c.host)));
    comps.forEach((x) => check(x, what));
  });
  bump("ops", plan.ops.length);
  bump("events", w.events);
  return { stats, log, key: JSON.stringify([plan.mode, plan.comps.map((c) => c.kind), plan.ops.map((o) => [o.k, o.c, o.set && Object.keys(o.set)])]) };
}
function* shrink(plan) {
  for (const ops of drops(plan.ops, 0)) yield { ...plan, ops };
  for (let i = 0; i < plan.ops.length; i++) {
    const o = plan.ops[i];
    if (o.set && Object.keys(o.set).length > 1) for (const k of Object.keys(o.set)) { const s = { ...o.set }; delete s[k]; yield { ...plan, ops: plan.ops.map((x, j) => (j === i ? { ...x, set: s } : x)) }; }
  }
  for (let i = 0; i < plan.comps.length; i++) for (const k of Object.keys(plan.comps[i].props)) if (k !== "data") { const p = { ...plan.comps[i].props }; delete p[k]; yield { ...plan, comps: plan.comps.map((x, j) => (j === i ? { ...x, props: p } : x)) }; }
  if (plan.comps.length > 1) for (let i = 0; i < plan.comps.length; i++) yield { ...plan, comps: plan.comps.filter((_, j) => j !== i), ops: plan.ops.filter((o) => o.c !== i).map((o) => ({ ...o, c: o.c > i ? o.c - 1 : o.c })) };
}
module.exports = { C31: { bundle: "components", gen, run, shrink } };
