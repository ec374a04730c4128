"use strict";
/* The notebook's side panel (C33): list, selection, hover, groups, zoom and the plot beside it, driven by a seeded user and a host that re-renders. */
const { World } = require("./world");
const { hash, round, drops, Violation, canon } = require("./lib");
const { axes, lengths, COLORS } = require("./records");

function gen(r, depth = 1) {
  const n = r.i(2, 5), recs = [];
  for (let i = 0; i < n; i++) {
    const max = round(r.p(0.1) ? 0.005 : r.u(0.5, 30), 3);
    recs.push({ uid: "m" + i, axes: axes(r), hyperbolic_axes: lengths(r), color: r.pick(COLORS), strike: round(r.u(0, 360), 2), dip: round(r.u(0, 90), 2), max_angular_error: max, min_angular_error: round(max / r.u(1, 8), 4) });
  }
  const ng = r.i(0, 2);
  for (let g = 0; g < ng; g++) {
    const members = recs.filter((d) => !d.members && d.member_of == null && r.p(0.5)).map((d) => d.uid);
    if (!members.length) continue;
    for (const d of recs) if (members.includes(d.uid)) d.member_of = "g" + g;
    if (r.p(0.25)) members.push("gone" + g);
    recs.push({ uid: "g" + g, axes: axes(r), hyperbolic_axes: lengths(r), color: r.pick(COLORS), strike: round(r.u(0, 360), 2), dip: round(r.u(0, 90), 2), max_angular_error: 4.25, min_angular_error: 1.125, members });
  }
  if (r.p(0.15)) recs[0].member_of = "not shown";
  if (r.p(0.06)) recs.length = 0;
  const plan = { recs, mode: r.pick(["sync", "batched"]), groups: r.p(0.85), ops: [] };
  const k = r.i(3, 12 * depth), N = recs.length;
  const some = ["click", "clicks", "over", "shape", "data"];
  for (let i = 0; i < k; i++) {
    const op = { k: r.pick(["click", "click", "click", "clicks", "over", "over", "leave", "groups", "zoom", "zoom", "clear", "copy", "shape", "shape", "switch", "drag", "again", "data", "tab"]) };
    if (!N && some.includes(op.k)) op.k = "zoom";
    if (op.k === "click" || op.k === "over" || op.k === "shape") op.i = r.i(0, N - 1);
    if (op.k === "clicks") op.is = r.some([...Array(N).keys()], 2, 3);
    if (op.k === "switch") op.label = r.pick(["Planes", "Poles"]);
    if (op.k === "drag") op.d = [r.i(-90, 90), r.i(-90, 90)];
    if (op.k === "data") { op.keep = recs.map(() => r.p(0.8)); if (!op.keep.some((x) => x)) op.keep[0] = true; }
    plan.ops.push(op);
  }
  return plan;
}

function run(plan, bundle) {
  const w = new World({ mode: plan.mode }), M = w.load(bundle), R = w.R.React, stats = {}, log = [];
  const bump = (k, n = 1) => (stats[k] = (stats[k] || 0) + n);
  const host = w.el("div");
  let shown = JSON.parse(JSON.stringify(plan.recs));
  const st = { sel: [], hov: null, groups: true, zoom: false, planes: false, poles: true, rot: [0, 0] };
  const render = () => { w.R.ReactDOM.render(R.createElement(M.AttitudeUI, { attitudes: shown, stereonetPrecision: 2, allowGroupSelection: plan.groups }), host); w.flush(); };
  const find = (u) => shown.find((d) => d.uid === u);
  const hover = (d) => {
    if (d.member_of != null && find(d.member_of)) d = find(d.member_of);
    st.hov = d.members ? [d.uid, ...d.members.filter((u) => find(u))] : [d.uid];
  };
  const toggle = (d) => {
    if (d.members && !plan.groups) return;
    st.sel = st.sel.includes(d.uid) ? st.sel.filter((u) => u !== d.uid) : [...st.sel, d.uid];
  };
  const items = () => host.querySelectorAll("div.selection-list li");
  const item = (i) => items().find((e) => e.textContent === plan.recs[i].uid);
  const button = (re) => host.querySelectorAll("div.selection-list button").find((b) => re.test(b.textContent));
  const fmt = w.d3.format("3.1f");
  const check = (what) => {
    bump("comparisons", 5);
    const bad = (cls, m) => { throw new Violation(cls, what + ": " + m); };
    const want = shown.filter((d) => st.groups || !d.members).map((d) => d.uid);
    const got = items().map((e) => e.textContent);
    if (got.join() !== want.join()) bad("list", "the list shows " + got + " instead of " + want);
    for (const e of items()) {
      const c = (e.getAttribute("class") || "").split(/\s+/), u = e.textContent;
      if (c.includes("selected") !== st.sel.includes(u)) bad("selection", u + " is " + (c.includes("selected") ? "" : "not ") + "marked as selected; selected are " + st.sel);
      if (c.includes("hovered") !== !!(st.hov && st.hov.includes(u))) bad("hover", u + " is " + (c.includes("hovered") ? "" : "not ") + "marked as hovered; hovered are " + st.hov);
    }
    const uids = (sel) => host.querySelectorAll("svg " + sel).map((e) => (e.__data__ || {}).uid).join();
    const data = (st.zoom ? st.sel : shown.map((d) => d.uid)).join(), hov = (st.hov || []).join();
    for (const [sel, exp] of [["g.planes > g.plane", st.planes ? data : ""], ["g.poles > g.normal", st.poles ? data : ""], ["g.hovered > g.plane", st.planes ? hov : ""], ["g.hovered > g.normal", st.poles ? hov : ""]])
      if (uids(sel) !== exp) bad("plot", sel + " shows " + uids(sel) + " instead of " + exp);
    const zb = button(/^Show (all data|only selection)$/);
    if (!zb || (zb.textContent === "Show all data") !== st.zoom) bad("zoom", "the zoom button reads " + (zb && zb.textContent));
    const text = host.querySelectorAll("div.plane-desc")[0].textContent;
    if (!st.hov) { if (!/Roll over/.test(text)) bad("panel", "with nothing hovered over the panel shows " + text); }
    else {
      const id = host.querySelectorAll("div.plane-desc span.id")[0], d = hovRec;
      if (!id || id.textContent !== st.hov[0]) bad("panel", "the panel describes " + (id && id.textContent) + " instead of " + st.hov[0]);
      const spans = host.querySelectorAll("div.plane-desc li span.data").map((e) => e.textContent.trim()), small = d.min_angular_error < 0.01 && d.max_angular_error < 0.01;
      const exp = [d.strike, d.dip, ...(small ? [] : [d.min_angular_error, d.max_angular_error])].map((v) => fmt(v).trim());
      if (spans.join() !== exp.join()) bad("panel", "the panel shows " + spans + " instead of " + exp);
      const m = /Group of (\d+)/.exec(text);
      if ((m ? +m[1] : 0) !== (d.members || []).length) bad("panel", "the panel speaks of " + (m ? m[0] : "no group"));
    }
    for (const e of w.window.errors.splice(0)) bad("exception", String((e && e.message) || e));
  };
  let hovRec = null;
  const doHover = (d) => { hover(d); hovRec = find(st.hov[0]) || d; };
  try { render(); } catch (e) { throw new Violation("exception", "mounting failed: " + ((e && e.message) || e)); }
  check("mounting");
  plan.ops.forEach((op, i) => {
    const what = "operation " + i + " (" + op.k + ")";
    w.events++;
    try {
      switch (op.k) {
        case "click": case "clicks": {
          const go = (k) => { const e = item(k); if (!e) return; w.fire(e, "click"); toggle(find(plan.recs[k].uid)); };
          if (op.k === "click") go(op.i); else { bump("fault:events before the next render"); w.batched(() => op.is.forEach(go)); }
          break;
        }
        case "over": { const e = item(op.i); if (e) { w.fire(e, "mouseover"); doHover(find(plan.recs[op.i].uid)); } break; }
        case "leave": w.fire(host.querySelectorAll("div.attitude-area")[0], "mouseleave"); st.hov = null; break;
        case "groups": w.fire(host.querySelectorAll("div.selection-list label.switch")[0], "change"); st.groups = !st.groups; break;
        case "zoom": { const b = button(/^Show (all data|only selection)$/); if (!st.sel.length && shown.length) { w.fire(b, "click"); break; } w.fire(b, "click"); st.zoom = !st.zoom; break; }
        case "clear": { w.fire(button(/^Clear selection$/), "click"); st.sel = []; break; }
        case "copy": {
          w.clipboard = null;
          w.fire(host.querySelectorAll("span.copy-to-clipboard button")[0], "click");
          if (w.clipboard !== "[" + st.sel.map((u) => '"' + u + '"').join(",") + "]") throw new Violation("clipboard", what + ": copied " + w.clipboard + " with " + st.sel + " selected");
          break;
        }
        case "shape": {
          const g = host.querySelectorAll("svg g.poles > g.normal, svg g.planes > g.plane").find((e) => e.__data__ && e.__data__.uid === plan.recs[op.i].uid);
          const p = g && g.querySelectorAll("path.error")[0];
          if (p) { w.fire(p, "mouseenter"); doHover(g.__data__); }
          break;
        }
        case "switch": { const s = host.querySelectorAll("div.stereonet-outer label.switch").find((e) => e.getAttribute("data-label") === op.label); w.fire(s, "change"); if (op.label === "Planes") st.planes = !st.planes; else st.poles = !st.poles; break; }
        case "drag": {
          const svg = host.querySelectorAll("svg")[0], ev = (t, type, x, y) => w.fire(t, type, { pageX: x, pageY: y, clientX: x, clientY: y });
          ev(svg, "mousedown", 300, 300);
          ev(w.document.body, "mousemove", 300 + op.d[0], 300 + op.d[1]);
          ev(w.document.body, "mouseup", 300 + op.d[0], 300 + op.d[1]);
          break;
        }
        case "again": render(); break;
        case "data": {            // the host delivers its data again, with new objects, perhaps fewer of them
          bump("fault:data delivered again");
          const all = op.keep.every((x) => x);
          shown = JSON.parse(JSON.stringify(plan.recs.filter((d, k) => op.keep[k] || st.sel.includes(d.uid) || (st.hov && st.hov.includes(d.uid)))));
          void all;
          render();
          break;
        }
        case "tab": { const li = host.querySelectorAll("li.tab").slice(-1)[0]; w.fire(li, "click"); break; }
      }
      w.flush();
    } catch (e) { if (e instanceof Violation) throw e; throw new Violation("exception", what + " failed: " + ((e && e.message) || e)); }
    log.push(op.k + hash(canon(st)));
    check(what);
  });
  bump("ops", plan.ops.length);
  bump("events", w.events);
  return { stats, log, key: JSON.stringify([plan.mode, plan.recs.map((d) => [d.member_of, d.members]), plan.ops.map((o) => [o.k, o.i, o.is])]) };
}
function* shrink(plan) {
  for (const ops of drops(plan.ops, 0)) yield { ...plan, ops };
  for (let i = 0; i < plan.ops.length; i++) if (plan.ops[i].is && plan.ops[i].is.length > 1) for (const is of drops(plan.ops[i].is, 1)) yield { ...plan, ops: plan.ops.map((o, j) => (j === i ? { ...o, is } : o)) };
}
module.exports = { C33: { bundle: "notebook", gen, run, shrink } };
