"use strict";
/* The web app (C32): a spreadsheet of orientations, saved in the browser, plotted as it is edited. One or two tabs share the storage. */
const { World, Store, pure } = require("./world");
const { hash, round, drops, Violation, canon } = require("./lib");

const KEY = "orientation-data", NF = 6, COLS = ["strike", "dip", "rake", "maxError", "minError", "color"];
const COLORS = ["red", "#65499e", "dodgerblue", "teal", "rgb(10,20,30)"];
const num = (r, c) => (r.p(0.05) ? 0 : r.p(0.04) ? r.pick([-35, -0.5, 400, 7200, 1e-3, -180, -450, 1e-7, 123456]) : c === 0 ? round(r.u(0, 360), 1) : c === 1 ? round(r.u(1, 89), 1) : c === 2 ? round(r.u(0, 180), 1) : round(r.u(0.5, 40), 1));
function value(r, c) {
  if (r.p(0.12)) return r.pick(["", null, "abc"]);
  if (c === 5) return r.p(0.8) ? r.pick(COLORS) : r.pick(["no such colour", "#12"]);
  const v = num(r, c);
  return r.p(0.6) ? String(v) : r.p(0.5) ? v : r.p(0.5) ? v + " " : v + "m";
}
function row(r) { return COLS.map((_, c) => ({ value: r.p(0.9) ? (c === 5 ? r.pick(COLORS) : num(r, c)) : null })); }
function gen(r, depth = 1) {
  const plan = { tabs: r.p(0.3) ? 2 : 1, mode: r.pick(["sync", "batched"]), start: null, ops: [] };
  if (r.p(0.4)) plan.start = r.p(0.75) ? JSON.stringify((() => { const l = Array.from({ length: r.i(1, 4) }, () => row(r)); if (r.p(0.25)) l.splice(r.i(0, l.length), 0, JSON.parse(JSON.stringify(r.pick(l)))); return l; })()) : r.pick(["", "{", "null", "[[{\"value\":1", "undefined"]);
  const n = r.i(3, 12 * depth), rows = () => (r.p(0.7) ? r.i(0, 3) : r.p(0.6) ? r.i(0, 9) : r.i(0, 25));
  for (let i = 0; i < n; i++) {
    const k = r.pick(["edit", "edit", "edit", "paste", "paste", "row", "row", "add", "reset", "reload", "tab", "clip", "full", "reopen", "flush"]);
    const op = { k, t: r.i(0, plan.tabs - 1) };
    if (k === "edit") { const c = r.i(0, NF - 1); op.cells = [[rows(), c, value(r, c)]]; }
    if (k === "row") {
      const q = rows(), old = plan.ops.filter((o) => o.k === "row");
      op.cells = old.length && r.p(0.35) ? r.pick(old).cells.map(([, c, v]) => [q, c, v]) : COLS.map((_, c) => [q, c, c === 5 ? r.pick(COLORS) : String(num(r, c))]);      // the same measurement once more
    }
    if (k === "paste") { const q = rows(), c0 = r.i(0, NF - 2), w = r.i(1, NF - c0), h = r.i(1, 3); op.cells = []; for (let a = 0; a < h; a++) for (let b = 0; b < w; b++) op.cells.push([q + a, c0 + b, value(r, c0 + b)]); if (r.p(0.2)) op.cells.reverse(); else if (r.p(0.3)) op.cells.sort((a, b) => a[1] - b[1]); }
    if (k === "tab") op.id = r.pick(["stereonet", "upper-hemisphere"]);
    if (k === "clip") op.v = r.p(0.5) ? r.pick([10, 30, 45, 60, 75, 90]) : r.p(0.7) ? r.i(1, 90) : round(r.u(0.5, 90), 1);
    plan.ops.push(op);
  }
  return plan;
}
// ------------------------------------------------------------------ model
const chroma = () => pure("chroma");
const okColor = (v) => { try { chroma()(v); return true; } catch (e) { return false; } };
function plotted(grid) {
  const out = [];
  for (const r of grid) {
    const v = r.slice(0, 5).map((x) => parseFloat(x));
    if (v.some((x) => Number.isNaN(x))) continue;
    const d = {};
    COLS.slice(0, 5).forEach((k, i) => { d[k] = v[i]; });
    if (okColor(r[5])) d.color = r[5];
    out.push(d);
  }
  return out;
}
const ordered = (r) => (parseFloat(r[3]) < parseFloat(r[4]) ? [r[0], r[1], r[2], r[4], r[3], r[5]] : r);

function run(plan, bundle) {
  const stats = {}, log = [], bump = (k, n = 1) => (stats[k] = (stats[k] || 0) + n);
  let full = false, events = 0;
  const hooks = { onStore: () => { if (full) { bump("fault:storage full"); throw new Error("QuotaExceededError"); } } };
  const disk = new Store(hooks);
  if (plan.start != null) disk._m.set(KEY, plan.start);
  if (plan.start != null && plan.start[0] !== "[") bump("fault:damaged storage");
  let saved = null, dflt = null, savedClip = 15;
  try { const s = JSON.parse(plan.start); if (s) saved = s.map((r) => r.map((c) => c.value)); } catch (e) {}
  const norm = (g) => g.map((r) => r.map((v) => (v === undefined ? null : v)));
  const open = (t) => {
    const w = new World({ mode: plan.mode, storage: disk });
    w.localStorage._h = hooks;
    const M = w.load(bundle), host = w.el("div");
    w.R.ReactDOM.render(w.R.React.createElement(M.app.App, {}), host);
    w.flush();
    tabs[t] = { w, host, panel: "stereonet", grid: null, clip: savedClip };
    if (saved) tabs[t].grid = saved.map((r) => r.slice());
    else {
      const got = norm(w.sheet.data.map((r) => r.map((c) => c.value)));
      if (dflt === null) { dflt = got; if (got.length < 1 || plotted(got).length < 1) throw new Violation("sheet", "a new sheet shows no sample data"); }
      tabs[t].grid = dflt.map((r) => r.slice());
    }
  };
  const tabs = [];
  const text = (t) => t.host.querySelectorAll("table tbody tr").map((tr) => tr.querySelectorAll("td.cell").filter((td) => !/index-cell/.test(td.getAttribute("class"))).map((td) => td.textContent));
  const check = (t, what) => {
    bump("comparisons", 3);
    const got = norm(t.w.sheet.data.map((r) => r.map((c) => c.value)));
    const want = norm(t.grid);
    if (canon(got) !== canon(want)) {
      for (let i = 0; i < Math.max(got.length, want.length); i++) if (canon(got[i]) !== canon(want[i])) throw new Violation("sheet", what + ": row " + i + " of " + got.length + "/" + want.length + " is " + canon(got[i]) + " instead of " + canon(want[i]));
    }
    const shown = text(t), cells = want.map((r) => r.map((v) => (v == null ? "" : String(v))));
    if (canon(shown) !== canon(cells)) throw new Violation("sheet", what + ": the table shows other values than the sheet holds");
    const pts = t.host.querySelectorAll("g.poles > g.normal").map((g) => { const d = g.__data__ || {}, o = {}; for (const k of COLS) if (d[k] !== undefined) o[k] = d[k]; return o; });
    const exp = plotted(want);
    if (canon(pts) !== canon(exp)) throw new Violation("plot", what + ": the plot shows " + canon(pts).slice(0, 250) + " instead of " + canon(exp).slice(0, 250));
    if (t.panel === "upper-hemisphere") { const v = t.host.querySelectorAll("input.numeric")[0].getAttribute("data-value"); if (+v !== t.clip) throw new Violation("plot", what + ": the clip angle is " + v + " instead of " + t.clip); }
  };
  const stored = (what) => {
    if (saved === null) return;
    bump("comparisons");
    let s = null;
    try { s = JSON.parse(disk.getItem(KEY)).map((r) => r.map((c) => c.value)); } catch (e) {}
    if (s === null || canon(norm(s)) !== canon(norm(saved))) throw new Violation("saved", what + ": the saved sheet differs from the sheet last edited");
  };
  const store = (t) => { if (!full) saved = t.grid.map((r) => r.slice()); };
  for (let t = 0; t < plan.tabs; t++) open(t);
  tabs.forEach((t) => check(t, "opening"));
  plan.ops.forEach((op, i) => {
    const t = tabs[op.t], w = t.w, what = "operation " + i + " (" + op.k + ")";
    events++;
    const button = (label) => t.host.querySelectorAll("button").find((b) => b.textContent === label);
    try {
      if (op.cells) {
        const cells = op.cells.filter(([r]) => r < t.grid.length).map(([row, col, value]) => ({ cell: w.sheet.data[row][col], row, col, value }));
        if (!cells.length) return;
        w.batched(() => w.sheet.onCellsChanged(cells));
        w.flush();
        t.grid = t.grid.map((r) => r.slice());
        for (const c of cells) t.grid[c.row][c.col] = c.value;
        t.grid = t.grid.map(ordered);
        store(t);
      } else if (op.k === "add") {
        w.fire(button("Add more rows"), "click");
        w.flush();
        const n = Math.ceil((t.grid.length + 10) / 10) * 10;
        while (t.grid.length < n) t.grid.push(Array(NF).fill(null));
        store(t);
      } else if (op.k === "reset") {
        w.fire(button("Reset data"), "click");
        w.flush();
        if (dflt === null) { dflt = norm(w.sheet.data.map((r) => r.map((c) => c.value))); const q = new World({ mode: plan.mode }), M = q.load(bundle), h = q.el("div"); q.R.ReactDOM.render(q.R.React.createElement(M.app.App, {}), h); q.flush(); const fresh = norm(q.sheet.data.map((r) => r.map((c) => c.value))); if (canon(fresh) !== canon(dflt)) throw new Violation("sheet", what + ": resetting does not bring back the sample data"); }
        t.grid = dflt.map((r) => r.slice());
        store(t);
      } else if (op.k === "reload" || op.k === "reopen") {
        bump(op.k === "reload" ? "fault:page reloaded" : "fault:tab closed and reopened");
        if (op.k === "reopen") w.R.ReactDOM.unmountComponentAtNode(t.host);
        open(op.t);
      } else if (op.k === "tab") {
        const li = t.host.querySelectorAll("li.tab").find((e) => e.getAttribute("data-tab") === op.id);
        w.fire(li, "click");
        w.flush();
        if (op.id !== t.panel && op.id === "upper-hemisphere") t.clip = savedClip;
        t.panel = op.id;
      } else if (op.k === "clip" && t.panel === "upper-hemisphere") {
        const inp = t.host.querySelectorAll("input.numeric")[0];
        w.fire(inp, "change", { value: op.v });
        w.flush();
        t.clip = op.v;
        if (!full) savedClip = op.v;
      } else if (op.k === "full") full = !full;
      else w.flush();
    } catch (e) { if (e instanceof Violation) throw e; throw new Violation("exception", what + " failed: " + ((e && e.message) || e)); }
    for (const x of tabs) for (const e of x.w.window.errors.splice(0)) throw new Violation("exception", what + " failed: " + ((e && e.message) || e));
    log.push(op.k + hash(canon(tabs[op.t].grid)));
    tabs.forEach((x, k) => check(x, what + (plan.tabs > 1 ? ", tab " + k : "")));
    stored(what);
  });
  if (plan.tabs > 1) bump("fault:second tab");
  bump("ops", plan.ops.length);
  bump("events", events + tabs.reduce((s, t) => s + t.w.events, 0));
  return { stats, log, key: JSON.stringify([plan.tabs, plan.mode, plan.start && plan.start.length, plan.ops.map((o) => [o.k, o.t, o.cells && o.cells.map((c) => c[0] + "," + c[1])])]) };
}
function* shrink(plan) {
  for (const ops of drops(plan.ops, 0)) yield { ...plan, ops };
  if (plan.start != null) yield { ...plan, start: null };
  if (plan.tabs > 1) yield { ...plan, tabs: 1, ops: plan.ops.map((o) => ({ ...o, t: 0 })) };
  for (let i = 0; i < plan.ops.length; i++) if (plan.ops[i].cells && plan.ops[i].cells.length > 1) for (const cells of drops(plan.ops[i].cells, 1)) yield { ...plan, ops: plan.ops.map((o, j) => (j === i ? { ...o, cells } : o)) };
}
module.exports = { C32: { bundle: "webapp", gen, run, shrink } };
