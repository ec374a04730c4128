"use strict";
/* Dragging and rotating several stereonets on one page (C30): a pointer, programmatic rotations, listeners that fail, draw or turn other nets. */
const { World } = require("./world");
const { hash, round, drops, Violation } = require("./lib");
const { record } = require("./records");

function gen(r, depth = 1) {
  const nn = r.i(1, 3), nr = r.i(1, 2);
  const plan = { recs: Array.from({ length: nr }, (_, i) => record(r, i)), nets: [], host: r.p(0.4) ? r.pick(["before", "after"]) : null, names: r.pick(["h", "h", "listener", "map-", "my.view.", "Rotate", "1"]), ops: [] };
  for (let i = 0; i < nn; i++)
    plan.nets.push({ size: r.pick([300, 400]), margin: r.pick([10, 25]), clip: r.p(0.2) ? r.pick([30, 60]) : null, center: r.p(0.4) ? [round(r.u(-180, 180), 2), round(r.u(-89, 89), 2)] : null,
      precision: r.pick([1, 2]), interactive: r.p(0.85), labels: r.p(0.5), grat: r.p(0.3), link: i + 1 < nn && r.p(0.2) ? r.i(i + 1, nn - 1) : null, plain: r.p(0.35),
      ls: Array.from({ length: r.i(0, 2) }, () => ({ kind: r.pick(["log", "throw", "draw"]), at: r.i(1, 4) })) });
  const n = r.i(4, 12 * depth);
  let held = null, x = 0, y = 0;
  const pos = () => { x = r.p(0.08) ? 0 : round(r.u(0, 900), 1); y = r.p(0.08) ? 0 : round(r.p(0.25) ? r.u(-2000, 2500) : r.u(0, 700), 1); return [x, y]; };
  const near = () => { x = round(x + r.u(-60, 60), 1); if (r.p(0.75)) y = round(y + r.u(-60, 60), 1); return [x, y]; };
  for (let i = 0; i < n; i++) {
    const net = r.i(0, nn - 1);
    const k = r.pick(held == null ? ["down", "down", "down", "down", "move", "up", "rotate", "center", "draw", "listen", "labels", "scroll", "remove"] : ["move", "move", "move", "move", "up", "up", "down", "rotate", "draw", "listen", "scroll", "remove"]);
    const op = { k };
    if (k === "down") { op.net = held == null ? net : held; held = op.net; op.at = pos(); op.deep = r.p(0.5); }
    else if (k === "move") { op.at = r.p(0.5) ? near() : pos(); op.over = r.p(0.5) ? net : null; }
    else if (k === "up") { op.at = r.p(0.3) ? [x, y] : near(); op.over = r.p(0.3) ? net : null; held = null; }
    else if (k === "rotate" || k === "center") {
      op.net = nn > 1 && held != null ? (net === held ? (held + 1) % nn : net) : net;
      if (held != null && op.net === held) { op.k = "draw"; op.recs = [0]; op.poles = true; }
      else op.to = k === "center" && r.p(0.15) ? "vertical" : r.p(0.4) ? [r.pick([0, 90, -120, 180, 35]), r.pick([0, 0, 30, -45, 90, -90])] : [round(r.u(-180, 180), 2), round(r.u(-90, 90), 2)];
      if (Array.isArray(op.to) && r.p(0.2)) op.to.push(r.pick([0, 30, -75]));
    } else if (k === "draw") { op.net = net; op.recs = [r.i(0, nr - 1)]; op.poles = r.p(0.5); }
    else if (k === "listen") { op.net = net; op.kind = r.pick(["log", "log", "throw", "draw"]); op.at = r.i(1, 3); }
    else if (k === "scroll") op.by = [r.i(-50, 200), r.i(-50, 400)];
    else op.net = net;
    if (op.k === "remove" && r.p(0.6)) { op.k = "labels"; }
    plan.ops.push(op);
  }
  return plan;
}
const rad = 180 / Math.PI;
const angleDiff = (a, b) => Math.abs((((a - b) % 360) + 540) % 360 - 180);
const sameRoll = (a, b) => same(a, b) && angleDiff(a[2] || 0, b[2] || 0) < 1e-6;
const same = (a, b) => Math.abs(a[1] - b[1]) < 1e-6 && angleDiff(a[0], b[0]) < 1e-6;

function build(w, core, c, at) {
  const s = core.Stereonet({ interactive: c.interactive }).size(c.size).margin(c.margin);
  if (c.grat) s.graticule(45, 30);
  if (c.clip != null) s.clipAngle(c.clip);
  if (at) s.center(at.slice());
  s.projection().precision(c.precision);
  const svg = w.el("svg", "svg");
  w.d3.select(svg).call(s);
  return { s, svg };
}
function labelTexts(svg, proj, width, d3) {
  const centre = proj.invert([width / 2, width / 2]), out = [];
  for (const g of svg.querySelectorAll("g.labels g.label")) {
    const d = g.__data__, t = g.querySelectorAll("text")[0], p = proj(d.geometry.coordinates), dist = d3.geoDistance(centre, d.geometry.coordinates);
    const edge = (v, ...l) => l.some((e) => Math.abs(v - e) < 1e-5);
    const vague = edge(p[0], width / 2, width / 2 - 20, width / 2 + 20) || edge(p[1], width / 2 - 20, width / 2 + 20) || edge(dist, Math.PI / 4, 0.01, Math.PI / 2 + 0.01);
    out.push({ name: d.name, vague, display: g.style.getPropertyValue("display"), anchor: t.getAttribute("text-anchor"), nums: (t.getAttribute("transform") || "").match(/-?[\d.]+(e-?\d+)?/g) || [] });
  }
  return out;
}

function run(plan, bundle) {
  const w = new World(), core = w.load(bundle), d3 = w.d3, stats = {}, log = [];
  const rw = new World(), rcore = rw.load(bundle);
  const bump = (k, n = 1) => (stats[k] = (stats[k] || 0) + n);
  const recs = JSON.parse(JSON.stringify(plan.recs));
  const host = { mousemove: 0, mouseup: 0, mousedown: plan.nets.map(() => 0) };
  let layers = 0;
  const hostHandlers = () => { for (const k of ["mousemove", "mouseup"]) d3.select(w.window).on(k, () => { host[k]++; }); };
  if (plan.host === "before") hostHandlers();
  const nets = plan.nets.map((c, i) => {
    const n = build(w, core, c, c.center);
    Object.assign(n, { c, rot: c.center ? c.center.slice() : c.clip != null ? [0, -90] : [0, 0], drag: null, ls: [], live: true, labels: false, stale: false, threw: false, turned: false });
    if (plan.host) d3.select(n.svg).on("mousedown", () => { host.mousedown[i]++; });
    return n;
  });
  const addLabels = (n) => { if (!n.labels) { n.labels = true; n.s.call(core.globalLabels()); } };
  const listen = (n, q) => {
    const l = { kind: q.kind, got: [], calls: 0 };
    n.ls.push(l);
    n.s.on("rotate." + ((plan.names || "h") + n.ls.length), () => {
      l.calls++;
      l.got.push(n.s.rotate().slice(0, 2));
      if (q.kind === "throw" && l.calls === q.at) { n.threw = true; bump("fault:listener fails"); throw new Error("INJECTED"); }
      if (q.kind === "draw" && l.calls <= 2) { bump("fault:listener draws"); n.s.ellipses([recs[0]], { selector: "g.L" + layers++, n: 8 }); }
    });
  };
  nets.forEach((n, i) => {
    (n.c.ls || []).forEach((q) => listen(n, q));
    if (n.c.labels) addLabels(n);
    if (n.c.plain) { n.plain = 0; n.s.on("rotate", () => { n.plain++; }); }
    if (n.c.link != null) n.s.on("rotate.link", () => { nets[n.c.link].s.rotate(n.s.rotate()); });
  });
  if (plan.host === "after") hostHandlers();
  let scroll = [0, 0];
  const turn = (i, to, drag) => {          // what a rotation of net i amounts to
    const n = nets[i];
    n.rot = [to[0], to[1], to[2] || 0];
    n.turned = true;
    n.roll = !drag;
    if (n.c.link != null) turn(n.c.link, n.rot, drag);
  };
  const pointer = (target, type, at) => w.fire(target, type, { pageX: at[0] + scroll[0], pageY: at[1] + scroll[1], clientX: at[0], clientY: at[1], screenX: at[0] + 11, screenY: at[1] + 90 });
  const dragged = (at) => nets.forEach((n, i) => {
    if (!n.drag) return;
    const p = [at[0] + scroll[0], at[1] + scroll[1]];
    const la = n.drag.o[1] + (n.drag.m[1] - p[1]) / 3;
    turn(i, [n.drag.o[0] + (p[0] - n.drag.m[0]) / 3, Math.max(-90, Math.min(90, la))], true);
  });
  const counts = { mousemove: 0, mouseup: 0, mousedown: plan.nets.map(() => 0) };
  plan.ops.forEach((op, i) => {
    const what = "operation " + i + " (" + op.k + ")";
    nets.forEach((n) => { n.turned = n.threw = false; n.was = n.rot.concat(0).slice(0, 3); n.ls.forEach((l) => { l.got = []; }); n.plain0 = n.plain; });
    const over = op.over != null && nets[op.over].live ? nets[op.over].svg : w.document.body;
    let threw = null;
    try {
      switch (op.k) {
        case "down": {
          const n = nets[op.net], deep = op.deep ? n.svg.querySelectorAll("path")[0] : null;
          if (!n.live) break;
          counts.mousedown[op.net]++;
          pointer(deep || n.svg, "mousedown", op.at);
          if (n.c.interactive) n.drag = { m: [op.at[0] + scroll[0], op.at[1] + scroll[1]], o: n.rot.slice() };
          break;
        }
        case "move": counts.mousemove++; dragged(op.at); pointer(over, "mousemove", op.at); break;
        case "up": counts.mouseup++; dragged(op.at); pointer(over, "mouseup", op.at); nets.forEach((n) => { n.drag = null; }); break;
        case "rotate": case "center": { const to = op.to === "vertical" ? [0, 90] : op.to; turn(op.net, to); nets[op.net].s[op.k](op.to === "vertical" ? op.to : op.to.slice()); break; }
        case "draw": { const n = nets[op.net]; n.s[op.poles ? "ellipses" : "planes"](op.recs.map((k) => recs[k]), { selector: "g.L" + layers++, n: 12 }); break; }
        case "listen": listen(nets[op.net], op); break;
        case "labels": addLabels(nets[op.net]); break;
        case "scroll": scroll = [scroll[0] + op.by[0], scroll[1] + op.by[1]]; bump("fault:page scrolls"); break;
        case "remove": nets[op.net].svg.remove(); nets[op.net].live = false; bump("fault:plot removed"); break;
      }
    } catch (e) { threw = String((e && e.message) || e); }
    const errs = w.window.errors.splice(0).map((e) => String((e && e.message) || e));
    if (threw) errs.push(threw);
    for (const e of errs) if (e !== "INJECTED") throw new Violation("exception", what + " failed: " + e);
    log.push(op.k + nets.map((n) => n.s.rotate().map((v) => v.toFixed(4)).join()).join("|"));
    const anyThrow = nets.some((n) => n.threw);
    if (plan.host) {
      const a = [counts.mousemove, counts.mouseup, ...counts.mousedown].join(), b = [host.mousemove, host.mouseup, ...host.mousedown].join();
      if (a !== b) throw new Violation("handler displaced", what + ": the page's own pointer handlers were called " + b + " times instead of " + a);
    }
    nets.forEach((n, k) => {
      const rep = n.s.rotate(), name = what + ": stereonet " + k;
      // a failing listener of a linking net may keep the linked net from following
      if (anyThrow && nets.some((m) => m.threw && m.c.link != null) && n.turned) n.rot = rep.slice();
      const moved = n.turned && !sameRoll(n.was, n.rot);     // told again of the rotation it already has, or not
      bump("comparisons", 3);
      if (!same(rep, n.rot)) throw new Violation("rotation", name + " reports rotation " + rep.map((v) => round(v, 4)) + " instead of " + n.rot.map((v) => round(v, 4)));
      if (n.turned && n.roll && angleDiff(rep[2] || 0, n.rot[2] || 0) > 1e-6) throw new Violation("rotation", name + " reports roll " + rep[2] + " instead of " + n.rot[2]);
      n.rot[2] = rep[2] || 0;
      // picture in step with the reported rotation
      const path = d3.geoPath().projection(n.s.projection()).pointRadius(2);
      for (const e of n.svg.querySelectorAll("path")) {
        const d = e.__data__, want = path(d), got = e.getAttribute("d");
        if (d && (d.type === "Point" || (d.geometry && d.geometry.type === "Point"))) {
          const m = /^M(-?[\d.e-]+),(-?[\d.e-]+)/, a = m.exec(got || ""), b = m.exec(want || "");
          if (!a && (!n.turned || anyThrow)) continue;       // labels just added: their points are first drawn with the next redraw
          if (!a !== !b || (a && (a[1] !== b[1] || a[2] !== b[2]))) throw new Violation("picture", name + ": a point is drawn at " + (a && a[0]) + " instead of " + (b && b[0]));
        } else if ((got || "") !== (want || "")) throw new Violation("picture", name + ": the drawing does not match the rotation it reports (" + (e.getAttribute("class") || "outline") + ")");
      }
      if (n.turned) n.stale = anyThrow;      // a failing listener keeps later ones, and whatever is linked, from being told
      if (n.c.clip == null || n.c.clip < 89) {
        const c = n.s.centerPosition(), la = Math.max(-90, Math.min(90, -n.rot[1]));
        if (Math.abs(c[1] - la) > 1e-4 || (Math.abs(la) < 89.9 && angleDiff(c[0], -n.rot[0]) > 1e-4)) throw new Violation("rotation", name + " reports its centre at " + c + " with rotation " + n.rot);
      }
      if (n.labels && !n.stale && n.live && (n.turned || op.k === "labels" || i === plan.ops.length - 1)) {
        const ref = build(rw, rcore, { ...n.c, grat: false, interactive: false }, rep);
        ref.s.call(rcore.globalLabels());
        const a = labelTexts(n.svg, n.s.projection(), n.c.size, d3), b = labelTexts(ref.svg, ref.s.projection(), n.c.size, d3);
        ref.svg.remove();
        bump("comparisons");
        if (a.length !== b.length) throw new Violation("labels", name + " has " + a.length + " labels instead of " + b.length);
        a.forEach((x, j) => {
          const y = b[j];
          if (x.vague || y.vague || (x.display === "none" && y.display === "none")) return;
          if (x.name !== y.name || x.display !== y.display || x.anchor !== y.anchor || x.nums.some((v, q) => Math.abs(v - y.nums[q]) > 1e-4)) throw new Violation("labels", name + ": label " + x.name + " (" + [x.display, x.anchor, x.nums] + ") is not where it belongs at this rotation (" + [y.display, y.anchor, y.nums] + ")");
        });
      }
      if (!n.threw) for (const l of n.ls) {
        if (op.k === "listen") continue;
        if (n.turned && !(anyThrow && !n.threw)) {
          if (!l.got.length && !moved) continue;
          if (!l.got.length) throw new Violation("listener", name + " was rotated and its listener not called");
          if (!same(l.got[l.got.length - 1], n.rot)) throw new Violation("listener", name + ": a listener last saw rotation " + l.got[l.got.length - 1]);
        } else if (!n.turned && l.got.length) throw new Violation("listener", name + " was not rotated but its listener was called");
      }
      if (n.plain != null && moved && !anyThrow && n.plain === n.plain0) throw new Violation("listener", name + " was rotated and the page's own listener not called");
    });
  });
  bump("ops", plan.ops.length);
  bump("events", w.events + plan.ops.length);
  const lost = plan.ops.filter((o, i) => o.k === "down" && plan.ops.slice(0, i).reverse().find((q) => q.k === "down" || q.k === "up")?.k === "down").length;
  if (lost) bump("fault:lost pointer release", lost);
  return { stats, log, key: JSON.stringify([plan.ops.map((o) => [o.k, o.net, o.kind]), plan.nets.map((n) => [n.clip, n.labels, n.link])]) };
}
function* shrink(plan) {
  for (const ops of drops(plan.ops, 1)) yield { ...plan, ops };
  for (let i = 0; i < plan.nets.length; i++) for (const [k, v] of [["clip", null], ["center", null], ["labels", false], ["grat", false], ["link", null], ["plain", false], ["ls", []]]) if (plan.nets[i][k] && plan.nets[i][k].length !== 0) yield { ...plan, nets: plan.nets.map((x, j) => (j === i ? { ...x, [k]: v } : x)) };
  if (plan.host) yield { ...plan, host: null };
}
module.exports = { C30: { bundle: "core", gen, run, shrink } };
Object.defineProperties(module.exports, { labelTexts: { value: labelTexts }, angleDiff: { value: angleDiff } });
