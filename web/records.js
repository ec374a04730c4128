"use strict";
/* Orientation records of the kinds the front end is given. */
const { round } = require("./lib");
function axes(r) {
  const q = [r.norm(), r.norm(), r.norm(), r.norm()];
  if (r.p(0.5)) { q[1] *= 0.2; q[2] *= 0.2; }            // near horizontal
  if (r.p(0.15)) { [q[0], q[1], q[2], q[3]] = [q[1], q[0], q[3], q[2]]; }   // near overturned
  const n = Math.hypot(...q), [w, x, y, z] = q.map((v) => v / n);
  return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]].map((row) => row.map((v) => round(v, 9)));
}
function lengths(r) {
  const c = round(Math.exp(r.u(-2, 1)), 5), b = round(c * Math.exp(r.u(r.p(0.1) ? -1 : 1, 5)), 4), a = round(b * Math.exp(r.u(0, 3)), 3);
  if (r.p(0.06)) return [a, b, round(b * Math.exp(r.u(0, 6)), 4)];        // hardly constrained at all
  return [a, b, c];
}
const COLORS = ["red", "#65499e", "dodgerblue", "rgb(20,30,40)", "#abc", "purple"];
function record(r, i, kind) {
  const k = kind || r.pick(["axes", "axes", "axes", "cov", "angles"]);
  const d = { uid: "r" + i, color: r.pick(COLORS) };
  if (k === "angles") {
    const max = round(r.u(1, 40), 3);
    Object.assign(d, { strike: round(r.u(0, 360), 3), dip: round(r.u(0, 89), 3), rake: round(r.u(0, 180), 3), maxError: max, minError: round(r.u(0.2, max), 3) });
    if (r.p(0.1)) [d.maxError, d.minError] = [d.minError, d.maxError];
    if (r.p(0.1)) d.strike = r.pick([0, 360, -30, 400]);
    if (r.p(0.06)) d.dip = r.pick([0, 90]);
  } else {
    d.axes = axes(r);
    d[k === "cov" ? "covariance" : "hyperbolic_axes"] = lengths(r);
    d.strike = undefined;
    delete d.strike;
    d.max_angular_error = round(r.u(0.1, 60), 3);
    d.min_angular_error = round(r.u(0.005, d.max_angular_error), 3);
  }
  if (r.p(0.15)) delete d.color;
  if (r.p(0.3)) { d.center = [round(r.u(-50, 50), 3), round(r.u(-50, 50), 3), round(r.u(-5, 5), 3)]; }
  if (r.p(0.3)) { const n = r.i(3, 6); d.centered_array = Array.from({ length: n }, () => [round(r.u(-5, 5), 3), round(r.u(-5, 5), 3), round(r.u(-1, 1), 3)]); d.center ??= [1, 2, 3]; }
  if (r.p(0.2)) { const n = r.i(3, 5); d.extracted = Array.from({ length: n }, () => [round(r.u(0, 50), 3), round(r.u(0, 50), 3), round(r.u(-5, 5), 3)]); d.center ??= [20, 25, 0]; }
  if (r.p(0.2)) d.in_group = r.p(0.5);
  if (r.p(0.12)) { const [k, v] = r.pick([["level", 2], ["level", 0.5], ["n", 6], ["sheet", "lower"], ["degrees", false], ["nominal", true], ["upperHemisphere", false], ["traditionalLayout", true], ["width", 90], ["selector", "g.own"]]); d[k] = v; }      // fields of the page's own
  return d;
}
module.exports = { record, axes, lengths, COLORS };
