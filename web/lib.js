"use strict";
const crypto = require("crypto");
function rng(seed) {
  let a = crypto.createHash("sha256").update(String(seed)).digest().readUInt32LE(0);
  const next = () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  const r = { f: next, u: (lo, hi) => lo + (hi - lo) * next(), i: (lo, hi) => lo + Math.floor(next() * (hi - lo + 1)), p: (x) => next() < x, pick: (l) => l[Math.floor(next() * l.length)],
    norm: () => Math.sqrt(-2 * Math.log(next() + 1e-12)) * Math.cos(2 * Math.PI * next()),
    some: (l, lo, hi) => { const n = r.i(lo, hi), out = []; for (let k = 0; k < n; k++) out.push(r.pick(l)); return out; } };
  return r;
}
const hash = (s) => crypto.createHash("sha256").update(s).digest("hex").slice(0, 16);
const round = (x, n = 6) => +x.toFixed(n);

// canonical text of a value: everything reachable, keys sorted, functions by identity, DOM nodes by place
function canon(v, fns, seen = new Map()) {
  if (v === null) return "null";
  switch (typeof v) {
    case "undefined": return "undefined";
    case "number": return Object.is(v, -0) ? "0" : String(v);
    case "string": return JSON.stringify(v);
    case "function": if (!fns) return "fn"; if (!fns.has(v)) fns.set(v, fns.size); return "fn" + fns.get(v);
    case "object": break;
    default: return String(v);
  }
  if (seen.has(v)) return "@" + seen.get(v);
  seen.set(v, seen.size);
  if (v.nodeType && v.ownerDocument !== undefined) return "<" + v.nodeName + ">";
  if (Array.isArray(v)) { let s = "["; for (let i = 0; i < v.length; i++) s += (i ? "," : "") + canon(v[i], fns, seen); return s + "]"; }
  return "{" + Object.keys(v).sort().map((k) => JSON.stringify(k) + ":" + canon(v[k], fns, seen)).join(",") + "}";
}
// the drawn subtree: tags, attributes, styles and text; ids made by uuid are renumbered in order of appearance
function drawn(node) {
  const ids = new Map();
  const norm = (s) => s.replace(/uid-\d+-x/g, (m) => { if (!ids.has(m)) ids.set(m, ids.size); return "uid" + ids.get(m); });
  const walk = (n) => {
    if (n.nodeType === 3) return JSON.stringify(n.data);
    return "<" + n.localName + n.attributes.sort((a, b) => (a.name < b.name ? -1 : 1)).map((a) => " " + a.name + "=" + norm(a.name === "class" ? a.value.split(/\s+/).filter(Boolean).sort().join(" ") : a.value)).join("") +
      (n.style._m.size ? " style{" + [...n.style._m].sort().map(([k, v]) => k + ":" + v).join(";") + "}" : "") + ">" + n.childNodes.map(walk).join("") + "</>";
  };
  return walk(node);
}
function firstDiff(a, b) {
  let i = 0;
  while (i < a.length && i < b.length && a[i] === b[i]) i++;
  const at = Math.max(0, i - 60);
  return JSON.stringify(a.slice(at, i + 60)) + " instead of " + JSON.stringify(b.slice(at, i + 60));
}
// generic shrinking: drop list elements, in halves first
function* drops(list, min = 0) {
  for (let n = list.length; n >= 1; n = n === 1 ? 0 : Math.ceil(n / 2)) {
    if (n === 0) break;
    for (let i = 0; i + n <= list.length; i += n) if (list.length - n >= min) yield [...list.slice(0, i), ...list.slice(i + n)];
    if (n === 1) break;
  }
}
class Violation extends Error { constructor(cls, msg) { super(msg); this.cls = cls; } }
module.exports = { rng, hash, round, canon, drawn, firstDiff, drops, Violation };
