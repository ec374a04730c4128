"use strict";
/* One simulated browser page: its own window, document, storage, timers, d3 and module instances of the front end. */
const vm = require("vm"), fs = require("fs"), path = require("path");
const { Window_, Ev } = require("./dom");
const makeReact = require("./react"), makeHyper = require("./hyper"), stubs = require("./stubs");

const compiled = new Map();
const ARGS = ["module", "exports", "require", "window", "document", "navigator", "localStorage", "setTimeout", "clearTimeout",
  "setInterval", "clearInterval", "requestAnimationFrame", "cancelAnimationFrame", "console", "self", "global", "Event", "CustomEvent", "location"];
function compile(name, text) {
  let f = compiled.get(name);
  if (!f) compiled.set(name, (f = vm.compileFunction(text, ARGS, { filename: name })));
  return f;
}
const vendorText = (n) => fs.readFileSync(path.join(__dirname, "vendor", n + ".js"), "utf8");
const shared = {};
function pure(n) {                       // stateless third-party code, one instance per process
  if (!shared[n]) { const m = { exports: {} }; vm.compileFunction(vendorText(n), ["module", "exports", "require", "window"], { filename: n }).call(m.exports, m, m.exports, () => ({}), undefined); shared[n] = m.exports; }
  return shared[n];
}

class Store {                            // localStorage
  constructor(hooks) { this._m = new Map(); this._h = hooks; }
  getItem(k) { return this._m.has(k) ? this._m.get(k) : null; }
  setItem(k, v) { if (this._h.onStore) this._h.onStore(k, v); this._m.set(k, String(v)); }
  removeItem(k) { this._m.delete(k); }
  clear() { this._m.clear(); }
  get length() { return this._m.size; }
  key(i) { return [...this._m.keys()][i]; }
}

class World {
  constructor(o = {}) {
    this.hooks = {};
    this.events = 0;
    this.window = new Window_(this.hooks);
    this.document = this.window.document;
    this.localStorage = o.storage || new Store(this.hooks);
    this.localStorage._h = this.hooks;
    this.timers = [];
    this.now = 0;
    this.tid = 0;
    this.uids = 0;
    this.clipboard = null;
    this.sheet = null;
    const w = this.window;
    const setTimeout_ = (fn, ms = 0, ...a) => { const id = ++this.tid; this.timers.push({ id, at: this.now + (+ms || 0), fn: () => fn(...a) }); return id; };
    const clear = (id) => { this.timers = this.timers.filter((t) => t.id !== id); };
    const quiet = () => {};
    this.console = { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet, trace: quiet };
    Object.assign(w, { localStorage: this.localStorage, setTimeout: setTimeout_, clearTimeout: clear, requestAnimationFrame: (f) => setTimeout_(() => f(this.now), 16), cancelAnimationFrame: clear, console: this.console });
    this.args = (mod, req) => [mod, mod.exports, req, w, this.document, w.navigator, this.localStorage, setTimeout_, clear, setTimeout_, clear, w.requestAnimationFrame, clear, this.console, w, w, Ev, w.CustomEvent, w.location];
    this.mods = new Map();
    this.R = makeReact(w, o.mode || "sync");
    this.h = makeHyper(this.R.React);
    this.require = (n) => this._require(n);
    this.d3 = this._require("d3");
  }
  _run(name, text) {
    const m = { exports: {} };
    compile(name, text).apply(m.exports, this.args(m, this.require));
    return m.exports;
  }
  load(bundle) { return this._run(bundle.name, bundle.text); }
  _require(n) {
    if (this.mods.has(n)) return this.mods.get(n);
    const v = this._make(n);
    this.mods.set(n, v);
    return v;
  }
  _make(n) {
    if (n === "d3") {
      const d3 = this._run("vendor:d3", vendorText("d3"));
      const s = d3.selection.prototype;
      const parse = (name) => { const at = {}, parts = name.split(/([.#])/g); const tag = parts.shift(); let p; while ((p = parts.shift())) { if (p === ".") at.class = at.class ? at.class + " " + parts.shift() : parts.shift(); else at.id = parts.shift(); } return { tag, at }; };
      if (!s.selectAppend) s.selectAppend = function (name) {            // d3-jetpack
        const sel = d3.selector(name), n = parse(name), mk = d3.creator(n.tag);
        const out = this.select(function () { return sel.apply(this, arguments) || this.appendChild(mk.apply(this, arguments)); });
        for (const k in n.at) out.attr(k, n.at[k]);
        return out;
      };
      this.mods.set("d3", d3);
      this._run("vendor:multi", vendorText("d3-selection-multi"));
      return d3;
    }
    if (n === "d3-selection-multi" || n === "d3-jetpack") return this._require("d3");
    let m;
    if ((m = /^d3-selection-multi\/src\/(selection|transition)\/(\w+)$/.exec(n))) return this._require("d3")[m[1]].prototype[m[2]];
    if ((m = /^d3-jetpack\/(?:src|essentials)\/(\w+)$/.exec(n))) return this._require("d3").selection.prototype[m[1]];
    if (/^d3-[a-z]+$/.test(n)) return this._require("d3");
    switch (n) {
      case "mathjs": return pure("math");
      case "quaternion": return pure("quaternion");
      case "chroma-js": return pure("chroma");
      case "underscore": case "lodash": return pure("underscore");
      case "uuid": { const v4 = () => "uid-" + ++this.uids + "-x"; return Object.assign(() => v4(), { v4, v1: v4 }); }
      case "react": return this.R.React;
      case "react-dom": case "react-dom/client": return this.R.ReactDOM;
      case "react-hyperscript": case "@macrostrat/hyper": return this.h;
      case "react/jsx-runtime": { const j = (t, p, k) => { const { children, ...r } = p || {}; return this.R.React.createElement(t, k === undefined ? r : { ...r, key: k }, ...(children === undefined ? [] : Array.isArray(children) ? children : [children])); }; return { jsx: j, jsxs: j, Fragment: this.R.React.Fragment }; }
    }
    const s = stubs(this, n);
    if (s !== undefined) return s;
    throw new Error("MISSING-PACKAGE " + n);
  }
  // ------------------------------------------------------------------ driving the page
  fire(target, type, o = {}) { this.events++; const ev = new Ev(type, { bubbles: !/^mouse(enter|leave)$/.test(type), ...o }); target.dispatchEvent(ev); return ev; }
  flush() { this.R.flush(); }
  batched(fn) { return this.R.batched(fn); }
  advance(ms) {
    const end = this.now + ms;
    for (let n = 0; n < 1000; n++) {
      const due = this.timers.filter((t) => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!due) break;
      this.timers = this.timers.filter((t) => t !== due);
      this.now = due.at;
      due.fn();
    }
    this.now = end;
  }
  el(tag, ns) { return this.document.body.appendChild(ns === "svg" ? this.document.createElementNS("http://www.w3.org/2000/svg", tag) : this.document.createElement(tag)); }
}
module.exports = { World, Store, pure };
