"use strict";
/* A small DOM: enough of document, elements, styles, selectors and events for d3, the mini React and the front end.
   Single threaded and free of clocks, so what happens is decided by the calls alone. */
const NS = { svg: "http://www.w3.org/2000/svg", html: "http://www.w3.org/1999/xhtml", xlink: "http://www.w3.org/1999/xlink" };

class Ev {
  constructor(type, o = {}) {
    Object.assign(this, { bubbles: false, cancelable: true, detail: null, pageX: 0, pageY: 0, clientX: 0, clientY: 0, button: 0 }, o);
    this.type = type;
    this.defaultPrevented = false;
    this._stop = this._now = false;
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._now = true; }
  initEvent(type, b, c) { this.type = type; this.bubbles = b; this.cancelable = c; }
  initCustomEvent(type, b, c, d) { this.initEvent(type, b, c); this.detail = d; }
  get nativeEvent() { return this; }
  persist() {}
}

class Target {
  constructor() { this._ls = []; }
  addEventListener(type, fn, o) {
    if (fn == null) return;
    const capture = typeof o === "object" && o ? !!o.capture : !!o;
    const once = typeof o === "object" && o ? !!o.once : false;
    if (!this._ls.some((l) => l.type === type && l.fn === fn && l.capture === capture)) this._ls.push({ type, fn, capture, once });
  }
  removeEventListener(type, fn, o) {
    const capture = typeof o === "object" && o ? !!o.capture : !!o;
    this._ls = this._ls.filter((l) => !(l.type === type && l.fn === fn && l.capture === capture));
  }
  _fire(ev, phase) {
    for (const l of [...this._ls]) {
      if (l.type !== ev.type || !this._ls.includes(l)) continue;
      if (phase === "capture" && !l.capture) continue;
      if (phase === "bubble" && l.capture) continue;
      if (l.once) this._ls = this._ls.filter((x) => x !== l);
      ev.currentTarget = this;
      try { typeof l.fn === "function" ? l.fn.call(this, ev) : l.fn.handleEvent(ev); }
      catch (e) { this._win().reportError(e); }          // a browser reports it and carries on
      if (ev._now) return;
    }
  }
  dispatchEvent(ev) {
    ev.target = this;
    const path = [];
    for (let n = this._up(); n; n = n._up()) path.push(n);
    for (const n of [...path].reverse()) { if (ev._stop) break; n._fire(ev, "capture"); }
    if (!ev._stop) this._fire(ev, "target");
    if (ev.bubbles) for (const n of path) { if (ev._stop) break; n._fire(ev, "bubble"); }
    return !ev.defaultPrevented;
  }
}

class Node_ extends Target {
  constructor(doc) { super(); this.ownerDocument = doc; this.childNodes = []; this.parentNode = null; }
  _win() { return (this.ownerDocument || this).defaultView; }
  _up() { return this.parentNode; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
  get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
  get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(o) { for (let n = o; n; n = n.parentNode) if (n === this) return true; return false; }
  appendChild(c) { return this.insertBefore(c, null); }
  insertBefore(c, ref) {
    if (!(c instanceof Node_)) throw new TypeError("not a Node");
    const w = this._win();
    if (w && w._hooks.onInsert) w._hooks.onInsert(this, c);
    if (c.contains(this)) throw new Error("HierarchyRequestError");
    if (c.nodeType === 11) { for (const k of [...c.childNodes]) this.insertBefore(k, ref); return c; }
    if (c.parentNode) c.parentNode.removeChild(c);
    if (ref == null) this.childNodes.push(c);
    else {
      const i = this.childNodes.indexOf(ref);
      if (i < 0) throw new Error("NotFoundError");
      this.childNodes.splice(i, 0, c);
    }
    c.parentNode = this;
    return c;
  }
  removeChild(c) {
    const i = this.childNodes.indexOf(c);
    if (i < 0) throw new Error("NotFoundError");
    this.childNodes.splice(i, 1);
    c.parentNode = null;
    return c;
  }
  replaceChild(n, o) { this.insertBefore(n, o); return this.removeChild(o); }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    const chain = (n) => { const a = []; for (; n; n = n.parentNode) a.unshift(n); return a; };
    const a = chain(this), b = chain(o);
    if (a[0] !== b[0]) return 1 | 32 | 4;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i === a.length) return 4 | 16;
    if (i === b.length) return 2 | 8;
    const k = a[i - 1].childNodes;
    return k.indexOf(a[i]) < k.indexOf(b[i]) ? 4 : 2;
  }
  get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { for (const c of [...this.childNodes]) this.removeChild(c); if (v != null && v !== "") this.appendChild(new Text_(this.ownerDocument, String(v))); }
  cloneNode(deep) {
    const c = this._shell();
    if (deep) for (const k of this.childNodes) c.appendChild(k.cloneNode(true));
    return c;
  }
}

class Text_ extends Node_ {
  constructor(doc, data) { super(doc); this.nodeType = 3; this.nodeName = "#text"; this.data = data; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
  _shell() { return new Text_(this.ownerDocument, this.data); }
}

class Style {
  constructor() { Object.defineProperty(this, "_m", { value: new Map(), enumerable: false }); }
  setProperty(k, v, p) { if (v == null || v === "") this._m.delete(k); else this._m.set(k, String(v) + (p ? " !" + p : "")); }
  removeProperty(k) { this._m.delete(k); }
  getPropertyValue(k) { return this._m.get(k) || ""; }
  get cssText() { return [...this._m].map(([k, v]) => k + ": " + v + ";").join(" "); }
  set cssText(t) { this._m.clear(); for (const p of String(t).split(";")) { const i = p.indexOf(":"); if (i > 0) this._m.set(p.slice(0, i).trim(), p.slice(i + 1).trim()); } }
}
const kebab = (k) => k.replace(/([a-z\d])([A-Z])/g, "$1-$2").toLowerCase();
const styleProxy = () => new Proxy(new Style(), {
  get(t, k) { return typeof k === "symbol" || k in t ? Reflect.get(t, k, t) : t.getPropertyValue(kebab(k)); },
  set(t, k, v) { if (k === "cssText") t.cssText = v; else t.setProperty(kebab(k), v); return true; },
});

class ClassList {
  constructor(el) { this.el = el; }
  _get() { return (this.el.getAttribute("class") || "").split(/\s+/).filter(Boolean); }
  _set(a) { this.el.setAttribute("class", a.join(" ")); }
  add(...c) { this._set([...new Set([...this._get(), ...c])]); }
  remove(...c) { this._set(this._get().filter((x) => !c.includes(x))); }
  contains(c) { return this._get().includes(c); }
  toggle(c, on) { const has = this.contains(c); if (on === undefined) on = !has; on ? this.add(c) : this.remove(c); return on; }
  get length() { return this._get().length; }
}

function parseSel(s) {
  return s.split(",").map((alt) => alt.trim().replace(/\s*>\s*/g, " > ").split(/\s+/).map((part) => {
    if (part === ">") return ">";
    const c = { tag: null, id: null, cls: [], attr: [], pseudo: [] };
    const re = /([a-zA-Z*][\w-]*|\*)|#([\w-]+)|\.([\w-]+)|\[([\w:-]+)(?:=["']?([^"'\]]*)["']?)?\]|:([\w-]+)(?:\(([^)]*)\))?/g;
    let m, used = 0;
    while ((m = re.exec(part))) {
      used += m[0].length;
      if (m[1]) c.tag = m[1] === "*" ? null : m[1];
      else if (m[2]) c.id = m[2];
      else if (m[3]) c.cls.push(m[3]);
      else if (m[4]) c.attr.push([m[4], m[5]]);
      else if (m[6]) c.pseudo.push([m[6], m[7]]);
    }
    if (used !== part.length) throw new Error("SyntaxError: selector " + s);
    return c;
  }));
}
const SELS = new Map();
const selOf = (s) => { s = String(s); let p = SELS.get(s); if (!p) SELS.set(s, (p = parseSel(s))); return p; };
function one(el, c) {
  if (c.tag && el.tagName.toLowerCase() !== c.tag.toLowerCase()) return false;
  if (c.id && el.getAttribute("id") !== c.id) return false;
  if (c.cls.length) { const have = (el.getAttribute("class") || "").split(/\s+/); for (const k of c.cls) if (!have.includes(k)) return false; }
  for (const [k, v] of c.attr) { const a = el.getAttribute(k); if (a == null || (v !== undefined && a !== v)) return false; }
  for (const [p, a] of c.pseudo) {
    const sib = el.parentNode ? el.parentNode.childNodes.filter((n) => n.nodeType === 1) : [el];
    if (p === "first-child") { if (sib[0] !== el) return false; }
    else if (p === "last-child") { if (sib[sib.length - 1] !== el) return false; }
    else if (p === "not") { if (el.matches(a)) return false; }
    else throw new Error("SyntaxError: :" + p);
  }
  return true;
}
function matches(el, parts) {
  let i = parts.length - 1;
  if (!one(el, parts[i])) return false;
  let n = el;
  for (i--; i >= 0; i--) {
    if (parts[i] === ">") { n = n.parentNode; if (!n || n.nodeType !== 1 || !one(n, parts[--i])) return false; }
    else {
      do n = n.parentNode; while (n && n.nodeType === 1 && !one(n, parts[i]));
      if (!n || n.nodeType !== 1) return false;
    }
  }
  return true;
}

class Element_ extends Node_ {
  constructor(doc, ns, name) {
    super(doc);
    this.nodeType = 1;
    this.namespaceURI = ns;
    this.localName = name;
    this.tagName = this.nodeName = ns === NS.html ? name.toUpperCase() : name;
    this._at = new Map();
    this.style = styleProxy();
  }
  get attributes() { return [...this._at].map(([name, value]) => ({ name, value })); }
  getAttribute(k) { return this._at.has(k) ? this._at.get(k) : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  setAttribute(k, v) { this._at.set(k, String(v)); }
  setAttributeNS(ns, k, v) { this._at.set(k.includes(":") ? k.split(":")[1] : k, String(v)); }
  removeAttribute(k) { this._at.delete(k); }
  removeAttributeNS(ns, k) { this._at.delete(k); }
  hasAttribute(k) { return this._at.has(k); }
  get id() { return this.getAttribute("id") || ""; }
  set id(v) { this.setAttribute("id", v); }
  get className() { return this.getAttribute("class") || ""; }
  set className(v) { this.setAttribute("class", v); }
  get classList() { return new ClassList(this); }
  get children() { return this.childNodes.filter((n) => n.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  get innerHTML() { return this.childNodes.map(serialise).join(""); }
  set innerHTML(v) { if (v !== "") throw new Error("innerHTML: only emptying is simulated"); this.textContent = ""; }
  replaceChildren(...c) { this.textContent = ""; for (const k of c) this.appendChild(k); }
  append(...c) { for (const k of c) this.appendChild(typeof k === "string" ? new Text_(this.ownerDocument, k) : k); }
  matches(s) { return selOf(s).some((p) => matches(this, p)); }
  closest(s) { for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (n.matches(s)) return n; return null; }
  querySelectorAll(s) {
    const p = selOf(s), out = [];
    const walk = (n) => { for (const c of n.childNodes) if (c.nodeType === 1) { if (p.some((q) => matches(c, q))) out.push(c); walk(c); } };
    walk(this);
    return out;
  }
  querySelector(s) {
    const p = selOf(s);
    const walk = (n) => { for (const c of n.childNodes) if (c.nodeType === 1) { if (p.some((q) => matches(c, q))) return c; const r = walk(c); if (r) return r; } return null; };
    return walk(this);
  }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  getElementsByClassName(t) { return this.querySelectorAll("." + t); }
  getBoundingClientRect() { return { left: 0, top: 0, right: 0, bottom: 0, width: 0, height: 0, x: 0, y: 0 }; }
  getBBox() { return { x: 0, y: 0, width: 0, height: 0 }; }
  get clientLeft() { return 0; }
  get clientTop() { return 0; }
  get offsetWidth() { return 0; }
  get offsetHeight() { return 0; }
  focus() { this.ownerDocument.activeElement = this; }
  blur() {}
  click() { this.dispatchEvent(new Ev("click", { bubbles: true })); }
  _shell() {
    const c = new Element_(this.ownerDocument, this.namespaceURI, this.localName);
    for (const [k, v] of this._at) c._at.set(k, v);
    for (const [k, v] of this.style._m) c.style.setProperty(k, v);
    return c;
  }
}

function serialise(n) {
  if (n.nodeType === 3) return n.data;
  return "<" + n.localName + n.attributes.map((a) => ` ${a.name}="${a.value}"`).join("") + (n.style.cssText ? ` style="${n.style.cssText}"` : "") + ">" +
    n.childNodes.map(serialise).join("") + "</" + n.localName + ">";
}

class Document_ extends Node_ {
  constructor() {
    super(null);
    this.nodeType = 9;
    this.nodeName = "#document";
    this.documentElement = this.appendChild(new Element_(this, NS.html, "html"));
    this.head = this.documentElement.appendChild(new Element_(this, NS.html, "head"));
    this.body = this.documentElement.appendChild(new Element_(this, NS.html, "body"));
    this.activeElement = this.body;
    this.readyState = "complete";
  }
  _up() { return this.defaultView; }
  createElement(n) { return new Element_(this, NS.html, n.toLowerCase()); }
  createElementNS(ns, n) { return new Element_(this, ns, n.includes(":") ? n.split(":")[1] : n); }
  createTextNode(t) { return new Text_(this, String(t)); }
  createDocumentFragment() { const f = new Node_(this); f.nodeType = 11; return f; }
  createEvent() { return new Ev(""); }
  getElementById(i) { return this.documentElement.querySelector("#" + i); }
  querySelector(s) { return this.documentElement.matches(s) ? this.documentElement : this.documentElement.querySelector(s); }
  querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
}

class Window_ extends Target {
  constructor(hooks) {
    super();
    this.window = this.self = this;
    this.document = new Document_();
    this.document.defaultView = this;
    this._hooks = hooks;
    this.errors = [];
    this.navigator = { userAgent: "sim", platform: "sim" };
    this.location = { href: "http://sim/", search: "", hash: "", pathname: "/", origin: "http://sim" };
    this.devicePixelRatio = 1;
    this.CustomEvent = class extends Ev {};
    this.Event = this.MouseEvent = this.CustomEvent;
    this.innerWidth = 1200;
    this.innerHeight = 800;
    this.pageXOffset = this.pageYOffset = 0;
  }
  _win() { return this; }
  _up() { return null; }
  reportError(e) { this.errors.push(e); if (this._hooks.onError) this._hooks.onError(e); }
  getComputedStyle(el) { return { getPropertyValue: (k) => el.style.getPropertyValue(k) }; }
}

module.exports = { Ev, Window_, Document_, Element_, Node_, Text_, serialise, NS };
