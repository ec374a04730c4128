"use strict";
/* A small React (class and function components, hooks, refs, batched updates) whose update queue is run by the simulator:
   outside an event the queue is flushed at once ("sync", React <= 17) or when the simulator says so ("batched", React 18). */
module.exports = function (window, mode) {
  const document = window.document;
  const Fragment = Symbol("Fragment");
  let owner = null, cur = null, hookIx = 0, depth = 0, flushing = false;
  let queue = new Set(), layouts = [], passives = [];
  const roots = new Map();
  const world = { renders: 0, commits: 0, mode };

  function createElement(type, props, ...kids) {
    const p = {};
    let key = null, ref = null;
    for (const k in props || {}) {
      if (k === "key") key = props[k] == null ? null : "" + props[k];
      else if (k === "ref") ref = props[k];
      else p[k] = props[k];
    }
    if (kids.length === 1) p.children = kids[0];
    else if (kids.length) p.children = kids;
    if (type && type.defaultProps) for (const k in type.defaultProps) if (p[k] === undefined) p[k] = type.defaultProps[k];
    return { $el: true, type, key, ref, props: p, owner };
  }
  const isValidElement = (x) => !!(x && x.$el);
  function flat(c, out = []) {
    if (Array.isArray(c)) c.forEach((k) => flat(k, out));
    else if (c == null || typeof c === "boolean") out.push(null);
    else out.push(c);
    return out;
  }

  class Component {
    constructor(props) { this.props = props; this.refs = {}; this.state = this.state || null; }
    setState(up, cb) {
      const i = this._i;
      if (!i) { Object.assign((this.state = this.state || {}), typeof up === "function" ? up(this.state, this.props) : up); return; }
      i.ups.push(up);
      if (cb) layouts.push(cb);
      schedule(i);
    }
    forceUpdate() { if (this._i) { this._i.force = true; schedule(this._i); } }
  }
  Component.prototype.isReactComponent = {};
  class PureComponent extends Component {}
  PureComponent.prototype.isPure = true;

  function schedule(i) {
    if (i.dead) return;
    queue.add(i);
    if (depth === 0 && !flushing && world.mode === "sync") flush();
  }
  function flush() {
    if (flushing) return;
    flushing = true;
    try {
      let n = 0;
      while (queue.size || passives.length) {
        runPassives();
        if (!queue.size) break;
        if (++n > 50) throw new Error("Maximum update depth exceeded");
        const q = [...queue].sort((a, b) => a.depth - b.depth);
        queue = new Set();
        for (const i of q) if (!i.dead && (i.ups.length || i.force || i.dirty)) { rerender(i); refit(i); }
        commit();
        if (world.mode === "sync") runPassives();
      }
    } finally { flushing = false; }
  }
  // as in React: every clean-up of a phase runs before the first new effect of it
  function phase(list) {
    for (const f of list) if (f.off) f.off();
    for (const f of list) f();
  }
  function commit() {
    world.commits++;
    const l = layouts;
    layouts = [];
    depth++;
    try { phase(l); } finally { depth--; }
  }
  function runPassives() {
    const p = passives;
    passives = [];
    phase(p);
  }
  function batched(fn, ...a) {
    depth++;
    try { return fn(...a); } finally { if (--depth === 0 && !flushing) flush(); }
  }

  // ---------------------------------------------------------------- hooks
  function hook(init) {
    const i = cur, n = hookIx++;
    if (i.hooks.length <= n) i.hooks.push(init());
    return i.hooks[n];
  }
  const same = (a, b) => a && b && a.length === b.length && a.every((x, k) => Object.is(x, b[k]));
  function useReducer(red, init, lazy) {
    const i = cur;
    const h = hook(() => {
      const h = { v: lazy ? lazy(init) : init, q: [] };
      h.set = (a) => {
        if (i.dead) return;
        if (basic(red) && !h.q.length && Object.is(red(h.v, a), h.v)) return;
        h.q.push(a);
        i.dirty = true;
        schedule(i);
      };
      return h;
    });
    for (const a of h.q) h.v = red(h.v, a);
    h.q = [];
    return [h.v, h.set];
  }
  const basicRed = (s, a) => (typeof a === "function" ? a(s) : a);
  const basic = (r) => r === basicRed;
  const useState = (init) => useReducer(basicRed, init, (x) => (typeof x === "function" ? x() : x));
  const useRef = (v) => hook(() => ({ current: v }));
  function useMemo(fn, deps) {
    const h = hook(() => ({ deps: null }));
    if (!same(h.deps, deps)) { h.v = fn(); h.deps = deps; }
    return h.v;
  }
  const useCallback = (fn, deps) => useMemo(() => fn, deps);
  function eff(kind, fn, deps) {
    const i = cur, h = hook(() => ({ deps: null, off: null, eff: true, first: true }));
    if (h.first || !deps || !same(h.deps, deps)) {
      h.first = false;
      h.deps = deps;
      const job = () => { if (!i.dead) h.off = fn(); };
      job.off = () => { if (!i.dead && typeof h.off === "function") { const o = h.off; h.off = null; o(); } };
      i.effs.push([kind, job]);       // queued behind those of the children, and behind the refs of this component's own nodes
    }
  }
  const useEffect = (fn, deps) => eff("passive", fn, deps);
  const useLayoutEffect = (fn, deps) => eff("layout", fn, deps);
  const createContext = (d) => { const c = { d, stack: [] }; c.Provider = ({ value, children }) => { c.d = value; return createElement(Fragment, null, children); }; c.Consumer = ({ children }) => children(c.d); return c; };
  const useContext = (c) => c.d;
  let ids = 0;
  const useId = () => useRef(":r" + ids++ + ":").current;
  function useImperativeHandle(ref, make, deps) {
    useLayoutEffect(() => {
      const v = make();
      if (typeof ref === "function") ref(v); else if (ref) ref.current = v;
    }, deps);
  }
  function useSyncExternalStore(sub, get) {
    const [, tick] = useReducer((n) => n + 1, 0);
    useEffect(() => sub(() => tick()), [sub]);
    return get();
  }

  // ---------------------------------------------------------------- reconciler
  const isClass = (t) => typeof t === "function" && t.prototype && t.prototype.isReactComponent;
  const kindOf = (e) => (typeof e === "string" || typeof e === "number" ? "text" : e.type === Fragment ? "frag" : typeof e.type === "string" ? "host" : isClass(e.type) ? "class" : "func");
  const EV = { onMouseOver: "mouseover", onMouseOut: "mouseout", onMouseEnter: "mouseenter", onMouseLeave: "mouseleave", onMouseDown: "mousedown", onMouseUp: "mouseup", onMouseMove: "mousemove", onClick: "click", onChange: "change", onKeyDown: "keydown", onDoubleClick: "dblclick" };

  function setProps(dom, old, now) {
    for (const k of new Set([...Object.keys(old), ...Object.keys(now)])) {
      const a = old[k], b = now[k];
      if (k === "children" || Object.is(a, b)) continue;
      if (/^on[A-Z]/.test(k)) {
        if (!dom._on) dom._on = {};
        if (!dom._on[k]) {
          dom._on[k] = { fn: null };
          const cell = dom._on[k];
          dom.addEventListener(EV[k] || k.slice(2).toLowerCase(), function (ev) { if (cell.fn) batched(cell.fn, ev); });
        }
        dom._on[k].fn = b || null;
      } else if (k === "style") {
        for (const s in a || {}) if (!b || !(s in b)) dom.style[s] = "";
        for (const s in b || {}) dom.style[s] = typeof b[s] === "number" ? b[s] + "px" : b[s];
      } else if (k === "value" || k === "checked") dom[k] = b;
      else {
        const name = k === "className" ? "class" : k === "htmlFor" ? "for" : k;
        if (b == null || b === false || typeof b === "function") dom.removeAttribute(name);
        else if (typeof b !== "object") dom.setAttribute(name, b === true ? "" : b);
      }
    }
  }
  function setRef(i, ref, v) {
    if (ref == null) return;
    if (typeof ref === "function") ref(v);
    else if (typeof ref === "object") ref.current = v;
    else if (i.el.owner) { if (v == null) delete i.el.owner.pub.refs[ref]; else i.el.owner.pub.refs[ref] = v; }
  }
  function mount(el, parent, ns) {
    const i = { el, kind: kindOf(el), parent, depth: parent ? parent.depth + 1 : 0, kids: [], ups: [], hooks: [], effs: [], ns, dead: false };
    if (i.kind === "text") { i.dom = document.createTextNode("" + el); return i; }
    if (i.kind === "host") {
      const tag = el.type;
      const n = tag === "svg" ? "http://www.w3.org/2000/svg" : ns;
      i.ns = n;
      i.dom = document.createElementNS(n, tag);
      setProps(i.dom, {}, el.props);
      reconcile(i, flat(el.props.children));
      place(i, i.dom);
      layouts.push(() => { if (!i.dead) setRef(i, el.ref, i.dom); });
      return i;
    }
    if (i.kind === "frag") { reconcile(i, flat(el.props.children)); return i; }
    if (i.kind === "class") {
      const pub = (i.pub = new el.type(el.props));
      pub.props = el.props;
      if (!pub.refs) pub.refs = {};
      pub._i = i;
      renderInto(i);
      layouts.push(() => { if (!i.dead) { setRef(i, el.ref, pub); if (pub.componentDidMount) pub.componentDidMount(); } });
      return i;
    }
    if (el.type == null || (typeof el.type !== "function" && typeof el.type !== "object")) throw new Error("Element type is invalid: " + String(el.type));
    i.fn = typeof el.type === "function" ? el.type : el.type.render;
    renderInto(i);
    return i;
  }
  function renderInto(i) {
    world.renders++;
    let out;
    const o0 = owner, c0 = cur, h0 = hookIx;
    try {
      owner = i;
      if (i.kind === "class") out = i.pub.render();
      else { cur = i; hookIx = 0; i.dirty = false; out = i.el.type.render ? i.fn(i.el.props, i.el.ref) : i.fn(i.el.props); }
    } finally { owner = o0; cur = c0; hookIx = h0; }
    if (out === undefined) throw new Error("Nothing was returned from render");
    reconcile(i, flat(out));
    const e = i.effs;
    i.effs = [];
    for (const [kind, job] of e) (kind === "layout" ? layouts : passives).push(job);
  }
  function applyState(i) {
    const pub = i.pub;
    let s = pub.state;
    const ups = i.ups;
    i.ups = [];
    for (const u of ups) {
      const d = typeof u === "function" ? u.call(pub, s, pub.props) : u;
      if (d != null) s = Object.assign({}, s, d);
    }
    return s;
  }
  function rerender(i, el) {
    if (i.kind === "class") {
      const pub = i.pub, pp = pub.props, ps = pub.state;
      const np = el ? el.props : pp, ns = applyState(i);
      const force = i.force;
      i.force = false;
      const ctor = i.el.type;
      let st = ns;
      if (ctor.getDerivedStateFromProps) st = Object.assign({}, ns, ctor.getDerivedStateFromProps(np, ns));
      let go = true;
      if (!force && pub.shouldComponentUpdate) go = pub.shouldComponentUpdate(np, st);
      if (!force && pub.isPure) go = Object.keys({ ...pp, ...np }).some((k) => pp[k] !== np[k]) || st !== ps;
      const snap = null;
      pub.props = np;
      pub.state = st;
      if (!go) return;
      renderInto(i);
      layouts.push(() => { if (!i.dead && pub.componentDidUpdate) pub.componentDidUpdate(pp, ps, snap); });
    } else renderInto(i);
  }
  function update(i, el) {
    const old = i.el;
    i.el = el;
    if (i.kind === "text") { if (i.dom.data !== "" + el) i.dom.data = "" + el; return; }
    if (i.kind === "host") {
      setProps(i.dom, old.props, el.props);
      reconcile(i, flat(el.props.children));
      place(i, i.dom);
      if (old.ref !== el.ref) layouts.push(() => { setRef(i, old.ref, null); setRef(i, el.ref, i.dom); });
      return;
    }
    if (i.kind === "frag") { reconcile(i, flat(el.props.children)); return; }
    if (i.kind === "func" && old === el && !i.dirty) return;
    if (i.kind === "func" && el.type.memo && !i.dirty && old.ref === el.ref && (el.type.eq ? el.type.eq(old.props, el.props)
      : Object.keys({ ...old.props, ...el.props }).every((k) => Object.is(old.props[k], el.props[k])))) return;
    rerender(i, el);
  }
  function reconcile(i, els) {
    const old = i.kids, byKey = new Map(), next = [];
    old.forEach((k, n) => { if (k) byKey.set(k.el.key != null ? "k" + k.el.key : "i" + n, k); });
    const used = new Set();
    els.forEach((e, n) => {
      if (e == null) { next.push(null); return; }
      const id = e.key != null ? "k" + e.key : "i" + n;
      const o = byKey.get(id);
      const k = kindOf(e);
      if (o && !used.has(o) && o.kind === k && (k === "text" || k === "frag" || o.el.type === e.type)) { used.add(o); update(o, e); next.push(o); }
      else next.push(mount(e, i, i.ns));
    });
    for (const o of old) if (o && !used.has(o)) unmount(o);
    i.kids = next;
  }
  function unmount(i) {
    i.dead = true;
    if (i.kind === "class") { if (i.pub.componentWillUnmount) i.pub.componentWillUnmount(); setRef(i, i.el.ref, null); }
    if (i.kind === "host") setRef(i, i.el.ref, null);
    for (const h of i.hooks) if (h && h.eff && typeof h.off === "function") h.off();
    for (const k of i.kids) if (k) unmount(k);
  }
  const nodes = (i, out = []) => { for (const k of i.kids) if (k) { if (k.dom) out.push(k.dom); else nodes(k, out); } return out; };
  function place(i, dom) {
    const want = nodes(i), had = i.managed || [];
    for (const n of had) if (!want.includes(n) && n.parentNode === dom) dom.removeChild(n);
    const inPlace = want.every((n, k) => n.parentNode === dom && had[k] === n) && had.length === want.length;
    if (!inPlace) want.forEach((n) => dom.appendChild(n));
    i.managed = want;
  }
  function refit(i) {          // after a nested component re-rendered: its nearest host ancestor places its nodes again
    let p = i;
    while (p && p.kind !== "host" && p.kind !== "root") p = p.parent;
    if (p) place(p, p.dom);
  }

  // ---------------------------------------------------------------- ReactDOM
  function render(el, node, cb) {
    let r = roots.get(node);
    if (!r) { r = { kind: "root", dom: node, depth: 0, kids: [], ns: node.namespaceURI, el: { key: null, props: {} } }; roots.set(node, r); }
    if (depth === 0) depth++; else depth++;
    try {
      try { reconcile(r, [el]); place(r, node); commit(); } finally { depth--; }
    } catch (e) { layouts = []; throw e; }
    if (world.mode === "sync") runPassives();
    if (depth === 0 && !flushing && world.mode === "sync") flush();
    if (cb) cb();
    return r.kids[0] ? r.kids[0].pub || r.kids[0].dom : null;
  }
  function findDOMNode(c) {
    if (c == null) return null;
    if (c.nodeType) return c;
    const i = c._i;
    const n = i.dom ? [i.dom] : nodes(i);
    return n[0] || null;
  }
  function unmountComponentAtNode(node) {
    const r = roots.get(node);
    if (!r) return false;
    for (const k of r.kids) if (k) unmount(k);
    for (const n of nodes(r)) if (n.parentNode) n.parentNode.removeChild(n);
    roots.delete(node);
    return true;
  }
  const React = {
    createElement, Component, PureComponent, Fragment, isValidElement, useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect,
    useContext, createContext, createRef: () => ({ current: null }), forwardRef: (f) => ({ render: f }), 
    memo: (f, eq) => (typeof f === "object" ? Object.assign({}, f, { memo: true, eq }) : isClass(f) ? Object.assign((p) => createElement(f, p), { memo: true, eq }) : Object.assign((p) => f(p), { memo: true, eq, defaultProps: f.defaultProps })),
    useId, useImperativeHandle, useSyncExternalStore, useDebugValue() {}, useInsertionEffect: useLayoutEffect, useDeferredValue: (v) => v,
    useTransition: () => [false, (f) => f()], startTransition: (f) => f(), lazy() { throw new Error("lazy is not simulated"); },
    cloneElement: (e, p, ...k) => ({ ...e, props: { ...e.props, ...p, ...(k.length ? { children: k.length === 1 ? k[0] : k } : {}) } }),
    Children: { map: (c, f) => flat(c).map(f), forEach: (c, f) => flat(c).forEach(f), toArray: (c) => flat(c).filter((x) => x != null), count: (c) => flat(c).length, only: (c) => flat(c)[0] },
    StrictMode: Fragment, version: "sim",
  };
  const ReactDOM = { render, findDOMNode, unmountComponentAtNode, unstable_batchedUpdates: batched,
    createRoot: (n) => ({ render: (e) => render(e, n), unmount: () => unmountComponentAtNode(n) }), createPortal: (c) => createElement(Fragment, null, c) };
  return { React, ReactDOM, flush, pending: () => queue.size > 0 || passives.length > 0, world, batched };
};
