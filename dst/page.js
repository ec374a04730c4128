// Reads {docs:[html]} on stdin; loads each into one page in order, runs its scripts, prints what happened per document.
'use strict';
const vm = require('vm');
const docs = JSON.parse(require('fs').readFileSync(0, 'utf8')).docs;

function entities(s) {
  return s.replace(/&(lt|gt|amp|quot|apos|#39|#x27);/g, (m, n) => ({lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", '#39': "'", '#x27': "'"}[n]));
}
// end of a script element's text, following the HTML tokenizer's script data states
function scriptEnd(h, i) {
  let escaped = false, dbl = false;
  while (i < h.length) {
    if (!escaped && h.startsWith('<!--', i)) { escaped = true; i += 4; continue; }
    if (escaped && h.startsWith('-->', i)) { escaped = dbl = false; i += 3; continue; }
    if (escaped && !dbl && /^<script[\s\/>]/i.test(h.slice(i, i + 8))) { dbl = true; i += 7; continue; }
    if (/^<\/script[\s\/>]/i.test(h.slice(i, i + 9))) {
      if (dbl) { dbl = false; i += 8; continue; }
      return i;
    }
    i++;
  }
  return -1;
}
function parse(h) {
  const out = [];      // {el} or {script}
  let i = 0;
  while (i < h.length) {
    if (h.startsWith('<!--', i)) { const e = h.indexOf('-->', i + 4); if (e < 0) break; i = e + 3; continue; }
    const m = /^<([a-zA-Z][a-zA-Z0-9-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?)*)\s*\/?>/.exec(h.slice(i));
    if (!m) { i++; continue; }
    const tag = m[1].toLowerCase(), attrs = {};
    const re = /([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g;
    let a;
    while ((a = re.exec(m[2]))) { const v = a[2] ?? a[3] ?? a[4] ?? ''; if (!(a[1].toLowerCase() in attrs)) attrs[a[1].toLowerCase()] = entities(v); }
    i += m[0].length;
    const el = {tagName: tag.toUpperCase(), id: attrs.id || '', attrs, textContent: '', dataset: {},
                getAttribute(n) { return n in attrs ? attrs[n] : null; }};
    for (const k in attrs) if (k.startsWith('data-')) el.dataset[k.slice(5).replace(/-(.)/g, (x, c) => c.toUpperCase())] = attrs[k];
    out.push(el);
    if (tag === 'script') {
      const e = scriptEnd(h, i);
      if (e < 0) { el.textContent = h.slice(i); el.unterminated = true; break; }
      el.textContent = h.slice(i, e);
      i = h.indexOf('>', e) + 1;
    }
  }
  return out;
}
const page = [];
function find(sel) {
  let m;
  sel = String(sel);
  if ((m = /^([a-zA-Z]*)#(-?[A-Za-z_\u0080-\uffff][\w\-\u0080-\uffff]*)$/.exec(sel))) return page.filter(e => e.id === m[2] && (!m[1] || e.tagName === m[1].toUpperCase()));
  if ((m = /^([a-zA-Z]*)\.(-?[A-Za-z_][\w\-]*)$/.exec(sel))) return page.filter(e => (e.attrs.class || '').split(/\s+/).includes(m[2]));
  if ((m = /^([a-zA-Z]*)\[([\w-]+)=(?:"([^"]*)"|'([^']*)')\]$/.exec(sel))) return page.filter(e => e.getAttribute(m[2]) === (m[3] ?? m[4]));
  if (/^[a-zA-Z]+$/.test(sel)) return page.filter(e => e.tagName === sel.toUpperCase());
  throw new SyntaxError('not a valid selector: ' + sel);
}
const res = [];
for (const h of docs) {
  const r = {calls: [], errors: [], ids: [], scripts: 0};
  let els = [];
  try { els = parse(h); } catch (e) { r.errors.push('parse ' + e); }
  page.push(...els);
  r.ids = els.filter(e => e.id).map(e => e.id);
  const sandbox = {console: {log() {}, error() {}, warn() {}}};
  sandbox.window = sandbox; sandbox.self = sandbox; sandbox.globalThis = sandbox;
  const doc = {querySelector: s => find(s)[0] || null, querySelectorAll: s => find(s), getElementById: i => page.find(e => e.id === i) || null};
  sandbox.document = doc;
  sandbox.attitudeUI = (el, data) => {
    r.calls.push({own: els.includes(el), id: el ? el.id : null, script: el ? el.tagName === 'SCRIPT' : false, data: JSON.stringify(data, (k, v) => typeof v === "number" && !isFinite(v) ? {"\u0000num": String(v)} : v)});
  };
  const ctx = vm.createContext(sandbox);
  for (const el of els) {
    if (el.tagName !== 'SCRIPT') continue;
    const ty = (el.attrs.type || '').toLowerCase();
    if (ty && !/javascript|ecmascript|module/.test(ty)) continue;
    r.scripts++;
    doc.currentScript = el;
    try { vm.runInContext(el.textContent, ctx, {timeout: 5000}); } catch (e) { r.errors.push(String(e).slice(0, 200)); }
  }
  res.push(r);
}
process.stdout.write(JSON.stringify(res));
