'use strict';
// Opens pages of visualization/ on the document of dom.js and reports what
// they show, after loading and after every event.  One job per input line:
// {page, script dir from page, files: {name: content}, events: [...]}
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const readline = require('readline');
const { Doc, El, dispatch } = require('./dom.js');
const d3lib = require('./d3.js');

// What this stand-in does not offer is told apart from what browsers do not.
class Missing extends Error { }
function strict(what) {
  return new Proxy(Object.create(null), {
    get(_, k) {
      if (typeof k !== 'string' || /^(_|on|then$|toJSON$|constructor$|inspect$|nodeType$)/.test(k)
        || k in Object.prototype) return Object.prototype[k];
      throw new Missing(what + '.' + k);
    }
  });
}
function closed(o, what) {
  return new Proxy(o, {
    get(t, k) {
      if (typeof k !== 'string' || k in t || /^_/.test(k)) return t[k];
      throw new Missing(what + '.' + k);
    }
  });
}
Object.setPrototypeOf(El.prototype, strict('element'));
Object.setPrototypeOf(Doc.prototype, strict('document'));
const GLOBALS = ['alert', 'confirm', 'prompt', 'fetch', 'XMLHttpRequest', 'requestAnimationFrame',
  'localStorage', 'sessionStorage', 'FileReader', 'URL', 'Event', 'CustomEvent', 'MouseEvent',
  'Node', 'Element', 'HTMLElement', 'SVGElement', 'navigator', 'getComputedStyle', 'setInterval',
  'clearInterval', 'performance', 'addEventListener', 'Blob', 'File', 'history', 'queueMicrotask',
  'MutationObserver', 'innerWidth', 'innerHeight', 'screen'];

const base = process.argv[2];
const cache = new Map();
function read(p) {
  if (!cache.has(p)) cache.set(p, fs.readFileSync(p, 'utf8'));
  return cache.get(p);
}
const compiled = new Map();
function script(code, name) {
  const k = name + '\n' + code;
  if (!compiled.has(k)) compiled.set(k, new vm.Script(code, { filename: name }));
  return compiled.get(k);
}

function jquery(doc) {
  class Q {
    constructor(els) { if (Object.getPrototypeOf(Q.prototype) === Object.prototype) Object.setPrototypeOf(Q.prototype, strict('jQuery')); this.els = els; this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
    each(f) { this.els.forEach((e, i) => f.call(e, i, e)); return this; }
    on(types, f) {
      for (const t of types.split(/\s+/)) this.els.forEach(e => e.addEventListener(t.split('.')[0], f));
      return this;
    }
    val(v) { if (v === undefined) return this.els[0].value; return this.each(function () { this.value = v; }); }
    html(v) { if (v === undefined) return this.els[0].innerHTML; return this.each(function () { this.innerHTML = v; }); }
    text(v) { if (v === undefined) return this.els[0].textContent; return this.each(function () { this.textContent = v; }); }
    attr(k, v) { if (v === undefined) return this.els[0].getAttribute(k); return this.each(function () { this.setAttribute(k, v); }); }
    prop(k, v) { if (v === undefined) return this.els[0][k]; return this.each(function () { this[k] = v; }); }
    addClass(c) { return this.each(function () { this.classList.add(c); }); }
    removeClass(c) { return this.each(function () { this.classList.remove(c); }); }
    toggleClass(c, on) { return this.each(function () { this.classList.toggle(c, on); }); }
    hide() { return this.each(function () { this.styles.set('display', 'none'); }); }
    show() { return this.each(function () { this.styles.delete('display'); }); }
    css() { return this; }
    empty() { return this.each(function () { this.textContent = ''; }); }
    find(s) { return new Q([].concat(...this.els.map(e => e.querySelectorAll(s)))); }
    ready(f) { f(); return this; }
    trigger(t) { return this.each(function () { dispatch(this, t); }); }
  }
  for (const t of ['change', 'click', 'mousedown', 'mouseup', 'submit', 'keyup']) {
    Q.prototype[t] = function (f) { return f ? this.on(t, f) : this.trigger(t); };
  }
  return x => typeof x === 'function' ? (x(), undefined)
    : new Q(typeof x === 'string' ? doc.querySelectorAll(x) : [x]);
}

function dump(e) {
  return [e.tagName, Object.fromEntries(e.attrs), e._text,
    e.childNodes.map(dump), Object.fromEntries(e.styles)];
}

function runJob(job) {
  const page = path.join(base, job.page);
  const doc = new Doc(read(page));
  const errors = [], loads = [], subs = [];
  const current = job.first;
  let alias;
  const load = p => {
    loads.push(p);
    const name = p.replace(/^json\//, '');
    // the file a page opens by itself, whatever its name
    if (loads.length === 1 && current !== undefined) alias = name;
    const f = name === alias ? current : name;
    return f in job.files ? JSON.parse(JSON.stringify(job.files[f])) : undefined;
  };
  const isV4 = doc.scripts.some(s => s.src && /d3\.v4/.test(s.src));
  const d3 = d3lib.make(isV4 ? 4 : 3, doc, load, strict);
  const d3all = closed(d3, 'd3');
  if (d3.layout) d3.layout = closed(d3.layout, 'd3.layout');
  if (d3.svg) d3.svg = closed(d3.svg, 'd3.svg');
  if (d3.scale) d3.scale = closed(d3.scale, 'd3.scale');
  const quiet = () => { };
  const sandbox = {
    document: doc, d3: d3all, $: jquery(doc), jQuery: jquery(doc),
    console: { log: quiet, info: quiet, warn: quiet, error: quiet, debug: quiet },
    setTimeout: f => { f(); return 0; }, clearTimeout: quiet,
    ROSLIB: {
      Ros: class { on() { } connect() { } },
      Topic: class {
        constructor(o) { this.name = o.name; }
        subscribe(f) { subs.push(f); }
      },
      Message: class { constructor(m) { Object.assign(this, m); } }
    },
    location: { hostname: 'localhost', protocol: 'file:' },
  };
  sandbox.window = sandbox; sandbox.self = sandbox;
  vm.createContext(sandbox);
  for (const g of GLOBALS) {
    Object.defineProperty(sandbox, g, { configurable: true,
      get() { throw new Missing(g); }, set(v) {
        Object.defineProperty(sandbox, g, { value: v, writable: true, configurable: true });
      } });
  }
  const attempt = f => {
    try { f(); d3.settle(); } catch (e) {
      if (e instanceof Missing || /^selector not understood/.test(e && e.message)) throw e;
      errors.push(String(e && e.message || e));
    }
  };
  for (const s of doc.scripts) {
    if (s.src && /^(https?:)?\/\//.test(s.src)) continue;
    attempt(() => {
      const p = s.src ? path.join(path.dirname(page), s.src) : page + '#inline';
      script(s.src ? read(p) : s.code, p).runInContext(sandbox);
    });
  }
  const shots = [dump(doc.documentElement)];
  const counts = [errors.length];
  // innermost group holding a label (or put somewhere), and one of its shapes
  const find = (label, shape, at) => {
    if (at !== undefined) {
      const g = doc.querySelectorAll('g').find(x => x.getAttribute('transform') === at
        && x.childNodes.some(c => c.tagName === 'text'));
      return g ? g.childNodes.find(c => c.tagName === 'circle' || c.tagName === 'rect') : null;
    }
    for (const t of doc.querySelectorAll('g > text')) {
      if (t.textContent.trim().replace(/\s+/g, ' ') === label) {
        const g = t.parentNode;
        return (shape === 'text' ? t : g.childNodes.find(
          c => c.tagName === 'circle' || c.tagName === 'rect')) || t;
      }
    }
    return null;
  };
  for (const ev of job.events) {
    attempt(() => {
      if (ev.type === 'click' || ev.type === 'mouseover') {
        const e = find(ev.label, ev.shape, ev.at);
        if (!e) throw new Error('nothing labelled ' + ev.label);
        dispatch(e, ev.type);
      } else if (ev.type === 'press') {
        const e = doc.getElementById(ev.id);
        if (!e) throw new Error('nothing called ' + ev.id);
        dispatch(e, 'click');
      } else if (ev.type === 'file') {
        const e = doc.querySelector('input[type=file]');
        e.value = 'C:\\fakepath\\' + ev.file;
        dispatch(e, 'change');
      } else if (ev.type === 'ros') {
        subs.forEach(f => f({ data: JSON.stringify(ev.data) }));
      }
    });
    shots.push(dump(doc.documentElement));
    counts.push(errors.length);
  }
  return { shots: job.all ? shots : shots.slice(-1), errors, counts, loads };
}

readline.createInterface({ input: process.stdin }).on('line', line => {
  let out;
  try { out = runJob(JSON.parse(line)); } catch (e) {
    out = e instanceof Missing || /^selector/.test(e.message) ? { skipped: e.message } : { failed: String(e && e.stack || e) };
  }
  process.stdout.write(JSON.stringify(out) + '\n');
});
