'use strict';
// A small document: elements, attributes, text, selectors, listeners.

const VOID = new Set(['input', 'br', 'meta', 'link', 'img', 'hr']);

class El {
  constructor(tag, doc) {
    this.tagName = tag; this.ownerDocument = doc;
    this.attrs = new Map(); this.styles = new Map();
    this.childNodes = []; this.parentNode = null;
    this.listeners = []; this._text = '';
  }
  get nodeName() { return this.tagName; }
  get id() { return this.getAttribute('id') || ''; }
  get className() { return this.getAttribute('class') || ''; }
  set className(v) { this.setAttribute('class', v); }
  get children() { return this.childNodes; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get firstElementChild() { return this.firstChild; }
  get nextSibling() {
    const s = this.parentNode.childNodes;
    return s[s.indexOf(this) + 1] || null;
  }
  get nextElementSibling() { return this.nextSibling; }
  get previousSibling() {
    const s = this.parentNode.childNodes;
    return s[s.indexOf(this) - 1] || null;
  }
  get style() {
    const m = this.styles;
    return new Proxy({}, {
      get: (_, k) => k === 'setProperty' ? (n, v) => m.set(n, String(v)) :
        k === 'removeProperty' ? n => m.delete(n) :
          k === 'getPropertyValue' ? n => m.get(n) || '' : m.get(k) || '',
      set: (_, k, v) => { m.set(k, String(v)); return true; }
    });
  }
  get classList() {
    const el = this;
    const get = () => el.className.split(/\s+/).filter(x => x);
    return {
      add: (...c) => { el.className = [...new Set([...get(), ...c])].join(' '); },
      remove: (...c) => { el.className = get().filter(x => !c.includes(x)).join(' '); },
      contains: c => get().includes(c),
      toggle: (c, on) => {
        const put = on === undefined ? !get().includes(c) : on;
        el.className = get().filter(x => x !== c).concat(put ? [c] : []).join(' ');
        return put;
      }
    };
  }
  getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
  setAttribute(k, v) { this.attrs.set(k, String(v)); }
  setAttributeNS(ns, k, v) { this.setAttribute(k, v); }
  removeAttribute(k) { this.attrs.delete(k); }
  hasAttribute(k) { return this.attrs.has(k); }
  get textContent() {
    return this._text + this.childNodes.map(c => c.textContent).join('');
  }
  set textContent(v) { this.clear(); this._text = v == null ? '' : String(v); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.textContent; }
  set innerHTML(v) { this.textContent = String(v).replace(/<[^>]*>/g, ''); }
  get value() { return this._value === undefined ? '' : this._value; }
  set value(v) { this._value = v; }
  clear() { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; }
  appendChild(c) { return this.insertBefore(c, null); }
  insertBefore(c, ref) {
    if (c.parentNode) c.parentNode.removeChild(c);
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    this.childNodes.splice(i, 0, c); c.parentNode = this; return c;
  }
  removeChild(c) {
    this.childNodes.splice(this.childNodes.indexOf(c), 1); c.parentNode = null; return c;
  }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  *walk() { for (const c of this.childNodes) { yield c; yield* c.walk(); } }
  matches(sel) { return parseSel(sel).some(s => matchComplex(this, s)); }
  querySelectorAll(sel) {
    const p = parseSel(sel);
    return [...this.walk()].filter(e => p.some(s => matchComplex(e, s)));
  }
  querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
  getElementsByClassName(c) { return this.querySelectorAll('.' + c); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  addEventListener(type, fn) { this.listeners.push({ type, name: {}, fn }); }
  getBBox() {
    return { x: 0, y: 0, width: 40 * this.childNodes.length, height: 30 };
  }
  getBoundingClientRect() { return { left: 0, top: 0, width: 100, height: 100 }; }
  getComputedTextLength() { return 7 * this.textContent.length; }
  click() { dispatch(this, 'click'); }
  contains(e) { for (; e; e = e.parentNode) if (e === this) return true; return false; }
}

function parseSel(s) {
  return splitTop(s, ',').map(x => {
    const parts = [];
    let comb = ' ';
    for (const t of x.trim().replace(/\s*>\s*/g, ' > ').split(/\s+(?![^(]*\))/)) {
      if (t === '>') { comb = '>'; continue; }
      parts.push([comb, compound(t)]); comb = ' ';
    }
    return parts;
  });
}
function splitTop(s, sep) {
  const out = ['']; let depth = 0;
  for (const ch of s) {
    if (ch === '(') depth++;
    if (ch === ')') depth--;
    if (ch === sep && !depth) out.push(''); else out[out.length - 1] += ch;
  }
  return out;
}
function compound(t) {
  const c = { tag: null, tests: [] };
  const re = /^(?:([a-zA-Z*][\w:-]*?)(?=$|[.#:[])|\.([\w-]+)|#([\w-]+)|:not\(([^)]*)\)|:first-child|:last-child|\[([\w-]+)(?:=['"]?([^'"\]]*)['"]?)?\])/;
  while (t) {
    const m = re.exec(t);
    if (!m) throw new Error('selector not understood: ' + t);
    if (m[1]) { if (m[1] !== '*') c.tag = m[1]; }
    else if (m[2]) c.tests.push(e => e.className.split(/\s+/).includes(m[2]));
    else if (m[3]) c.tests.push(e => e.id === m[3]);
    else if (m[4]) { const n = compound(m[4]); c.tests.push(e => !matchOne(e, n)); }
    else if (m[0] === ':first-child') c.tests.push(e => e.parentNode && e.parentNode.firstChild === e);
    else if (m[0] === ':last-child') c.tests.push(e => e.parentNode && e.parentNode.lastChild === e);
    else c.tests.push(e => m[6] === undefined ? e.hasAttribute(m[5]) : e.getAttribute(m[5]) === m[6]);
    t = t.slice(m[0].length);
  }
  return c;
}
function matchOne(e, c) {
  return (!c.tag || e.tagName === c.tag) && c.tests.every(f => f(e));
}
function matchComplex(e, parts) {
  const i = parts.length - 1;
  if (!matchOne(e, parts[i][1])) return false;
  if (i === 0) return true;
  const rest = parts.slice(0, i);
  if (parts[i][0] === '>') return !!e.parentNode && matchComplex(e.parentNode, rest);
  for (let p = e.parentNode; p; p = p.parentNode) if (matchComplex(p, rest)) return true;
  return false;
}

function parseHTML(text, doc) {
  const root = new El('html', doc);
  const stack = [root], scripts = [];
  text = text.replace(/<!--[\s\S]*?-->/g, '').replace(/<!DOCTYPE[^>]*>/i, '');
  const re = /<script([^>]*)>([\s\S]*?)<\/script>|<style[\s\S]*?<\/style>|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|([^<]+)/g;
  let m;
  const attrs = s => {
    const out = [];
    const ra = /([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
    let a;
    while ((a = ra.exec(s))) out.push([a[1], a[2] || a[3] || a[4] || '']);
    return out;
  };
  while ((m = re.exec(text))) {
    const top = stack[stack.length - 1];
    if (m[1] !== undefined) {
      const src = attrs(m[1]).find(a => a[0] === 'src');
      scripts.push(src ? { src: src[1] } : { code: m[2] });
    } else if (m[3]) {
      for (let i = stack.length - 1; i > 0; i--) {
        if (stack[i].tagName === m[3]) { stack.length = i; break; }
      }
    } else if (m[4]) {
      if (m[4] === 'html') continue;
      const e = new El(m[4], doc);
      for (const [k, v] of attrs(m[5])) e.setAttribute(k, v);
      top.appendChild(e);
      if (!m[6] && !VOID.has(m[4])) stack.push(e);
    } else if (m[7] && m[7].trim()) top._text += m[7].trim();
  }
  return { root, scripts };
}

class Doc {
  constructor(html) {
    const p = parseHTML(html, this);
    this.documentElement = p.root; this.scripts = p.scripts;
    this.nodeType = 9;
  }
  get body() { return this.documentElement.querySelector('body'); }
  createElement(t) { return new El(t, this); }
  createElementNS(ns, t) { return new El(t, this); }
  getElementById(i) { return this.documentElement.querySelector('#' + i); }
  querySelector(s) { return this.documentElement.querySelector(s); }
  querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
  getElementsByClassName(c) { return this.documentElement.getElementsByClassName(c); }
  getElementsByTagName(c) { return this.documentElement.getElementsByTagName(c); }
  addEventListener() { }
}

// Event with bubbling; `around` is called with (listener, element) when given.
function dispatch(el, type, around) {
  let stopped = false;
  const ev = {
    type, target: el, defaultPrevented: false,
    stopPropagation() { stopped = true; },
    stopImmediatePropagation() { stopped = true; },
    preventDefault() { this.defaultPrevented = true; }
  };
  for (let e = el; e && !stopped; e = e.parentNode) {
    ev.currentTarget = e;
    if (typeof e['on' + type] === 'function') e['on' + type](ev);
    for (const l of e.listeners.slice()) {
      if (l.type === type) l.fn.call(e, ev);
    }
  }
  return ev;
}

module.exports = { El, Doc, dispatch };
