'use strict';
// Stand-in for the parts of d3 (versions 3 and 4) that draw documents: joins,
// selections, transitions (run to their end by `settle`), layouts, scales.
const { El } = require('./dom.js');

function make(version, doc, load, strict) {
  const v3 = version === 3;
  const d3 = { version: v3 ? '3.5.17' : '4.13.0', event: null };
  const pending = [];      // of functions
  let transitions = 0;
  const arr = x => Array.prototype.slice.call(x);
  const local = n => n.replace(/^[a-z]+:(?=[a-z])/, '');
  const create = n => typeof n === 'function' ? n : () => doc.createElement(local(n));

  class Selection {
    constructor(groups, parents) { this._groups = groups; this._parents = parents; }
    _each(f) {
      this._groups.forEach((g, j) => {
        for (let i = 0; i < g.length; i++) {
          if (g[i]) f(g[i], g[i].__data__, i, v3 ? j : g);
        }
      });
      return this;
    }
    _derive(fn) {
      return new this.constructor(this._groups.map((g, j) => g.map(
        (n, i) => n ? fn(n, i, j, g) : null)), this._parents);
    }
    select(s) {
      return this._derive((n, i, j, g) => {
        const c = typeof s === 'function' ? s.call(n, n.__data__, i, v3 ? j : g)
          : n.querySelector(s);
        if (c && '__data__' in n) c.__data__ = n.__data__;
        return c || null;
      });
    }
    selectAll(s) {
      const groups = [], parents = [];
      this._groups.forEach((g, j) => g.forEach((n, i) => {
        if (!n) return;
        groups.push(arr(typeof s === 'function' ? s.call(n, n.__data__, i, v3 ? j : g)
          : n.querySelectorAll(s)));
        parents.push(n);
      }));
      return new Selection(groups, parents);
    }
    filter(f) {
      const test = typeof f === 'function' ? f : function () { return this.matches(f); };
      return new this.constructor(this._groups.map((g, j) => {
        const out = [];
        g.forEach((n, i) => { if (n && test.call(n, n.__data__, i, v3 ? j : g)) out.push(n); });
        return out;
      }), this._parents);
    }
    each(f) { return this._each((n, d, i, g) => f.call(n, d, i, g)); }
    call(f, ...a) { f(this, ...a); return this; }
    node() { for (const g of this._groups) for (const n of g) if (n) return n; return null; }
    nodes() { const out = []; this._each(n => out.push(n)); return out; }
    size() { return this.nodes().length; }
    empty() { return !this.node(); }
    _set(value, f) {
      return this._each((n, d, i, g) => f(n, typeof value === 'function'
        ? value.call(n, d, i, g) : value));
    }
    attr(k, v) {
      if (typeof k === 'object') { for (const x in k) this.attr(x, k[x]); return this; }
      k = local(k);
      if (arguments.length < 2) return this.node().getAttribute(k);
      return this._set(v, (n, x) => x == null ? n.removeAttribute(k) : n.setAttribute(k, x));
    }
    style(k, v) {
      if (typeof k === 'object') { for (const x in k) this.style(x, k[x]); return this; }
      if (arguments.length < 2) return this.node().styles.get(k);
      return this._set(v, (n, x) => x == null ? n.styles.delete(k) : n.styles.set(k, String(x)));
    }
    property(k, v) {
      if (arguments.length < 2) return this.node()[k];
      return this._set(v, (n, x) => { if (x == null) delete n[k]; else n[k] = x; });
    }
    classed(k, v) {
      if (typeof k === 'object') { for (const x in k) this.classed(x, k[x]); return this; }
      const names = k.trim().split(/\s+/);
      if (arguments.length < 2) return names.every(c => this.node().classList.contains(c));
      return this._set(v, (n, x) => names.forEach(c => n.classList.toggle(c, !!x)));
    }
    text(v) {
      if (!arguments.length) return this.node().textContent;
      return this._set(v, (n, x) => { n.textContent = x; });
    }
    html(v) {
      if (!arguments.length) return this.node().innerHTML;
      return this._set(v, (n, x) => { n.innerHTML = x == null ? '' : x; });
    }
    append(name) {
      const c = create(name);
      return this.select(function () {
        return this.appendChild(c.apply(this, arguments));
      });
    }
    insert(name, before) {
      const c = create(name);
      return this.select(function (...a) {
        const ref = before == null ? null : typeof before === 'function'
          ? before.apply(this, a) : this.querySelector(before);
        // as in browsers the reference has to be a child
        if (ref && ref.parentNode !== this) throw new Error('insert: not a child');
        return this.insertBefore(c.apply(this, a), ref);
      });
    }
    remove() { return this._each(n => n.remove()); }
    raise() { return this._each(n => n.parentNode && n.parentNode.appendChild(n)); }
    lower() { return this._each(n => n.parentNode && n.parentNode.insertBefore(n, n.parentNode.firstChild)); }
    order() { return this; }
    datum(v) {
      if (!arguments.length) return this.node().__data__;
      return this._set(v, (n, x) => { n.__data__ = x; });
    }
    data(value, key) {
      if (!arguments.length) {
        const out = []; this._each((n, d) => out.push(d)); return out;
      }
      const update = [], enter = [], exit = [];
      this._groups.forEach((g, j) => {
        const parent = this._parents[j] || {};
        const data = arr(typeof value === 'function'
          ? value.call(parent, parent.__data__, j, this._parents) : value);
        const u = new Array(data.length).fill(null), e = u.slice();
        const x = new Array(g.length).fill(null);
        const fresh = d => ({ __enter__: true, __data__: d, _parent: parent });
        if (key) {
          const byKey = new Map();
          g.forEach((n, i) => {
            if (!n) return;
            const k = '$' + key.call(n, n.__data__, i, v3 ? j : g);
            if (byKey.has(k)) x[i] = n; else byKey.set(k, n);
          });
          const used = new Set();
          data.forEach((d, i) => {
            const k = '$' + key.call(parent, d, i, data);
            const n = byKey.get(k);
            if (n && !used.has(k)) { u[i] = n; n.__data__ = d; }
            else if (!v3 || !used.has(k)) e[i] = fresh(d);
            used.add(k);
          });
          g.forEach((n, i) => {
            if (n && !x[i] && !u.includes(n)) x[i] = n;
          });
        } else {
          data.forEach((d, i) => {
            if (g[i]) { u[i] = g[i]; g[i].__data__ = d; } else e[i] = fresh(d);
          });
          for (let i = data.length; i < g.length; i++) x[i] = g[i];
        }
        update.push(u); enter.push(e); exit.push(x);
      });
      const sel = new Selection(update, this._parents);
      sel._enter = new Enter(enter, this._parents, update);
      sel._exit = new Selection(exit, this._parents);
      return sel;
    }
    enter() { return this._enter || new Enter(this._groups.map(g => g.map(() => null)), this._parents, this._groups); }
    exit() { return this._exit || new Selection(this._groups.map(g => g.map(() => null)), this._parents); }
    merge(other) {
      return new Selection(this._groups.map((g, j) => g.map(
        (n, i) => n || (other._groups[j] || [])[i] || null)), this._parents);
    }
    on(types, fn) {
      if (arguments.length < 2) {
        const l = this.node().listeners.find(x => x.name === types);
        return l && l.raw;
      }
      for (const name of types.trim().split(/\s+/)) {
        const type = name.split('.')[0];
        this._each((n, d, i, g) => {
          n.listeners = n.listeners.filter(l => l.name !== name);
          if (fn) {
            n.listeners.push({
              type, name, raw: fn, fn: function (ev) {
                const before = d3.event;
                d3.event = Object.assign({ sourceEvent: ev }, ev);
                try { fn.call(n, n.__data__, i, g); } finally { d3.event = before; }
              }
            });
          }
        });
      }
      return this;
    }
    dispatch(type) { return this._each(n => require('./dom.js').dispatch(n, type)); }
    interrupt() { return this._each(n => { n.__transition = null; }); }
    transition() { return Transition.of(this); }
    selection() { return this; }
  }

  if (strict) Object.setPrototypeOf(Selection.prototype, strict('selection'));

  // entering elements, not yet in the document
  class Enter extends Selection {
    constructor(groups, parents, update) { super(groups, parents); this._update = update; }
    _derive(fn) {
      return new Selection(this._groups.map((g, j) => g.map((e, i) => {
        if (!e) return null;
        const n = fn(e, i, j, g);
        if (n && v3) this._update[j][i] = n;   // version 3 only
        return n;
      })), this._parents);
    }
    select(s) {
      return this._derive((e, i, j, g) => {
        const c = s.call(e._parent, e.__data__, i, v3 ? j : g);
        if (c) c.__data__ = e.__data__;
        return c;
      });
    }
    append(name) {
      const c = create(name);
      return this.select(function () { return this.appendChild(c.apply(this, arguments)); });
    }
    insert(name, before) {
      const c = create(name);
      return this.select(function (...a) {
        const ref = before == null ? null : typeof before === 'function'
          ? before.apply(this, a) : this.querySelector(before);
        if (ref && ref.parentNode !== this) throw new Error('insert: not a child');
        return this.insertBefore(c.apply(this, a), ref);
      });
    }
  }

  // Changes wait until `settle`; of the transitions of an element only the
  // one started last goes on.
  class Transition extends Selection {
    static of(sel) {
      const t = new Transition(sel._groups, sel._parents);
      t._start(++transitions, { live: true });
      return t;
    }
    _start(id, state) {
      this._id = id; this._state = state;
      this._groups.forEach(g => g.forEach(n => { if (n) n.__transition = id; }));
      return this;
    }
    _later(f) {
      pending.push(() => this._each((n, d, i, g) => {
        if (n.__transition === this._id) f(n, d, i, g);
      }));
      return this;
    }
    _lateSet(value, f) {
      return this._later((n, d, i, g) => f(n, typeof value === 'function'
        ? value.call(n, d, i, g) : value));
    }
    select(s) { return Selection.prototype.select.call(this, s)._start(this._id, this._state); }
    selectAll(s) {
      const x = Selection.prototype.selectAll.call(this, s);
      return new Transition(x._groups, x._parents)._start(this._id, this._state);
    }
    filter(f) { return Selection.prototype.filter.call(this, f)._start(this._id, this._state); }
    duration() { return this; }
    delay() { return this; }
    ease() { return this; }
    attr(k, v) {
      if (typeof k === 'object') { for (const x in k) this.attr(x, k[x]); return this; }
      k = local(k);
      return this._lateSet(v, (n, x) => x == null ? n.removeAttribute(k) : n.setAttribute(k, x));
    }
    style(k, v) { return this._lateSet(v, (n, x) => x == null ? n.styles.delete(k) : n.styles.set(k, String(x))); }
    text(v) { return this._lateSet(v, (n, x) => { n.textContent = x; }); }
    attrTween(k, f) { return this._later((n, d, i, g) => n.setAttribute(k, f.call(n, d, i, g)(1))); }
    styleTween(k, f) { return this._later((n, d, i, g) => n.styles.set(k, String(f.call(n, d, i, g)(1)))); }
    tween(k, f) { return this._later((n, d, i, g) => f.call(n, d, i, g).call(n, 1)); }
    remove() { return this._later(n => n.remove()); }
    each(type, f) {
      if (typeof type === 'function') return Selection.prototype.each.call(this, type);
      return this.on(type, f);
    }
    on(type, f) {
      pending[type.split('.')[0] === 'start' ? 'unshift' : 'push'](() => {
        pending.push(() => this._each((n, d, i, g) => {
          if (n.__transition === this._id && type.split('.')[0] !== 'interrupt') f.call(n, d, i, g);
        }));
      });
      return this;
    }
    transition() {
      const t = new Transition(this._groups, this._parents);
      t._id = this._id; t._state = this._state;
      return t;
    }
    selection() { return new Selection(this._groups, this._parents); }
  }

  d3.settle = () => {
    for (let n = 0; pending.length; n++) {
      if (n > 100000) throw new Error('never settles');
      pending.shift()();
    }
  };

  const wrap = s => typeof s === 'string' ? doc.querySelector(s) : s;
  d3.select = s => new Selection([[wrap(s)]], [doc.documentElement]);
  d3.selectAll = s => new Selection([arr(typeof s === 'string'
    ? doc.querySelectorAll(s) : s)], [doc.documentElement]);
  d3.selection = () => d3.select(doc.documentElement);
  d3.selection.prototype = Selection.prototype;

  // numbers
  const nums = (a, f) => arr(a).map(f || (x => x)).filter(x => x != null && x >= x);
  const best = c => (a, f) => nums(a, f && ((d, i) => f(d, i, a))).reduce(
    (m, x) => m === undefined || c(x, m) ? x : m, undefined);
  d3.max = best((x, m) => x > m);
  d3.min = best((x, m) => x < m);
  d3.extent = (a, f) => [d3.min(a, f), d3.max(a, f)];
  d3.sum = (a, f) => nums(a, f).reduce((m, x) => m + +x, 0);
  d3.mean = (a, f) => nums(a, f).length ? d3.sum(a, f) / nums(a, f).length : undefined;
  d3.range = (a, b, s) => {
    if (b === undefined) { b = a; a = 0; }
    const out = []; for (let x = a; x < b; x += s || 1) out.push(x); return out;
  };
  d3.ascending = (a, b) => a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN;
  d3.descending = (a, b) => d3.ascending(b, a);
  d3.merge = a => [].concat(...arr(a));
  d3.zip = (...a) => a[0].map((_, i) => a.map(x => x[i]));
  d3.keys = o => Object.keys(o);
  d3.values = o => Object.keys(o).map(k => o[k]);
  d3.entries = o => Object.keys(o).map(k => ({ key: k, value: o[k] }));
  d3.functor = f => typeof f === 'function' ? f : () => f;
  class D3Map {
    constructor() { this.m = new Map(); }
    get(k) { return this.m.get('$' + k); }
    set(k, v) { this.m.set('$' + k, v); return v3 ? v : this; }
    has(k) { return this.m.has('$' + k); }
    remove(k) { return this.m.delete('$' + k); }
    keys() { return [...this.m.keys()].map(k => k.slice(1)); }
    values() { return [...this.m.values()]; }
    entries() { return this.keys().map(k => ({ key: k, value: this.get(k) })); }
    size() { return this.m.size; }
    empty() { return !this.m.size; }
    forEach(f) { this.m.forEach((v, k) => v3 ? f(k.slice(1), v) : f(v, k.slice(1))); }
    each(f) { this.m.forEach((v, k) => f(v, k.slice(1))); }
  }
  d3.map = (o, f) => {
    const m = new D3Map();
    if (Array.isArray(o)) o.forEach((x, i) => m.set(f ? f.call(o, x, i) : i, x));
    else if (o) Object.keys(o).forEach(k => m.set(k, o[k]));
    return m;
  };

  // files
  d3.json = (path, cb) => {
    pending.push(() => {
      const r = load(path);
      if (r === undefined) cb(new Error('no file ' + path));
      else cb(null, r);
    });
  };

  // behaviours
  function behaviour(extra) {
    const handlers = {};
    const b = function (sel) { sel.__behaviour = b; return sel; };
    b.on = (t, f) => { if (f === undefined) return handlers[t]; handlers[t] = f; return b; };
    b._fire = (t, ev, self, d) => {
      if (!handlers[t]) return;
      const before = d3.event; d3.event = ev;
      try { handlers[t].call(self, d); } finally { d3.event = before; }
    };
    for (const k of extra) {
      let v;
      b[k] = function (x) { if (!arguments.length) return v; v = x; return b; };
    }
    return b;
  }
  function zoom() {
    const b = behaviour(['scaleExtent', 'center', 'size', 'x', 'y', 'translateExtent', 'extent', 'filter', 'wheelDelta']);
    let t = [0, 0], k = 1;
    b.translate = function (x) { if (!arguments.length) return t; t = x; return b; };
    b.scale = function (x) { if (!arguments.length) return k; k = x; return b; };
    b.event = () => b._fire('zoom', { translate: t, scale: k, transform: { x: t[0], y: t[1], k } });
    b.transform = (sel, tr) => b._fire('zoom', { transform: tr });
    d3._zooms.push(b);
    return b;
  }
  d3._zooms = [];

  // tidy trees: parents in the middle of their children, nothing overlaps
  function place(root, kids, sx, sy) {
    let leaf = 0, deep = 0, nodes = [];
    (function rec(n, depth) {
      nodes.push(n); deep = Math.max(deep, depth);
      const c = kids(n) || [];
      c.forEach(x => rec(x, depth + 1));
      // no two nodes of a level share a position: leaves count up
      n.x = c.length ? (c[0].x + c[c.length - 1].x) / 2 : leaf++;
      n.y = depth;
    })(root, 0);
    nodes.forEach(n => { n.x = sx(n.x, leaf); n.y = sy(n.y, deep); });
  }
  if (v3) {
    d3.layout = {
      tree() {
        let size = [1, 1], fixed = null, kids = d => d.children;
        const t = root => t.nodes(root);
        t.nodes = root => {
          const stack = [root], nodes = [];
          root.depth = 0;
          while (stack.length) {
            const n = stack.pop();
            nodes.push(n);
            const c = kids.call(t, n, n.depth);
            if (c && c.length) {
              for (let i = c.length - 1; i >= 0; i--) {
                stack.push(c[i]); c[i].parent = n; c[i].depth = n.depth + 1;
              }
              n.children = c;
            } else delete n.children;
          }
          place(root, n => n.children,
            fixed ? x => x * fixed[0] : (x, k) => (x + .5) / k * size[0],
            fixed ? y => y * fixed[1] : (y, k) => k ? y / k * size[1] : 0);
          if (fixed) { const x0 = root.x; nodes.forEach(n => { n.x -= x0; }); }
          return nodes;
        };
        t.links = nodes => d3.merge(nodes.map(p => (p.children || []).map(
          c => ({ source: p, target: c }))));
        t.size = function (x) { if (!arguments.length) return fixed ? null : size; size = x; fixed = null; return t; };
        t.nodeSize = function (x) { if (!arguments.length) return fixed; fixed = x; return t; };
        t.children = function (f) { if (!arguments.length) return kids; kids = f; return t; };
        t.separation = t.sort = t.value = () => t;
        return t;
      },
      force() {
        const f = {}, handlers = {};
        let nodes = [], links = [], dist = 20;
        f.nodes = function (x) { if (!arguments.length) return nodes; nodes = x; return f; };
        f.links = function (x) { if (!arguments.length) return links; links = x; return f; };
        f.linkDistance = function (x) { dist = x; return f; };
        for (const k of ['size', 'linkStrength', 'friction', 'charge', 'gravity', 'theta', 'alpha', 'distance', 'chargeDistance']) f[k] = () => f;
        f.on = (t, h) => { handlers[t] = h; return f; };
        f.start = () => {
          nodes.forEach((n, i) => {
            n.index = i;
            if (isNaN(n.x)) n.x = 10 + 37 * i;
            if (isNaN(n.y)) n.y = 20 + (53 * i * i) % 541;
            n.px = n.x; n.py = n.y;
          });
          links.forEach((l, i) => {
            if (typeof l.source === 'number') l.source = nodes[l.source];
            if (typeof l.target === 'number') l.target = nodes[l.target];
            if (!nodes.includes(l.source) || !nodes.includes(l.target)) throw new Error('link of an unknown node');
            if (typeof dist === 'function') dist.call(f, l, i);
          });
          for (const t of ['start', 'tick', 'tick', 'end']) {
            pending.push(() => {
              if (t === 'tick') nodes.forEach(n => { if (!n.fixed) { n.x += 1; n.y += 2; } });
              if (handlers[t]) handlers[t]({ type: t, alpha: .1 });
            });
          }
          return f;
        };
        f.resume = f.stop = f.tick = () => f;
        f.drag = () => behaviour(['origin']);
        return f;
      }
    };
    d3.behavior = { zoom, drag: () => behaviour(['origin']) };
    d3.svg = {
      diagonal() {
        let s = d => d.source, t = d => d.target, proj = d => [d.x, d.y];
        function g(d, i) {
          const a = s.call(this, d, i), b = t.call(this, d, i), m = (a.y + b.y) / 2;
          const p = [a, { x: a.x, y: m }, { x: b.x, y: m }, b].map(x => proj(x));
          return 'M' + p[0] + 'C' + p[1] + ' ' + p[2] + ' ' + p[3];
        }
        g.source = f => { s = d3.functor(f); return g; };
        g.target = f => { t = d3.functor(f); return g; };
        g.projection = f => { proj = f; return g; };
        return g;
      }
    };
    d3.scale = { ordinal: scaleOrdinal, linear: scaleLinear };
  } else {
    class Node {
      constructor(data) { this.data = data; this.depth = 0; this.height = 0; this.parent = null; }
      each(f) {
        let level = [this];
        while (level.length) {
          const next = [];
          for (const n of level) { f(n); if (n.children) next.push(...n.children); }
          level = next;
        }
        return this;
      }
      eachBefore(f) { f(this); (this.children || []).forEach(c => c.eachBefore(f)); return this; }
      eachAfter(f) { (this.children || []).forEach(c => c.eachAfter(f)); f(this); return this; }
      descendants() { const o = []; this.each(n => o.push(n)); return o; }
      leaves() { const o = []; this.eachBefore(n => { if (!n.children) o.push(n); }); return o; }
      ancestors() { const o = []; for (let n = this; n; n = n.parent) o.push(n); return o; }
      links() { const o = []; this.each(n => { if (n !== this) o.push({ source: n.parent, target: n }); }); return o; }
      count() { return this; }
      sum() { return this; }
      sort() { return this; }
    }
    d3.hierarchy = (data, kids) => {
      kids = kids || (d => d.children);
      const build = (d, parent) => {
        const n = new Node(d); n.parent = parent; n.depth = parent ? parent.depth + 1 : 0;
        const c = kids(d);
        if (c && c.length) {
          n.children = arr(c).map(x => build(x, n));
          n.height = 1 + Math.max(...n.children.map(x => x.height));
        }
        return n;
      };
      return build(data, null);
    };
    d3.hierarchy.prototype = Node.prototype;
    d3.tree = () => {
      let size = [1, 1], fixed = null;
      const t = root => {
        place(root, n => n.children,
          fixed ? x => x * fixed[0] : (x, k) => (x + .5) / k * size[0],
          fixed ? y => y * fixed[1] : (y, k) => k ? y / k * size[1] : 0);
        return root;
      };
      t.size = function (x) { if (!arguments.length) return size; size = x; fixed = null; return t; };
      t.nodeSize = function (x) { if (!arguments.length) return fixed; fixed = x; return t; };
      t.separation = () => t;
      return t;
    };
    d3.zoom = zoom;
    d3.drag = () => behaviour(['subject', 'container', 'filter']);
    d3.zoomIdentity = { x: 0, y: 0, k: 1 };
    d3.scaleLinear = scaleLinear; d3.scaleOrdinal = scaleOrdinal;
    d3.scaleSequential = f => { const s = x => f(x); s.domain = () => s; return s; };
    for (const n of ['RdBu', 'Blues', 'Reds', 'Greens', 'Greys', 'RdYlBu', 'Purples', 'Oranges', 'Viridis']) {
      d3['interpolate' + n] = x => n + '(' + x + ')';
    }
    d3.linkHorizontal = () => {
      let fx = d => d[0], fy = d => d[1];
      const g = d => {
        const a = [fx(d.source), fy(d.source)], b = [fx(d.target), fy(d.target)], m = (a[0] + b[0]) / 2;
        return 'M' + a + 'C' + [m, a[1]] + ' ' + [m, b[1]] + ' ' + b;
      };
      g.x = f => { fx = f; return g; }; g.y = f => { fy = f; return g; };
      return g;
    };
  }
  function scaleLinear() {
    let d = [0, 1], r = [0, 1];
    const s = x => r[0] + (x - d[0]) / (d[1] - d[0]) * (r[1] - r[0]);
    s.domain = function (x) { if (!arguments.length) return d; d = x; return s; };
    s.range = function (x) { if (!arguments.length) return r; r = x; return s; };
    s.clamp = s.nice = () => s;
    return s;
  }
  function scaleOrdinal() {
    let d = [], r = [];
    const s = x => r[d.indexOf(x) % r.length];
    s.domain = function (x) { if (!arguments.length) return d; d = x; return s; };
    s.range = function (x) { if (!arguments.length) return r; r = x; return s; };
    return s;
  }
  d3.scaleLinear = d3.scaleLinear || scaleLinear;
  return d3;
}

module.exports = { make };
