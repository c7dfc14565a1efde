// A small DOM that accepts symbolic text, attribute values and event options.
// Structure (which node is where) is always concrete; data may be symbolic.
import { createRequire } from 'node:module';
const require = createRequire('/opt/dom/package.json');
let parse5 = null;
const getParse5 = () => (parse5 ??= require('parse5'));
const HTML_NS = 'http://www.w3.org/1999/xhtml';
const astCache = new Map();

/** conv: { str(x) -> string-like, truth(x) -> boolean, eq(a,b) -> boolean, conc(x) } */
export function createMiniDom(conv) {
  const log = []; // mutation records {type, target, name}
  let observed = null;
  const inside = (n) => { for (; n !== null; n = n.parentNode) if (n === observed) return true; return false; };
  const record = (type, target, name) => { if (observed !== null && inside(target)) log.push({ type, target, name }); };
  const domErr = (name, msg) => { const e = new Error(msg); e.name = name; return e; };

  class EventTargetM {
    addEventListener(type, cb, opts) {
      if (cb == null) return;
      const o = opts === null || (typeof opts !== 'object' && typeof opts !== 'function') ? { capture: opts } : opts;
      const capture = conv.truth(o.capture), once = conv.truth(o.once), passive = conv.truth(o.passive), signal = o.signal;
      if (signal != null) { if (typeof signal.addEventListener !== 'function') throw new TypeError('signal'); if (signal.aborted) return; }
      const ls = (this._ls ??= []);
      if (ls.some((l) => l.type === type && l.cb === cb && l.capture === capture)) return;
      const l = { type, cb, capture, once, passive, removed: false };
      ls.push(l);
      if (signal != null) signal.addEventListener('abort', () => this._drop(l), { once: true });
    }
    removeEventListener(type, cb, opts) {
      const o = opts === null || (typeof opts !== 'object' && typeof opts !== 'function') ? { capture: opts } : opts;
      const capture = conv.truth(o.capture);
      const l = this._ls?.find((x) => x.type === type && x.cb === cb && x.capture === capture);
      if (l) this._drop(l);
    }
    _drop(l) { const i = this._ls.indexOf(l); if (i >= 0) { this._ls.splice(i, 1); l.removed = true; } }
    dispatchEvent(ev) {
      const path = [];
      for (let n = this; n != null; n = n.parentNode) path.push(n);
      ev.target = this;
      const invoke = (n, phase) => {
        ev.currentTarget = n; ev.eventPhase = phase;
        for (const l of [...(n._ls ?? [])]) {
          if (l.removed || l.type !== ev.type) continue;
          if (phase === 1 ? !l.capture : phase === 3 ? l.capture : false) continue;
          if (l.once) n._drop(l);
          ev._passive = l.passive;
          const prev = document.defaultView?.event;
          if (document.defaultView) document.defaultView.event = ev;
          try {
            if (typeof l.cb === 'function') l.cb.call(n, ev); else l.cb.handleEvent(ev);
          } catch (e) { errors.push(e); }
          if (document.defaultView) document.defaultView.event = prev;
          ev._passive = false;
          if (ev._stopNow) return;
        }
      };
      // at the target, capturing listeners run before the others
      for (let i = path.length - 1; i > 0 && !ev._stop; i--) invoke(path[i], 1);
      if (!ev._stop) {
        ev._at = true;
        const ls = [...(this._ls ?? [])];
        for (const cap of [true, false]) {
          if (ev._stop && !cap) break;
          for (const l of ls) {
            if (l.removed || l.type !== ev.type || l.capture !== cap) continue;
            if (ev._stopNow) break;
            if (l.once) this._drop(l);
            ev.currentTarget = this; ev.eventPhase = 2; ev._passive = l.passive;
            const prev = document.defaultView?.event;
            if (document.defaultView) document.defaultView.event = ev;
            try { if (typeof l.cb === 'function') l.cb.call(this, ev); else l.cb.handleEvent(ev); } catch (e) { errors.push(e); }
            if (document.defaultView) document.defaultView.event = prev;
            ev._passive = false;
          }
        }
      }
      if (ev.bubbles) for (let i = 1; i < path.length && !ev._stop; i++) invoke(path[i], 3);
      ev.currentTarget = null; ev.eventPhase = 0;
      return !ev.defaultPrevented;
    }
  }
  const errors = [];
  class Event {
    constructor(type, init = {}) { this.type = type; this.bubbles = !!init.bubbles; this.cancelable = !!init.cancelable; this.defaultPrevented = false; this.target = null; this.currentTarget = null; this.eventPhase = 0; this._stop = this._stopNow = false; for (const k in init) if (!(k in this)) this[k] = init[k]; }
    preventDefault() { if (this.cancelable && !this._passive) this.defaultPrevented = true; }
    stopPropagation() { this._stop = true; }
    stopImmediatePropagation() { this._stop = this._stopNow = true; }
  }
  class NodeList extends Array {
    static get [Symbol.species]() { return Array; }
    item(i) { return this[i] ?? null; }
    getNamedItem(n) { return this.find((a) => a.name === n) ?? null; }
  }
  const listOf = (xs) => { const l = new NodeList(); for (const x of xs) l.push(x); return l; };
  class Node extends EventTargetM {
    constructor() { super(); this.parentNode = null; this._kids = new NodeList(); }
    getRootNode() { let n = this; while (n.parentNode !== null) n = n.parentNode; return n; }
    compareDocumentPosition(o) {
      if (o === this) return 0;
      if (this.getRootNode() !== o.getRootNode()) return 35;
      if (this.contains(o)) return 20;
      if (o.contains(this)) return 10;
      const path = (n) => { const p = []; for (; n.parentNode !== null; n = n.parentNode) p.unshift(n.parentNode._kids.indexOf(n)); return p; };
      const a = path(this), b = path(o);
      let i = 0; while (a[i] === b[i]) i++;
      return a[i] < b[i] ? 4 : 2;
    }
    isSameNode(o) { return this === o; }
    isEqualNode(o) {
      if (o === null || o.nodeType !== this.nodeType || o.nodeName !== this.nodeName || o._kids.length !== this._kids.length) return false;
      if (this instanceof CharacterData && !conv.same(this._data, o._data)) return false;
      if (this instanceof Element && (this.namespaceURI !== o.namespaceURI || this._attrs.size !== o._attrs.size || [...this._attrs].some(([k, v]) => !o._attrs.has(k) || !conv.same(o._attrs.get(k), v)))) return false;
      return this._kids.every((k, i) => k.isEqualNode(o._kids[i]));
    }
    normalize() {
      for (const k of this._kids.slice()) {
        if (k.nodeType !== 3) { k.normalize(); continue; }
        if (k.parentNode !== this) continue;
        if (conv.same(k._data, '')) { this._take(k); continue; }
        for (let n = k.nextSibling; n !== null && n.nodeType === 3; n = k.nextSibling) { k.data = conv.add(k._data, n._data); this._take(n); }
      }
    }
    get firstElementChild() { return this._kids.find((k) => k.nodeType === 1) ?? null; }
    get lastElementChild() { return this._kids.findLast((k) => k.nodeType === 1) ?? null; }
    get nextElementSibling() { let n = this.nextSibling; while (n !== null && n.nodeType !== 1) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n !== null && n.nodeType !== 1) n = n.previousSibling; return n; }
    get childElementCount() { return this.children.length; }
    get children() { return listOf(this._kids.filter((k) => k.nodeType === 1)); }
    querySelector(s) { return query(this, s)[0] ?? null; }
    querySelectorAll(s) { return listOf(query(this, s)); }
    getElementsByTagName(n) { return listOf(query(this, n)); }
    getElementsByClassName(n) { return listOf(query(this, '.' + n)); }
    get ownerDocument() { return document; }
    get childNodes() { return this._kids; }
    get firstChild() { return this._kids[0] ?? null; }
    get lastChild() { return this._kids[this._kids.length - 1] ?? null; }
    get nextSibling() { if (this.parentNode === null) return null; const k = this.parentNode._kids; return k[k.indexOf(this) + 1] ?? null; }
    get previousSibling() { if (this.parentNode === null) return null; const k = this.parentNode._kids; return k[k.indexOf(this) - 1] ?? null; }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get isConnected() { let n = this; while (n.parentNode !== null) n = n.parentNode; return n === document; }
    contains(o) { for (; o !== null; o = o.parentNode) if (o === this) return true; return false; }
    hasChildNodes() { return this._kids.length > 0; }
    insertBefore(node, ref) {
      if (!(node instanceof Node)) throw new TypeError('insertBefore: not a Node');
      if (ref === undefined) throw new TypeError('insertBefore: 2 arguments required');
      if (ref !== null && !(ref instanceof Node)) throw new TypeError('insertBefore: not a Node');
      if (!(this instanceof Element || this instanceof DocumentFragment || this instanceof Document)) throw domErr('HierarchyRequestError', 'cannot insert here');
      if (node.contains(this)) throw domErr('HierarchyRequestError', 'node contains parent');
      if (ref !== null && ref.parentNode !== this) throw domErr('NotFoundError', 'reference node is not a child');
      if (ref === node) ref = node.nextSibling;
      const nodes = node instanceof DocumentFragment ? node._kids.slice() : [node];
      if (nodes.length === 0) return node;
      for (const n of nodes) if (n.parentNode !== null) n.parentNode._take(n);
      const i = ref === null ? this._kids.length : this._kids.indexOf(ref);
      this._kids.splice(i, 0, ...nodes);
      for (const n of nodes) n.parentNode = this;
      record('childList', this);
      return node;
    }
    _take(n) { record('childList', this); this._kids.splice(this._kids.indexOf(n), 1); n.parentNode = null; }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) { if (n.parentNode !== this) throw domErr('NotFoundError', 'not a child'); this._take(n); return n; }
    replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
    _conv(xs) { if (xs.length === 1 && xs[0] instanceof Node) return xs[0]; const f = new DocumentFragment(); for (const x of xs) f.appendChild(x instanceof Node ? x : new Text(conv.str(x))); return f; }
    append(...xs) { this.insertBefore(this._conv(xs), null); }
    prepend(...xs) { const n = this._conv(xs); this.insertBefore(n, this.firstChild); }
    replaceChildren(...xs) { const n = this._conv(xs); for (const k of this._kids.slice()) this._take(k); this.insertBefore(n, null); }
    remove() { if (this.parentNode !== null) this.parentNode._take(this); }
    before(...xs) { const p = this.parentNode; if (p === null) return; let prev = this.previousSibling; while (prev !== null && xs.includes(prev)) prev = prev.previousSibling; const n = this._conv(xs); p.insertBefore(n, prev === null ? p.firstChild : prev.nextSibling); }
    after(...xs) { const p = this.parentNode; if (p === null) return; let next = this.nextSibling; while (next !== null && xs.includes(next)) next = next.nextSibling; const n = this._conv(xs); p.insertBefore(n, next); }
    replaceWith(...xs) { const p = this.parentNode; if (p === null) return; let next = this.nextSibling; while (next !== null && xs.includes(next)) next = next.nextSibling; const n = this._conv(xs); if (this.parentNode === p) p._take(this); p.insertBefore(n, next); }
    cloneNode(deep = false) { const c = this._clone(); if (deep) for (const k of this._kids) { const kc = k.cloneNode(true); kc.parentNode = c; c._kids.push(kc); } return c; }
    get textContent() { let s = ''; for (const k of this._kids) if (k.nodeType !== 8) s = conv.add(s, k.textContent); return s; }
    set textContent(v) { for (const k of this._kids.slice()) this._take(k); if (v != null && conv.str(v) !== '') this.appendChild(new Text(conv.str(v))); }
  }
  const TYPES = { ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, CDATA_SECTION_NODE: 4, PROCESSING_INSTRUCTION_NODE: 7, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 };
  Object.assign(Node, TYPES); Object.assign(Node.prototype, TYPES);
  class CharacterData extends Node {
    constructor(data) { super(); this._data = data; }
    get data() { return this._data; }
    set data(v) { this._data = v === null ? '' : conv.str(v); record('characterData', this); }
    get nodeValue() { return this._data; }
    set nodeValue(v) { this.data = v; }
    get textContent() { return this._data; }
    set textContent(v) { this.data = v; }
    get length() { return conv.len(this._data); }
    appendData(d) { this.data = conv.add(this._data, conv.str(d)); }
    substringData(i, n) { return conv.slice(this._data, i, i + n); }
    insertData(i, d) { this.replaceData(i, 0, d); }
    deleteData(i, n) { this.replaceData(i, n, ''); }
    replaceData(i, n, d) { this.data = conv.add(conv.add(conv.slice(this._data, 0, i), conv.str(d)), conv.m(this._data, 'slice', i + n)); }
  }
  class Text extends CharacterData {
    get nodeType() { return 3; }
    get nodeName() { return '#text'; }
    splitText(at) {
      const d = this._data;
      const rest = new Text(at === 0 ? d : conv.m(d, 'slice', at));
      if (this.parentNode !== null) this.parentNode.insertBefore(rest, this.nextSibling);
      this.data = at === 0 ? '' : conv.slice(d, 0, at);
      return rest;
    }
    get wholeText() {
      let n = this, s = '';
      while (n.previousSibling?.nodeType === 3) n = n.previousSibling;
      for (; n !== null && n.nodeType === 3; n = n.nextSibling) s = conv.add(s, n._data);
      return s;
    }
    _clone() { return new Text(this._data); }
  }
  class Comment extends CharacterData {
    get nodeType() { return 8; }
    get nodeName() { return '#comment'; }
    _clone() { return new Comment(this._data); }
  }
  class DocumentFragment extends Node {
    get nodeType() { return 11; }
    get nodeName() { return '#document-fragment'; }
    _clone() { return new DocumentFragment(); }
  }
  const matches = (n, sel) => conv.conc(conv.str(sel)).split(',').some((part) => {
    const toks = part.trim().match(/^\*|^[\w-]+|[#.][\w-]+|\[[^\]]+\]/g);
    if (toks === null || toks.join('') !== part.trim()) conv.no('selector ' + sel);
    return toks.every((t) => t === '*' || (t[0] === '#' ? conv.same(n.id, t.slice(1)) : t[0] === '.' ? n.classList.contains(t.slice(1)) : t[0] === '[' ? attrSel(n, t.slice(1, -1)) : n.localName === t.toLowerCase()));
  });
  const attrSel = (n, t) => { const i = t.indexOf('='); return i < 0 ? n.hasAttribute(t) : n.hasAttribute(t.slice(0, i)) && conv.same(n.getAttribute(t.slice(0, i)), t.slice(i + 1).replace(/^(["'])(.*)\1$/, '$2')); };
  const query = (root, sel) => { const out = []; const go = (n) => { for (const k of n._kids) if (k.nodeType === 1) { if (matches(k, sel)) out.push(k); go(k); } }; go(root); return out; };
  class Walker {
    constructor(root, show, filter, flat) { this.root = root; this.whatToShow = show; this.filter = filter; this.currentNode = root; this._flat = flat; this._fresh = true; }
    _all() { const out = []; const go = (n) => { for (const k of n._kids) { const r = this._ok(k); if (r === 1) out.push(k); if (r !== 2 || this._flat) go(k); } }; if (this._flat && this._ok(this.root) === 1) out.push(this.root); go(this.root); return out; }
    _ok(n) { if (!(this.whatToShow >>> (n.nodeType - 1) & 1)) return 3; return this.filter == null ? 1 : typeof this.filter === 'function' ? this.filter(n) : this.filter.acceptNode(n); }
    nextNode() {
      // from the current node on, in document order, so that changes made while walking are seen
      const skip = this._flat && this._fresh; this._fresh = false;
      if (skip && this._ok(this.root) === 1) return this.root;
      let n = this.currentNode, enter = true;
      for (;;) {
        if (enter && n._kids.length > 0) n = n._kids[0];
        else { while (n !== this.root && n.nextSibling === null) { n = n.parentNode; if (n === null) return null; } if (n === this.root) return null; n = n.nextSibling; }
        const r = this._ok(n);
        if (r === 1) { this.currentNode = n; return n; }
        enter = r !== 2 || this._flat;
      }
    }
    previousNode() { const all = this._all(), i = all.indexOf(this.currentNode); const p = i > 0 ? all[i - 1] : i === 0 && !this._flat && this._ok(this.root) === 1 ? this.root : null; if (p !== null) this.currentNode = p; return p; }
    parentNode() { let n = this.currentNode; while (n !== null && n !== this.root) { n = n.parentNode; if (n !== null && this._ok(n) === 1) { this.currentNode = n; return n; } } return null; }
    _kid(xs) { for (const k of xs) { const r = this._ok(k); if (r === 1) { this.currentNode = k; return k; } if (r === 3) conv.no('a filtered TreeWalker child'); } return null; }
    firstChild() { return this._kid(this.currentNode._kids); }
    lastChild() { return this._kid(this.currentNode._kids.slice().reverse()); }
    nextSibling() { const p = this.currentNode.parentNode; return p === null || this.currentNode === this.root ? null : this._kid(p._kids.slice(p._kids.indexOf(this.currentNode) + 1)); }
    previousSibling() { const p = this.currentNode.parentNode; return p === null || this.currentNode === this.root ? null : this._kid(p._kids.slice(0, p._kids.indexOf(this.currentNode)).reverse()); }
    [Symbol.iterator]() { throw new TypeError('not iterable'); }
    detach() {}
  }
  const has = (list, x) => list.some((y) => conv.same(y, x));
  class ClassList {
    constructor(el) { this._el = el; }
    get _t() { const v = this._el.getAttribute('class'), out = []; if (v !== null) for (const x of conv.split(v)) if (!has(out, x)) out.push(x); return out; }
    _set(t) { if (t.length === 0 && !this._el.hasAttribute('class')) return; this._el.setAttribute('class', t.reduce((s, x, i) => i === 0 ? x : conv.add(conv.add(s, ' '), x), '')); }
    _ok(x) { x = conv.str(x); if (!conv.isSym(x) && x === '') throw domErr('SyntaxError', 'empty token'); if (conv.isSym(x) ? conv.split(conv.add(conv.add('a', x), 'a')).length > 1 : /[\t\n\f\r ]/.test(x)) throw domErr('InvalidCharacterError', 'token contains whitespace'); return x; }
    get length() { return this._t.length; }
    get value() { return this._el.getAttribute('class') ?? ''; }
    item(i) { return this._t[i] ?? null; }
    contains(x) { return has(this._t, conv.str(x)); }
    add(...xs) { xs = xs.map((x) => this._ok(x)); const t = this._t; for (const x of xs) if (!has(t, x)) t.push(x); this._set(t); }
    remove(...xs) { xs = xs.map((x) => this._ok(x)); this._set(this._t.filter((y) => !has(xs, y))); }
    toggle(x, force) {
      x = this._ok(x);
      const t = this._t;
      const f = force === undefined ? undefined : conv.truth(force);
      if (has(t, x)) { if (f === undefined || f === false) { this._set(t.filter((y) => !conv.same(y, x))); return false; } return true; }
      if (f === undefined || f === true) { t.push(x); this._set(t); return true; }
      return false;
    }
    replace(x, y) { const t = this._t; x = this._ok(x); y = this._ok(y); if (!has(t, x)) return false; const u = []; for (const z of t.map((w) => conv.same(w, x) ? y : w)) if (!has(u, z)) u.push(z); this._set(u); return true; }
    [Symbol.iterator]() { return this._t[Symbol.iterator](); }
  }
  const dash = (k) => k === 'cssFloat' ? 'float' : (/^(?:webkit|moz)[A-Z]/i.test(k) && /^webkit/.test(k) ? '-' : '') + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
  class Style {
    constructor(el) { // _p: [name, value] in order
      this._el = el; this._p = [];
      return new Proxy(this, {
        get: (t, k) => typeof k !== 'string' || k in t ? Reflect.get(t, k, t) : /^\d+$/.test(k) ? t._p[k]?.[0] : t.getPropertyValue(dash(k)),
        set: (t, k, v) => { if (typeof k !== 'string' || k in t) { if (k === 'cssText') t.cssText = v; else t[k] = v; } else t.setProperty(dash(k), v); return true; },
        has: (t, k) => k in t || (typeof k === 'string' && /^[a-zA-Z-]+$/.test(k)),
      });
    }
    _n(n) { n = conv.str(n); if (!conv.isSym(n)) return n.startsWith('--') ? n : n.toLowerCase(); return conv.isSym(n) && conv.same(conv.slice(n, 0, 2), '--') ? n : conv.lower(n); }
    _i(n) { return this._p.findIndex(([k]) => conv.same(k, n)); }
    get length() { return this._p.length; }
    item(i) { return this._p[i]?.[0] ?? ''; }
    [Symbol.iterator]() { return this._p.map(([k]) => k)[Symbol.iterator](); }
    getPropertyValue(n) { const i = this._i(this._n(n)); return i < 0 ? '' : this._p[i][1]; }
    getPropertyPriority() { return ''; }
    setProperty(n, v) {
      n = this._n(n);
      v = v === null || v === undefined ? (v === undefined ? 'undefined' : '') : conv.str(v);
      if (v === '') { this.removeProperty(n); return; }
      const i = this._i(n);
      if (i >= 0 && this._p[i][1] === v) return; // nothing changes
      if (i < 0) this._p.push([n, v]); else this._p[i][1] = v;
      record('attributes', this._el, 'style');
    }
    removeProperty(n) { const i = this._i(this._n(n)); if (i < 0) return ''; const o = this._p[i][1]; this._p.splice(i, 1); record('attributes', this._el, 'style'); return o; }
    get cssText() { let s = ''; for (const [k, v] of this._p) s = conv.add(s, conv.add(conv.add(s === '' ? k : conv.add(' ', k), ': '), conv.add(v, ';'))); return s; }
    set cssText(t) {
      this._p = [];
      const o = observed; observed = null;
      for (const d of conv.m(conv.str(t), 'split', ';')) { const i = conv.m(d, 'indexOf', ':'); if (i > 0) { const n = conv.m(conv.slice(d, 0, i), 'trim'), v = conv.m(conv.slice(d, i + 1), 'trim'); if (n !== '' && v !== '') this.setProperty(n, v); } }
      observed = o;
      record('attributes', this._el, 'style');
    }
  }
  class Attr extends Node { constructor(el, name, value) { super(); this.ownerElement = el; this.name = name; this.value = value; } get nodeType() { return 2; } get nodeName() { return this.name; } get localName() { return this.name; } get namespaceURI() { return null; } }
  class Element extends Node {
    constructor(localName, ns) { super(); this.localName = localName; this.namespaceURI = ns; this._attrs = new Map(); this._cl = this._st = null; if (localName === 'template' && ns === HTML_NS) this.content = new DocumentFragment(); }
    get nodeType() { return 1; }
    get nodeName() { return this.tagName; }
    get tagName() { return this.namespaceURI === HTML_NS ? this.localName.toUpperCase() : this.localName; }
    _n(name) { name = conv.conc(conv.str(name)); if (name === '' || /[\t\n\f\r />=]/.test(name)) throw domErr('InvalidCharacterError', 'attribute name'); return this.namespaceURI === HTML_NS ? name.toLowerCase() : name; }
    _q(name) { name = conv.conc(conv.str(name)); return this.namespaceURI === HTML_NS ? name.toLowerCase() : name; }
    getAttributeNames() { const out = [...this._attrs.keys()]; return out; }
    hasAttributes() { return this._attrs.size > 0; }
    get attributes() { return listOf([...this._attrs].map(([n, v]) => new Attr(this, n, v))); }
    removeAttributeNode(a) { this.removeAttribute(a.name); return a; }
    getAttributeNS(ns, n) { return this.getAttribute(n); }
    hasAttributeNS(ns, n) { return this.hasAttribute(n); }
    removeAttributeNS(ns, n) { this.removeAttribute(n); }
    getAttribute(n) { n = this._q(n); if (n === 'style' && this._st !== null && this._st.length) return this._st.cssText; return this._attrs.has(n) ? this._attrs.get(n) : null; }
    getAttributeNode(n) { n = this._q(n); return this._attrs.has(n) ? new Attr(this, n, this._attrs.get(n)) : null; }
    hasAttribute(n) { return this._attrs.has(this._q(n)); }
    setAttribute(n, v) { n = this._n(n); v = conv.str(v); this._attrs.set(n, v); if (n === 'style') { this.style.cssText = v; } else record('attributes', this, n); }
    setAttributeNS(ns, n, v) { this._attrs.set(conv.conc(n), conv.str(v)); }
    removeAttribute(n) { n = this._q(n); if (this._attrs.delete(n)) record('attributes', this, n); if (n === 'style' && this._st !== null) this._st._p = []; }
    toggleAttribute(n, force) {
      n = this._n(n);
      const f = force === undefined ? undefined : conv.truth(force);
      if (!this._attrs.has(n)) { if (f === undefined || f) { this._attrs.set(n, ''); record('attributes', this, n); return true; } return false; }
      if (f === undefined || !f) { this._attrs.delete(n); record('attributes', this, n); return false; }
      return true;
    }
    get classList() { return (this._cl ??= new ClassList(this)); }
    get className() { return this.getAttribute('class') ?? ''; }
    set className(v) { this.setAttribute('class', v); }
    get id() { return this.getAttribute('id') ?? ''; }
    set id(v) { this.setAttribute('id', v); }
    get style() { if (this._st === null) { this._st = new Style(this); const a = this._attrs.get('style'); if (a !== undefined) { const o = observed; observed = null; this._st.cssText = a; observed = o; } } return this._st; }
    get outerHTML() { return ser({ _kids: [this] }, (x) => conv.isSym(x) ? '…' : x); } // used for messages only: symbolic data is not spelled out
    matches(s) { return matches(this, s); }
    closest(s) { for (let n = this; n instanceof Element; n = n.parentNode) if (matches(n, s)) return n; return null; }
    insertAdjacentElement(where, e) {
      switch (where.toLowerCase()) {
        case 'beforebegin': if (this.parentNode === null) return null; this.before(e); break;
        case 'afterbegin': this.prepend(e); break;
        case 'beforeend': this.append(e); break;
        case 'afterend': if (this.parentNode === null) return null; this.after(e); break;
        default: throw domErr('SyntaxError', 'insertAdjacentElement');
      }
      return e;
    }
    insertAdjacentText(where, d) { this.insertAdjacentElement(where, new Text(conv.str(d))); }
    insertAdjacentHTML(where, h) { const f = new DocumentFragment(); for (const k of parse(conv.str(h), /^(?:beforebegin|afterend)$/i.test(where) ? this.parentNode.localName : this.localName)) f.appendChild(k); this.insertAdjacentElement(where, f); }
    get dataset() {
      const el = this, dash = (k) => 'data-' + k.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
      return new Proxy({}, {
        get: (_, k) => typeof k === 'string' ? el.getAttribute(dash(k)) ?? undefined : undefined,
        set: (_, k, v) => { el.setAttribute(dash(k), v); return true; },
        has: (_, k) => typeof k === 'string' && el.hasAttribute(dash(k)),
        deleteProperty: (_, k) => { el.removeAttribute(dash(k)); return true; },
      });
    }
    setHTMLUnsafe(h) { this.innerHTML = h; }
    set innerHTML(h) {
      const t = this.localName === 'template' && this.content ? this.content : this;
      for (const k of t._kids.slice()) t._take(k);
      for (const k of parse(conv.str(h), this.localName)) { k.parentNode = t; t._kids.push(k); }
      if (h !== '') record('childList', t);
    }
    get innerHTML() { return ser(this); }
    _clone() { const e = make(this.localName, this.namespaceURI); for (const [k, v] of this._attrs) e._attrs.set(k, v); if (this._st !== null) { for (const [k, v] of this._st._p) e.style._p.push([k, v]); } if (this.content) for (const k of this.content._kids) e.content.appendChild(k.cloneNode(true)); return e; }
  }
  const ser = (n, show = conv.conc) => n._kids.map((k) => k.nodeType === 3 ? show(k._data) : k.nodeType === 8 ? `<!--${show(k._data)}-->` : `<${k.localName}${[...k._attrs].map(([a, v]) => ` ${a}="${show(v)}"`).join('')}>${VOID.test(k.localName) ? '' : `${ser(k.content ?? k, show)}</${k.localName}>`}`).join('');
  const VOID = /^(?:area|base|br|col|embed|hr|img|input|link|meta|source|track|wbr)$/;
  class HTMLInputElement extends Element {
    constructor(l, n) { super(l, n); this._value = null; this._checked = null; }
    get value() { return this._value ?? this._attrs.get('value') ?? ''; }
    set value(v) { this._value = v === null ? '' : conv.str(v); }
    get checked() { return this._checked ?? this._attrs.has('checked'); }
    set checked(v) { this._checked = conv.truth(v); }
  }
  const make = (l, ns) => ns === HTML_NS && (l === 'input' || l === 'textarea') ? new HTMLInputElement(l, ns) : new Element(l, ns);
  // Symbolic characters stand for ordinary text: they are parsed as private-use characters and put back afterwards, so
  // harnesses use them only where any character of their alphabet is parsed in the same way (compared with jsdom in the replays).
  const put = (s, us) => us === null || !/[\ue000-\uf8ff]/.test(s) ? s : conv.mk(Array.from(s, (ch) => { const k = ch.charCodeAt(0); return k >= 0xe000 && k <= 0xf8ff ? us[k - 0xe000] : k; }));
  const bare = (s) => { if (/[\ue000-\uf8ff]/.test(s)) conv.no('symbolic characters in a name'); return s; };
  function parse(html, context) {
    let us = null;
    if (conv.isSym(html)) {
      us = [];
      if (html.$k !== 'S') html = conv.conc(html);
      else html = conv.units(html).map((u) => { if (typeof u === 'number') return String.fromCharCode(u); us.push(u); return String.fromCharCode(0xe000 + us.length - 1); }).join('');
    }
    const key = context + '\u0000' + html;
    let ast = astCache.get(key);
    if (ast === undefined) {
      const p = getParse5();
      const ctx = p.defaultTreeAdapter.createElement(context, HTML_NS, []);
      ast = p.parseFragment(ctx, html);
      if (astCache.size > 2000) astCache.clear();
      astCache.set(key, ast);
    }
    return build(ast.childNodes, us);
  }
  function build(list, us) {
    return list.map((a) => {
      if (a.nodeName === '#text') return new Text(put(a.value, us));
      if (a.nodeName === '#comment') return new Comment(put(a.data, us));
      const e = make(bare(a.tagName), a.namespaceURI);
      for (const at of a.attrs) e._attrs.set(bare(at.prefix ? at.prefix + ':' + at.name : at.name), put(at.value, us));
      const into = a.content ? e.content : e;
      for (const k of build((a.content ?? a).childNodes, us)) { k.parentNode = into; into._kids.push(k); }
      return e;
    });
  }
  class Document extends Node {
    get nodeType() { return 9; }
    get nodeName() { return '#document'; }
    get ownerDocument() { return null; }
    createElement(n) { return make(conv.conc(n).toLowerCase(), HTML_NS); }
    createElementNS(ns, n) { return make(n, ns); }
    createTextNode(d) { return new Text(conv.str(d)); }
    createComment(d) { return new Comment(conv.str(d)); }
    createDocumentFragment() { return new DocumentFragment(); }
    createTreeWalker(root, show = 0xffffffff, filter = null) { return new Walker(root, show, filter, false); }
    createNodeIterator(root, show = 0xffffffff, filter = null) { return new Walker(root, show, filter, true); }
    getElementById(id) { return query(this, '*').find((n) => conv.same(n.id, id)) ?? null; }
    importNode(n, deep) { return n.cloneNode(deep); }
    adoptNode(n) { n.remove(); return n; }
    get body() { return this._body; }
    get documentElement() { return this._kids[0]; }
    _clone() { throw new Error('cloning the document'); }
  }
  const document = new Document();
  document.readyState = 'complete';
  document.defaultView = null;
  const htmlEl = make('html', HTML_NS);
  document.appendChild(htmlEl);
  document._body = make('body', HTML_NS);
  htmlEl.appendChild(document._body);
  return {
    document, errors,
    classes: { Node, Element, Event, Text, Comment, CharacterData, DocumentFragment, Attr, EventTarget: EventTargetM, HTMLElement: Element, HTMLInputElement, NodeList, Document, NodeFilter: { FILTER_ACCEPT: 1, FILTER_REJECT: 2, FILTER_SKIP: 3, SHOW_ALL: 0xffffffff, SHOW_ELEMENT: 1, SHOW_ATTRIBUTE: 2, SHOW_TEXT: 4, SHOW_COMMENT: 128, SHOW_DOCUMENT: 256, SHOW_DOCUMENT_FRAGMENT: 1024 } },
    observe(root) { observed = root; log.length = 0; },
    takeWrites() { const r = log.slice(); log.length = 0; return r; },
  };
}
