// The globals the code under test sees: a DOM (mini or jsdom) and a host whose callbacks the
// harness runs explicitly.  Both worlds expose the same `host` object to the harness.
import { createRequire } from 'node:module';
import { createMiniDom } from './minidom.mjs';
import * as R from './rt.mjs';

function makeHost() {
  const host = {
    pending: [], // callbacks the host was asked to run, oldest first
    seq: 0,
    log: [],
    features: { postTask: true, idle: true, visible: true },
    event: undefined,
    add(kind, run, opts) { const t = { id: ++host.seq, kind, run, opts }; host.pending.push(t); return t; },
    cancel(id) { const i = host.pending.findIndex((t) => t.id === id); if (i >= 0) host.pending.splice(i, 1); },
    /** Runs one pending callback. */
    run(t) { const i = host.pending.indexOf(t); if (i < 0) throw new Error('host task is not pending'); host.pending.splice(i, 1); t.run(); },
  };
  host.scheduler = {
    postTask(cb, opts = {}) {
      return new Promise((resolve, reject) => {
        host.add('task', () => { try { resolve(cb()); } catch (e) { reject(e); } }, opts);
      });
    },
  };
  host.requestAnimationFrame = (cb) => host.add('frame', () => cb(0)).id;
  host.cancelAnimationFrame = (id) => host.cancel(id);
  host.setTimeout = (cb, ms = 0, ...a) => host.add('timeout', () => cb(...a), { delay: ms }).id;
  host.clearTimeout = (id) => host.cancel(id);
  host.requestIdleCallback = (cb) => host.add('idle', () => cb({ didTimeout: false, timeRemaining: () => 1 })).id;
  host.MessageChannel = class {
    constructor() { this.port1 = { onmessage: null }; this.port2 = { postMessage: (d) => { host.add('message', () => this.port1.onmessage?.({ data: d })); } }; }
  };
  return host;
}
const crypto = { getRandomValues(a) { for (let i = 0; i < a.length; i++) a[i] = (i * 37 + 11) & 255; return a; } };
const quiet = () => {};
function makeConsole() {
  const out = [];
  const f = (k) => (...a) => { out.push([k, ...a]); };
  return { out, log: f('log'), warn: f('warn'), error: f('error'), info: f('info'), debug: f('debug'), group: f('group'), groupEnd: f('groupEnd'), groupCollapsed: f('groupCollapsed'), trace: f('trace'), assert: quiet, table: quiet, time: quiet, timeEnd: quiet };
}
function common(host, opts) {
  let clock = 0;
  const console = makeConsole();
  host.console = console;
  const win = { scheduler: host.scheduler };
  host.legacy = () => { delete win.scheduler; };
  return {
    win,
    env: {
      window: win, host, console, crypto,
      requestAnimationFrame: host.requestAnimationFrame, cancelAnimationFrame: host.cancelAnimationFrame, requestIdleCallback: opts?.noIdle ? undefined : host.requestIdleCallback,
      setTimeout: host.setTimeout, clearTimeout: host.clearTimeout, scheduler: host.scheduler, MessageChannel: host.MessageChannel,
      performance: { now: () => (clock += 1), mark: quiet, measure: quiet, clearMarks: quiet, clearMeasures: quiet },
      navigation: undefined, location: undefined, XMLSerializer: class { serializeToString(n) { return String(n?.nodeName); } },
    },
  };
}
/** Absolute URLs with a concrete origin whose remaining characters stand for themselves (validated by the replays). */
class SymURL {
  constructor(s) {
    if (R.isSym(s) && s.$k !== 'S') R.unsupported('URL of an opaque string');
    const us = R.strUnits(R.toStr(s)), n = us.length;
    let i = 0;
    const conc = (k) => typeof us[k] === 'number' ? String.fromCharCode(us[k]) : null;
    let head = '';
    while (i < n && conc(i) !== null && !(conc(i) === '/' && /^https?:\/\/[^/]+$/.test(head))) head += conc(i++);
    if (!/^https?:\/\/[a-z.]+$/.test(head) || conc(i) !== '/') R.unsupported('this URL');
    const is = (k, ch) => R.unitEq(us[k], ch.charCodeAt(0));
    let a = i; while (a < n && !is(a, '?') && !is(a, '#')) a++;
    let b = a; while (b < n && !is(b, '#')) b++;
    const part = (x, y, drop) => y - x <= drop ? '' : R.mkS(us.slice(x, y));
    this.origin = head; this.protocol = head.slice(0, head.indexOf(':') + 1); this.host = this.hostname = head.slice(head.indexOf('//') + 2);
    this.pathname = part(i, a, 0); this.search = part(a, b, 1); this.hash = part(b, n, 1); this.href = s;
  }
  toString() { return this.href; }
}
export function symEnv(opts) {
  const host = makeHost();
  const { win, env } = common(host, opts);
  const dom = createMiniDom({ units: R.strUnits, mk: R.mkS, no: R.unsupported, str: R.toStr, truth: (x) => R.t(x), conc: R.concretize, add: R.concat, same: (a, b) => R.t(R.eqv(a, b, 'strict')), isSym: R.isSym, len: (x) => R.g(x, 'length'), split: R.splitSpace, lower: (x) => R.m(x, 'toLowerCase'), m: R.m, slice: (x, a, b) => R.m(x, 'slice', a, b) });
  dom.document.defaultView = win;
  win.document = dom.document;
  host.observe = dom.observe;
  host.takeWrites = () => dom.takeWrites().map((r) => ({ type: r.type, target: r.target }));
  host.domErrors = dom.errors;
  /** Runs cb while an event of this type is being handled. */
  host.during = (type, cb) => { const before = win.event; win.event = { type }; try { cb(); } finally { win.event = before; } };
  host.setReadyState = (s) => { dom.document.readyState = s; };
  Object.assign(env, { document: dom.document, ...dom.classes, AbortController, URL: SymURL, Map: R.SMap, Set: R.SSet });
  return env;
}
let JSDOM = null;
export function realEnv(opts) {
  const host = makeHost();
  const { win, env } = common(host, opts);
  if (JSDOM === null) JSDOM = createRequire('/opt/dom/package.json')('jsdom');
  const vc = new JSDOM.VirtualConsole();
  const dom = new JSDOM.JSDOM('<!doctype html><html><head></head><body></body></html>', { virtualConsole: vc });
  const w = dom.window, doc = w.document;
  host.domErrors = [];
  w.addEventListener('error', (e) => { host.domErrors.push(e.error); });
  if (!w.Element.prototype.setHTMLUnsafe) w.Element.prototype.setHTMLUnsafe = function (h) { this.innerHTML = h; };
  Object.defineProperty(doc, 'defaultView', { configurable: true, get: () => win });
  Object.defineProperty(win, 'event', { configurable: true, get: () => w.event, set: quiet });
  host.during = (type, cb) => { const t = doc.createElement('p'); let error; t.addEventListener(type, () => { try { cb(); } catch (e) { error = [e]; } }); t.dispatchEvent(new w.Event(type)); if (error) throw error[0]; };
  let ready = 'complete';
  Object.defineProperty(doc, 'readyState', { configurable: true, get: () => ready });
  host.setReadyState = (s) => { ready = s; };
  win.document = doc;
  let mo = null, records = [];
  host.observe = (root) => { mo?.disconnect(); records = []; mo = new w.MutationObserver((rs) => { records.push(...rs); }); mo.observe(root, { subtree: true, childList: true, attributes: true, characterData: true }); };
  host.takeWrites = () => [...records.splice(0), ...mo.takeRecords()].map((r) => ({ type: r.type, target: r.target }));
  for (const k of ['Node', 'Element', 'Event', 'Text', 'Comment', 'CharacterData', 'DocumentFragment', 'Attr', 'EventTarget', 'HTMLElement', 'HTMLInputElement', 'NodeList', 'Document', 'NodeFilter']) env[k] = w[k];
  Object.assign(env, { document: doc, AbortController: w.AbortController, URL, Map, Set });
  return { env, close: () => w.close() };
}
