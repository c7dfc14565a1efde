// The interface harnesses use.  Same calls in symbolic mode and in concrete replay mode.
import * as T from './terms.mjs';
import * as R from './rt.mjs';
const { P } = R;

export class CheckFailed extends Error { constructor(label, info) { super(label); this.label = label; this.info = info; } }
const TAGS = ['undefined', 'null', 'boolean', 'number', 'string', 'empty']; // strings are atoms, which differ from the empty one
const addDom = (v, ...ds) => { if (v.dom === null) v.dom = ds; else if (v.dom.length !== ds.length || v.dom.some((d, i) => d !== ds[i])) R.unsupported('input ' + v.name + ' is used with two domains'); };
const plain = (x) => x !== null && typeof x === 'object' && (Array.isArray(x) || Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null);

class Base {
  constructor() { this.extra = {}; }
  /** Deep structural equality of plain data with (possibly symbolic) leaves, as a value for check(). */
  pick(name, arr) { return arr[this.choose(name, arr.length)]; }
  flag(name) { return this.choose(name, 2) === 1; }
  drain() { return new Promise((r) => setImmediate(r)); }
}

export class SymCtx extends Base {
  get symbolic() { return true; }
  #input(name, dflt) {
    let v = P.inputs.vars[name];
    if (v === undefined) v = P.names.has(name) ? P.names.get(name) : dflt;
    P.names.set(name, v);
    return v;
  }
  bool(name) { const v = T.variable(name, 'B'); return R.mkB(v, !!this.#input(name, false)); }
  int(name, lo, hi) {
    const v = T.variable(name, 'I');
    addDom(v, T.mk('bvsle', 'B', T.int(lo), v), T.mk('bvsle', 'B', v, T.int(hi)));
    return R.mkI(v, this.#input(name, Math.max(lo, Math.min(hi, 0))), lo, hi);
  }
  num(name) { const v = T.variable(name, 'F'); return R.mkF(v, this.#input(name, 1)); }
  atom(name) {
    const v = T.variable(name, 'U');
    return R.mkU(v, this.#input(name, 100 + P.names.size));
  }
  unit(name, ranges) {
    const v = T.variable(name, 'C');
    addDom(v, T.or(...ranges.map(([a, b]) => a === b ? T.eq(v, T.chr(a)) : T.and(T.mk('bvule', 'B', T.chr(a), v), T.mk('bvule', 'B', v, T.chr(b))))));
    return { c: this.#input(name, ranges[0][0]), t: v };
  }
  /** String of the given concrete length over an alphabet of code-unit ranges. */
  str(name, len, ranges = [[32, 126]]) {
    const us = [];
    for (let i = 0; i < len; i++) us.push(this.unit(name + '.' + i, ranges));
    return R.mkS(us);
  }
  any(name, tags = TAGS) {
    const v = T.variable(name + '.tag', 'C');
    addDom(v, T.or(...tags.map((t) => T.eq(v, T.chr(TAGS.indexOf(t))))));
    const tc = this.#input(name + '.tag', TAGS.indexOf(tags[0]));
    const alts = tags.map((t) => ({
      tag: TAGS.indexOf(t),
      value: t === 'undefined' ? undefined : t === 'null' ? null : t === 'boolean' ? this.bool(name + '.b') : t === 'number' ? this.num(name + '.n') : t === 'empty' ? '' : this.atom(name + '.s'),
    }));
    return R.mkA(v, tc, alts);
  }
  choose(name, n) {
    if (n <= 1) return 0;
    name += '#' + n;
    const v = T.variable(name, 'C');
    addDom(v, T.mk('bvult', 'B', v, T.chr(n)));
    const c = this.#input(name, 0);
    for (let i = 0; i < n - 1; i++) if (R.branch(T.eq(v, T.chr(i)), c === i)) return i;
    return n - 1;
  }
  /** Uninterpreted function over atoms. */
  fn(name) {
    return (...args) => {
      const ts = args.map((a) => R.isSym(a) && a.$k === 'U' ? a.$t : typeof a === 'string' && /^u-?\d+$/.test(a) ? T.atom(Number(a.slice(1))) : R.unsupported(`uninterpreted function ${name} applied to a non-atom`));
      const cs = args.map((a) => R.conc(a).slice(1)).join(',');
      const t = T.app(name, 'U', ts);
      let tab = P.fnTables.get(name);
      if (tab === undefined) { tab = { ...(P.inputs.apps[name] ?? {}) }; P.fnTables.set(name, tab); }
      let v = tab[cs];
      if (v === undefined) v = tab[cs] = 10000 + P.fresh++;
      return R.mkU(t, v);
    };
  }
  /** Uninterpreted predicate over atoms. */
  pred(name) {
    return (...args) => {
      const ts = args.map((a) => R.isSym(a) && a.$k === 'U' ? a.$t : typeof a === 'string' ? T.atom(Number(a.slice(1))) : R.unsupported('predicate on a non-atom'));
      const cs = args.map((a) => R.conc(a).slice(1)).join(',');
      const t = T.app(name, 'B', ts);
      let tab = P.fnTables.get(name);
      if (tab === undefined) { tab = { ...(P.inputs.apps[name] ?? {}) }; P.fnTables.set(name, tab); }
      let v = tab[cs];
      if (v === undefined) v = tab[cs] = false;
      return R.mkB(t, v);
    };
  }
  assume(x) { R.assumeTerm(R.truthTerm(x), !!R.conc(x)); }
  check(x, label, info) { if (P.ended !== null) return; P.checks.push({ at: P.branches.length, term: R.truthTerm(x), c: !!R.conc(x), label, info: info === undefined ? undefined : this.show(info) }); }
  fail(label, info) { this.check(false, label, info); }
  reach(label) { P.reached.add(label); }
  obs(label, value) { P.log.push([label, this.show(value)]); }
  same(a, b) { return R.eqv(a, b, 'is'); }
  strict(a, b) { return R.eqv(a, b, 'strict'); }
  and(...xs) { return R.mkB(T.and(...xs.map(R.truthTerm)), xs.every((x) => R.conc(x))); }
  or(...xs) { return R.mkB(T.or(...xs.map(R.truthTerm)), xs.some((x) => R.conc(x))); }
  not(x) { return R.not(x); }
  iff(a, b) { return R.mkB(T.eq(R.truthTerm(a), R.truthTerm(b)), !!R.conc(a) === !!R.conc(b)); }
  implies(a, b) { return R.mkB(T.implies(R.truthTerm(a), R.truthTerm(b)), !R.conc(a) || !!R.conc(b)); }
  ite(c, a, b) { // value-level if without forking (atoms)
    if (!R.isSym(c)) return c ? a : b;
    if (R.isSym(a) && R.isSym(b) && a.$k === 'U' && b.$k === 'U') return R.mkU(T.ite(c.$t, a.$t, b.$t), c.$c ? a.$c : b.$c);
    return R.t(c) ? a : b;
  }
  eq(a, b) { const ts = []; const c = deep(a, b, ts); return R.mkB(T.and(...ts), c && ts.every((t) => t !== T.FALSE)); }
  conc(x) { return R.conc(x); }
  show(x) { return show(x, R.conc); }
  isSym(x) { return R.isSym(x); }
}
function deep(a, b, ts) {
  if (R.isSym(a) || R.isSym(b)) { ts.push(R.eqTerm(a, b, 'is')); return Object.is(R.conc(a), R.conc(b)); }
  if (plain(a) && plain(b)) {
    if (Array.isArray(a) !== Array.isArray(b)) { ts.push(T.FALSE); return false; }
    const ka = Reflect.ownKeys(a), kb = Reflect.ownKeys(b);
    if (ka.length !== kb.length) { ts.push(T.FALSE); return false; }
    let c = true;
    for (const k of ka) { if (!Object.hasOwn(b, k)) { ts.push(T.FALSE); return false; } if (!deep(a[k], b[k], ts)) c = false; }
    return c;
  }
  const r = Object.is(a, b);
  if (!r) ts.push(T.FALSE);
  return r;
}
export function show(x, conc = (y) => y, d = 0) {
  x = conc(x);
  if (x === null || typeof x === 'boolean') return x;
  switch (typeof x) {
    case 'undefined': return '«undefined»';
    case 'number': return Number.isInteger(x) && !Object.is(x, -0) ? x : `«${Object.is(x, -0) ? '-0' : x}»`;
    case 'string': return x;
    case 'function': return `«function»`;
    case 'symbol': return `«symbol»`;
    case 'bigint': return `«${x}n»`;
  }
  if (x instanceof Error || typeof x.message === 'string') return `«${x.name ?? 'Error'}»`;
  if (d > 8) return '…';
  if (Array.isArray(x)) return x.map((y) => show(y, conc, d + 1));
  if (Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null) return Object.fromEntries(Object.entries(x).map(([k, v]) => [R.keyShown(k), show(v, conc, d + 1)]));
  return '«object»';
}

export class RealCtx extends Base {
  constructor(inputs) { super(); this.inputs = inputs; this.log = []; this.failed = []; this.reached = new Set(); this.assumed = true; this.fresh = 0; this.tables = {}; }
  get symbolic() { return false; }
  #v(n, d) { const v = this.inputs.vars[n]; return v === undefined ? d : v; }
  bool(n) { return !!this.#v(n, false); }
  int(n, lo, hi) { return this.#v(n, Math.max(lo, Math.min(hi, 0))); }
  num(n) { return this.#v(n, 1); }
  atom(n) { return R.U_PREFIX + this.#v(n, 100); }
  str(n, len, ranges = [[32, 126]]) { let s = ''; for (let i = 0; i < len; i++) s += String.fromCharCode(this.#v(n + '.' + i, ranges[0][0])); return s; }
  any(n, tags = TAGS) {
    const t = TAGS[this.#v(n + '.tag', TAGS.indexOf(tags[0]))];
    return t === 'undefined' ? undefined : t === 'null' ? null : t === 'boolean' ? this.bool(n + '.b') : t === 'number' ? this.num(n + '.n') : t === 'empty' ? '' : this.atom(n + '.s');
  }
  choose(n, k) { return k <= 1 ? 0 : this.#v(n + '#' + k, 0); }
  fn(name) { return (...a) => { const tab = (this.tables[name] ??= { ...(this.inputs.apps[name] ?? {}) }); const k = a.map((x) => x.slice(1)).join(','); tab[k] ??= 10000 + this.fresh++; return R.U_PREFIX + tab[k]; }; }
  pred(name) { return (...a) => { const k = a.map((x) => x.slice(1)).join(','); return !!(this.inputs.apps[name]?.[k]); }; }
  assume(x) { if (!x) { this.assumed = false; throw new R.PathEnd('assume'); } }
  check(x, label, info) { if (!x) this.failed.push({ label, info: info === undefined ? undefined : show(info) }); }
  fail(label, info) { this.failed.push({ label, info: info === undefined ? undefined : show(info) }); }
  reach(l) { this.reached.add(l); }
  obs(l, v) { this.log.push([l, show(v)]); }
  same(a, b) { return Object.is(a, b); }
  strict(a, b) { return a === b; }
  and(...xs) { return xs.every(Boolean); }
  or(...xs) { return xs.some(Boolean); }
  not(x) { return !x; }
  iff(a, b) { return !!a === !!b; }
  implies(a, b) { return !a || !!b; }
  ite(c, a, b) { return c ? a : b; }
  eq(a, b) {
    if (plain(a) && plain(b)) {
      if (Array.isArray(a) !== Array.isArray(b)) return false;
      const ka = Reflect.ownKeys(a), kb = Reflect.ownKeys(b);
      return ka.length === kb.length && ka.every((k) => Object.hasOwn(b, k) && this.eq(a[k], b[k]));
    }
    return Object.is(a, b);
  }
  conc(x) { return x; }
  show(x) { return show(x); }
  isSym() { return false; }
}
