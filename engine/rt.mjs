// Symbolic runtime: symbolic values, the operators the instrumented code calls, and path recording.
import * as T from './terms.mjs';
import { Regex } from './regex.mjs';

// Kinds: B boolean, I integer, F double, U opaque string atom, S string of symbolic UTF-16 units
// (concrete length), N decimal string of a number, A any primitive (tagged union).
const proto = new Proxy(Object.create(null), {
  get(_t, k) {
    if (k === 'then' || k === 'constructor' || k === 'toJSON') return undefined;
    if (typeof k === 'symbol' && k !== Symbol.toPrimitive && k !== Symbol.iterator) return undefined;
    return unsupported(`native access to property ${String(k)} of a symbolic value`);
  },
  has(_t, k) { return false; },
  set(_t, k) { return unsupported(`native write to property ${String(k)} of a symbolic value`); },
});
class Sym {
  #brand = true;
  constructor(k, c, t) { Object.defineProperties(this, { $k: { value: k }, $c: { value: c }, $t: { value: t } }); }
  static is(x) { return #brand in x; }
}
Object.setPrototypeOf(Sym.prototype, proto);
export const isSym = (x) => typeof x === 'object' && x !== null && Sym.is(x);
function make(k, c, t, extra) {
  const s = new Sym(k, c, t);
  if (extra) for (const n in extra) Object.defineProperty(s, n, { value: extra[n] });
  return s;
}

export class Unsupported extends Error {}
export class PathEnd extends Error {}
export const U_PREFIX = 'u';

/** Per-path state. */
export const P = {
  inputs: null, branches: null, known: null, keys: null, ticks: 0, maxTicks: 2e6, abort: null, ended: null, checks: null, log: null, fresh: 0,
  names: null, reached: null, fnHits: null, taps: null,
};
export function beginPath(inputs, opt = {}) {
  P.inputs = inputs; P.branches = []; P.known = new Map(); P.ticks = 0; P.abort = null; P.ended = null;
  P.maxTicks = opt.maxTicks ?? 2e6;
  P.checks = []; P.log = []; P.fresh = 0; P.names = new Map(); P.reached = new Set(); P.fnTables = new Map(); P.keys = new Map(); P.tried = [];
}
export function unsupported(why) {
  P.abort ??= { kind: 'unsupported', why, stack: new Error(why).stack };
  throw new Unsupported(why);
}
export function hang() {
  P.abort ??= { kind: 'hang', why: 'step limit', stack: new Error().stack };
  throw new Unsupported('step limit');
}
export function branch(term, c) {
  if (term === T.TRUE) return true;
  if (term === T.FALSE) return false;
  let neg = false, base = term;
  if (term.op === 'not') { base = term.args[0]; neg = true; }
  const k = P.known.get(base.id);
  if (k !== undefined) return neg ? !k : k;
  if (P.abort !== null) throw new Unsupported('aborted');
  if (P.ended !== null) throw new PathEnd('assume');
  P.known.set(base.id, neg ? !c : c);
  P.branches.push({ lit: c ? term : T.not(term), flip: true });
  return c;
}
export function assumeTerm(term, c) {
  if (term === T.TRUE) return;
  if (term !== T.FALSE) {
    const base = term.op === 'not' ? term.args[0] : term;
    P.known.set(base.id, term.op === 'not' ? !c : c);
    P.branches.push({ lit: c ? term : T.not(term), flip: !c });
  }
  if (!c) { P.ended ??= 'assume'; throw new PathEnd('assume'); }
}

// ---- construction -------------------------------------------------------------------------
export const mkB = (t, c) => t === T.TRUE ? true : t === T.FALSE ? false : make('B', c, t);
// every I value lies within +-2^53 (mkI), so 64-bit differences never overflow
function ltI(a, b) {
  if (b.op === 'const' && b.data === '0' && a.op === 'bvsub') return ltI(a.args[0], a.args[1]);
  if (a.op === 'const' && a.data === '0' && b.op === 'bvsub') return ltI(b.args[1], b.args[0]);
  return a === b ? T.FALSE : T.mk('bvslt', 'B', a, b);
}
export function mkI(t, c, lo, hi, nz = false) {
  if (t.op === 'const') return Number(t.data);
  if (lo < -9007199254740991 || hi > 9007199254740991) unsupported('integer range too large');
  return make('I', c, t, { lo, hi, nz });
}
export const mkF = (t, c) => make('F', c, t);
export const mkU = (t, c) => make('U', c, t);
/** units: array of numbers or {c,t} */
export function mkS(units) {
  let all = true, c = '';
  for (const u of units) { if (typeof u === 'number') c += String.fromCharCode(u); else { all = false; c += String.fromCharCode(u.c); } }
  return all ? c : make('S', c, null, { units });
}
export const mkN = (num) => make('N', String(conc(num)), null, { num });
export function mkA(tagTerm, tagC, alts) { // alts: [{tag, value}]
  return make('A', undefined, tagTerm, { tagC, alts });
}
/** The concrete JavaScript value of a (possibly symbolic) value under the current inputs. */
export function conc(x) {
  if (!isSym(x)) return x;
  switch (x.$k) {
    case 'U': return U_PREFIX + x.$c;
    case 'A': return conc(x.alts.find((a) => a.tag === x.tagC).value);
    default: return x.$c;
  }
}
const unitC = (u) => typeof u === 'number' ? u : u.c;
const unitT = (u) => typeof u === 'number' ? T.chr(u) : u.t;
const unitsOf = (s) => typeof s === 'string' ? Array.from({ length: s.length }, (_, i) => s.charCodeAt(i)) : s.units;
export const strUnits = unitsOf;
const isStrLike = (x) => typeof x === 'string' || (isSym(x) && (x.$k === 'S' || x.$k === 'U' || x.$k === 'N'));
const isUnits = (x) => typeof x === 'string' || (isSym(x) && x.$k === 'S');
const guard = (a, alt) => T.eq(a.$t, T.chr(alt.tag));

/** Splits a tagged union into one of its alternatives (a recorded branch). */
export function resolve(a) {
  if (!isSym(a) || a.$k !== 'A') return a;
  const alts = a.alts;
  for (let i = 0; i < alts.length - 1; i++) if (branch(guard(a, alts[i]), a.tagC === alts[i].tag)) return alts[i].value;
  return alts[alts.length - 1].value;
}
function eachAlt(a, f) { // OR over alternatives of guard ∧ f(value)
  const ts = [];
  for (const alt of a.alts) ts.push(T.and(guard(a, alt), f(alt.value)));
  return T.or(...ts);
}

// ---- equality -----------------------------------------------------------------------------
const isInt = (n) => Number.isInteger(n) && Math.abs(n) <= Number.MAX_SAFE_INTEGER;
function toF(x) { // term of sort F
  if (typeof x === 'number') return T.dbl(x);
  if (x.$k === 'F') return x.$t;
  if (x.$k === 'I') { if (x.nz) unsupported('possible negative zero'); return T.mk('i2f', 'F', x.$t); }
  return unsupported('toF');
}
const fpEq = (a, b) => a === b ? T.not(T.mk('fp.isNaN', 'B', a)) : T.mk('fp.eq', 'B', a, b);
export function eqTerm(a, b, mode) {
  const sa = isSym(a), sb = isSym(b);
  if (!sa && !sb) {
    switch (mode) {
      case 'is': return T.bool(Object.is(a, b));
      case 'strict': return T.bool(a === b);
      case 'svz': return T.bool(a === b || (a !== a && b !== b));
      default: return T.bool(a == b);
    }
  }
  if (a === b && sa) {
    if (a.$k === 'F' && (mode === 'strict' || mode === 'loose')) return fpEq(a.$t, a.$t);
    if (a.$k !== 'A') return T.TRUE;
    if (mode === 'is' || mode === 'svz') return T.TRUE;
  }
  if (sa && a.$k === 'A') return eachAlt(a, (v) => eqTerm(v, b, mode));
  if (sb && b.$k === 'A') return eachAlt(b, (v) => eqTerm(a, v, mode));
  if (!sa) return eqTerm(b, a, mode);
  // a symbolic, not A
  const kb = sb ? b.$k : typeof b;
  switch (a.$k) {
    case 'B':
      if (kb === 'B') return T.eq(a.$t, b.$t);
      if (kb === 'boolean') return b ? a.$t : T.not(a.$t);
      break;
    case 'I':
      if (kb === 'I') { if (mode === 'is' && (a.nz || b.nz)) unsupported('Object.is on possible -0'); return T.eq(a.$t, b.$t); }
      if (kb === 'number') {
        if (!isInt(b)) return T.FALSE;
        if (mode === 'is' && b === 0 && (a.nz || Object.is(b, -0))) { if (a.nz) unsupported('Object.is on possible -0'); return T.FALSE; }
        if (b < a.lo || b > a.hi) return T.FALSE;
        return T.eq(a.$t, T.int(b));
      }
      if (kb === 'F') return eqTerm(b, a, mode);
      break;
    case 'F':
      if (kb === 'F' || kb === 'number' || kb === 'I') {
        const x = a.$t, y = toF(b);
        if (mode === 'is') return T.eq(x, y);
        if (mode === 'svz') return T.or(T.eq(x, y), fpEq(x, y));
        return fpEq(x, y);
      }
      break;
    case 'U':
      if (kb === 'U') return T.eq(a.$t, b.$t);
      if (kb === 'string') { const m = /^u(-?\d+)$/.exec(b); return m ? T.eq(a.$t, T.atom(Number(m[1]))) : T.FALSE; }
      if (kb === 'S' || kb === 'N') return T.FALSE;
      break;
    case 'S':
      if (kb === 'S' || kb === 'string') {
        const x = unitsOf(a), y = unitsOf(b);
        if (x.length !== y.length) return T.FALSE;
        const ts = [];
        for (let i = 0; i < x.length; i++) {
          if (typeof x[i] === 'number' && typeof y[i] === 'number') { if (x[i] !== y[i]) return T.FALSE; } else ts.push(T.eq(unitT(x[i]), unitT(y[i])));
        }
        return T.and(...ts);
      }
      if (kb === 'U') return T.FALSE;
      if (kb === 'N') return unsupported('string = number string');
      break;
    case 'N':
      if (kb === 'N') return eqTerm(a.num, b.num, 'svz');
      if (kb === 'string') { const n = Number(b); return String(n) === b ? eqTerm(a.num, n, 'svz') : T.FALSE; }
      if (kb === 'U') return T.FALSE;
      if (kb === 'S') return unsupported('string = number string');
      break;
  }
  if (a.$k === 'R' || kb === 'R') {
    if (kb === 'R' && a.$k === 'R') {
      const x = ropeParts(a), y = ropeParts(b);
      if (x.length === y.length && x.every((p, i) => isSym(p) ? isSym(y[i]) && p.$k === y[i].$k : p === y[i])) return T.and(...x.map((p, i) => eqTerm(p, y[i], 'strict')));
    }
    if (typeof b === 'string' || isSym(b)) return unsupported('equality of concatenated strings');
    return T.FALSE;
  }
  if (mode === 'loose' && !(b === null || b === undefined || typeof b === 'object' || typeof b === 'function' || typeof b === 'symbol')) {
    const ka = a.$k === 'U' || a.$k === 'N' ? 'S' : a.$k === 'F' ? 'I' : a.$k;
    const kk = kb === 'U' || kb === 'N' || kb === 'string' ? 'S' : kb === 'F' || kb === 'number' ? 'I' : kb === 'boolean' ? 'B' : kb;
    if (ka !== kk) unsupported('loose equality between different types');
  }
  return T.FALSE;
}
function eqC(a, b, mode) {
  const x = conc(a), y = conc(b);
  switch (mode) {
    case 'is': return Object.is(x, y);
    case 'strict': return x === y;
    case 'svz': return x === y || (x !== x && y !== y);
    default: return x == y;
  }
}
export function eqv(a, b, mode) { return mkB(eqTerm(a, b, mode), eqC(a, b, mode)); }
export function truthTerm(x) {
  if (!isSym(x)) return T.bool(!!x);
  switch (x.$k) {
    case 'B': return x.$t;
    case 'I': return T.not(T.eq(x.$t, T.int(0)));
    case 'F': return T.and(T.not(T.mk('fp.isZero', 'B', x.$t)), T.not(T.mk('fp.isNaN', 'B', x.$t)));
    case 'A': return eachAlt(x, truthTerm);
    default: return T.TRUE; // U, S (non-constant strings are non-empty), N
  }
}
const truth = (x) => isSym(x) ? branch(truthTerm(x), !!conc(x)) : !!x;

// ---- arithmetic ---------------------------------------------------------------------------
const asNumber = (x) => { // -> number | I | F
  x = resolve(x);
  if (!isSym(x)) return typeof x === 'number' ? x : typeof x === 'object' || typeof x === 'function' || typeof x === 'symbol' || typeof x === 'bigint' ? unsupported('number conversion of ' + typeof x) : Number(x);
  switch (x.$k) {
    case 'I': case 'F': return x;
    case 'B': return branch(x.$t, x.$c) ? 1 : 0;
    case 'N': return x.num;
    case 'S': return strToNumber(x);
    default: return unsupported('number conversion of kind ' + x.$k);
  }
};
const rng = (x) => isSym(x) ? [x.lo, x.hi] : [x, x];
const tI = (x) => isSym(x) ? x.$t : T.int(x);
const isIlike = (x) => isSym(x) ? x.$k === 'I' : isInt(x) && !Object.is(x, -0);
function arith(op, a, b) {
  a = asNumber(a); b = asNumber(b);
  if (!isSym(a) && !isSym(b)) return natArith(op, a, b);
  const c = natArith(op, conc(a), conc(b));
  if (isIlike(a) && isIlike(b)) {
    const [al, ah] = rng(a), [bl, bh] = rng(b);
    switch (op) {
      case '+': return mkI(T.mk('bvadd', 'I', tI(a), tI(b)), c, al + bl, ah + bh);
      case '-': return mkI(T.mk('bvsub', 'I', tI(a), tI(b)), c, al - bh, ah - bl);
      case '*': {
        const ps = [al * bl, al * bh, ah * bl, ah * bh];
        return mkI(T.mk('bvmul', 'I', tI(a), tI(b)), c, Math.min(...ps), Math.max(...ps), al < 0 || bl < 0);
      }
      case '%': {
        if (bl <= 0 && bh >= 0 && truth(eqv(b, 0, 'strict'))) return NaN;
        const m = Math.max(Math.abs(bl), Math.abs(bh)) - 1;
        return mkI(T.mk('bvsrem', 'I', tI(a), tI(b)), c, al < 0 ? -m : 0, ah > 0 ? m : 0, al < 0);
      }
    }
  }
  const x = toF(a), y = toF(b);
  const o = { '+': 'fp.add', '-': 'fp.sub', '*': 'fp.mul', '/': 'fp.div' }[op];
  if (o === undefined) return unsupported('floating ' + op);
  return mkF(T.mk(o, 'F', x, y), c);
}
function natArith(op, a, b) {
  switch (op) { case '+': return a + b; case '-': return a - b; case '*': return a * b; case '/': return a / b; case '%': return a % b; case '**': return a ** b; }
}
function toInt32(x) { // -> number | I within int32
  x = asNumber(x);
  if (!isSym(x)) return x | 0;
  if (x.$k === 'F') return unsupported('ToInt32 of a double');
  if (x.lo >= -0x80000000 && x.hi <= 0x7fffffff) return x;
  return mkI(T.mk('sx32', 'I', x.$t), x.$c | 0, -0x80000000, 0x7fffffff);
}
function bits(op, a, b) {
  a = toInt32(a); b = toInt32(b);
  const ca = conc(a), cb = conc(b);
  let c;
  switch (op) { case '&': c = ca & cb; break; case '|': c = ca | cb; break; case '^': c = ca ^ cb; break; case '<<': c = ca << cb; break; case '>>': c = ca >> cb; break; case '>>>': c = ca >>> cb; break; }
  if (!isSym(a) && !isSym(b)) return c;
  const [al, ah] = rng(a), [bl, bh] = rng(b);
  let lo = -0x80000000, hi = 0x7fffffff;
  if (op === '&' && al >= 0) { lo = 0; hi = ah; }
  if (op === '&' && bl >= 0) { lo = 0; hi = Math.min(hi, bh); }
  if ((op === '|' || op === '^') && al >= 0 && bl >= 0) { lo = 0; hi = 2 ** Math.ceil(Math.log2(Math.max(ah, bh) + 1)) - 1; }
  const x = tI(a), y = tI(b);
  switch (op) {
    case '&': return mkI(T.mk('bvand', 'I', x, y), c, lo, hi);
    case '|': return mkI(T.mk('bvor', 'I', x, y), c, lo, hi);
    case '^': return mkI(T.mk('bvxor', 'I', x, y), c, lo, hi);
    case '<<': return mkI(T.mk('shl32', 'I', x, y), c, lo, hi);
    case '>>': return mkI(T.mk('sar32', 'I', x, y), c, al >= 0 ? 0 : lo, al >= 0 ? ah : hi);
    case '>>>': return mkI(T.mk('shr32', 'I', x, y), c, 0, 0xffffffff);
  }
}
function compare(op, a, b) { // op: < <=  (others by swapping)
  a = resolve(a); b = resolve(b);
  if (isStrLike(a) && isStrLike(b)) {
    if (!isUnits(a) || !isUnits(b)) return unsupported('ordering of opaque strings');
    const x = unitsOf(a), y = unitsOf(b);
    for (let i = 0; i < x.length && i < y.length; i++) {
      if (!unitEq(x[i], y[i])) return mkB(T.mk('bvult', 'B', unitT(x[i]), unitT(y[i])), unitC(x[i]) < unitC(y[i]));
    }
    return op === '<' ? x.length < y.length : x.length <= y.length;
  }
  a = asNumber(a); b = asNumber(b);
  const ca = conc(a), cb = conc(b);
  const c = op === '<' ? ca < cb : ca <= cb;
  if (!isSym(a) && !isSym(b)) return c;
  if (isIlike(a) && isIlike(b)) {
    const [al, ah] = rng(a), [bl, bh] = rng(b);
    if (op === '<' ? ah < bl : ah <= bl) return true;
    if (op === '<' ? al >= bh : al > bh) return false;
    return mkB(op === '<' ? ltI(tI(a), tI(b)) : T.not(ltI(tI(b), tI(a))), c);
  }
  if ((isSym(a) && a.$k === 'I' && !isSym(b)) || (isSym(b) && b.$k === 'I' && !isSym(a))) {
    // integer against a non-integral constant
    const n = isSym(a) ? b : a;
    if (Number.isNaN(n)) return false;
    const [lo, hi] = rng(isSym(a) ? a : b);
    if (isSym(a)) { if (hi < n) return true; if (lo > n) return false; } else { if (lo > n) return true; if (hi < n) return false; }
    const f = Math.floor(n);
    if (!isInt(f)) return unsupported('comparison with huge number');
    return isSym(a) ? compare('<=', a, f) : compare('<=', f + 1, b);
  }
  return mkB(T.mk(op === '<' ? 'fp.lt' : 'fp.leq', 'B', toF(a), toF(b)), c);
}

// ---- strings ------------------------------------------------------------------------------
export function unitEq(u, v) { // both unit or number
  if (typeof u === 'number' && typeof v === 'number') return u === v;
  return branch(T.eq(unitT(u), unitT(v)), unitC(u) === unitC(v));
}
export function unitIn(u, lo, hi) {
  if (typeof u === 'number') return u >= lo && u <= hi;
  const d = u.t.dom;
  void d;
  return branch(T.and(T.mk('bvule', 'B', T.chr(lo), u.t), T.mk('bvule', 'B', u.t, T.chr(hi))), u.c >= lo && u.c <= hi);
}
/** Is the unit in a union of inclusive ranges?  One branch. */
export function unitInSet(u, ranges) {
  if (typeof u === 'number') return ranges.some(([a, b]) => u >= a && u <= b);
  const ts = ranges.map(([a, b]) => a === b ? T.eq(u.t, T.chr(a)) : T.and(T.mk('bvule', 'B', T.chr(a), u.t), T.mk('bvule', 'B', u.t, T.chr(b))));
  return branch(T.or(...ts), ranges.some(([a, b]) => u.c >= a && u.c <= b));
}
const WS = [[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
export const WS_RANGES = WS;
export function toStr(x) { // JS ToString -> string | S | U | N
  x = resolve(x);
  if (!isSym(x)) return typeof x === 'symbol' ? unsupported('symbol to string') : typeof x === 'object' && x !== null && hasSymDeep(x) ? unsupported('ToString of object with symbolic parts') : String(x);
  switch (x.$k) {
    case 'S': case 'U': case 'N': case 'R': return x;
    case 'B': return branch(x.$t, x.$c) ? 'true' : 'false';
    case 'I': if (x.nz) unsupported('string of possible -0'); return mkN(x);
    case 'F': return mkN(x);
  }
}
function hasSymDeep(o) { return Array.isArray(o) && o.some(isSym); }
export function concat(a, b) {
  a = toStr(a); b = toStr(b);
  if (a === '') return b;
  if (b === '') return a;
  if (isUnits(a) && isUnits(b)) return typeof a === 'string' && typeof b === 'string' ? a + b : mkS([...unitsOf(a), ...unitsOf(b)]);
  return make('R', conc(a) + conc(b), null, { parts: [a, b] });
}
function ropeParts(r) { const out = []; const go = (x) => { if (isSym(x) && x.$k === 'R') x.parts.forEach(go); else if (typeof x === 'string' && typeof out.at(-1) === 'string') out.push(out.pop() + x); else out.push(x); }; go(r); return out; }
function opaqueMsg(x) { return isSym(x) ? '<' + String(conc(x)) + '>' : x; }
function strToNumber(s) { return strictNumber(unitsOf(s), conc(s)); }
function strictNumber(units, c) {
  // Number(string) for a trimmed optional-sign decimal integer; everything else forks to a constant.
  let i = 0, e = units.length;
  while (i < e && unitInSet(units[i], WS)) i++;
  while (e > i && unitInSet(units[e - 1], WS)) e--;
  if (i === e) return 0;
  let neg = false;
  if (unitEq(units[i], 43)) i++; else if (unitEq(units[i], 45)) { neg = true; i++; }
  for (let j = i; j < e; j++) if (!unitInSet(units[j], [[48, 57]])) return Number.isNaN(Number(c)) && isDefinitelyNaN(units.slice(i, e)) ? NaN : unsupported('Number() of a non-integer string');
  if (i === e) return NaN;
  return digits(units.slice(i, e), neg);
}
function isDefinitelyNaN(us) {
  for (const u of us) if (!unitInSet(u, [[43, 43], [45, 46], [48, 57], [65, 70], [97, 102], [88, 88], [120, 120], [73, 73], [105, 105], [110, 110], [116, 116], [121, 121], [79, 79], [111, 111]])) return true;
  return unsupported('Number() of an exotic string');
}
const DEC = new WeakMap(); // integers read from digits -> the digits
function digits(us, neg) {
  let acc = 0;
  for (const u of us) {
    const d = typeof u === 'number' ? u - 48 : arith('-', mkI(T.mk('c2i', 'I', u.t), u.c, 48, 57), 48);
    acc = arith('+', arith('*', acc, 10), d);
  }
  if (neg) acc = negate(acc);
  if (isSym(acc) && acc.$k === 'I') DEC.set(acc, { us, neg });
  return acc;
}
function negate(x) {
  x = asNumber(x);
  if (!isSym(x)) return -x;
  if (x.$k === 'F') return mkF(T.mk('fp.neg', 'F', x.$t), -x.$c);
  return mkI(T.mk('bvsub', 'I', T.int(0), x.$t), -x.$c, -x.hi, -x.lo, x.lo <= 0 && x.hi >= 0);
}
function fixNz(x) { // turns an integer that might be -0 into either -0 or a plain integer
  if (isSym(x) && x.$k === 'I' && x.nz) {
    if (truth(eqv(x, 0, 'strict'))) return -0;
    const r = mkI(x.$t, x.$c, x.lo, x.hi);
    if (DEC.has(x)) DEC.set(r, DEC.get(x));
    return r;
  }
  return x;
}
function parseIntSym(s, radix) {
  s = toStr(s);
  if (!isSym(s)) return Number.parseInt(s, conc(radix));
  if (s.$k === 'N') { if (isSym(s.num) && s.num.$k === 'I') return s.num; return unsupported('parseInt of number string'); }
  if (s.$k === 'U') return NaN; // atoms start with a letter
  if (radix !== undefined && radix !== 10 && radix !== 0) return unsupported('parseInt radix');
  const us = unitsOf(s);
  let i = 0;
  while (i < us.length && unitInSet(us[i], WS)) i++;
  let neg = false;
  if (i < us.length) { if (unitEq(us[i], 43)) i++; else if (unitEq(us[i], 45)) { neg = true; i++; } }
  if (radix !== 10 && i + 1 < us.length && unitEq(us[i], 48) && unitInSet(us[i + 1], [[88, 88], [120, 120]])) return unsupported('parseInt hex');
  const start = i;
  while (i < us.length && unitInSet(us[i], [[48, 57]])) i++;
  if (i === start) return NaN;
  return fixNz(digits(us.slice(start, i), neg));
}
/** Decimal string of an integer as symbolic units (forks on sign and number of digits). */
function intToUnits(n) {
  if (!isSym(n)) return unitsOf(String(n));
  if (n.$k !== 'I') return unsupported('digits of a double');
  const dec = DEC.get(n);
  if (dec !== undefined) { // read from these digits
    let i = 0; const us = dec.us;
    while (i < us.length - 1 && unitEq(us[i], 48)) i++;
    return dec.neg && !unitEq(us[i], 48) ? [45, ...us.slice(i)] : us.slice(i);
  }
  const out = [];
  let x = n;
  if (x.lo < 0 && truth(compare('<', x, 0))) { out.push(45); x = mkI(T.mk('bvsub', 'I', T.int(0), x.$t), -x.$c, Math.max(0, -x.hi), -x.lo); }
  const ds = [];
  for (;;) {
    const hi = x.hi;
    const rem = hi < 10 ? x.$t : T.mk('bvsrem', 'I', x.$t, T.int(10));
    const rc = x.$c % 10;
    ds.unshift({ c: 48 + rc, t: T.mk('i2c', 'C', T.mk('bvadd', 'I', rem, T.int(48))) });
    if (hi < 10) break;
    if (!truth(compare('<=', 10, x))) break;
    const q = T.mk('bvsdiv', 'I', x.$t, T.int(10));
    x = mkI(q, Math.floor(x.$c / 10), 0, Math.floor(hi / 10));
    if (!isSym(x)) { ds.unshift(...unitsOf(String(x))); break; }
  }
  return [...out, ...ds];
}
function eqStrNum(s, n) { // S = decimal string of an integer
  return eqTerm(s, mkS(intToUnits(n.num)), 'strict');
}

const idx = (x, len, dflt) => {
  if (x === undefined) return dflt;
  x = concretize(x);
  x = Math.trunc(Number(x)) || 0;
  return x < 0 ? Math.max(0, len + x) : Math.min(x, len);
};
/** Forks over the possible values of a symbolic value and returns the concrete one. */
export function concretize(x) {
  x = resolve(x);
  if (!isSym(x)) return x;
  const c = conc(x);
  if (x.$k === 'B') return branch(x.$t, x.$c);
  if (x.$k === 'I' && x.nz) { x = fixNz(x); if (!isSym(x)) return x; }
  // asks about the values tried on the paths this one was derived from, then about its own
  const tried = P.inputs.conc?.[P.tried.length]?.vals ?? [];
  const entry = { at: P.branches.length, vals: tried };
  P.tried.push(entry);
  for (const v of tried) if (branch(eqTerm(x, v, 'is'), Object.is(v, c))) return v;
  entry.vals = [...tried, c];
  branch(eqTerm(x, c, 'is'), true);
  return c;
}
// Symbolic property names: each distinct one of a path stands behind a placeholder name.
const PH = '\uE000';
const isPh = (k) => typeof k === 'string' && k.charCodeAt(0) === 0xE000 && P.keys !== null && P.keys.has(k);
const phVal = (k) => isPh(k) ? P.keys.get(k) : k;
function canonKey(k) { // any value -> a concrete property name or a placeholder
  k = resolve(k);
  if (!isSym(k)) return k;
  if (k.$k === 'B') return String(concretize(k));
  if (k.$k !== 'S') return concretize(k);
  if (k.units.every((u) => unitInSet(u, [[48, 57]]))) return concretize(k); // array indices are ordered differently
  for (const [p, v] of P.keys) if (truth(eqv(v, k, 'strict'))) return p;
  const p = PH + P.keys.size;
  P.keys.set(p, k);
  return p;
}
const OPN = Object.getOwnPropertyNames(Object.prototype);
/** The property name under which `o` holds (or would hold) key `k`. */
function pkey(o, k) {
  if (prim(k)) {
    if (P.keys === null || P.keys.size === 0 || typeof k === 'symbol' || typeof o !== 'object' || o === null || Object.hasOwn(o, k)) return k;
    for (const e of Reflect.ownKeys(o)) if (isPh(e) && truth(eqv(P.keys.get(e), String(k), 'strict'))) return e;
    return k;
  }
  k = canonKey(k);
  if (!isPh(k)) return pkey(o, k);
  if (typeof o !== 'object' || o === null) return concretize(P.keys.get(k));
  if (Object.hasOwn(o, k)) return k;
  const v = P.keys.get(k), n = v.units.length;
  for (const e of Reflect.ownKeys(o)) if (typeof e === 'string' && !isPh(e) && e.length === n && truth(eqv(e, v, 'strict'))) return e;
  const pr = Object.getPrototypeOf(o);
  if (pr !== null) {
    if (pr !== Object.prototype) { const c = concretize(v); return c; }
    for (const e of OPN) if (e.length === n && truth(eqv(e, v, 'strict'))) return e;
  }
  return k;
}
const namesOf = (ks) => P.keys !== null && P.keys.size > 0 ? ks.map(phVal) : ks;
/** Merges placeholders with equal literal names after an object literal with computed names. */
function objLit(o) {
  if (P.keys !== null && P.keys.size > 0) for (const k of Object.keys(o)) if (isPh(k)) { const v = P.keys.get(k); for (const e of Object.keys(o)) if (!isPh(e) && e.length === v.units.length && truth(eqv(e, v, 'strict'))) { o[e] = o[k]; delete o[k]; break; } }
  return o;
}
function forIn(o) { if (!prim(o)) o = resolve(o); const ks = []; for (const k in o) ks.push(k); return namesOf(ks); }
function del(o, k) { return delete o[pkey(o, k)]; }
export const keyShown = (k) => isPh(k) ? conc(P.keys.get(k)) : k;
function indexOfUnits(h, n, from) {
  outer: for (let i = from; i + n.length <= h.length; i++) {
    for (let j = 0; j < n.length; j++) if (!unitEq(h[i + j], n[j])) continue outer;
    return i;
  }
  return -1;
}
function lastIndexOfUnits(h, n, from) {
  outer: for (let i = Math.min(from, h.length - n.length); i >= 0; i--) {
    for (let j = 0; j < n.length; j++) if (!unitEq(h[i + j], n[j])) continue outer;
    return i;
  }
  return -1;
}
function caseMap(us, up) {
  return us.map((u) => {
    if (typeof u === 'number') return (up ? String.fromCharCode(u).toUpperCase() : String.fromCharCode(u).toLowerCase()).charCodeAt(0);
    const [lo, hi, d] = up ? [97, 122, -32] : [65, 90, 32];
    if (unitInSet(u, [[lo, hi]])) return { c: u.c + d, t: T.mk('bvadd', 'C', u.t, T.chr(d & 0xffff)) };
    if (!unitInSet(u, [[0, 127]])) return unsupported('case mapping of non-ASCII');
    return u;
  });
}
const needUnits = (x) => { x = toStr(x); if (isSym(x) && x.$k === 'N' && isSym(x.num) && x.num.$k === 'I') return intToUnits(x.num); if (!isUnits(x)) return unsupported('character access to an opaque string (' + x.$k + ')'); return unitsOf(x); };
const isRegExp = (x) => x instanceof RegExp;
const regexCache = new Map();
function regexOf(re) {
  const key = re.source + '/' + re.flags;
  let r = regexCache.get(key);
  if (r === undefined) { r = new Regex(re.source, re.flags); regexCache.set(key, r); }
  return r;
}
const regexEnv = { unitInSet, unitEq, unsupported, WS };
export function regexExec(re, s) {
  const us = needUnits(s);
  const global = re.global || re.sticky;
  const start = global ? re.lastIndex : 0;
  if (start > us.length) { re.lastIndex = 0; return null; }
  const m = regexOf(re).exec(us, start, re.sticky, regexEnv);
  if (m === null) { if (global) re.lastIndex = 0; return null; }
  if (global) re.lastIndex = m.end;
  const arr = m.caps.map((c) => c === undefined ? undefined : mkS(us.slice(c[0], c[1])));
  arr.index = m.start; arr.input = s; arr.groups = undefined;
  if (m.names) { arr.groups = {}; for (const n in m.names) arr.groups[n] = arr[m.names[n]]; }
  arr.$end = m.end;
  return arr;
}
function expandReplacement(rep, m, us) {
  if (typeof rep !== 'string') return needUnits(rep);
  const out = [];
  for (let i = 0; i < rep.length; i++) {
    if (rep[i] === '$' && i + 1 < rep.length) {
      const n = rep[i + 1];
      if (n === '$') { out.push(36); i++; continue; }
      if (n === '&') { out.push(...unitsOf(m[0])); i++; continue; }
      if (/[1-9]/.test(n)) {
        let k = Number(n), l = 1;
        if (i + 2 < rep.length && /\d/.test(rep[i + 2]) && k * 10 + Number(rep[i + 2]) < m.length) { k = k * 10 + Number(rep[i + 2]); l = 2; }
        if (k < m.length) { if (m[k] !== undefined) out.push(...unitsOf(m[k])); i += l; continue; }
      }
      if (n === '`' || n === "'" || n === '<') unsupported('replacement pattern');
    }
    out.push(rep.charCodeAt(i));
  }
  return out;
}
function replaceStr(s, pat, rep, all) {
  const us = needUnits(s);
  const out = [];
  const call = (m, i) => typeof rep === 'function' ? needUnits(toStr(rep(...m, i, s))) : expandReplacement(rep, m, us);
  if (isRegExp(pat)) {
    const re = new RegExp(pat.source, pat.flags);
    let pos = 0;
    for (;;) {
      const m = regexExec(re, s);
      if (m === null) break;
      out.push(...us.slice(pos, m.index), ...call(m, m.index));
      pos = m.$end;
      if (!re.global) break;
      if (m.$end === m.index) re.lastIndex++;
    }
    out.push(...us.slice(pos));
    return mkS(out);
  }
  const n = needUnits(pat);
  let pos = 0, from = 0;
  for (;;) {
    const i = indexOfUnits(us, n, from);
    if (i < 0) break;
    out.push(...us.slice(pos, i), ...call([mkS(n)], i));
    pos = i + n.length; from = n.length === 0 ? i + 1 : pos;
    if (!all) break;
  }
  out.push(...us.slice(pos));
  return mkS(out);
}
const STR = {
  at(s, i) { const u = needUnits(s); i = Math.trunc(Number(concretize(i))) || 0; if (i < 0) i += u.length; return i >= 0 && i < u.length ? mkS([u[i]]) : undefined; },
  charAt(s, i) { const u = needUnits(s); i = Math.trunc(Number(concretize(i))) || 0; return i >= 0 && i < u.length ? mkS([u[i]]) : ''; },
  charCodeAt(s, i) { const u = needUnits(s); i = Math.trunc(Number(concretize(i))) || 0; if (!(i >= 0 && i < u.length)) return NaN; const x = u[i]; return typeof x === 'number' ? x : mkI(T.mk('c2i', 'I', x.t), x.c, 0, 65535); },
  codePointAt(s, i) { return STR.charCodeAt(s, i); },
  slice(s, a, b) { const u = needUnits(s); const st = idx(a, u.length, 0), e = idx(b, u.length, u.length); return mkS(u.slice(st, Math.max(st, e))); },
  substring(s, a, b) { const u = needUnits(s); const cl = (x, d) => x === undefined ? d : Math.min(Math.max(Math.trunc(Number(concretize(x))) || 0, 0), u.length); let x = cl(a, 0), y = cl(b, u.length); if (x > y) [x, y] = [y, x]; return mkS(u.slice(x, y)); },
  substr(s, a, n) { const u = needUnits(s); const st = idx(a, u.length, 0); const len = n === undefined ? u.length - st : Math.max(0, Number(concretize(n))); return mkS(u.slice(st, st + len)); },
  startsWith(s, p, at = 0) { const u = needUnits(s), n = needUnits(p); at = idx(at, u.length, 0); if (at + n.length > u.length) return false; return eqv(mkS(u.slice(at, at + n.length)), mkS(n), 'strict'); },
  endsWith(s, p, e) { const u = needUnits(s), n = needUnits(p); e = idx(e, u.length, u.length); if (n.length > e) return false; return eqv(mkS(u.slice(e - n.length, e)), mkS(n), 'strict'); },
  includes(s, p, at = 0) { return indexOfUnits(needUnits(s), needUnits(p), Number(concretize(at)) || 0) >= 0; },
  indexOf(s, p, at = 0) { return indexOfUnits(needUnits(s), needUnits(p), Math.max(0, Number(concretize(at)) || 0)); },
  lastIndexOf(s, p, at = Infinity) { return lastIndexOfUnits(needUnits(s), needUnits(p), at); },
  split(s, sep, limit) {
    if (sep === undefined) return [s];
    const u = needUnits(s);
    const out = [];
    if (isRegExp(sep)) {
      const r = regexOf(sep);
      if (u.length === 0) return r.exec(u, 0, false, regexEnv) ? [] : [''];
      let p = 0, q = 0;
      while (q < u.length) {
        const m = r.exec(u, q, true, regexEnv);
        if (m === null || m.end === p) { q++; continue; }
        out.push(mkS(u.slice(p, q)));
        for (let i = 1; i < m.caps.length; i++) out.push(m.caps[i] === undefined ? undefined : mkS(u.slice(...m.caps[i])));
        p = m.end; q = p;
      }
      out.push(mkS(u.slice(p)));
    } else {
      const n = needUnits(sep);
      if (n.length === 0) for (const x of u) out.push(mkS([x]));
      else {
        let p = 0;
        for (;;) {
          const i = indexOfUnits(u, n, p);
          if (i < 0) break;
          out.push(mkS(u.slice(p, i)));
          p = i + n.length;
        }
        out.push(mkS(u.slice(p)));
      }
    }
    return limit === undefined ? out : out.slice(0, limit);
  },
  trimStart(s) { const u = needUnits(s); let i = 0; while (i < u.length && unitInSet(u[i], WS)) i++; return mkS(u.slice(i)); },
  trimEnd(s) { const u = needUnits(s); let e = u.length; while (e > 0 && unitInSet(u[e - 1], WS)) e--; return mkS(u.slice(0, e)); },
  trim(s) { return STR.trimEnd(STR.trimStart(s)); },
  toLowerCase(s) { return mkS(caseMap(needUnits(s), false)); },
  toUpperCase(s) { return mkS(caseMap(needUnits(s), true)); },
  toString(s) { return s; },
  valueOf(s) { return s; },
  concat(s, ...r) { return r.reduce(concat, s); },
  repeat(s, n) { n = Number(concretize(n)); const u = needUnits(s); const out = []; for (let i = 0; i < n; i++) out.push(...u); return mkS(out); },
  padEnd(s, n, f = ' ') { const u = needUnits(s); const fu = needUnits(f); const out = []; n = concretize(n) - u.length; for (let i = 0; i < n; i++) out.push(fu[i % fu.length]); return mkS([...u, ...out]); },
  padStart(s, n, f = ' ') { const u = needUnits(s); const fu = needUnits(f); const out = []; n = concretize(n) - u.length; for (let i = 0; i < n; i++) out.push(fu[i % fu.length]); return mkS([...out, ...u]); },
  replace(s, p, r) { return replaceStr(s, p, r, false); },
  replaceAll(s, p, r) { return replaceStr(s, p, r, true); },
  match(s, p) {
    const re = isRegExp(p) ? new RegExp(p.source, p.flags) : new RegExp(p);
    if (!re.global) { const m = regexExec(re, s); return m; }
    const out = [];
    for (;;) { const m = regexExec(re, s); if (m === null) break; out.push(m[0]); if (m.$end === m.index) re.lastIndex++; }
    return out.length ? out : null;
  },
  matchAll(s, p) { const re = new RegExp(p.source, p.flags); const out = []; for (;;) { const m = regexExec(re, s); if (m === null) break; out.push(m); if (m.$end === m.index) re.lastIndex++; } return out[Symbol.iterator](); },
  search(s, p) { const m = regexExec(new RegExp(p.source, p.flags.replace('g', '')), s); return m ? m.index : -1; },
  localeCompare() { return unsupported('localeCompare'); },
  normalize() { return unsupported('normalize'); },
  isWellFormed() { return unsupported('isWellFormed'); },
};
const strIter = (s) => needUnits(s).map((u) => mkS([u]))[Symbol.iterator]();

/** Tokens of a string separated by ASCII whitespace. */
export function splitSpace(x) {
  x = toStr(x);
  if (!isSym(x)) return x.split(/[\t\n\f\r ]+/).filter((y) => y !== '');
  if (x.$k === 'U') return [x];
  const out = [];
  let cur = [];
  for (const u of needUnits(x)) if (unitInSet(u, [[9, 10], [12, 13], [32, 32]])) { if (cur.length) out.push(mkS(cur)); cur = []; } else cur.push(u);
  if (cur.length) out.push(mkS(cur));
  return out;
}
function symMethod(o, k, args) {
  o = resolve(o);
  if (!isSym(o)) return m(o, k, ...args);
  if (isSym(k)) k = concretize(k);
  if (o.$k === 'B' || o.$k === 'I' || o.$k === 'F') {
    if (k === 'toString' || k === 'toLocaleString') { if (args.length && args[0] !== 10) return unsupported('radix'); return toStr(o); }
    if (k === 'valueOf') return o;
    if (k === 'toFixed') return unsupported('toFixed');
    return throwNative(() => conc(o)[k](...args.map(conc)));
  }
  if (o.$k === 'U' || o.$k === 'N' || o.$k === 'R') {
    if (k === 'toString' || k === 'valueOf') return o;
    if (o.$k === 'U' && k === 'trim') return o;
    if (k === 'split' && o.$k === 'U') return [o]; // atoms contain no separators
    if (o.$k === 'N' && isSym(o.num) && o.num.$k === 'I') return symMethod(mkS(intToUnits(o.num)), k, args);
    return unsupported(`method ${String(k)} of an opaque string`);
  }
  if (k === Symbol.iterator) return strIter(o);
  const f = STR[k];
  if (f === undefined) {
    if (String.prototype[k] !== undefined) return unsupported(`String.prototype.${String(k)}`);
    throw new TypeError(`${String(k)} is not a function`);
  }
  return f(o, ...args);
}
function throwNative(f) { return f(); }
function symGet(o, k) {
  o = resolve(o);
  if (!isSym(o)) return g(o, k);
  if (isSym(k)) k = concretize(k);
  if (o.$k === 'S') {
    if (k === 'length') return o.units.length;
    if (typeof k === 'number' || (typeof k === 'string' && /^\d+$/.test(k))) return Number(k) < o.units.length ? mkS([o.units[Number(k)]]) : undefined;
    if (k === Symbol.iterator) return () => strIter(o);
    if (k in STR) return (...a) => STR[k](o, ...a);
    return String.prototype[k] !== undefined ? unsupported(`String.prototype.${String(k)} as a value`) : undefined;
  }
  if (o.$k === 'N' && isSym(o.num) && o.num.$k === 'I' && k !== 'toString') return symGet(mkS(intToUnits(o.num)), k);
  if (o.$k === 'U' || o.$k === 'N' || o.$k === 'R') {
    if (k === 'toString' || k === 'valueOf') return () => o;
    if (k === Symbol.iterator) return () => unsupported('iteration of an opaque string');
    if (typeof k === 'symbol') return undefined;
    if (k === 'length' || /^\d+$/.test(k) || String.prototype[k] !== undefined) return unsupported(`property ${String(k)} of an opaque string`);
    return undefined;
  }
  if (k === 'toString') return () => toStr(o);
  if (k === 'valueOf') return () => o;
  const pr = o.$k === 'B' ? Boolean.prototype : Number.prototype;
  if (pr[k] !== undefined && k !== 'constructor') return unsupported(`property ${String(k)}`);
  return pr[k];
}

// ---- native functions ---------------------------------------------------------------------
const nativeCache = new WeakMap();
const fnToString = Function.prototype.toString;
function isNative(f) {
  let r = nativeCache.get(f);
  if (r === undefined) { r = /\{\s*\[native code\]\s*\}\s*$/.test(fnToString.call(f)); nativeCache.set(f, r); }
  return r;
}
const MODELS = new Map();
const anySym = (xs) => { for (const x of xs) if (isSym(x)) return true; return false; };
const model = (f, fn) => { if (typeof f === 'function') MODELS.set(f, fn); };
const AP = Array.prototype;
// natives that only move values around
const SAFE = new Set([
  AP.push, AP.unshift, AP.pop, AP.shift, AP.splice, AP.slice, AP.concat, AP.fill, AP.reverse, AP.at, AP.with, AP.toSpliced, AP.toReversed, AP.entries, AP.values, AP.keys, AP.flat, AP.map, AP.forEach, AP.reduce, AP.reduceRight, AP.flatMap, AP[Symbol.iterator],
  Array.of, Object.freeze, Object.assign, Object.defineProperty, Object.defineProperties, Object.values, Object.seal, Object.create, Object.getPrototypeOf, Object.setPrototypeOf, Object.isFrozen, Reflect.set, Reflect.get, Reflect.apply, Reflect.construct, Reflect.defineProperty,
  Promise.resolve, Promise.reject, Promise.all, Promise.allSettled, Promise.race, Promise.prototype.then, Promise.prototype.catch, Promise.prototype.finally,
  WeakMap.prototype.set, Array.isArray, queueMicrotask,
].filter((f) => typeof f === 'function'));
function cmpSort(arr, cmp) {
  if (cmp === undefined) { if (arr.some(isSym)) unsupported('default sort of symbolic values'); return AP.sort.call(arr); }
  // insertion sort (stable); comparisons are recorded branches
  const a = arr.slice();
  for (let i = 1; i < a.length; i++) {
    const x = a[i];
    let j = i - 1;
    while (j >= 0 && truth(compare('<', 0, cmp(a[j], x)))) { a[j + 1] = a[j]; j--; }
    a[j + 1] = x;
  }
  for (let i = 0; i < a.length; i++) arr[i] = a[i];
  return arr;
}
const find = (dir, want) => (o, [f, thisArg]) => {
  const n = o.length;
  for (let j = 0; j < n; j++) {
    const i = dir > 0 ? j : n - 1 - j;
    const v = o[i];
    if (truth(f.call(thisArg, v, i, o))) return want === 'v' ? v : i;
  }
  return want === 'v' ? undefined : -1;
};
model(AP.filter, (o, [f, t]) => { const out = []; for (let i = 0; i < o.length; i++) if (i in o) { const v = o[i]; if (truth(f.call(t, v, i, o))) out.push(v); } return out; });
model(AP.some, (o, [f, t]) => { for (let i = 0; i < o.length; i++) if (i in o && truth(f.call(t, o[i], i, o))) return true; return false; });
model(AP.every, (o, [f, t]) => { for (let i = 0; i < o.length; i++) if (i in o && !truth(f.call(t, o[i], i, o))) return false; return true; });
model(AP.find, find(1, 'v')); model(AP.findIndex, find(1, 'i')); model(AP.findLast, find(-1, 'v')); model(AP.findLastIndex, find(-1, 'i'));
model(AP.includes, (o, a) => { const x = a[0]; if (!isSym(x) && !anySym(o)) return AP.includes.apply(o, a); for (let i = 0; i < o.length; i++) if (truth(eqv(o[i], x, 'svz'))) return true; return false; });
model(AP.indexOf, (o, a) => { const x = a[0]; if (!isSym(x) && !anySym(o)) return AP.indexOf.apply(o, a); for (let i = Number(a[1] ?? 0); i < o.length; i++) if (truth(eqv(o[i], x, 'strict'))) return i; return -1; });
model(AP.lastIndexOf, (o, a) => { const x = a[0]; if (!isSym(x) && !anySym(o)) return AP.lastIndexOf.apply(o, a); for (let i = o.length - 1; i >= 0; i--) if (truth(eqv(o[i], x, 'strict'))) return i; return -1; });
model(AP.join, (o, a) => { if (!anySym(o) && !isSym(a[0])) return AP.join.apply(o, a); const sep = a[0] === undefined ? ',' : a[0]; let s = ''; for (let i = 0; i < o.length; i++) { if (i > 0) s = concat(s, sep); const v = resolve(o[i]); if (v != null) s = concat(s, v); } return s; });
model(AP.sort, (o, [cmp]) => cmpSort(o, cmp));
model(AP.toSorted, (o, [cmp]) => cmpSort(o.slice(), cmp));
model(AP.toString, (o) => anySym(o) ? unsupported('array to string') : AP.toString.call(o));
model(AP.slice, (o, a) => AP.slice.apply(o, a.map(concretize)));
model(AP.at, (o, a) => AP.at.apply(o, a.map(concretize)));
model(AP.splice, (o, a) => AP.splice.call(o, ...a.map((x, i) => i < 2 ? concretize(x) : x)));
model(Object.is, (_o, [a, b]) => eqv(a, b, 'is'));
model(Object.hasOwn, (_o, [o, k]) => isSym(o) ? unsupported('Object.hasOwn') : Object.hasOwn(o, pkey(o, k)));
model(Object.prototype.hasOwnProperty, (o, [k]) => Object.prototype.hasOwnProperty.call(o, pkey(o, k)));
model(Reflect.has, (_o, [o, k]) => Reflect.has(o, pkey(o, k)));
model(Object.keys, (_o, [o]) => isSym(o) ? unsupported('Object.keys') : namesOf(Object.keys(o)));
model(Object.getOwnPropertyNames, (_o, [o]) => namesOf(Object.getOwnPropertyNames(o)));
model(Reflect.ownKeys, (_o, [o]) => namesOf(Reflect.ownKeys(o)));
model(Object.entries, (_o, [o]) => Object.entries(o).map(([k, v]) => [phVal(k), v]));
model(Object.fromEntries, (_o, [es]) => { const o = {}; for (const [k, v] of es) s(o, k, v); return o; });
model(Array.from, (_o, a) => { if (isSym(a[0])) { const s = resolve(a[0]); if (isSym(s)) { const arr = [...strIter(s)]; return a[1] ? arr.map((x, i) => a[1].call(a[2], x, i)) : arr; } a = [s, ...a.slice(1)]; } if (a[0] && typeof a[0] === 'object' && isSym(a[0].length)) a = [{ length: concretize(a[0].length) }, ...a.slice(1)]; return Array.from(...a); });
model(Array.isArray, (_o, [x]) => Array.isArray(x));
model(Number.parseInt, (_o, [s, r]) => parseIntSym(s, r)); // same function as globalThis.parseInt
model(Number.isNaN, (_o, [x]) => { x = resolve(x); return isSym(x) ? x.$k === 'F' ? mkB(T.mk('fp.isNaN', 'B', x.$t), Number.isNaN(x.$c)) : false : Number.isNaN(x); });
model(globalThis.isNaN, (_o, [x]) => { x = asNumber(x); return isSym(x) ? x.$k === 'F' ? mkB(T.mk('fp.isNaN', 'B', x.$t), Number.isNaN(x.$c)) : false : Number.isNaN(x); });
model(Number.isFinite, (_o, [x]) => { x = resolve(x); return isSym(x) ? x.$k === 'F' ? mkB(T.and(T.not(T.mk('fp.isNaN', 'B', x.$t)), T.not(T.mk('fp.isInfinite', 'B', x.$t))), Number.isFinite(x.$c)) : x.$k === 'I' : Number.isFinite(x); });
const isIntegral = (x) => mkB(T.and(T.not(T.mk('fp.isNaN', 'B', x.$t)), T.not(T.mk('fp.isInfinite', 'B', x.$t)), T.mk('fp.eq', 'B', x.$t, T.mk('fp.trunc', 'F', x.$t))), Number.isInteger(x.$c));
model(Number.isInteger, (_o, [x]) => { x = resolve(x); return isSym(x) ? x.$k === 'F' ? isIntegral(x) : x.$k === 'I' : Number.isInteger(x); });
model(Number.isSafeInteger, (_o, [x]) => { x = resolve(x); if (!isSym(x)) return Number.isSafeInteger(x); if (x.$k === 'I') return true; if (x.$k !== 'F') return false; return mkB(T.and(isIntegral(x).$t, T.mk('fp.leq', 'B', T.mk('fp.abs', 'F', x.$t), T.dbl(Number.MAX_SAFE_INTEGER))), Number.isSafeInteger(x.$c)); });
model(globalThis.Number, (_o, [x]) => asNumber(x));
model(globalThis.String, (_o, a) => { if (a.length === 0) return ''; if (typeof a[0] === 'symbol') return String(a[0]); return toStr(a[0]); });
model(globalThis.Boolean, (_o, [x]) => isSym(x) ? mkB(truthTerm(x), !!conc(x)) : !!x);
model(Math.min, (_o, a) => { if (a.length === 0) return Infinity; let m = asNumber(a[0]); for (const x of a.slice(1)) { const y = asNumber(x); m = sel(compare('<', y, m), y, m); } return m; });
model(Math.max, (_o, a) => { if (a.length === 0) return -Infinity; let m = asNumber(a[0]); for (const x of a.slice(1)) { const y = asNumber(x); m = sel(compare('<', m, y), y, m); } return m; });
function sel(c, a, b) {
  if (!isSym(c)) return c ? a : b;
  if (isIlike(a) && isIlike(b)) { const [al, ah] = rng(a), [bl, bh] = rng(b); return mkI(T.ite(c.$t, tI(a), tI(b)), c.$c ? conc(a) : conc(b), Math.min(al, bl), Math.max(ah, bh)); }
  return truth(c) ? a : b;
}
model(Math.clz32, (_o, [x]) => { x = toInt32(x); return isSym(x) ? mkI(T.mk('clz32', 'I', x.$t), Math.clz32(x.$c), 0, 32) : Math.clz32(x); });
for (const [n, o] of [['floor', 'fp.floor'], ['trunc', 'fp.trunc']]) model(Math[n], (_o, [x]) => { x = asNumber(x); return isSym(x) ? x.$k === 'I' ? x : mkF(T.mk(o, 'F', x.$t), Math[n](x.$c)) : Math[n](x); });
model(Math.ceil, (_o, [x]) => { x = asNumber(x); return isSym(x) ? x.$k === 'I' ? x : unsupported('Math.ceil') : Math.ceil(x); });
model(Math.round, (_o, [x]) => { x = asNumber(x); return isSym(x) ? x.$k === 'I' ? x : unsupported('Math.round') : Math.round(x); });
model(Math.abs, (_o, [x]) => { x = asNumber(x); if (!isSym(x)) return Math.abs(x); if (x.$k === 'F') return mkF(T.mk('fp.abs', 'F', x.$t), Math.abs(x.$c)); return sel(compare('<', x, 0), negate(x), x); });
model(Math.sign, (_o, [x]) => { x = asNumber(x); if (!isSym(x)) return Math.sign(x); if (truth(compare('<', x, 0))) return -1; if (truth(compare('<', 0, x))) return 1; return x.$k === 'I' && !x.nz ? 0 : unsupported('Math.sign of zero'); });
model(RegExp.prototype.test, (re, [s]) => { s = toStr(s); return isSym(s) ? regexExec(re, s) !== null : RegExp.prototype.test.call(re, s); });
model(RegExp.prototype.exec, (re, [s]) => { s = toStr(s); return isSym(s) ? regexExec(re, s) : RegExp.prototype.exec.call(re, s); });
model(decodeURIComponent, (_o, [s]) => { s = toStr(s); if (!isSym(s)) return decodeURIComponent(s); if (s.$k === 'U') return s; const us = needUnits(s), out = [];
  for (let i = 0; i < us.length;) {
    let run = ''; // escapes are decoded for each of their values
    while (i < us.length && unitEq(us[i], 37)) { run += '%' + concretize(mkS(us.slice(i + 1, i + 3))); i += 3; }
    if (run !== '') out.push(...unitsOf(decodeURIComponent(run)));
    else out.push(us[i++]);
  }
  return mkS(out); });
model(encodeURIComponent, (_o, [s]) => { s = toStr(s); if (!isSym(s)) return encodeURIComponent(s); const us = needUnits(s), out = [];
  for (let i = 0; i < us.length;) {
    if (unitInSet(us[i], [[33, 33], [39, 42], [45, 46], [48, 57], [65, 90], [95, 95], [97, 122], [126, 126]])) { out.push(us[i++]); continue; }
    let n = 1; while (i + n < us.length && unitIn(us[i + n - 1], 0xd800, 0xdbff) && n < 2) n++;
    out.push(...unitsOf(encodeURIComponent(concretize(mkS(us.slice(i, i + n)))))); i += n;
  }
  return mkS(out); });
model(String.raw, (_o, [{ raw }, ...vals]) => { let s = raw.length ? raw[0] : ''; for (let i = 1; i < raw.length; i++) { if (i - 1 < vals.length) s = concat(s, vals[i - 1]); s = concat(s, raw[i]); } return s; });
model(String.fromCharCode, (_o, a) => anySym(a) ? mkS(a.map((x) => isSym(x) ? { c: x.$c & 0xffff, t: T.mk('i2c', 'C', x.$t) } : x & 0xffff)) : String.fromCharCode(...a));
model(Function.prototype.call, (f, [t, ...a]) => callWith(f, t, a));
model(Function.prototype.apply, (f, [t, a]) => callWith(f, t, a == null ? [] : Array.from(a)));
model(Function.prototype.bind, (f, [t, ...a]) => MODELS.has(f) || isNative(f) ? (...b) => callWith(f, t, [...a, ...b]) : Function.prototype.bind.call(f, t, ...a));
model(Reflect.apply, (_o, [f, t, a]) => callWith(f, t, Array.from(a)));
model(JSON.stringify, (_o, a) => anySym(a) ? unsupported('JSON.stringify') : JSON.stringify(...a));
// String.prototype methods on concrete receivers with symbolic arguments
for (const k of Object.getOwnPropertyNames(String.prototype)) {
  const f = String.prototype[k];
  if (typeof f !== 'function' || k === 'constructor') continue;
  model(f, (o, a) => {
    if (isSym(o)) return symMethod(o, k, a);
    const cb = (k === 'replace' || k === 'replaceAll') && typeof a[1] === 'function';
    if (!anySym(a) && !cb) return f.apply(o, a);
    if (cb && !anySym(a)) return f.call(o, a[0], (...x) => { const r = a[1](...x); return isSym(r) ? unsupported('symbolic replacement') : r; });
    return STR[k] ? STR[k](String(o), ...a) : unsupported('String.prototype.' + k);
  });
}
export function addSafe(f) { SAFE.add(f); }
function callWith(f, self, args) {
  const md = MODELS.get(f);
  if (md !== undefined) return md(self, args);
  if (typeof f === 'function' && (anySym(args) || isSym(self)) && isNative(f) && !SAFE.has(f) && f.name !== '' ) {
    return unsupported('native function ' + f.name + ' with symbolic arguments');
  }
  return Reflect.apply(f, self, args);
}

// ---- collections --------------------------------------------------------------------------
class SymMapBase {
  constructor(isSet) { this._m = isSet; }
}
function sameKey(a, b) { return truth(eqv(a, b, 'svz')); }
export class SMap {
  constructor(it) { this._e = []; this._ix = new Map(); this._sym = 0; this._n = 0; if (it != null) for (const [k, v] of it) this.set(k, v); }
  _find(k) {
    if (!isSym(k)) {
      const e = this._ix.get(k);
      if (e !== undefined) return e;
      if (this._sym === 0) return undefined;
      for (const e2 of this._e) if (e2.live && isSym(e2.k) && sameKey(e2.k, k)) return e2;
      return undefined;
    }
    for (const e of this._e) if (e.live && sameKey(e.k, k)) return e;
    return undefined;
  }
  get size() { return this._n; }
  has(k) { return this._find(k) !== undefined; }
  get(k) { return this._find(k)?.v; }
  set(k, v) {
    const e = this._find(k);
    if (e !== undefined) { e.v = v; return this; }
    if (Object.is(k, -0)) k = 0;
    const n = { k, v, live: true };
    this._e.push(n); this._n++;
    if (isSym(k)) this._sym++; else this._ix.set(k, n);
    return this;
  }
  delete(k) {
    const e = this._find(k);
    if (e === undefined) return false;
    e.live = false; this._n--;
    if (isSym(e.k)) this._sym--; else this._ix.delete(e.k);
    return true;
  }
  clear() { for (const e of this._e) e.live = false; this._ix.clear(); this._sym = 0; this._n = 0; }
  getOrInsert(k, v) { const e = this._find(k); if (e !== undefined) return e.v; this.set(k, v); return v; }
  getOrInsertComputed(k, f) { const e = this._find(k); if (e !== undefined) return e.v; const v = f(k); this.set(k, v); return v; }
  forEach(f, t) { for (const [k, v] of this) f.call(t, v, k, this); }
  *entries() { for (let i = 0; i < this._e.length; i++) { const e = this._e[i]; if (e.live) yield [e.k, e.v]; } }
  *keys() { for (const [k] of this.entries()) yield k; }
  *values() { for (const [, v] of this.entries()) yield v; }
  [Symbol.iterator]() { return this.entries(); }
  static groupBy(it, f) { const m = new SMap(); let i = 0; for (const x of it) m.getOrInsertComputed(f(x, i++), () => []).push(x); return m; }
  get [Symbol.toStringTag]() { return 'Map'; }
}
export class SSet {
  constructor(it) { this._m = new SMap(); if (it != null) for (const k of it) this.add(k); }
  get size() { return this._m.size; }
  has(k) { return this._m.has(k); }
  add(k) { if (!this._m.has(k)) this._m.set(k, k); return this; }
  delete(k) { return this._m.delete(k); }
  clear() { this._m.clear(); }
  forEach(f, t) { for (const k of this) f.call(t, k, k, this); }
  *entries() { for (const k of this._m.keys()) yield [k, k]; }
  keys() { return this._m.keys(); }
  values() { return this._m.keys(); }
  [Symbol.iterator]() { return this._m.keys(); }
  union(o) { const r = new SSet(this); for (const x of o.keys()) r.add(x); return r; }
  difference(o) { const r = new SSet(); for (const x of this) if (!truth(o.has(x))) r.add(x); return r; }
  intersection(o) { const r = new SSet(); for (const x of this) if (truth(o.has(x))) r.add(x); return r; }
  symmetricDifference(o) { const r = new SSet(); for (const x of this) if (!truth(o.has(x))) r.add(x); for (const x of o.keys()) if (!truth(this.has(x))) r.add(x); return r; }
  isSupersetOf(o) { for (const x of o.keys()) if (!truth(this.has(x))) return false; return true; }
  isDisjointFrom(o) { for (const x of this) if (truth(o.has(x))) return false; return true; }
  isSubsetOf(o) { for (const x of this) if (!truth(o.has(x))) return false; return true; }
  get [Symbol.toStringTag]() { return 'Set'; }
}

// ---- operators called by instrumented code ----------------------------------------------------
const prim = (x) => typeof x !== 'object' || x === null || !Sym.is(x);
export function m(o, k, ...args) {
  if (!prim(o)) return symMethod(o, k, args);
  if (!prim(k)) k = concretize(k);
  const f = o[k];
  if (typeof f === 'function') {
    const md = MODELS.get(f);
    if (md !== undefined) return md(o, args);
    if (anySym(args) && isNative(f) && !SAFE.has(f) && f.name !== '') {
      if (f.name === 'warn' || f.name === 'log' || f.name === 'error') return undefined;
      return unsupported(`native method ${String(k)} with symbolic arguments`);
    }
    return Reflect.apply(f, o, args);
  }
  if (!prim(f)) throw new TypeError(`${String(k)} is not a function`);
  return o[k](...args);
}
export function c(f, ...args) {
  if (typeof f !== 'function') { if (!prim(f)) throw new TypeError('not a function'); return f(...args); }
  const md = MODELS.get(f);
  if (md !== undefined) return md(undefined, args);
  if (anySym(args) && isNative(f) && !SAFE.has(f) && f.name !== '') return unsupported('native function ' + f.name + ' with symbolic arguments');
  return f(...args);
}
export function g(o, k) {
  if (!prim(o)) return symGet(o, k);
  if (!prim(k) || P.keys?.size > 0) k = pkey(o, k);
  return o[k];
}
export function s(o, k, v) {
  if (!prim(k) || P.keys?.size > 0) k = pkey(o, k);
  return (o[k] = v);
}
export function nw(C, ...args) {
  if (anySym(args)) {
    if (C === Error || C.prototype instanceof Error) args = args.map((a) => isSym(a) ? opaqueMsg(a) : a);
    else if (isNative(C) && C !== Array && C !== Promise && C !== Proxy) {
      if (C === Array || C === Uint8Array) args = args.map(concretize);
      else return unsupported('new ' + C.name + ' with symbolic arguments');
    }
    if (C === Array && args.length === 1) args = args.map(concretize);
  }
  return new C(...args);
}
export const t = (x) => prim(x) ? !!x : truth(x);
export const not = (x) => prim(x) ? !x : mkB(T.not(truthTerm(x)), !conc(x));
export const add = (a, b) => {
  if (prim(a) && prim(b)) return a + b;
  a = resolve(a); b = resolve(b);
  if (!isSym(a) && !isSym(b)) return a + b;
  if (isStrLike(a) || isStrLike(b) || a?.$k === 'R' || b?.$k === 'R') return concat(a, b);
  if ((typeof a === 'object' && !isSym(a) && a !== null) || (typeof b === 'object' && !isSym(b) && b !== null)) return unsupported('object + symbolic');
  return arith('+', a, b);
};
export const sub = (a, b) => prim(a) && prim(b) ? a - b : arith('-', a, b);
export const mul = (a, b) => prim(a) && prim(b) ? a * b : arith('*', a, b);
export const div = (a, b) => prim(a) && prim(b) ? a / b : arith('/', a, b);
export const mod = (a, b) => prim(a) && prim(b) ? a % b : arith('%', a, b);
export const pow = (a, b) => prim(a) && prim(b) ? a ** b : unsupported('**');
export const band = (a, b) => prim(a) && prim(b) ? a & b : bits('&', a, b);
export const bor = (a, b) => prim(a) && prim(b) ? a | b : bits('|', a, b);
export const bxor = (a, b) => prim(a) && prim(b) ? a ^ b : bits('^', a, b);
export const shl = (a, b) => prim(a) && prim(b) ? a << b : bits('<<', a, b);
export const sar = (a, b) => prim(a) && prim(b) ? a >> b : bits('>>', a, b);
export const shr = (a, b) => prim(a) && prim(b) ? a >>> b : bits('>>>', a, b);
export const lt = (a, b) => prim(a) && prim(b) ? a < b : compare('<', a, b);
export const le = (a, b) => prim(a) && prim(b) ? a <= b : compare('<=', a, b);
export const gt = (a, b) => prim(a) && prim(b) ? a > b : compare('<', b, a);
export const ge = (a, b) => prim(a) && prim(b) ? a >= b : compare('<=', b, a);
export const seq = (a, b) => prim(a) && prim(b) ? a === b : eqv2(a, b, 'strict');
export const sne = (a, b) => prim(a) && prim(b) ? a !== b : not(eqv2(a, b, 'strict'));
export const eq = (a, b) => prim(a) && prim(b) ? a == b : eqv2(a, b, 'loose');
export const ne = (a, b) => prim(a) && prim(b) ? a != b : not(eqv2(a, b, 'loose'));
function eqv2(a, b, mode) {
  const na = isSym(a) && a.$k === 'N', nb = isSym(b) && b.$k === 'N';
  const sa = isSym(a) && a.$k === 'S', sb = isSym(b) && b.$k === 'S';
  if (na && sb) return mkB(eqStrNum(b, a), conc(a) === conc(b));
  if (nb && sa) return mkB(eqStrNum(a, b), conc(a) === conc(b));
  return eqv(a, b, mode);
}
export const neg = (x) => prim(x) ? -x : negate(x);
export const pos = (x) => prim(x) ? +x : fixNz(asNumber(x));
export const bnot = (x) => prim(x) ? ~x : bits('^', x, -1);
export const inc = (x) => prim(x) ? (typeof x === 'bigint' ? x + 1n : Number(x) + 1) : arith('+', x, 1);
export const dec = (x) => prim(x) ? (typeof x === 'bigint' ? x - 1n : Number(x) - 1) : arith('-', x, 1);
export const first = (a) => a;
export function upd(o, k, d, prefix) { const v = g(o, k); const old = prim(v) ? (typeof v === 'bigint' ? v : Number(v)) : asNumber(v); const n = d > 0 ? inc(old) : dec(old); s(o, k, n); return prefix ? n : old; }
export function ty(x) {
  if (prim(x)) return typeof x;
  x = resolve(x);
  if (!isSym(x)) return typeof x;
  return { B: 'boolean', I: 'number', F: 'number', U: 'string', S: 'string', N: 'string', R: 'string' }[x.$k];
}
export const num = (x) => prim(x) ? (typeof x === 'bigint' ? x : Number(x)) : asNumber(x);
export const ck = (k) => prim(k) ? k : canonKey(k); // property names in object literals and patterns
export function it(x) { if (prim(x)) return x; x = resolve(x); if (!isSym(x)) return x; if (x.$k === 'S') return strIter(x); return unsupported('iteration of a symbolic value'); }
export const io = (a, C) => prim(a) ? a instanceof C : false;
export function has(k, o) { if (!prim(o)) { o = resolve(o); if (isSym(o)) throw new TypeError("Cannot use 'in' operator"); } return pkey(o, k) in o; }
export function tpl(strs, vals) {
  let any = false;
  for (const v of vals) if (!prim(v)) any = true;
  let out = strs[0];
  if (!any) { for (let i = 0; i < vals.length; i++) out += `${vals[i]}` + strs[i + 1]; return out; }
  for (let i = 0; i < vals.length; i++) { out = concat(out, vals[i]); out = concat(out, strs[i + 1]); }
  return out;
}
export function tick() { if (++P.ticks > P.maxTicks) hang(); }
export const hits = [];
export const fnNames = [];
export function f(id) { hits[id] = (hits[id] | 0) + 1; if (++P.ticks > P.maxTicks) hang(); }
export let h; // scratch for logical operators
export const $ = {
  m, c, g, s, nw, t, not, add, sub, mul, div, mod, pow, band, bor, bxor, shl, sar, shr, lt, le, gt, ge, seq, sne, eq, ne, neg, pos, bnot, inc, dec, first, upd, ty, io, has, tpl, num, ck, ol: objLit, fi: forIn, del, it, k: tick, f, h: undefined, o: undefined, p: undefined,
};
