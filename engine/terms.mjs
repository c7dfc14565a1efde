// Hash-consed SMT terms.  Sorts: B Bool, I signed 64-bit bit-vector, C 16-bit bit-vector (UTF-16
// unit / small enum), F IEEE double, U opaque atom (SMT Int used only with = and functions).
const table = new Map();
let nextId = 1;
export function termCount() { return table.size; }
export function reset() { table.clear(); table.set('const|B#true', TRUE); table.set('const|B#false', FALSE); }

function hashStr(s) {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193); }
  return h >>> 0;
}
function intern(op, sort, args, data) {
  let key = op + '|' + sort;
  for (const a of args) key += ',' + a.id;
  if (data !== undefined) key += '#' + data;
  let t = table.get(key);
  if (t === undefined) {
    let h = hashStr(op + '|' + sort + '#' + data);
    for (const a of args) h = Math.imul(h ^ a.hash, 0x9e3779b1) + 0x7f4a7c15 >>> 0;
    t = { id: nextId++, op, sort, args, data, hash: h >>> 0, vars: null, apps: null, dom: null };
    table.set(key, t);
  }
  return t;
}
export const mk = (op, sort, ...args) => intern(op, sort, args, undefined);
export function variable(name, sort) { return intern('var', sort, [], name); }
export function app(fn, sort, args) { return intern('app', sort, args, fn); }
export const TRUE = intern('const', 'B', [], 'true');
export const FALSE = intern('const', 'B', [], 'false');
export const bool = (b) => (b ? TRUE : FALSE);
export const int = (n) => intern('const', 'I', [], String(n));
export const chr = (n) => intern('const', 'C', [], String(n));
export const atom = (n) => intern('const', 'U', [], String(n));
const f64 = new Float64Array(1); const u64 = new BigUint64Array(f64.buffer);
export function dblBits(x) { f64[0] = x; return u64[0]; }
export function bitsDbl(b) { u64[0] = BigInt.asUintN(64, b); return f64[0]; }
export const dbl = (x) => intern('const', 'F', [], Number.isNaN(x) ? 'nan' : dblBits(x).toString());
export const isConst = (t) => t.op === 'const';

export function not(t) {
  if (t === TRUE) return FALSE;
  if (t === FALSE) return TRUE;
  if (t.op === 'not') return t.args[0];
  return mk('not', 'B', t);
}
export function and(...ts) {
  const out = [];
  for (const t of ts) {
    if (t === FALSE) return FALSE;
    if (t === TRUE) continue;
    if (t.op === 'and') { for (const u of t.args) if (!out.includes(u)) out.push(u); } else if (!out.includes(t)) out.push(t);
  }
  if (out.length === 0) return TRUE;
  if (out.length === 1) return out[0];
  return mk('and', 'B', ...out);
}
export function or(...ts) {
  const out = [];
  for (const t of ts) {
    if (t === TRUE) return TRUE;
    if (t === FALSE) continue;
    if (t.op === 'or') { for (const u of t.args) if (!out.includes(u)) out.push(u); } else if (!out.includes(t)) out.push(t);
  }
  if (out.length === 0) return FALSE;
  if (out.length === 1) return out[0];
  return mk('or', 'B', ...out);
}
export const implies = (a, b) => or(not(a), b);
export function eq(a, b) { // structural SMT equality (for F: same datum, i.e. Object.is)
  if (a === b) return TRUE;
  if (a.op === 'const' && b.op === 'const') return FALSE;
  if (a.sort === 'B') { if (a === TRUE) return b; if (b === TRUE) return a; if (a === FALSE) return not(b); if (b === FALSE) return not(a); }
  return a.hash < b.hash || (a.hash === b.hash && a.id < b.id) ? mk('=', 'B', a, b) : mk('=', 'B', b, a);
}
export function ite(c, a, b) {
  if (c === TRUE) return a;
  if (c === FALSE) return b;
  if (a === b) return a;
  if (a.sort === 'B' && a === TRUE && b === FALSE) return c;
  if (a.sort === 'B' && a === FALSE && b === TRUE) return not(c);
  return mk('ite', a.sort, c, a, b);
}
export function varsOf(t) {
  if (t.vars !== null) return t.vars;
  const s = new Set();
  if (t.op === 'var') s.add(t);
  else {
    if (t.op === 'app') s.add('fn:' + t.data);
    for (const a of t.args) for (const v of varsOf(a)) s.add(v);
  }
  t.vars = s;
  return s;
}
export function appsOf(t) {
  if (t.apps !== null) return t.apps;
  const s = new Set();
  for (const a of t.args) for (const v of appsOf(a)) s.add(v);
  if (t.op === 'app') s.add(t);
  t.apps = s;
  return s;
}
const SORTS = { B: 'Bool', I: '(_ BitVec 64)', C: '(_ BitVec 16)', F: '(_ FloatingPoint 11 53)', U: 'Int' };
export const smtSort = (s) => SORTS[s];
export function smtName(v) { return '|' + v.data + '|'; }
export function smtConst(t) {
  switch (t.sort) {
    case 'B': return t.data;
    case 'I': return '#x' + BigInt.asUintN(64, BigInt(t.data)).toString(16).padStart(16, '0');
    case 'C': return '#x' + (Number(t.data) & 0xffff).toString(16).padStart(4, '0');
    case 'U': return Number(t.data) < 0 ? `(- ${-Number(t.data)})` : t.data;
    case 'F': return t.data === 'nan' ? '(_ NaN 11 53)' : `((_ to_fp 11 53) #x${BigInt(t.data).toString(16).padStart(16, '0')})`;
  }
}
export function toDebug(t, d = 0) {
  if (t.op === 'var') return t.data;
  if (t.op === 'const') return t.sort === 'F' ? (t.data === 'nan' ? 'NaN' : String(bitsDbl(BigInt(t.data)))) : t.data;
  if (d > 6) return '…';
  return '(' + (t.op === 'app' ? t.data : t.op) + ' ' + t.args.map((a) => toDebug(a, d + 1)).join(' ') + ')';
}
