// One z3 process per worker, used incrementally; results cached per (sorted) set of literals.
import { spawn } from 'node:child_process';
import * as T from './terms.mjs';

const OPS = { // plain SMT operator names; everything else is spelled in smtBody
  not: 'not', and: 'and', or: 'or', '=': '=', ite: 'ite',
  bvadd: 'bvadd', bvsub: 'bvsub', bvmul: 'bvmul', bvsdiv: 'bvsdiv', bvsrem: 'bvsrem',
  bvslt: 'bvslt', bvsle: 'bvsle', bvult: 'bvult', bvule: 'bvule',
  bvand: 'bvand', bvor: 'bvor', bvxor: 'bvxor', bvnot: 'bvnot',
  'fp.eq': 'fp.eq', 'fp.lt': 'fp.lt', 'fp.leq': 'fp.leq', 'fp.isNaN': 'fp.isNaN', 'fp.isZero': 'fp.isZero', 'fp.isInfinite': 'fp.isInfinite', 'fp.neg': 'fp.neg', 'fp.abs': 'fp.abs',
};
const ref = (t) => t.op === 'const' ? T.smtConst(t) : t.op === 'var' ? (t.sort === 'F' ? 'f' + t.id : T.smtName(t)) : 't' + t.id;
function smtBody(t) {
  const a = t.args.map(ref);
  switch (t.op) {
    case 'app': return a.length ? `(|${t.data}| ${a.join(' ')})` : `|${t.data}|`;
    case 'sx32': return `((_ sign_extend 32) ((_ extract 31 0) ${a[0]}))`;
    case 'zx32': return `((_ zero_extend 32) ((_ extract 31 0) ${a[0]}))`;
    // shifts: JS semantics on the low 32 bits, count masked to 5 bits
    case 'shl32': return `((_ sign_extend 32) (bvshl ((_ extract 31 0) ${a[0]}) (bvand ((_ extract 31 0) ${a[1]}) #x0000001f)))`;
    case 'sar32': return `((_ sign_extend 32) (bvashr ((_ extract 31 0) ${a[0]}) (bvand ((_ extract 31 0) ${a[1]}) #x0000001f)))`;
    case 'shr32': return `((_ zero_extend 32) (bvlshr ((_ extract 31 0) ${a[0]}) (bvand ((_ extract 31 0) ${a[1]}) #x0000001f)))`;
    case 'clz32': { // count leading zeros of the low 32 bits
      let s = '#x0000000000000020';
      for (let i = 0; i < 32; i++) s = `(ite (= ((_ extract ${i} ${i}) ${a[0]}) #b1) #x${(31 - i).toString(16).padStart(16, '0')} ${s})`;
      return s;
    }
    case 'c2i': return `((_ zero_extend 48) ${a[0]})`;
    case 'i2c': return `((_ extract 15 0) ${a[0]})`;
    case 'i2f': return `((_ to_fp 11 53) RNE ${a[0]})`;
    case 'fp.add': case 'fp.sub': case 'fp.mul': case 'fp.div': return `(${t.op} RNE ${a.join(' ')})`;
    case 'fp.trunc': return `(fp.roundToIntegral RTZ ${a[0]})`;
    case 'fp.floor': return `(fp.roundToIntegral RTN ${a[0]})`;
    default: {
      const o = OPS[t.op];
      if (o === undefined) throw new Error('no SMT spelling for ' + t.op);
      return `(${o} ${a.join(' ')})`;
    }
  }
}

export class Solver {
  constructor(cmd = process.env.VERIF_Z3 || 'z3-new', timeoutMs = 30000) {
    this.cmd = cmd; this.timeoutMs = timeoutMs;
    this.cache = new Map();
    this.stats = { queries: 0, cached: 0, sat: 0, unsat: 0, unknown: 0, ms: 0 };
    this.start();
  }
  start() {
    this.proc = spawn(this.cmd, ['-in', '-smt2'], { stdio: ['pipe', 'pipe', 'ignore'] });
    this.proc.on('error', (e) => { this.dead = e; if (this.wait) this.wait.reject(e); });
    this.proc.on('exit', () => { this.dead ??= new Error('solver exited'); if (this.wait) this.wait.reject(this.dead); });
    this.proc.stdin.on('error', () => {});
    this.buf = ''; this.wait = null; this.dead = null;
    this.proc.stdout.setEncoding('utf8');
    this.proc.stdout.on('data', (d) => { this.buf += d; this.pump(); });
    this.defined = new Set();
    this.fns = new Set();
    this.pending = `(set-option :produce-models true)\n(set-option :timeout ${this.timeoutMs})\n`;
  }
  restart() { this.proc.removeAllListeners(); this.proc.kill('SIGKILL'); this.start(); }
  close() { this.proc.removeAllListeners(); this.proc.kill('SIGKILL'); }
  pump() {
    if (this.wait === null) return;
    const i = this.buf.indexOf('\n@@\n');
    if (i < 0) return;
    const out = this.buf.slice(0, i);
    this.buf = this.buf.slice(i + 4);
    const w = this.wait; this.wait = null;
    w.resolve(out.trim());
  }
  exchange(text) {
    if (this.dead) return Promise.reject(this.dead);
    return new Promise((resolve, reject) => {
      this.wait = { resolve, reject };
      this.proc.stdin.write(this.pending + text + '\n(echo "\n@@")\n');
      this.pending = '';
    });
  }
  define(t, out) {
    if (t.op === 'const' || this.defined.has(t.id)) return;
    this.defined.add(t.id);
    for (const a of t.args) this.define(a, out);
    if (t.op === 'var') {
      if (t.sort === 'F') {
        out.push(`(declare-const ${T.smtName(t)} (_ BitVec 64))(define-fun f${t.id} () (_ FloatingPoint 11 53) ((_ to_fp 11 53) ${T.smtName(t)}))`);
      } else out.push(`(declare-const ${T.smtName(t)} ${T.smtSort(t.sort)})`);
      return;
    }
    if (t.op === 'app' && !this.fns.has(t.data)) {
      this.fns.add(t.data);
      out.push(`(declare-fun |${t.data}| (${t.args.map((a) => T.smtSort(a.sort)).join(' ')}) ${T.smtSort(t.sort)})`);
    }
    out.push(`(define-fun t${t.id} () ${T.smtSort(t.sort)} ${smtBody(t)})`);
  }
  /** lits: array of boolean terms (already with polarity). Returns {r, model}. */
  async check(lits, wantModel = true) {
    const uniq = [...new Set(lits)].filter((t) => t !== T.TRUE);
    if (uniq.includes(T.FALSE)) return { r: 'unsat' };
    const key = uniq.map((t) => t.id).sort((a, b) => a - b).join(',');
    const hit = this.cache.get(key);
    if (hit !== undefined) { this.stats.cached++; return hit; }
    if (this.defined.size > 60000) this.restart();
    const t0 = process.hrtime.bigint();
    const res = await this.solve(uniq, wantModel);
    this.stats.ms += Number(process.hrtime.bigint() - t0) / 1e6;
    this.stats.queries++;
    this.stats[res.r]++;
    if (this.cache.size > 400000) this.cache.clear();
    this.cache.set(key, res);
    return res;
  }
  async solve(uniq, wantModel) {
    const vars = new Set(), apps = new Set();
    const doms = new Set();
    for (const t of uniq) {
      for (const v of T.varsOf(t)) if (typeof v !== 'string') { vars.add(v); if (v.dom) for (const d of v.dom) doms.add(d); }
      for (const a of T.appsOf(t)) apps.add(a);
    }
    const defs = [];
    for (const t of uniq) this.define(t, defs);
    for (const t of doms) this.define(t, defs);
    for (const t of apps) for (const a of t.args) this.define(a, defs);
    const all = [...uniq, ...doms];
    let out;
    try {
      out = await this.exchange(defs.join('\n') + '\n(push 1)\n' + all.map((t) => `(assert ${ref(t)})`).join('\n') + '\n(check-sat)');
    } catch { this.restart(); return { r: 'unknown' }; }
    const last = out.split('\n').at(-1);
    if (out.includes('(error') || (last !== 'sat' && last !== 'unsat')) {
      if (process.env.VERIF_DEBUG) console.error('solver:', out, all.map((t) => T.toDebug(t)));
      this.pending = '(pop 1)\n';
      if (out.includes('(error')) throw new Error('solver error: ' + out);
      return { r: 'unknown' };
    }
    if (last === 'unsat' || !wantModel) { this.pending = '(pop 1)\n'; return { r: last }; }
    const want = [...vars, ...apps];
    // application arguments are needed to tabulate functions
    for (const a of apps) for (const x of a.args) want.push(x);
    const uniqWant = [...new Set(want)].filter((t) => t.op !== 'const');
    const vals = new Map();
    if (uniqWant.length > 0) {
      const o = await this.exchange(`(get-value (${uniqWant.map((t) => t.op === 'var' ? T.smtName(t) : ref(t)).join(' ')}))\n(pop 1)`);
      if (o.includes('(error')) throw new Error('solver error: ' + o);
      const parsed = parseSexp(o);
      for (let i = 0; i < uniqWant.length; i++) vals.set(uniqWant[i], parseValue(uniqWant[i], parsed[i][1]));
    } else this.pending = '(pop 1)\n';
    const model = { vars: {}, apps: {} };
    for (const v of vars) model.vars[v.data] = vals.get(v);
    for (const a of apps) {
      const k = a.args.map((x) => String(x.op === 'const' ? constValue(x) : vals.get(x))).join(',');
      (model.apps[a.data] ??= {})[k] = vals.get(a);
    }
    return { r: 'sat', model };
  }
}
export function constValue(t) {
  switch (t.sort) {
    case 'B': return t.data === 'true';
    case 'F': return t.data === 'nan' ? NaN : T.bitsDbl(BigInt(t.data));
    default: return Number(t.data);
  }
}
function parseSexp(s) {
  let i = 0;
  function skip() { while (i < s.length && /\s/.test(s[i])) i++; }
  function rd() {
    skip();
    if (s[i] === '(') {
      i++;
      const out = [];
      for (;;) { skip(); if (s[i] === ')') { i++; return out; } if (i >= s.length) throw new Error('bad sexp ' + s); out.push(rd()); }
    }
    if (s[i] === '|') { const j = s.indexOf('|', i + 1); const r = s.slice(i, j + 1); i = j + 1; return r; }
    let j = i;
    while (j < s.length && !/[\s()]/.test(s[j])) j++;
    const r = s.slice(i, j); i = j; return r;
  }
  return rd();
}
function parseValue(t, v) {
  switch (t.sort) {
    case 'B': return v === 'true';
    case 'I': return Number(BigInt.asIntN(64, bv(v)));
    case 'C': return Number(bv(v));
    case 'U': return Array.isArray(v) ? -Number(v[1]) : Number(v);
    case 'F': return t.op === 'var' ? T.bitsDbl(bv(v)) : fpv(v);
  }
}
function bv(v) {
  if (v.startsWith('#x')) return BigInt('0x' + v.slice(2));
  if (v.startsWith('#b')) return BigInt('0b' + v.slice(2));
  throw new Error('bad bv ' + v);
}
function fpv(v) {
  if (v[0] === '_') { switch (v[1]) { case 'NaN': return NaN; case '+oo': return Infinity; case '-oo': return -Infinity; case '+zero': return 0; case '-zero': return -0; } }
  if (v[0] === 'fp') { const b = (x, n) => bv(x).toString(2).padStart(n, '0'); return T.bitsDbl(BigInt('0b' + b(v[1], 1) + b(v[2], 11) + b(v[3], 52))); }
  throw new Error('bad fp ' + JSON.stringify(v));
}
