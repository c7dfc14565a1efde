// Derivable state against the same operations on a plain deep copy.
import { Derivable } from '@src/addons/signal.js';

const GSHAPE = { f: true, a: '*', b: '*', n: { x: '*', m: { y: '*' } }, l: ['*'] };
const GETTERS = ['pick', 'pair', 'deep', 'both', 'count', 'keys', 'has', 'twice', 'add'];
const withGetters = (o, how) => {
  class G {
    get pick() { return this.f ? this.a : this.b; } // reads other properties when f changes
    get pair() { return [this.a, this.n.x]; }
    get deep() { return this.pick; }
    get both() { return this.a; }
    set both(v) { this.a = v; this.b = v; }
    get count() { return this.l.filter(() => true).length; }
    get keys() { return Object.keys(this.n).sort(); }
    get has() { return 'zz' in this.n; }
    get twice() { return [this.b, this.b]; }
    get add() { return this.l.length; }
    set add(v) { this.l = [...this.l, v]; } // not what it reads
  }
  if (how === 'class') return Object.assign(new G(), o);
  for (const k of GETTERS) Object.defineProperty(o, k, { ...Object.getOwnPropertyDescriptor(G.prototype, k), enumerable: true, configurable: true });
  return o;
};
export default async function main(ctx, c, host) {
  let fresh = 0;
  const leaf = () => ctx.atom('x' + fresh++);
  // {a: '*'}: '*' stands for any value; '+' a negative
  const make = (spec) => spec === '*' ? leaf() : spec === null || typeof spec !== 'object' ? spec : Array.isArray(spec) ? spec.map(make) : Object.fromEntries(Object.entries(spec).map(([k, v]) => [k, make(v)]));
  const obj = (x) => x !== null && typeof x === 'object' && !ctx.isSym(x);
  const accessor = (x, k) => Object.getOwnPropertyDescriptor(x, k)?.get !== undefined;
  const copy = (x) => {
    if (!obj(x)) return x;
    if (Array.isArray(x)) return x.map(copy);
    const y = Object.create(Object.getPrototypeOf(x));
    for (const k of Object.keys(x)) if (accessor(x, k)) Object.defineProperty(y, k, Object.getOwnPropertyDescriptor(x, k)); else y[k] = copy(x[k]);
    return y;
  };
  const start = c.getters ? withGetters(make(GSHAPE), c.getters) : make(c.shape);
  const D = Derivable.from(start);
  let P = copy(start);
  const seen = []; // values read: {path, value, was}
  const remember = (v) => { if (obj(v)) seen.push({ value: v, was: copy(v) }); };
  remember(start);
  const same = (got, want) => {
    if (!obj(want)) return ctx.same(got, want);
    if (!obj(got) || Array.isArray(got) !== Array.isArray(want) || Object.getPrototypeOf(got) !== Object.getPrototypeOf(want)) return false;
    const ks = Object.keys(want);
    if (Object.keys(got).length !== ks.length || (Array.isArray(want) && got.length !== want.length)) return false;
    return ks.every((k) => Object.hasOwn(got, k)) && ctx.and(...ks.map((k) => same(got[k], want[k])));
  };
  const walkP = (path) => { let x = P; for (const k of path) { if (!obj(x)) return undefined; x = x[k]; } return x; };
  const at = (path) => { let d = D; for (const k of path) { d = d?.get(k); } return d; };
  const split = (s) => s === '' ? [] : s.split('.');
  let last = D.value, touched = []; // the last value read from the root, and what was touched since
  const unchanged = (a, b, path) => { // parts that were not written keep their identity
    if (!obj(a) || !obj(b)) return;
    const own = path.join('.');
    if (!touched.some((t) => t === '' || own === '' || t === own || t.startsWith(own + '.') || own.startsWith(t + '.'))) { ctx.check(a === b, 'a part that was not written is kept', { path: own }); ctx.reach('kept'); return; }
    if (touched.includes(own)) return;
    for (const k of Object.keys(b)) if (Object.hasOwn(a, k) && !accessor(b, k)) unchanged(a[k], b[k], [...path, k]);
  };
  const look = (why) => {
    const v = D.value;
    ctx.check(same(v, P), 'the value is what the operations give on a plain copy', { why, got: v, want: P });
    if (touched.length === 0) ctx.check(v === last, 'without a write the value stays the same', { why });
    unchanged(last, v, []);
    if (c.getters) for (const k of GETTERS) ctx.check(same(v[k], P[k]), 'a getter of the value reads like on a plain copy', { k, got: v[k], want: P[k] });
    for (const s of seen) ctx.check(same(s.value, s.was), 'a value read earlier is not modified', { got: s.value, was: s.was });
    remember(v);
    last = v; touched = [];
    ctx.reach('looked');
  };
  const touch = (path) => touched.push(c.getters && GETTERS.includes(path.at(-1)) ? '' : path.join('.'));
  const news = { G: () => withGetters(make(GSHAPE), c.getters), t: () => true, f: () => false, o: () => ({ x: leaf() }), e: () => ({}), l: () => [leaf(), { x: leaf() }], n: () => null, u: () => undefined, '*': leaf };
  const handles = []; // {d, box, key}
  const scope = (dpath, ops) => {
    const d = at(dpath), target = walkP(dpath);
    if (d === undefined) return;
    const drafts = {};
    const plain = {};
    d.scope((draft) => {
      if (!obj(target)) { ctx.check(ctx.same(draft, target), 'a draft of a simple value is the value', { draft, target }); return; }
      drafts[''] = draft; plain[''] = target;
      const go = (root, path) => { let x = root; for (const k of path) { if (x === null || x === undefined || ctx.isSym(x) || typeof x !== 'object') return undefined; x = x[k]; } return x; };
      for (const op of ops) {
        const [kind, rest = '', arg = '*', from = ''] = op.split(' ');
        const path = split(rest === '/' ? '' : rest);
        const x = go(drafts[from], path.slice(0, -1)), y = go(plain[from], path.slice(0, -1)), k = path.at(-1);
        const z = go(drafts[from], path), w = go(plain[from], path);
        const full = [...dpath, ...(from === '' ? [] : split(from)), ...path];
        if (drafts[from] === undefined) continue;
        switch (kind) {
          case '=': if (obj(y)) { const v = news[arg](); x[k] = v; y[k] = copy(v); touch(full); } break;
          case '-': if (obj(y)) { delete x[k]; delete y[k]; touch(full); } break;
          case '?': if (obj(y)) { for (const inherited of ['toString', 'map']) ctx.check((inherited in x) === (inherited in y), 'a draft has the inherited keys', { path: rest, inherited }); ctx.check((k in x) === (k in y) && Object.hasOwn(x, k) === Object.hasOwn(y, k), 'a draft has the keys written so far', { path: rest, got: k in x }); } break;
          case 'K': if (obj(w)) ctx.check(ctx.eq(Reflect.ownKeys(z).sort(), Reflect.ownKeys(w).sort()), 'a draft has the own keys written so far', { path: rest, got: Reflect.ownKeys(z), want: Reflect.ownKeys(w) }); break;
          case 'k': if (obj(w)) ctx.check(ctx.eq(Object.keys(z).sort(), Object.keys(w).sort()), 'a draft lists the keys written so far', { path: rest, got: Object.keys(z), want: Object.keys(w) }); break;
          case 'r': ctx.check(obj(w) ? typeof z === 'object' && z !== null : ctx.same(z, w), 'a draft reads what was written', { path: rest, got: z, want: w }); break;
          case '&': if (obj(w)) { ctx.check(same({ ...z }, { ...w }) === true || !Object.values(w).every((v) => !obj(v)) || ctx.same(0, 1), 'a draft is spread with its values', { path: rest }); } break;
          case 'd': if (obj(y) && Object.hasOwn(y, k) && !obj(y[k])) { const p = Object.getOwnPropertyDescriptor(x, k); ctx.check(p !== undefined && ctx.same(p.value, y[k]), 'a draft describes what was written', { path: rest, got: p?.value, want: y[k] }); } break;
          case 'keep': if (obj(w)) { drafts[rest] = z; plain[rest] = w; } break;
          case 'push': if (Array.isArray(w)) { const v = news[arg](); const n = z.push(v), m = w.push(copy(v)); ctx.check(n === m, 'push tells the length', { n, m }); touch(full); } break;
          case 'pop': if (Array.isArray(w)) { const a = z.pop(), b = w.pop(); if (!obj(b)) ctx.check(ctx.same(a, b), 'pop gives the last element', { a, b }); touch(full); } break;
          case 'shift': if (Array.isArray(w)) { z.shift(); w.shift(); touch(full); } break;
          case 'unshift': if (Array.isArray(w)) { const v = leaf(); z.unshift(v); w.unshift(v); touch(full); } break;
          case 'splice': if (Array.isArray(w)) { const v = leaf(); z.splice(1, 1, v); w.splice(1, 1, v); touch(full); } break;
          case 'cut': if (Array.isArray(w)) { z.splice(0, 1); w.splice(0, 1); touch(full); } break;
          case 'rev': if (Array.isArray(w)) { z.reverse(); w.reverse(); touch(full); } break;
          case 'app': if (Array.isArray(w)) { const v = leaf(); z[z.length] = v; w[w.length] = v; touch(full); } break;
          case 'len': if (Array.isArray(w)) { ctx.check(z.length === w.length, 'a draft has the length of what was written', { got: z.length, want: w.length }); } break;
          case 'len0': if (Array.isArray(w)) { z.length = 0; w.length = 0; touch(full); } break;
          case 'len1': if (Array.isArray(w)) { z.length = 1; w.length = 1; touch(full); } break;
          case 'filter': if (Array.isArray(y?.[k])) { x[k] = x[k].filter((_, i) => i > 0); y[k] = y[k].filter((_, i) => i > 0); touch(full); } break;
          case 'map': if (Array.isArray(y?.[k])) { x[k] = x[k].map((e, i) => i === 0 && obj(e) ? { ...e, y: 'new' } : e); y[k] = y[k].map((e, i) => i === 0 && obj(e) ? { ...e, y: 'new' } : e); touch(full); } break;
          case 'each': if (Array.isArray(w)) { for (const e of z) if (!ctx.isSym(e) && typeof e === 'object' && e !== null) e.x = 'E'; for (const e of w) if (obj(e)) e.x = 'E'; touch(full); } break;
          case 'move': if (obj(w)) { const m = go(drafts[''], split(arg)); } break;
          case 'swap': if (Array.isArray(w) && w.length > 1) { const t = z[0]; z[0] = z[1]; z[1] = t; const u = w[0]; w[0] = w[1]; w[1] = u; touch(full); } break;
          case 'all': look('inside a scope'); break;
        }
      }
    });
  };
  const watched = []; // subscribed getters
  const told = () => { for (const w of watched) { const now = walkP(w.path); if (w.told === 0) ctx.check(same(now, w.was), c.getters ? 'a getter tells its subscribers of changes' : 'a property tells its subscribers of changes', { k: w.path.join('.'), was: w.was, now }); else ctx.reach('told'); w.told = 0; w.was = copy(now); ctx.check(same(w.d.value, now), 'a property reads what was written', { k: w.path.join('.'), got: w.d.value, want: now }); } };
  const mapped = D.map((v) => [v]);
  const eager = () => { // the subscribers of the root read while they are notified
    if (!c.eager) return;
    ctx.check(same(D.value, P), 'a subscriber reads what was written', { got: D.value, want: P });
    ctx.check(same(mapped.value[0], P), 'a computed signal is current in a subscriber', { got: mapped.value[0], want: P });
    ctx.reach('eager');
  };
  if (c.eager) mapped.value;
  const steps = c.script ?? Array(c.steps).fill(c.ops);
  for (let i = 0; i < steps.length; i++) {
    const op = ctx.pick('op' + i, steps[i]);
    if (Array.isArray(op)) { const ops = []; for (let j = 0; j < (op[3] ?? c.inner ?? 2); j++) ops.push(ctx.pick('d' + i + '.' + j, op[1])); scope(split(op[0]), ops); if (op[2]) look('after a scope'); told(); continue; }
    const [kind, rest = '', arg = '*'] = op.split(' ');
    const path = split(rest === '/' ? '' : rest);
    const d = at(path), box = walkP(path.slice(0, -1)), k = path.at(-1);
    switch (kind) {
      case '=': {
        if (path.length > 0 && !obj(box)) { ctx.check(d === undefined, 'a simple value has no properties', { rest }); break; }
        const v = news[arg]();
        const before = path.length === 0 ? P : box[k];
        const logs = [], offs = [];
        for (let n = 0; n <= path.length; n++) { const e = at(path.slice(0, n)); offs.push(e.subscribe((ev) => { logs.push([n, ev.path.join('.'), ev.type]); eager(); })); }
        const differs = obj(v) || obj(before) || !Object.is(v, before);
        if (path.length === 0) P = copy(v); else box[k] = copy(v);
        d.value = v;
        offs.forEach((off) => off());
        if (differs) for (let n = 0; n <= path.length; n++) { const mine = logs.filter((l) => l[0] === n); const acc = path.length > 0 && c.getters && GETTERS.includes(path.at(-1)); ctx.check((acc ? n === path.length || mine.length > 0 : mine.length === 1 && mine[0][1] === path.slice(n).join('.')) && mine.every((m) => m[2] === 'set'), 'a write is told once to the property and to all that contain it', { rest, n, logs }); }
        ctx.check(same(d.value, walkP(path)), 'a property reads what was written', { rest });
        touch(path);
        break;
      }
      case '-': {
        if (!obj(box)) break;
        const logs = [], offs = [];
        const had = Object.hasOwn(box, k);
        for (let n = 0; n < path.length; n++) { const e = at(path.slice(0, n)); offs.push(e.subscribe((ev) => { logs.push([n, ev.path.join('.'), ev.type]); eager(); })); }
        touch(path); delete box[k]; d.delete(); 
        offs.forEach((off) => off());
        if (had) for (let n = 0; n < path.length; n++) { const mine = logs.filter((l) => l[0] === n); ctx.check(mine.length === 1 && mine[0][1] === path.slice(n).join('.') && mine[0][2] === 'delete', 'a deletion is told once to all that contain the property', { rest, n, logs }); }
        break;
      }
      case 'r': { const v = d?.value, w = walkP(path); ctx.check(same(v, w), 'a property reads what was written', { rest, got: v, want: w }); remember(v); break; }
      case 'h': if (path.length > 0 && obj(box) && d !== undefined) handles.push({ d, box, k }); break;
      case 'w': { const h = handles.at(-1); if (h) { const v = leaf(); h.d.value = v; h.box[k ?? h.k] = v; touched.push(''); } break; }
      case 'hr': { const h = handles.at(-1); if (h) ctx.check(same(h.d.value, h.box[h.k]), 'a kept property reads what was written', { got: h.d.value, want: h.box[h.k] }); break; }
      case 'm': { const a = d.value, b = d.value; ctx.check(obj(a) ? a === b : ctx.same(a, b), 'a getter keeps its result until something changes', { rest }); break; }
      case 's': { const w = { path, d, was: copy(walkP(path)), told: 0 }; d.value; d.subscribe(() => { w.told++; w.d.value; }); watched.push(w); break; }
      case 'v': look('read'); break;
      case '.': break;
    }
    told();
  }
  look('end');
  if (c.eager) ctx.check(same(mapped.value[0], P), 'a computed signal is current', { got: mapped.value[0], want: P });
}
