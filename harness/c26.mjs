// Comparison helpers on arbitrary primitives (doubles incl. NaN and -0, booleans, null, undefined, strings).
import { areDependenciesChanged, sequentialEqual, shallowEqual } from '@src/compare.js';
const arr = (ctx, n, len) => Array.from({ length: len }, (_, i) => ctx.any(n + i));
export default function main(ctx, c) {
  if (c.kind === 'seq') {
    const a = arr(ctx, 'a', c.n), b = arr(ctx, 'b', c.m);
    let want = c.n === c.m;
    if (want) want = ctx.and(...a.map((x, i) => ctx.same(x, b[i])));
    const got = sequentialEqual(a, b);
    ctx.obs('seq', got);
    ctx.check(ctx.iff(got, want), 'sequences are equal exactly when lengths agree and elements are the same value', { a, b });
    ctx.check(sequentialEqual(a, a), 'a sequence equals itself');
    const ch = areDependenciesChanged(a, b);
    ctx.check(ctx.iff(ch, ctx.not(want)), 'dependencies changed exactly when not sequence-equal', { a, b });
    for (const none of [null, undefined]) {
      ctx.check(areDependenciesChanged(none, b) && areDependenciesChanged(a, none) && areDependenciesChanged(none, none), 'absent dependencies count as changed');
    }
    ctx.reach('seq');
  } else if (c.kind === 'seqfn') {
    const a = Array.from({ length: c.n }, (_, i) => ctx.atom('a' + i)), b = Array.from({ length: c.m }, (_, i) => ctx.atom('b' + i));
    const rel = ctx.pred('eq');
    let want = c.n === c.m;
    if (want) want = ctx.and(...a.map((x, i) => rel(x, b[i])));
    const got = sequentialEqual(a, b, rel);
    ctx.obs('seqfn', got);
    ctx.check(ctx.iff(got, want), 'sequences are equal exactly when all elements are related', { a, b });
    ctx.reach('seqfn');
  } else {
    // own enumerable keys from a small set, plus inherited and non-enumerable decoys
    const mk = (n, mask) => {
      const o = c.proto ? Object.create({ k0: 1, inherited: 2 }) : {};
      const keys = [];
      for (let i = 0; i < 3; i++) if ((mask >> i) & 1) keys.push('k' + i);
      if (c.rev && n === 'b') keys.reverse();
      for (const k of keys) o[k] = ctx.any(n + k);
      if (c.hidden) Object.defineProperty(o, 'hid', { value: n, enumerable: false });
      return o;
    };
    const a = mk('a', c.ka), b = mk('b', c.kb);
    let want = c.ka === c.kb;
    const rel = c.fn ? ctx.pred('eq') : null;
    if (want) want = ctx.and(true, ...Object.keys(a).map((k) => ctx.same(a[k], b[k])));
    const got = shallowEqual(a, b);
    ctx.obs('shallow', got);
    ctx.check(ctx.iff(got, want), 'objects are shallow-equal exactly when own enumerable keys coincide and values are the same', { a, b });
    ctx.check(ctx.iff(shallowEqual(b, a), want), 'shallow equality is symmetric', { a, b });
    ctx.check(shallowEqual(a, a), 'an object equals itself');
    ctx.reach('shallow');
  }
}
