// Changes of a list given by an operation and two positions, for lists too long for arbitrary patterns.
export const OPS = ['move', 'swap', 'turn', 'cut', 'keep', 'add', 'replace', 'spread', 'empty'];
/** The changed list; fresh(n) gives n new elements. */
export function change(ctx, name, list, op, fresh) {
  const n = list.length, out = [...list];
  const two = () => { const i = ctx.choose(name + '.i', n), j = i + ctx.choose(name + '.j', n - i); return [i, j]; };
  switch (op) {
    case 'move': { const i = ctx.choose(name + '.i', n), j = ctx.choose(name + '.j', n), [x] = out.splice(i, 1); out.splice(j, 0, x); return out; }
    case 'swap': { const [i, j] = two(); [out[i], out[j]] = [out[j], out[i]]; return out; }
    case 'turn': { const [i, j] = two(); return [...out.slice(0, i), ...out.slice(i, j + 1).reverse(), ...out.slice(j + 1)]; }
    case 'cut': { const [i, j] = two(); out.splice(i, j - i + 1); return out; }
    case 'keep': { const [i, j] = two(); return out.slice(i, j + 1); }
    case 'add': { const i = ctx.choose(name + '.i', n + 1), k = 1 + ctx.choose(name + '.j', n); out.splice(i, 0, ...fresh(k)); return out; }
    case 'replace': { const [i, j] = two(); const f = fresh(j - i + 1); out.splice(i, j - i + 1, ...f); return out; }
    case 'spread': { const i = 2 + ctx.choose(name + '.i', n - 2), j = ctx.choose(name + '.j', i); return [...out.filter((_, x) => x % i === j), ...fresh(2), ...out.filter((_, x) => x % i !== j)]; }
    case 'empty': return ctx.flag(name + '.all') ? fresh(n) : [];
  }
}
