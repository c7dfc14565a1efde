// Keyed lists: symbolic keys (any equality pattern, duplicates included), symbolic kinds and texts.
import { content, mount, show } from './lib/app.mjs';
import { el, means } from './lib/tree.mjs';
const WRAP = { root: (d) => d, hole: (d) => ({ k: 'H', c: [d, { k: 'P', v: 'end' }] }), inner: (d) => ({ k: 'F', c: [{ k: 'P', v: 'a' }, d, { k: 'P', v: 'z' }] }), comp: (d) => ({ k: 'C', c: [d] }) };
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  for (let s = 0; s < c.n.length; s++) {
    const items = [];
    for (let i = 0; i < c.n[s]; i++) {
      const n = `${s}.${i}`;
      items.push({ k: c.kinds[c.kinds.length > 1 ? ctx.choose('kind' + n, c.kinds.length) : 0], v: c.sameText ? 'v' + n : ctx.atom('v' + n), key: ctx.atom('k' + n) });
      if (c.distinct) for (let j = 0; j < i; j++) ctx.assume(ctx.not(ctx.same(items[j].key, items[i].key)));
    }
    for (const x of items) if (x.k === 'C' || x.k === 'F' || x.k === 'E') x.c = [{ k: 'P', v: x.v }]; else if (x.k === 'L') x.c = [{ k: 'P', v: x.v }, { k: 'T', v: '.' }];
    const d = WRAP[c.where]({ k: 'F', c: items });
    const h = await show(app, el(d), {});
    ctx.check(h.done && h.ok === true, 'the render completes', { step: s, error: h.error });
    const got = content(app.container);
    ctx.obs('content' + s, got);
    ctx.check(ctx.eq(got, means(d)), 'the container shows exactly the latest tree', { step: s, got, want: means(d) });
  }
  ctx.reach('shown');
}
