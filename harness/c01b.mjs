// Unkeyed (or symbolically keyed) lists of subtrees chosen symbolically from a vocabulary.
import { content, mount, show } from './lib/app.mjs';
import { el, means } from './lib/tree.mjs';
import { VOCAB, WRAP } from './lib/tree2.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  for (let s = 0; s < c.steps; s++) {
    const n = c.len ? c.len[s] : ctx.choose('len' + s, c.max + 1);
    const items = [];
    for (let i = 0; i < n; i++) {
      const name = `${s}.${i}`;
      const d = VOCAB[ctx.pick('item' + name, c.vocab)]((j) => c.sym ? ctx.atom(`v${name}.${j}`) : `v${name}.${j}`);
      if (c.keyed) {
        d.key = ctx.atom('k' + name);
        if (c.distinct) for (const o of items) ctx.assume(ctx.not(ctx.same(o.key, d.key)));
      }
      items.push(d);
    }
    const d = WRAP[c.where](c.bare && items.length === 1 ? items[0] : { k: 'F', c: items });
    const h = await show(app, el(d), {});
    ctx.check(h.done && h.ok === true, 'the render completes', { step: s, error: h.error });
    const got = content(app.container);
    ctx.obs('content' + s, got);
    ctx.check(ctx.eq(got, means(d)), 'the container shows exactly the latest tree', { step: s, got, want: means(d) });
  }
  ctx.reach('shown');
}
