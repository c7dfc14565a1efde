// Long lists: one change after the other out of moves, swaps, turns, removals, insertions and replacements.
import { content, mount, show } from './lib/app.mjs';
import { change } from './lib/shapes.mjs';
import { el, means } from './lib/tree.mjs';
const p = (v) => ({ k: 'P', v });
const CHILD = [(v) => p(v), (v) => ({ k: 'F', c: [] }), (v) => ({ k: 'W', v }), (v) => ({ k: 'C', c: [{ k: 'F', c: [p(v), { k: 'T', v: '.' }] }] }), (v) => ({ k: 'T', v }), (v) => ({ k: 'E', c: [p(v)] })];
const WRAP = { root: (d) => d, hole: (d) => ({ k: 'H', c: [d, p('end')] }), inner: (d) => ({ k: 'F', c: [p('a'), d, p('z')] }), comp: (d) => ({ k: 'C', c: [d] }) };
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let ids = 0;
  const fresh = (k) => Array.from({ length: k }, () => ids++);
  let list = fresh(c.n);
  for (let s = 0; s <= c.ops.length; s++) {
    if (s > 0) list = change(ctx, 's' + s, list, c.ops[s - 1], fresh);
    const items = list.map((id) => { const d = CHILD[c.mixed ? id % CHILD.length : 0](c.texts === 'new' ? `${id}.${s}` : `${id}`); return c.plain ? d : { ...d, key: 'k' + id }; });
    const d = WRAP[c.where]({ k: 'F', c: items });
    const h = await show(app, el(d), {});
    ctx.check(h.done && h.ok === true, 'the render completes', { step: s, error: h.error });
    const got = content(app.container);
    ctx.check(ctx.eq(got, means(d)), 'the container shows exactly the latest tree', { step: s, got, want: means(d), list });
    if (list.length === 0) break;
  }
  ctx.reach('shown');
}
