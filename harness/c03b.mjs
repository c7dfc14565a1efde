// Trees whose values did not change cause no writes; changed texts cause only their own.
import { createComponent } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
import { el } from './lib/tree.mjs';
import { VOCAB, WRAP } from './lib/tree2.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let n = 0;
  const names = c.names ?? Array.from({ length: c.len }, (_, i) => ctx.pick('k' + i, c.vocab));
  const build = (step) => {
    n = 0;
    const kids = names.map((k, i) => {
      const d = VOCAB[k]((j) => texts[n++]);
      return c.keyed ? { ...d, key: ctx.atom('key' + i) } : d;
    });
    return WRAP[c.where](kids.length === 1 && c.bare ? kids[0] : { k: 'F', c: kids });
  };
  const texts = [];
  for (let i = 0; i < 4 * names.length; i++) texts.push(ctx.atom('a' + i));
  if (c.keyed) for (let i = 0; i < names.length; i++) for (let j = 0; j < i; j++) ctx.assume(ctx.not(ctx.same(ctx.atom('key' + i), ctx.atom('key' + j))));
  await show(app, el(build(0)));
  host.observe(app.container);
  const leaves = () => { const out = new Map(); const go = (x) => { for (const k of [...x.childNodes]) { if (k.nodeType !== 1) out.set(k, k.data); else go(k); } }; go(app.container); return out; };
  for (let s = 1; s <= c.steps; s++) {
    const used = n;
    for (let i = 0; i < used; i++) if (c.change && ctx.flag(`ch${s}.${i}`)) texts[i] = ctx.atom(`b${s}.${i}`);
    const before = leaves();
    host.takeWrites();
    const h = await show(app, el(build(s)));
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const writes = host.takeWrites(), after = leaves();
    for (const r of writes) {
      const ok = r.type === 'characterData' && before.has(r.target) && after.has(r.target);
      ctx.check(ok && ctx.not(ctx.same(before.get(r.target), after.get(r.target))), 'only changed texts are written', { type: r.type, node: r.target.nodeName, names });
    }
    ctx.check(writes.length <= used, 'a changed text is written once', { n: writes.length });
    ctx.obs('writes', writes.length);
  }
  ctx.reach('unchanged tree');
}
