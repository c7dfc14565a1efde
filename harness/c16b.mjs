// Templates composed from partials render like those written out, and are updated in place.
import { html, Partial } from '@src/index.js';
import { content, mount, nodes, show } from './lib/app.mjs';
const part = (k, x, y) => {
  switch (k) {
    case 'i': return Partial.parse`<i>${x}</i>`;
    case 'u': return Partial.parse`<u title=${x}>${y}</u>`;
    case 'l': return Partial.literal('<s>lit</s>');
    case 'e': return Partial.parse``;
    case 'n': return Partial.parse`<q>${Partial.parse`<i>${x}</i>`}${Partial.literal('x')}</q>`;
    case 'h': return Partial.parse`<em><${html`<i>${x}</i>`}></em>`;
  }
};
const means = (k, x, y) => {
  switch (k) {
    case 'i': return [{ tag: 'i', c: [x] }];
    case 'u': return [{ tag: 'u', '@title': x, c: [y] }];
    case 'l': return [{ tag: 's', c: ['lit'] }];
    case 'e': return [];
    case 'n': return [{ tag: 'q', c: [{ tag: 'i', c: [x] }, 'x'] }];
    case 'h': return [{ tag: 'em', c: [{ tag: 'i', c: [x] }] }];
  }
};
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let prev = null;
  for (let s = 0; s < c.steps; s++) {
    const k = ctx.pick('k' + s, c.kinds), m = c.two ? ctx.pick('m' + s, c.kinds) : null;
    const [x, y, z, w] = ['x', 'y', 'z', 'w'].map((n) => ctx.atom(n + s));
    const el = c.two ? Partial.html`<p>${part(k, x, y)}<b>${z}</b>${part(m, y, w)}</p>` : Partial.html`${part(k, x, y)}<b>${z}</b>`;
    const h = await show(app, el);
    ctx.check(h.ok === true, 'the composed template renders', { k, m, e: h.error });
    const got = content(app.container);
    const b = { tag: 'b', c: [z] };
    const want = c.two ? [{ tag: 'p', c: [...means(k, x, y), b, ...means(m, y, w)] }] : [...means(k, x, y), b];
    ctx.check(ctx.eq(got, want), 'it shows what the template written out shows', { got, want });
    const now = nodes(app.container);
    if (prev !== null && prev.k === k && prev.m === m) { ctx.check(now.length === prev.now.length && now.every((n, i) => n === prev.now[i]), 'the same composition is updated in place', { k, m }); ctx.reach('in place'); }
    prev = { k, m, now };
  }
  ctx.reach('rendered');
}
