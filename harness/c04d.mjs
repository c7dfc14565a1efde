// A state that follows a property: every render starts from the property and applies the actions since the last one.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const r = ctx.fn('r');
  let dispatch = null, waiting = [], expected, renders = 0;
  const Counter = createComponent(function Counter(props) {
    const [s, d] = c.hook === 'state' ? this.useState(c.lazy ? () => props.k : props.k, { passthrough: true }) : this.useReducer(r, c.lazy ? () => props.k : props.k, { passthrough: true });
    dispatch = c.hook === 'state' ? (a, o) => d((x) => r(x, a), o) : d;
    renders++;
    if (!c.mixed) { // every render takes in everything that was dispatched
      expected = waiting.reduce((x, a) => r(x, a), props.k);
      waiting = [];
      ctx.check(ctx.same(s, expected), 'a state that follows a property is what the actions make of the property', { s, expected });
    }
    return html`<p>${s}</p>`;
  }, { arePropsEqual: () => false });
  const Parent = createComponent(function Parent(props) { return html`<div><${Counter({ k: props.k })}></div>`; });
  const view = (k) => c.parent ? Parent({ k }) : Counter({ k });
  let k = ctx.atom('k0');
  await show(app, view(k));
  expected = k;
  const shown = () => { let x = content(app.container)[0]; while (x.c?.[0]?.c !== undefined) x = x.c[0]; return x.c[0]; };
  for (let i = 0; i < c.acts.length; i++) {
    const hs = [], group = [];
    for (const a of c.acts[i].split('+')) {
      const o = OPT[a.slice(1)](host);
      if (a[0] === 'R') { k = ctx.atom(`k${i + 1}`); hs.push(track(app.root.render(view(k), o))); }
      else {
        const x = ctx.atom(`a${i}${hs.length}`), h = dispatch(x, o);
        hs.push(track(h));
        if (h.id >= 0) { waiting.push(x); group.push(x); } // the state would change
      }
    }
    await settle(app);
    ctx.check(hs.every((h) => h.ok === true), 'every update completes', { e: hs.map((h) => h.error) });
    if (c.mixed) { if (group.length > 0 || c.acts[i].includes('R')) expected = group.reduce((x, a) => r(x, a), k); }
    else ctx.check(waiting.length === 0, 'every dispatch is rendered');
    ctx.check(ctx.same(shown(), expected), 'the state shown is what the actions since make of the property', { i, shown: shown(), expected });
  }
  ctx.obs('final', shown());
  ctx.reach('folded');
}
