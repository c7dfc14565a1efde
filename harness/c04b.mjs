// A reducer that changes from render to render: an action is reduced by one that is not older than the render it was dispatched from.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const r = ctx.fn('r');
  const init = ctx.atom('s0');
  let dispatch = null;
  const Counter = createComponent(function Counter(props) {
    const [s, d] = this.useReducer((x, a) => r(r(x, a), props.k), init);
    dispatch = d;
    return html`<p>${s}</p>`;
  }, { arePropsEqual: () => false });
  let k = ctx.atom('k0'), exp = [init];
  await show(app, Counter({ k }));
  const shown = () => content(app.container)[0].c[0];
  for (let i = 0; i < c.acts.length; i++) {
    const hs = [];
    let reducers = [k];
    const todo = [];
    for (const a of c.acts[i].split('+')) {
      const o = OPT[a.slice(1)](host);
      if (a[0] === 'R') { k = ctx.atom(`k${i + 1}`); reducers.push(k); hs.push(track(app.root.render(Counter({ k }), o))); }
      else { const x = ctx.atom(`a${i}${todo.length}`); todo.push(x); hs.push(track(dispatch(x, o))); }
    }
    await settle(app);
    ctx.check(hs.every((h) => h.ok === true), 'every update completes', { e: hs.map((h) => h.error) });
    for (const x of todo) exp = exp.flatMap((s) => reducers.map((q) => r(r(s, x), q)));
    ctx.check(ctx.or(false, ...exp.map((s) => ctx.same(shown(), s))), 'the state is the fold of the actions by the reducers of the renders since', { i, shown: shown(), exp });
    exp = [shown()];
  }
  ctx.obs('final', shown());
  ctx.reach('folded');
}
