// The state shown in the end is the fold of the reducer over all dispatched actions.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  if (c.loading) host.setReadyState('loading');
  const r = ctx.fn('r'), equal = c.custom ? ctx.pred('equal') : null;
  const init = ctx.atom('s0');
  let dispatch = null, exp = init, shown = null;
  const useIt = (self) => {
    if (c.hook === 'state') {
      const [s, set] = self.useState(() => init);
      dispatch = (a, o, i) => { if (c.plain?.[i]) { exp = a; return set(a, o); } exp = r(exp, a); return set((x) => r(x, a), o); };
      return s;
    }
    const [s, d] = self.useReducer(r, init);
    dispatch = (a, o, i) => {
      if (!c.custom) { exp = r(exp, a); return d(a, o); }
      const next = r(exp, a), h = d(a, { ...o, areStatesEqual: (x, y) => equal(x, y) });
      const skipped = h.id < 0;
      if (skipped) { ctx.check(equal(next, exp), 'a dispatch is skipped only when the comparison finds the states equal', { next, exp }); ctx.reach('skipped'); }
      else { if (i === 0) ctx.check(ctx.not(equal(next, exp)), 'a dispatch that changes nothing is skipped', { next, exp }); exp = next; }
      return h;
    };
    return s;
  };
  const Counter = createComponent(function Counter(props) {
    const s = useIt(this);
    if (c.inRender && props.n === 1 && !this.did) { /* nothing */ }
    if (c.effect) this.useEffect(() => { shown = s; });
    return html`<p>${s}</p>`;
  }, { arePropsEqual: () => !!c.bail });
  const Parent = createComponent(function Parent(props) { return html`<div><${Counter({ n: props.n })}></div>`; }, { arePropsEqual: () => false });
  const top = (n) => c.parent ? Parent({ n }) : Counter({ n });
  await show(app, top(0));
  const handles = [];
  const acts = [...c.acts].length ? c.acts.map((o, i) => () => {
    if (o[0] === 'R') { handles.push(track(app.root.render(top(i + 1), OPT[o.slice(1)](host)))); return; }
    handles.push(track(dispatch(ctx.atom('a' + i), OPT[o](host), i)));
  }) : [];
  await play(app, acts, { hidden: !!c.hidden, sync: !!c.sync });
  await settle(app);
  for (const h of handles) ctx.check(h.ok === true, 'every dispatch completes', { error: h.error });
  const body = content(app.container);
  const p = c.parent ? body[0].c[0] : body[0];
  ctx.check(ctx.same(p.c[0], exp), 'the state shown is the fold of the reducer over all actions', { shown: p.c[0], exp });
  if (c.effect) ctx.check(ctx.same(shown, exp), 'effects see the final state', { shown, exp });
  ctx.obs('final', p.c[0]);
  ctx.reach('folded');
}
