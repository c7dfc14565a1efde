// Several roots of one runtime: of the requests for a root at one priority the last one wins, and every root works on afterwards.
import { createComponent, DOMRoot, html } from '@src/index.js';
import { content, mount, settle, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const roots = [{ root: app.root, container: app.container }];
  while (roots.length < c.roots) { const container = document.createElement('div'); document.body.appendChild(container); roots.push({ root: new DOMRoot(container, app.runtime), container }); }
  const live = new Map(); // effects in place, by the root and the instance
  let serial = 0;
  const App = createComponent(function App(props) {
    const id = this.useMemo(() => ++serial, []);
    this.useEffect(() => { const k = `${props.r}:${id}`; ctx.check(!live.has(k), 'an effect is not set up twice', { k }); live.set(k, 1); return () => { ctx.check(live.delete(k), 'an effect is cleaned up once', { k }); }; }, []);
    return c.body === 'two' ? [html`<p>${props.v}</p>`, html`<i></i>`] : html`<p>${props.v}</p>`;
  }, { arePropsEqual: () => false });
  const view = (r, v) => c.body === 'plain' ? html`<p>${v}</p>` : App({ r, v });
  const want = roots.map(() => null), handles = [];
  const verify = (label) => roots.forEach(({ container }, r) => {
    const expect = want[r] === null ? [] : [{ tag: 'p', c: [String(want[r])] }, ...(c.body === 'two' ? [{ tag: 'i', c: [] }] : [])];
    ctx.check(ctx.eq(content(container), expect), label, { r, got: content(container), want: want[r] });
    if (c.body !== 'plain') ctx.check([...live.keys()].filter((k) => k[0] === String(r)).length === (want[r] === null ? 0 : 1), label + ': the effects of what is shown are in place', { live: [...live.keys()] });
  });
  const opts = () => OPT[c.opt](host);
  for (let r = 0; r < c.roots; r++) if (ctx.flag('shown' + r)) { want[r] = 0; handles.push(track(roots[r].root.render(view(r, 0)))); }
  await settle(app);
  verify('initially');
  const act = (i) => () => {
    const k = ctx.choose(`req${i}of${c.roots}`, c.roots * 2), r = k >> 1;
    if (k & 1) { want[r] = null; handles.push(track(roots[r].root.unmount(opts()))); } else { want[r] = i + 1; handles.push(track(roots[r].root.render(view(r, i + 1), opts()))); }
  };
  const acts = Array.from({ length: c.requests }, (_, i) => act(i));
  if (c.together) { for (const a of acts) a(); await settle(app); } else { await play(app, acts); await settle(app); }
  ctx.check(handles.every((h) => h.done && h.ok === true), 'every request completes', { e: handles.map((h) => h.error) });
  verify('the last request for a root wins');
  for (let r = 0; r < c.roots; r++) { want[r] = 'x'; handles.push(track(roots[r].root.render(view(r, 'x')))); await settle(app); }
  verify('the roots work on');
  ctx.obs('done', handles.map((h) => h.ok));
  ctx.reach('served');
}
