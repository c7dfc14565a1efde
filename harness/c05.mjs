// Every update completes and nothing requested is missing, whatever order the host runs its callbacks in.
import { createComponent, html } from '@src/index.js';
import { content, mount, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  if (c.noPostTask) host.legacy();
  const setters = {}, shown = {}, want = { x: 0, y: 0, p: 0 };
  const Item = createComponent(function Item(props) {
    const [s, set] = this.useState(0);
    setters[props.name] = set; shown[props.name] = s;
    if (props.name === 'x' && c.inEffect) this.useEffect(() => { if (s === 1) { want.x = 7; handles.push(track(set(7, OPT[c.inEffect](host)))); } }, [s]);
    if (props.name === 'y' && c.failing && s !== 0) throw new Error('failing');
    return html`<p>${s}</p>`;
  }, { arePropsEqual: () => !!c.bail });
  const Parent = createComponent(function Parent(props) {
    const [s, set] = this.useState(0);
    setters.p = set; shown.p = s;
    return html`<i>${props.n}</i><b>${s}</b><${Item({ name: 'x', n: props.n })}><${Item({ name: 'y', n: props.n })}>`;
  });
  const top = (n) => Parent({ n });
  await show(app, top(0));
  const handles = [];
  let n = 0;

  await play(app, c.acts.map((a, i) => () => {
    const what = a[0], o = OPT[a.slice(1)](host);
    if (what === 'R') { n = i + 1; handles.push(track(app.root.render(top(n), o))); } else { want[what] = i + 1; handles.push(track(setters[what](i + 1, o))); }
  }), { hidden: !!c.hidden, sync: !!c.sync });
  await ctx.drain();
  ctx.check(handles.every((h) => h.done), 'every update handle settles', { done: handles.map((h) => h.done) });
  if (c.failing) {
    ctx.check(host.pending.length === 0, 'the host has nothing left to do');
    ctx.obs('ok', handles.map((h) => h.ok));
    ctx.reach('settled');
    return;
  }
  ctx.check(handles.every((h) => h.ok !== false), 'no update fails', { errors: handles.map((h) => h.error) });
  const text = content(app.container).map((e) => [e.tag, ...e.c]);
  ctx.check(ctx.eq(text, [['i', String(n)], ['b', String(want.p)], ['p', String(want.x)], ['p', String(want.y)]]), 'nothing requested is missing from the document', { text, want, n });
  ctx.check(host.pending.length === 0, 'the host has nothing left to do');
  ctx.obs('text', text);
  ctx.reach('settled');
}
