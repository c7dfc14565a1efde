// Root renders, unmounts and updates of what they show, in every order of requests and host callbacks.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let serial = 0, current = null, live = new Set();
  const incs = {};
  const Kid = createComponent(function Kid(props) {
    const [s, set] = this.useState(0);
    const id = this.useMemo(() => ++serial, []);
    current = { id, set };
    this.useEffect(() => { ctx.check(!live.has(id), 'an effect is set up once'); live.add(id); return () => { ctx.check(live.has(id), 'an effect is cleaned up once'); live.delete(id); }; }, []);
    return html`<p>${id}:${s}</p>`;
  });
  const Page = createComponent(function Page(props) { return html`<div><i>${props.n}</i><${props.kid ? Kid({}) : null}></div>`; }, { arePropsEqual: () => false });
  const top = (n, kid) => c.nested ? Page({ n, kid }) : [html`<i>${n}</i>`, ...(kid ? [Kid({})] : [])];
  const done = [], roots = new Map();
  app.runtime.use({ handle(u, render) { if (roots.has(u.id)) done.push(roots.get(u.id)); return render(u); } });
  const handles = [];
  const render = (n, kid, o) => { const h = app.root.render(top(n, kid), o); roots.set(h.id, { n, kid }); handles.push(track(h)); };
  if (c.mounted) { render('a', true, {}); await settle(app); }
  await play(app, c.acts.map((a, i) => () => {
    const o = OPT[a.slice(1)](host);
    if (a[0] === 'u') { const h = app.root.unmount(o); roots.set(h.id, null); handles.push(track(h)); }
    else if (a[0] === 'x') { if (current !== null) { incs[current.id] = (incs[current.id] ?? 0) + 1; handles.push(track(current.set((x) => x + 1, o))); } }
    else render(String(i), a[0] === 'R', o);
  }), { sync: true, hidden: !!c.hidden });
  await settle(app);
  ctx.check(handles.every((h) => h.ok === true), 'every update completes', { done: handles.map((h) => h.done), e: handles.map((h) => h.error) });
  const fin = done.length === 0 ? null : done.at(-1);
  ctx.check(done.length === roots.size, 'every root update is processed once', { n: done.length, want: roots.size });
  const got = content(app.container);
  if (fin === null) {
    ctx.check(app.container.childNodes.length === 0, 'an unmounted root shows nothing', { got });
    ctx.check(live.size === 0, 'no effect outlives the root', { live: [...live] });
    ctx.reach('unmounted');
  } else {
    const kid = fin.kid ? [{ tag: 'p', c: [String(current.id), ':', String(incs[current.id] ?? 0)] }] : [];
    const i = { tag: 'i', c: [fin.n] };
    ctx.check(ctx.eq(got, c.nested ? [{ tag: 'div', c: [i, ...kid] }] : [i, ...kid]), 'the root shows what was rendered last', { got, fin, incs });
    ctx.check(live.size === kid.length && (kid.length === 0 || live.has(current.id)), 'only effects of what is shown are set up', { live: [...live] });
    ctx.reach('shown');
  }
  app.root.unmount(); await settle(app);
  ctx.check(live.size === 0 && app.container.childNodes.length === 0, 'unmounting removes everything', { live: [...live] });
}
