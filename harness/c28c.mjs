// Requests made from inside: a component asks for another page, for unmounting or for updates while it renders, in an effect, a cleanup or a reference.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const handles = [], done = [], roots = new Map(), count = {}, live = new Map(), exp = {}, sets = {};
  let serial = 0, clock = 0;
  app.runtime.use({ handle(u, render) { if (roots.has(u.id)) done.push(roots.get(u.id)); return render(u); } });
  const request = (what, o) => {
    if (what === 'S') { for (const id of Object.keys(sets)) { const a = ctx.atom('a' + clock++); exp[id] = a; handles.push(track(sets[id](a, o))); } return; }
    const h = what === 'U' ? app.root.unmount(o) : app.root.render(PAGE[what](ctx.atom('v' + clock++)), o);
    roots.set(h.id, what); handles.push(track(h));
  };
  const at = (point) => { count[point] = (count[point] ?? 0) + 1; if (point === c.point && count[point] === c.nth) request(c.what, OPT[c.how](host)); };
  const up = (k) => { ctx.check(!live.has(k), 'set up once', { k }); live.set(k, true); }, down = (k) => { ctx.check(live.has(k), 'cleaned up once', { k }); live.delete(k); };
  const Inner = createComponent(function Inner(props) {
    const id = this.useMemo(() => { const i = ++serial; exp[i] = ctx.atom('init'); return i; }, []);
    const [s, set] = this.useState(() => ctx.atom('init'));
    sets[id] = set;
    at('render');
    this.useEffect(() => { up('e' + id); at('effect'); return () => { down('e' + id); at('cleanup'); }; }, [props.v]);
    const ref = this.useCallback(() => { up('r' + id); at('ref'); return () => { down('r' + id); at('unref'); }; }, []);
    return html`<p ${ref} @x=${() => at('event')}>${id}/${s}</p>`;
  });
  const Outer = createComponent(function Outer(props) { this.useEffect(() => { up('o'); at('outer'); return () => { down('o'); at('outer-'); }; }, []); return html`<div>${props.v}<${Inner({ v: props.v })}></div>`; }, { arePropsEqual: () => false });
  const PAGE = { A: (v) => Outer({ v }), L: (v) => [html`<b></b>`, Inner({ v }), html`<i></i>`], E: () => [] };
  await play(app, c.acts.map((a) => () => {
    if (a === 'X') { app.container.querySelector('p')?.dispatchEvent(new Event('x')); return; }
    request(a[0], OPT[a.slice(1)](host));
  }), { hidden: false });
  await settle(app);
  ctx.check(handles.every((h) => h.ok === true), 'every request completes', { done: handles.map((h) => h.done), e: handles.map((h) => h.error) });
  const fin = done.at(-1);
  ctx.check(done.length === roots.size, 'every root update is processed once', { done: done.length, want: roots.size });
  const got = content(app.container), shown = JSON.stringify(got).match(/"p","c":\["(\d+)"/)?.[1];
  const p = { tag: 'p', c: [shown, '/', exp[shown]] };
  const has = fin === 'A' || fin === 'L';
  const text = fin === 'A' && got[0]?.c[0];
  ctx.check(ctx.eq(got, fin === 'A' ? [{ tag: 'div', c: [text, p] }] : fin === 'L' ? [{ tag: 'b', c: [] }, p, { tag: 'i', c: [] }] : []), 'the page requested last is shown with its latest state', { got, fin, exp });
  ctx.check(live.size === (has ? 2 : 0) + (fin === 'A' ? 1 : 0) && (!has || live.has('e' + shown) && live.has('r' + shown)), 'effects and references belong to what is shown', { live: [...live.keys()], fin });
  ctx.obs('final', got.length);
  ctx.reach(has ? 'shown' : 'empty');
  c = { ...c, point: null };
  app.root.unmount(); await settle(app);
  ctx.check(live.size === 0 && app.container.childNodes.length === 0, 'unmounting removes everything', { live: [...live.keys()] });
}
