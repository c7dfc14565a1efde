// Bindings that cannot take a value: the update reports it, the binding keeps what it had, everything else of the commit takes place, later updates work.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
const KINDS = ['event', 'style', 'ref', 'title', 'text', 'class', 'alt'];
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const log = [];
  const bad = { event: 'bad', style: Object.assign(() => 0, { toString() { throw new Error('style'); } }), ref: 1, title: { toString() { throw new Error('title'); } }, text: { toString() { throw new Error('text'); } }, class: Object.assign(() => 0, { toString() { throw new Error('class'); } }), alt: { toString() { throw new Error('alt'); } } };
  const good = (id, n) => ({ event: () => { log.push(`${id}.${n}`); }, style: { top: n + 'px' }, ref: () => { refs.add(`${id}.${n}`); return () => { refs.delete(`${id}.${n}`); }; }, title: val('title', `t${n}`), text: val('text', `x${n}`), class: 'c' + n, alt: val('alt', `a${n}`) });
  const refs = new Set();
  const val = (k, name) => c.k === k ? ctx.atom(name) : name;
  const tree = (v) => html`<p @x=${v.event} style=${v.style} ${v.ref} title=${v.title} class=${v.class}><img alt=${v.alt}>${v.text}</p>`;
  const Comp = createComponent(function Comp(props) { return tree(props.v); }, { arePropsEqual: () => false });
  const one = (id, v) => (c.shape === 'comp' ? Comp({ v }) : tree(v)).withKey(id);
  const have = {}; // what each binding of each item holds
  for (let n = 0; n < c.steps.length; n++) {
    const [ids, ...marks] = c.steps[n].split('*');
    const vs = {};
    for (const id of Object.keys(have)) if (!ids.includes(id)) delete have[id];
    for (const id of ids) {
      vs[id] = { ...good(id, n) };
      have[id] ??= {};
      const next = { ...vs[id] };
      for (const k of KINDS) if (marks.includes(id + k)) { vs[id][k] = bad[k]; next[k] = have[id][k]; }
      for (const k of KINDS) have[id][k] = k === 'ref' ? (marks.includes(id + k) ? undefined : `${id}.${n}`) : k === 'event' ? (marks.includes(id + k) ? have[id][k] : `${id}.${n}`) : next[k];
    }
    const h = track(app.root.render(ids === 'U' ? [] : c.shape === 'hole' ? html`<div><${[...ids].map((id) => one(id, vs[id]))}></div>` : [...ids].map((id) => one(id, vs[id])), OPT[c.opt](host)));
    await settle(app);
    ctx.check(h.done && h.ok === (marks.length === 0), 'the failure is reported', { n, e: h.error });
    const items = [...ids].map((id) => { const x = have[id]; return { id, x }; });
    const got = c.shape === 'hole' ? content(app.container)[0].c : content(app.container);
    ctx.check(got.length === items.length, 'all items are shown', { got, n });
    const els = [...(c.shape === 'hole' ? app.container.firstElementChild : app.container).children];
    for (let i = 0; i < items.length; i++) {
      const { id, x } = items[i], e = els[i];
      ctx.check(ctx.eq(got[i].c.slice(1), x.text === undefined ? (got[i].c.length > 1 ? [''] : []) : [x.text]), 'text', { n, id, got: got[i] });
      ctx.check(x.title === undefined ? !e.hasAttribute('title') || e.getAttribute('title') === '' : ctx.same(e.getAttribute('title'), x.title), 'attribute', { n, id });
      const a = e.firstElementChild;
      ctx.check(x.alt === undefined ? !a.hasAttribute('alt') || a.getAttribute('alt') === '' : ctx.same(a.getAttribute('alt'), x.alt), 'inner attribute', { n, id });
      ctx.check(e.style.top === (x.style?.top ?? ''), 'style', { n, id, got: e.style.top });
      ctx.check((e.getAttribute('class') ?? '') === (x.class ?? ''), 'class', { n, id, got: e.getAttribute('class') });
      log.length = 0;
      e.dispatchEvent(new Event('x'));
      ctx.check(ctx.eq(log, x.event === undefined ? [] : [x.event]), 'listener', { n, id, log });
    }
    ctx.check(ctx.eq([...refs].sort(), items.map(({ x }) => x.ref).filter((r) => r !== undefined).sort()), 'references', { n, refs: [...refs] });
    ctx.obs('step', got.length);
    ctx.reach(marks.length ? 'failed' : 'step');
  }
  app.root.unmount(); await settle(app);
  ctx.check(refs.size === 0 && app.container.childNodes.length === 0, 'unmounting removes everything');
}
