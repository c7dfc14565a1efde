// Effects, references and cleanups that throw: the update reports it, everything else of the commit takes place, later updates work.
import { createComponent, createPortal, html } from '@src/index.js';
import { content, mount, settle, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const side = document.createElement('div');
  const live = new Map(), set = {}, states = {};
  let bombs = [], thrown = [];
  const boom = (k) => { if (bombs.includes(k)) { const e = ctx.any('e' + thrown.length + k, ['undefined', 'number', 'string', 'empty']); thrown.push(e); throw e; } };
  const own = (k, vs) => () => { // an effect or reference that is set up and cleaned up
    ctx.check(!live.has(k), 'what is set up was cleaned up before', { k });
    boom(k + '+');
    live.set(k, vs);
    return () => { ctx.check(live.has(k), 'what is cleaned up was set up', { k }); live.delete(k); boom(k + '-'); };
  };
  const Item = createComponent(function Item(props) {
    const { id, v } = props;
    const [s, up] = this.useState('0');
    set[id] = up;
    this.useEffect(own('a' + id, [v]), [v]);
    this.useEffect(own('b' + id, [v, s]), [v, s]);
    this.useEffect(own('c' + id, []), []);
    const ref = this.useMemo(() => own('r' + id, [v]), [v]);
    return html`<p ${ref}>${v}:${s}</p>`;
  }, { arePropsEqual: () => false });
  const Wrap = createComponent(function Wrap(props) { this.useEffect(own('w' + props.id, [props.v]), [props.v]); return html`<i><${Item(props)}></i>`; }, { arePropsEqual: () => false });
  const one = (id, v) => c.shape === 'deep' ? Wrap({ id, v }) : c.shape === 'portal' && id === '2' ? createPortal(Item({ id, v }), side) : Item({ id, v });
  const slot = (ids, v, left) => [...ids].filter((id) => (id === '1') === left).map((id) => one(id, v).withKey(id))[0] ?? null; // item 1 on the left
  const page = (ids, v) => c.shape === 'hole' ? html`<div><${slot(ids, v, true)}><hr><${slot(ids, v, false)}></div>` : [...ids].map((id) => one(id, v).withKey(id));
  const p = (id, v) => ({ tag: 'p', c: [v, ':', states[id] ?? '0'] });
  const means = (ids, v) => {
    if (c.shape === 'hole') ids = [...ids].sort().join('');
    const kids = [...ids].map((id) => c.shape === 'deep' ? [{ tag: 'i', c: [p(id, v)] }] : c.shape === 'portal' && id === '2' ? [] : [p(id, v)]);
    return c.shape === 'hole' ? [{ tag: 'div', c: [...(ids.includes('1') ? kids[0] : []), { tag: 'hr', c: [] }, ...(ids.replace('1', '') ? kids.at(-1) : [])] }] : kids.flat();
  };
  let cur = null, down = new Map(); // down: what failed to be set up, with its values then
  const need = (cur) => cur === null ? [] : [...cur.ids].flatMap((id) => ['a', 'b', 'c', 'r', ...(c.shape === 'deep' ? ['w'] : [])].map((x) => x + id));
  const wants = (k) => ({ a: [cur.v], b: [cur.v, states[k[1]] ?? '0'], c: [], r: [cur.v], w: [cur.v] })[k[0]];
  for (let n = 0; n < c.steps.length; n++) {
    const [act, ...marks] = c.steps[n].split('*');
    bombs = marks; thrown = [];
    const hs = [], before = cur;
    const o = () => OPT[c.opt](host);
    for (const a of act.split('+')) {
      if (a[0] === '~') { states[a[1]] = 's' + n; hs.push(track(set[a[1]]('s' + n, o()))); }
      else if (a === 'U') { hs.push(track(app.root.unmount(o()))); cur = null; }
      else { cur = { ids: a, v: ctx.atom('v' + n) }; for (const id of Object.keys(states)) if (!a.includes(id) || !before?.ids.includes(id)) delete states[id]; hs.push(track(app.root.render(page(a, cur.v), o()))); }
    }
    await settle(app);
    ctx.check(hs.every((h) => h.done), 'every update completes');
    if (thrown.length === 0) ctx.check(hs.every((h) => h.ok === true), 'nothing failed', { e: hs.map((h) => h.error) });
    else { const bad = hs.filter((h) => h.ok === false); ctx.check(bad.length > 0, 'the failure is reported', { n }); for (const h of bad) ctx.check(ctx.or(false, ...thrown.map((e) => ctx.same(h.error, e))), 'the error is what was thrown', { e: h.error, thrown }); ctx.reach('failed'); }
    ctx.check(ctx.eq(content(app.container), cur === null ? [] : means(cur.ids, cur.v)), 'the document shows what was rendered', { got: content(app.container), n });
    if (c.shape === 'portal') ctx.check(ctx.eq(content(side), cur?.ids.includes('2') ? [p('2', cur.v)] : []), 'the portal shows what was rendered', { got: content(side) });
    for (const k of [...live.keys()]) ctx.check(need(cur).includes(k), 'nothing of what was removed is left set up', { k, n });
    for (const k of need(cur)) {
      if (bombs.includes(k + '+') && thrown.length > 0) continue;
      const vs = wants(k);
      if (live.has(k)) { ctx.check(ctx.eq(live.get(k), vs), 'what is set up belongs to the latest values', { k, n }); }
      else ctx.check(down.has(k) && ctx.eq(down.get(k), vs), 'everything else is set up', { k, n });
    }
    for (const k of need(cur)) if (live.has(k)) down.delete(k); else down.set(k, wants(k));
    for (const k of [...down.keys()]) if (!need(cur).includes(k)) down.delete(k);
    ctx.obs('step', content(app.container));
    ctx.reach('step');
  }
  bombs = [];
  app.root.unmount(); await settle(app);
  ctx.check(live.size === 0 && app.container.childNodes.length === 0, 'unmounting removes everything', { live: [...live.keys()] });
}
