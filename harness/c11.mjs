// Element references are attached and detached in pairs.
import { createComponent, html } from '@src/index.js';
import { Ref } from '@src/component.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const log = [];
  const refs = { R: new Ref(null), S: new Ref(null) };
  const mk = (id, clean) => (el) => { log.push({ op: 'a', id, el }); return clean ? () => { log.push({ op: 'd', id, el }); } : el; };
  const shared = { F: mk('F', true), G: mk('G', true), g: mk('g', false) };
  let fresh = 0;
  const value = (k) => {
    switch (k) {
      case 'n': return { v: null, id: 'n' };
      case 'u': return { v: undefined, id: 'n' };
      case 'f': { const id = 'f' + fresh++; return { v: mk(id, true), id, clean: true }; }
      case 'R': case 'S': return { v: refs[k], id: k, ref: refs[k] };
      default: return { v: shared[k], id: k, clean: k !== 'g' };
    }
  };
  const KINDS = c.kinds;
  let prev = null, els = [];
  const shape = c.shape;
  for (let s = 0; s < c.steps; s++) {
    const n = shape === 'list' ? c.len[s] : shape === 'two' ? 2 : 1;
    const vals = [];
    for (let i = 0; i < n; i++) {
      let k = ctx.pick(`v${s}.${i}`, KINDS);
      if ((k === 'R' || k === 'S') && vals.some((x) => x.id === k)) k = 'n';
      vals.push(value(k));
    }
    log.length = 0;
    const tree = shape === 'list' ? html`<div ${vals.map((x) => x.v)}></div>` : shape === 'two' ? html`<div ${vals[0].v}></div><p ${vals[1].v}></p>` : shape === 'nested' ? html`<div><p ${vals[0].v}></p></div>` : html`<div ${vals[0].v}></div>`;
    const wrap = c.hole ? html`<i></i><${tree}>` : tree;
    const h = await show(app, wrap);
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const now = shape === 'two' ? [app.container.querySelector('div'), app.container.querySelector('p')] : shape === 'nested' ? [app.container.querySelector('p')] : vals.map(() => app.container.querySelector('div'));
    if (prev !== null && (shape !== 'list' || (els.length && now.length))) ctx.check(now[0] === els[0], 'the element stays');
    const slots = Math.max(vals.length, prev?.length ?? 0);
    const want = [];
    for (let i = 0; i < slots; i++) {
      const o = prev?.[i] ?? { id: 'n' }, v = vals[i] ?? { id: 'n' };
      if (o.id === v.id && !v.ref) continue;
      const w = [];
      if (o.clean) w.push('d' + o.id);
      if (v.id !== 'n' && !v.ref) w.push('a' + v.id);
      want.push(w);
    }
    const got = log.map((l) => l.op + l.id);
    ctx.check(ctx.eq(got.slice().sort(), want.flat().sort()), 'exactly the replaced references are detached and the new ones attached, once each', { got, want });
    for (const w of want) if (w.length === 2) { const di = got.indexOf(w[0]), ai = got.lastIndexOf(w[1]); ctx.check(di >= 0 && di < ai, 'a reference is detached before its replacement is attached', { got, want }); }
    for (const l of log) if (l.op === 'a') ctx.check(now.includes(l.el) || els.includes(l.el), 'a reference is called with its element');
    vals.forEach((v, i) => { const l = log.findLast((x) => x.op === 'a' && x.id === v.id); if (l && vals.filter((x) => x.id === v.id).length === 1) ctx.check(l.el === now[i], 'a reference is called with the element it is bound to'); });
    for (const k of ['R', 'S']) { const i = vals.findIndex((x) => x.id === k); ctx.check(refs[k].current === (i >= 0 ? now[i] : null), 'a reference object holds the element exactly while it is bound', { k, i }); }
    prev = vals; els = now;
    ctx.obs('log', got);
  }
  log.length = 0;
  if (c.end === 'unmount') { track(app.root.unmount()); await settle(app); } else await show(app, html`<hr>`);
  ctx.check(ctx.eq(log.map((l) => l.op + l.id).sort(), prev.filter((v) => v.clean).map((v) => 'd' + v.id).sort()), 'every reference still attached is detached exactly once with its element', { got: log.map((l) => l.op + l.id) });
  ctx.check(refs.R.current === null && refs.S.current === null, 'a reference object is empty after its element is gone');
  ctx.reach('unbound');
}
