// A memoised value is that of the current dependencies also when computing it failed before.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const TAGS = ['undefined', 'null', 'number', 'string', 'empty'];
  let cur = null, force = null;
  const Memo = createComponent(function Memo(props) {
    force = () => this.forceUpdate();
    const me = cur;
    if (me.fails === 'before') throw new Error('before');
    me.a = this.useMemo(() => { me.ran.push('a'); if (me.fails === 'a') throw new Error('a'); return { deps: me.deps }; }, me.deps);
    me.b = this.useMemo(() => { me.ran.push('b'); if (me.fails === 'b') throw new Error('b'); return { deps: me.deps2 }; }, me.deps2);
    me.ref = this.useRef(0);
    me.id = this.useId();
    if (me.fails === 'after') throw new Error('after');
    return html`<p>${me.step}</p>`;
  }, { arePropsEqual: () => false });
  const same = (a, b) => a.length === b.length && ctx.and(true, ...a.map((x, i) => ctx.same(x, b[i])));
  let good = null, smooth = true;
  for (let s = 0; s < c.len.length; s++) {
    const fails = s === 0 || !c.fails.includes(s) ? null : ctx.pick('fails' + s, [null, 'before', 'a', 'b', 'after']);
    const deps = Array.from({ length: c.len[s] }, (_, i) => ctx.any(`D${s}.${i}`, TAGS)), deps2 = [ctx.atom('e' + s)];
    cur = { step: s, deps, deps2, fails, ran: [] };
    let h;
    if (c.own?.[s]) { h = track(force()); await settle(app); } else h = await show(app, Memo({ s }));
    if (h.ok === false) {
      ctx.check(fails !== null, 'only a failing computation fails the render', { e: h.error });
      ctx.check(content(app.container)[0].c[0] === String(good.step), 'and nothing changes');
      smooth = false;
      ctx.reach('failed');
      continue;
    }
    ctx.check(fails === null || fails === 'a' || fails === 'b', 'a failing render is reported', { fails });
    ctx.check(ctx.and(same(cur.a.deps, deps), same(cur.b.deps, deps2)), 'a memoised value is that of the current dependencies', { s, a: cur.a, deps, b: cur.b, deps2 });
    ctx.check(cur.ran.length === new Set(cur.ran).size, 'it is computed at most once', { ran: cur.ran });
    if (good !== null) {
      if (smooth) ctx.check(ctx.and(ctx.iff(same(good.deps, deps), cur.a === good.a), ctx.iff(same(good.deps2, deps2), cur.b === good.b)), 'and the same as before when they are', { s });
      ctx.check(cur.ref === good.ref && cur.id === good.id, 'references and identifiers survive failing renders');
    }
    good = cur; smooth = true;
    ctx.reach('computed');
  }
  ctx.obs('step', good.step);
}
