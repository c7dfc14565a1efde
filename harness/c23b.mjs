// A long chain of components, any of which provide, and many that provide side by side.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  class A { constructor(n) { this.n = n; } }
  class S extends A {}
  const classes = Array.from({ length: c.kinds ?? 1 }, () => class { constructor(n) { this.n = n; } });
  const force = {}, gives = {};
  let got = null, count = 0;
  const value = (i) => { const x = c.kinds ? new classes[i % c.kinds](`${i}.${++count}`) : i % 2 ? new S(`${i}.${++count}`) : new A(`${i}.${++count}`); return x; };
  const Level = createComponent(function (props) {
    const { i } = props;
    force[i] = () => this.forceUpdate();
    for (let k = 0; k < (c.each ?? 1); k++) if (ctx.flag(`gives${i}.${k}.${gives[i]?.round ?? 0}`)) { const x = value(i + k); this.provide(x); (gives[i] ??= { round: 0, list: [] }).next.push(x); }
    if (i === c.depth) {
      got = (c.kinds ? classes : [A, S]).map((cls) => { try { return this.inject(cls); } catch (e) { return e instanceof ReferenceError ? null : e; } });
      return html`<p>${i}</p>`;
    }
    return html`<div><${Level({ i: i + 1 })}></div>`;
  }, { arePropsEqual: () => false });
  for (let i = 0; i <= c.depth; i++) gives[i] = { round: 0, list: [], next: [] };
  const verify = (label, from) => {
    for (let i = from; i <= c.depth; i++) { gives[i].list = gives[i].next; gives[i].next = []; }
    (c.kinds ? classes : [A, S]).forEach((cls, k) => {
      let want = null;
      for (let i = c.depth; i >= 0 && want === null; i--) for (const x of gives[i].list) if (x instanceof cls) want = x;
      ctx.check(got[k] === want, label, { k, got: got[k]?.n ?? String(got[k]), want: want?.n ?? null });
      ctx.reach(want === null ? 'missing' : 'provided');
    });
  };
  let h = await show(app, Level({ i: 0 }));
  ctx.check(h.ok === true, 'the render completes', { e: h.error });
  verify('the nearest matching instance is injected', 0);
  for (let s = 0; s < (c.again ?? 0); s++) {
    const from = ctx.choose('from' + s, c.depth + 1);
    for (let i = from; i <= c.depth; i++) gives[i].round = i === from ? s + 1 : 0; // the one that renders by itself may change its mind
    h = track(force[from]()); await settle(app);
    ctx.check(h.ok === true, 'the update completes', { e: h.error });
    verify('after an update, the nearest matching instance is injected', from);
  }
}
