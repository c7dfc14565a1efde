// Dispatches made while components render: two siblings and their parent, one of which dispatches to another in its second render.
import { createComponent, createFragment, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const r = ctx.fn('r');
  const exp = {}, send = {}, handles = [], renders = {};
  const dispatch = (who, a, o) => { exp[who] = r(exp[who], a); handles.push(track(send[who](a, o))); };
  const use = (self, who) => {
    exp[who] ??= ctx.atom('s' + who);
    const [s, d] = self.useReducer(r, ctx.atom('s' + who));
    send[who] = d;
    renders[who] = (renders[who] ?? 0) + 1;
    const [from, to, o, nth = 2] = c.nested.split('>');
    if (from === who && renders[who] === Number(nth)) dispatch(to, ctx.atom('n'), OPT[o](host));
    return s;
  };
  const Child = createComponent(function Child(props) { const s = use(this, props.w); return c.list ? createFragment([html`<p>${s}</p>`, ...(ctx.same(s, ctx.atom('s' + props.w)) ? [] : [html`<b></b>`])]) : html`<p>${s}</p>`; }, { arePropsEqual: (x, y) => x.w === y.w });
  const Parent = createComponent(function Parent() { const s = use(this, 'P'); return html`<i>${s}</i><${Child({ w: 'a' })}><${Child({ w: 'b' })}>`; }, { arePropsEqual: () => false });
  if (!c.mounting) await show(app, Parent({}));
  await play(app, c.acts.map((a, i) => () => {
    for (const x of a.split('+')) {
      const [who, o] = x.split(':');
      if (who === 'R') handles.push(track(app.root.render(Parent({}), OPT[o](host))));
      else dispatch(who, ctx.atom(who + i), OPT[o](host));
    }
  }));
  await settle(app);
  for (const h of handles) ctx.check(h.ok === true, 'every dispatch completes', { error: h.error });
  const want = [{ tag: 'i', c: [exp.P] }, ...['a', 'b'].flatMap((w) => [{ tag: 'p', c: [exp[w]] }, ...(c.list && !ctx.same(exp[w], ctx.atom('s' + w)) ? [{ tag: 'b', c: [] }] : [])])];
  ctx.check(ctx.eq(content(app.container), want), 'every component shows the fold of its actions', { got: content(app.container), want });
  ctx.obs('final', content(app.container));
  ctx.reach('folded');
}
