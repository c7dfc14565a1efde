// Unmounting or removing a subtree leaves nothing of it behind, and the root can be used again.
import { createComponent, createFragment, createPortal, DOMRoot, html, Ref, text } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const foreign = document.createElement('q');
  app.container.appendChild(foreign);
  const side = document.createElement('div');
  const log = [], refs = [], targets = [], late = [];
  let serial = 0;
  const Live = createComponent(function Live(props) { // everything a component can leave behind
    const [s, set] = this.useState(0);
    const id = props.id;
    late.push((o) => set((x) => x + 1, o), (o) => this.forceUpdate(o));
    const ref = refs[id] ??= new Ref(null);
    this.useEffect(() => { log.push('+' + id); return () => { log.push('-' + id); }; }, []);
    this.useEffect(() => { log.push('*' + id); return () => { log.push('/' + id); }; });
    return html`<u ${ref} @x=${() => { log.push('!' + id); }}><a @x=${() => { log.push('!' + id); }} ${(node) => { targets.push(node); log.push('b' + id); return () => { log.push('d' + id); }; }}></a>${props.v}${s}</u>`;
  }, { arePropsEqual: () => false });
  const shape = { // the live component within something
    one: (v) => Live({ id: 0, v }), frag: (v) => createFragment([Live({ id: 0, v }), Live({ id: 1, v })]), elem: (v) => html`<p><${Live({ id: 0, v })}></p>`,
    list: (v) => html`<p><${[Live({ id: 0, v }), text`x`, Live({ id: 1, v })]}></p>`, portal: (v) => createPortal(Live({ id: 0, v }), side), nest: (v) => Outer({ v }), two: (v) => html`<${Live({ id: 0, v })}><hr><${Live({ id: 1, v })}>`,
  };
  const Outer = createComponent(function Outer(props) { this.useEffect(() => { log.push('+9'); return () => { log.push('-9'); }; }, []); return [Live({ id: 0, v: props.v }), html`<b></b>`]; }, { arePropsEqual: () => false });
  const ids = { frag: [0, 1], list: [0, 1], two: [0, 1] }[c.shape] ?? [0];
  const outer = c.shape === 'nest' ? [9] : [];
  const u = (v) => ({ tag: 'u', c: [{ tag: 'a', c: [] }, v, '0'] });
  const means = { one: (v) => [u(v)], frag: (v) => [u(v), u(v)], elem: (v) => [{ tag: 'p', c: [u(v)] }], list: (v) => [{ tag: 'p', c: [u(v), 'x', u(v)] }], portal: () => [], nest: (v) => [u(v), { tag: 'b', c: [] }], two: (v) => [u(v), { tag: 'hr', c: [] }, u(v)] }[c.shape];
  const wrap = { // where it is, and what is left when it goes
    root: [(x) => x, () => null], list: [(x) => [html`<i></i>`, x, html`<s></s>`], () => [html`<i></i>`, html`<s></s>`]], keyed: [(x) => [html`<i></i>`.withKey('i'), x.withKey('x'), html`<s></s>`.withKey('s')], () => [html`<i></i>`.withKey('i'), html`<s></s>`.withKey('s')]],
    hole: [(x) => html`<div><i></i><${x}><s></s></div>`, () => html`<div><i></i><${createFragment([])}><s></s></div>`], other: [(x) => html`<${x}>`, () => html`<${html`<s></s>`}>`], comp: [(x) => Wrap({ x }), () => Wrap({ x: createFragment([]) })], elem: [(x) => html`<i><${html`<s><${x}></s>`}></i>`, () => html`<b></b>`],
  }[c.where];
  const I = { tag: 'i', c: [] }, S = { tag: 's', c: [] };
  const around = { root: [(m) => m, []], list: [(m) => [I, ...m, S], [I, S]], keyed: [(m) => [I, ...m, S], [I, S]], hole: [(m) => [{ tag: 'div', c: [I, ...m, S] }], [{ tag: 'div', c: [I, S] }]], other: [(m) => m, [S]], comp: [(m) => m, []], elem: [(m) => [{ tag: 'i', c: [{ tag: 's', c: m }] }], [{ tag: 'b', c: [] }]] }[c.where];
  const Q = [{ tag: 'q', c: [] }];
  const inside = () => content(app.container);
  const v = ctx.atom('v');
  for (let round = 0; round < (c.rounds ?? 2); round++) {
    log.length = 0; targets.length = 0; late.length = 0;
    let h = await show(app, wrap[0](shape[c.shape](v)));
    ctx.check(h.ok === true, 'the root can be rendered', { round, e: h.error });
    ctx.check(ctx.eq(inside(), [...Q, ...around[0](means(v))]), 'the root shows what was rendered', { round, got: inside() });
    if (c.shape === 'portal') ctx.check(ctx.eq(content(side), [u(v)]), 'the portal shows what was rendered', { round, got: content(side) });
    if (c.again) { const w = ctx.atom('w'); await show(app, wrap[0](shape[c.shape](w))); ctx.check(ctx.eq(inside(), [...Q, ...around[0](means(w))]), 'it is updated', { got: inside() }); }
    if (c.failed) { // an update whose commit does not take place
      const w = ctx.atom('x' + round), o = {};
      const view = c.failing === 'gone' ? wrap[1]() : wrap[0](shape[c.shape](w));
      const shown = inside(), at = log.length;
      let drop = () => {}, other = null;
      if (c.failed === 'middleware') drop = app.runtime.use({ handle(u, render) { render(u); throw new Error('middleware'); } });
      if (c.failed === 'handler') o.handler = async () => { throw new Error('handler'); };
      h = track(app.root.render(view, o));
      if (c.failed === 'other') other = track(new DOMRoot(document.createElement('div'), app.runtime).render(Failing({})));
      await settle(app);
      drop();
      ctx.check(h.ok === false && (other === null || other.ok === false), 'the failure is reported', { round });
      ctx.check(ctx.eq(inside(), shown) && log.length === at, 'a failed update changes nothing', { got: inside(), log });
    }
    const nodes = [...targets];
    log.length = 0;
    const pending = [];
    const before = c.pending === 'before' ? late.slice(-2 * ids.length) : [];
    for (const f of before) pending.push(track(f(c.opts === 's' ? { priority: 'user-blocking' } : c.opts === 'b' ? { priority: 'user-blocking' } : {})));
    h = track(c.end === 'unmount' ? app.root.unmount(c.opts === 's' ? { flushSync: true } : {}) : app.root.render(wrap[1](), c.opts === 's' ? { flushSync: true } : {}));
    if (c.pending === 'after') for (const f of late.slice(-2 * ids.length)) pending.push(track(f(c.opts === 'b' ? { priority: 'user-blocking' } : {})));
    await settle(app);
    ctx.check(h.ok === true, 'removing completes', { e: h.error });
    ctx.check(pending.every((p) => p.ok === true), 'updates of what is removed complete', { e: pending.map((p) => [p.done, p.error]) });
    const rest = c.end === 'unmount' ? [] : around[1];
    const clean = () => ctx.eq(inside(), [...Q, ...rest]);
    ctx.check(clean(), 'everything of it is out of the document', { got: inside() });
    ctx.check(app.container.contains(foreign), 'other content stays');
    if (c.end === 'unmount') ctx.check(app.container.childNodes.length === 1, 'no node is left behind', { n: app.container.childNodes.length });
    ctx.check(side.childNodes.length === 0, 'nothing is left in a portal', { n: side.childNodes.length });
    for (const i of ids) {
      ctx.check(refs[i].current === null, 'references are detached', { i });
      const n = (op) => log.filter((l) => l === op + i).length;
      ctx.check(n('-') === 1 && n('+') === 0, 'an effect is cleaned up exactly once', { log });
      ctx.check(n('/') === 1 + n('*'), 'every run of an effect is cleaned up exactly once', { log });
      ctx.check(n('d') === 1 + n('b'), 'a callback reference is cleaned up exactly once', { log });
    }
    for (const i of outer) ctx.check(log.filter((l) => l === '-' + i).length === 1, 'effects of outer components are cleaned up exactly once', { log });
    log.length = 0;
    for (const n of nodes.flatMap((n) => [n, n.parentNode])) n.dispatchEvent(new Event('x'));
    ctx.check(log.length === 0, 'listeners are detached', { log });
    log.length = 0;
    const inert = late.map((f) => track(f(ctx.flag('sync' + round) ? { flushSync: true } : {})));
    await settle(app);
    ctx.check(inert.every((p) => p.ok === true), 'later updates complete', { e: inert.map((p) => [p.done, p.error]) });
    ctx.check(clean() && side.childNodes.length === 0 && log.length === 0, 'later updates have no effect', { got: inside(), log });
    if (c.end === 'unmount' && ctx.flag('twice' + round)) { h = await show(app, null, {}).then(() => track(app.root.unmount())); await settle(app); ctx.check(h.ok === true && app.container.childNodes.length === 1, 'an empty root can be unmounted', {}); h = track(app.root.unmount()); await settle(app); ctx.check(h.ok === true, 'unmounting twice does no harm'); }
    ctx.reach('removed');
  }
}
const Wrap = createComponent(function Wrap(props) { return props.x; });
const Failing = createComponent(function Failing() { throw new Error('failing'); });
