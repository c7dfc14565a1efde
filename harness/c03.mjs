// Bindings whose values did not change are not written.
import { createComponent, html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const TAGS = ['undefined', 'null', 'boolean', 'number', 'string', 'empty'];
  const T = {
    attr: (v) => html`<p title=${v[0]}></p><b lang=${v[1]}></b>`,
    attrs: (v) => html`<p title=${v[0]} lang=${v[1]}></p>`,
    text: (v) => html`<p>${v[0]}</p><b>a${v[1]}b</b>`,
    texts: (v) => html`<p>${v[0]}-${v[1]}</p>`,
    prop: (v) => html`<p .foo=${v[0]} .bar=${v[1]}></p>`,
    live: (v) => html`<p $foo=${v[0]} $bar=${v[1]}></p>`,
    child: (v) => html`<${v[0]}><p title=${v[1]}></p>`,
    class: (v) => html`<p class=${v[0]}></p><b style=${v[1]}></b>`,
    event: (v) => html`<p @foo=${v[0]} @bar=${v[1]}></p>`,
    ref: (v) => html`<p ${v[0]}></p><b ${v[1]}></b>`,
    list: (v) => html`<p class=${[v[0], 'k']}></p><b ${[v[1]]}></b>`,
  }[c.kind];
  const log = [];
  let ids = 0;
  const make = (i, n) => {
    switch (c.kind) {
      case 'class': return i === 0 ? (c.obj ? { [`k${n}`]: ctx.bool('v' + n) } : ctx.str('v' + n, 2, [[97, 122]])) : c.obj ? { '--a': ctx.str('w' + n, 1, [[97, 122]]) } : '--a: ' + ctx.str('w' + n, 1, [[97, 122]]);
      case 'event': return n < 2 ? () => {} : { handleEvent() {}, capture: ctx.bool('c' + n) };
      case 'ref': { const id = ids++; return () => { log.push('a' + id); return () => { log.push('d' + id); }; }; }
      case 'list': { const id = ids++; return i === 0 ? ctx.str('v' + n, 1, [[97, 122]]) : () => { log.push('a' + id); return () => { log.push('d' + id); }; }; }
      default: return ctx.any('v' + n, TAGS);
    }
  };
  let cur, force = null;
  const Box = createComponent(function Box() { force = () => this.forceUpdate(); return T(cur); }, { arePropsEqual: () => false });
  let v = [make(0, 0), make(1, 1)];
  cur = v;
  await show(app, c.own ? Box({}) : T(v));
  const p = app.container.querySelector('p'), b = app.container.querySelector('b');
  const sets = [], calls = [];
  const store = {};
  if (c.kind === 'prop' || c.kind === 'live') for (const n of ['foo', 'bar']) { store[n] = p[n]; Object.defineProperty(p, n, { get: () => store[n], set(x) { sets.push(n); store[n] = x; } }); }
  if (c.kind === 'event') for (const n of ['addEventListener', 'removeEventListener']) p[n] = (type) => { calls.push(type); };
  host.observe(app.container);
  for (let s = 1; s <= c.steps; s++) {
    const w = v.map((x, i) => ctx.flag(`keep${s}.${i}`) ? x : make(i, 2 * s + i));
    if (c.user && s === 1) store.foo = ctx.any('u', TAGS);
    const before = { ...store };
    host.takeWrites(); sets.length = calls.length = log.length = 0;
    cur = w;
    const h = c.own ? track(force()) : await show(app, T(w));
    await settle(app);
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    const writes = host.takeWrites();
    const same = v.map((x, i) => ctx.same(x, w[i]));
    const where = (t) => { // which bindings live on this node
      switch (c.kind) {
        case 'attr': case 'class': return t === p ? [0] : t === b ? [1] : [];
        case 'attrs': return t === p ? [0, 1] : [];
        case 'text': return t === p.firstChild ? [0] : t === b.childNodes[1] ? [1] : [];
        case 'texts': return t === p.firstChild ? [0] : t === p.lastChild ? [1] : [];
        case 'child': return t === p ? [1] : t.nodeType === 8 ? [0] : [];
        case 'list': return t === p ? [0] : [];
        default: return [];
      }
    };
    for (const r of writes) { const is = where(r.target); ctx.check(is.length === 0 ? false : ctx.or(...is.map((i) => ctx.not(same[i]))), 'only nodes of changed bindings are written', { type: r.type, node: r.target.nodeName, v, w }); }
    if (c.kind === 'attrs') ctx.check(ctx.or(writes.length < 2, ctx.and(ctx.not(same[0]), ctx.not(same[1]))), 'one changed attribute is written once', { n: writes.length });
    if (c.kind === 'prop' || c.kind === 'live') ['foo', 'bar'].forEach((n, i) => {
      const k = sets.filter((x) => x === n).length;
      ctx.check(k <= 1, 'a property is written at most once');
      const ref = c.kind === 'live' ? ctx.strict(before[n], w[i]) : same[i];
      ctx.check(ctx.implies(ref, k === 0), 'a property is only written when its value is different', { n, before: before[n], w: w[i] });
    });
    if (c.kind === 'event') ['foo', 'bar'].forEach((n, i) => ctx.check(ctx.implies(same[i], !calls.includes(n)), 'an unchanged listener is not registered again', { calls }));
    if (c.kind === 'ref') { const want = v.map((x, i) => w[i] === x ? 0 : 2).reduce((x, y) => x + y); ctx.check(log.length === want, 'an unchanged reference is not called again', { log }); }
    if (c.kind === 'list') ctx.check(log.length === (w[1] === v[1] ? 0 : 2), 'an unchanged reference is not called again', { log });
    ctx.obs('writes', [writes.map((r) => r.type), sets, calls, log]);
    v = w;
  }
  ctx.reach('unchanged');
}
