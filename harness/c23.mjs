// An injected value comes from the nearest provider.
import { createComponent, createFragment, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  class A { constructor(n) { this.n = n; } }
  class SubA extends A {}
  class B { constructor(n) { this.n = n; } }
  const fallback = ctx.any('fallback', ['undefined', 'null', 'number', 'string', 'empty']);
  if (c.fallback) A.getDefault = () => fallback;
  let serial = 0, step = 0;
  const GIVE = { '-': [], a: ['A'], s: ['S'], b: ['B'], ab: ['A', 'B'], sa: ['S', 'A'], as: ['A', 'S'], aa: ['A', 'A'], 'aa=': ['A', 'A', '='] };
  const give = (self, name) => { // what a component provides at this render
    const kinds = GIVE[ctx.pick(`${name}${step}`, c.gives[name] ?? ['-'])];
    let first;
    return kinds.map((k) => { const x = k === '=' ? first : k === 'A' ? new A(++serial) : k === 'S' ? new SubA(++serial) : new B(++serial); first ??= x; self.provide(x); return x; });
  };
  // What each component's last render made visible below it: its values and the link upwards at the time.
  const above = {}, seen = {}, force = {}, took = {};
  const resolve = (scope, cls) => { for (let s = scope; s !== null; s = s.up) for (const x of [...s.values].reverse()) if (x instanceof cls) return x; return null; };
  const enter = (self, name, up) => {
    if (up !== undefined) above[name] = up; // reached from above
    const scope = { values: [], up: above[name] };
    force[name] = (o) => self.forceUpdate(o);
    const early = c.self && name === 'leaf';
    if (c.reads?.includes(name)) read(self, name, scope, 'before');
    scope.values.push(...give(self, name));
    if (c.reads?.includes(name)) read(self, name, scope, 'after');
    return scope;
  };
  const read = (self, name, scope, when) => {
    for (const cls of c.classes === 2 ? [A, B, SubA] : [A]) {
      const want = resolve(scope, cls);
      let got, error = null;
      try { got = self.inject(cls); } catch (e) { error = e; }
      const label = `${name} ${when} ${cls.name}`;
      if (want !== null) ctx.check(error === null && got === want, 'the nearest matching instance is injected', { label, step, got: got?.n, want: want.n });
      else if (cls.getDefault) { ctx.check(error === null && ctx.same(got, fallback), 'without a provider the default is injected', { label, step }); ctx.reach('default'); }
      else { ctx.check(error instanceof Error, 'without a provider and default it fails', { label, step, got }); ctx.reach('missing'); }
      if (want !== null) ctx.reach('provided');
    }
  };
  const kept = {};
  const pending = {}; // the scope a component was reached through, handed over while rendering from above
  const comp = (name, below) => createComponent(function Comp(props) {
    const scope = enter(this, name, pending[name]);
    delete pending[name];
    seen[name] = (seen[name] ?? 0) + 1;
    const kids = below(props);
    for (const k of Object.keys(kids)) { const skip = props.skip?.includes(k); if (!skip) pending[k] = scope; }
    const list = Object.values(kids);
    if (c.stable && list.length === 0) return kept[name] ??= html`<p>${name}</p>`; // the identical element every time
    return html`<p>${name}</p><${list}>`;
  }, { arePropsEqual: (a, b) => b.equal === true });
  const next = (props, k) => ({ ...props, equal: props.skip?.includes(k) ?? false });
  const Leaf = comp('leaf', () => ({}));
  const Leaf2 = comp('leaf2', () => ({}));
  const Mid = comp('mid', (props) => ({ side2: Side2(next(props, 'side2')), leaf: Leaf(next(props, 'leaf')) }));
  const Side = comp('side', (props) => ({ leaf2: Leaf2(next(props, 'leaf2')) }));
  const Side2 = comp('side2', () => ({}));
  const Top = comp('top', (props) => ({ side: Side(next(props, 'side')), mid: Mid(next(props, 'mid')) }));
  for (step = 0; step < c.steps.length; step++) {
    for (const k of Object.keys(pending)) delete pending[k];
    const hs = c.steps[step].split('+').map((act) => { // requested together, e.g. 'leaf:g+R:s mid'
      const [first, ...skip] = act.split(' '), [what, o] = first.split(':'), opts = OPT[o ?? 'n'](host);
      if (what === 'R') { pending.top = null; return track(app.root.render(Top({ skip, equal: false }), opts)); }
      return track(force[what](opts));
    });
    await settle(app);
    ctx.check(hs.every((h) => h.ok === true), 'the update completes', { step, e: hs.map((h) => h.error?.cause ?? h.error) });
    ctx.obs('renders', { ...seen });
  }
  if (c.throws) { // not caught by the component, it surfaces as a failing render
    const Asks = createComponent(function Asks() { const x = this.inject(B); return html`${x.n}`; });
    const before = ctx.show(content(app.container));
    const h = await show(app, Asks({}));
    ctx.check(h.ok === false && h.error?.cause instanceof ReferenceError, 'a missing provider fails the render', { e: h.error });
    ctx.check(ctx.eq(ctx.show(content(app.container)), before), 'the document stays as it was');
  }
  ctx.reach('injected');
}
