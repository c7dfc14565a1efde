// External stores, effect events and imperative handles.
import { createComponent, html, Ref } from '@src/index.js';
import { EffectEvent, ImperativeHandle, SyncExternalStore } from '@src/addons/hooks.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, play } from './lib/sched.mjs';
const KIND = { store, event, handle };
export default async function main(ctx, c, host) { await KIND[c.kind](ctx, c, host, mount(ctx, host)); }

async function store(ctx, c, host, app) {
  let wc = 0;
  const make = (name) => { const s = { v: ctx.atom(name + '0'), subs: new Set(), n: 0, write(v, only) { this.v = v; for (const f of [...this.subs]) if (only === undefined || only.includes(f.channel)) f(); } }; s.subscribe = (f, channel) => { const own = () => f(); own.channel = channel; s.subs.add(own); s.n++; return c.noUnsub ? undefined : () => { s.subs.delete(own); }; }; s.get = () => s.v; s.on = ['a', 'A'].map((x) => (f) => s.subscribe(f, x)); return s; };
  const stores = { a: make('a'), b: make('b') };
  if (c.parts) for (const s of Object.values(stores)) { s.w = ctx.atom('w0'); s.getW = () => s.w; } // capitals read another part of the same store
  const write = (k) => c.parts && k !== k.toLowerCase() ? (stores[k.toLowerCase()].w = ctx.atom(k + ++wc), stores[k.toLowerCase()].write(stores[k.toLowerCase()].v)) : stores[k.toLowerCase()].write(ctx.atom(k + ++wc), c.channels ? [...(at ?? '')] : undefined);
  const User = createComponent(function User(props) {
    const s = stores[props.k];
    const v = this.use(SyncExternalStore(c.channels ? s.on[props.big ? 1 : 0] : c.inline ? (f) => s.subscribe(f) : s.subscribe, c.parts && props.big ? c.inlineGet ? () => s.w : s.getW : c.inline || c.inlineGet ? () => s.v : s.get));
    if (props.w === 'render' && !this.did) { this.did = 1; write(props.k); }
    this.renders = (this.renders ?? 0) + 1; this.commits ??= 0;
    if (props.w === 'later' && this.renders === 2) write(props.k);
    if (props.w === 'after') this.useEffect(() => { if (++this.commits === 2) write(props.k); });
    if (props.w === 'again' && props.big && !this.did) { this.did = 1; write('A'); }
    this.useEffect(() => { if (props.w === 'effect') write(props.k); return () => { if (props.w === 'cleanup') write(props.k); }; }, []);
    return html`<p>${v}</p>`;
  }, { arePropsEqual: (x, y) => !!c.bail && x.k === y.k });
  const page = (p) => [...p].map((k, i) => User({ k: k.toLowerCase(), big: k !== k.toLowerCase(), w: c.writer === i || c.writer === 'all' ? c.writes : null }).withKey(i));
  let at = c.start ?? null;
  const handles = [];
  if (at !== null) await show(app, page(at));
  await play(app, c.acts.map((a) => () => {
    if (a[0] === 'R') { const [p, o] = a.slice(1).split(':'); at = p; handles.push(track(app.root.render(page(p), OPT[o ?? 'n'](host)))); }
    else if (a === 'U') { at = null; handles.push(track(app.root.unmount())); }
    else write(a);
  }), { sync: true });
  await settle(app);
  const verify = (label) => ctx.check(ctx.eq(content(app.container), [...(at ?? '')].map((k) => ({ tag: 'p', c: [c.parts && k !== k.toLowerCase() ? stores[k.toLowerCase()].w : stores[k.toLowerCase()].v] }))), label, { got: content(app.container), at });
  ctx.check(handles.every((h) => h.ok === true), 'renders complete', { e: handles.map((h) => h.error) });
  verify('every component shows the current snapshot of its store');
  if (!c.noUnsub) for (const k of ['a', 'b']) ctx.check(stores[k].subs.size === [...(at ?? '')].filter((x) => x.toLowerCase() === k).length, 'exactly the mounted components are subscribed', { k, n: stores[k].subs.size, at });
  write('a'); write('b'); if (c.parts) write('A'); await settle(app);
  verify('later changes are shown');
  app.root.unmount(); await settle(app);
  if (!c.noUnsub) ctx.check(stores.a.subs.size === 0 && stores.b.subs.size === 0, 'an unmounted component is not subscribed');
  ctx.reach('stored');
}

async function event(ctx, c, host, app) {
  const calls = [];
  let latest = null, committed = null;
  const fires = [];
  const Comp = createComponent(function Comp(props) {
    const fn = this.use(EffectEvent(props.cb));
    latest = fn;
    this.useEffect(() => { fires.push(fn); committed = props.cb; fn.call('in effect', 0); });
    if (props.bomb) throw new Error('bomb');
    return html`<p @x=${fn}></p>`;
  }, { arePropsEqual: () => false });
  const cbs = Array.from({ length: 3 }, (_, i) => function (...args) { calls.push({ i, self: this, args }); return ctx.atom('r' + i); });
  for (let s = 0; s < c.steps; s++) {
    const i = ctx.choose('cb' + s, 3), bomb = c.bomb === s;
    calls.length = 0;
    const h = await show(app, Comp({ cb: cbs[i], bomb }), s % 2 ? { flushSync: true } : {});
    ctx.check(h.ok === !bomb, 'the render completes', { e: h.error });
    if (!bomb) { ctx.check(calls.length === 1 && calls[0].i === i && calls[0].self === 'in effect', 'effects see the callback of their render', { calls, i }); }
    if (committed === null) continue;
    const want = cbs.indexOf(committed);
    for (const f of [latest, fires[0]]) {
      calls.length = 0;
      const a = ctx.atom('arg' + s), self = { some: 'this' };
      const r = f.call(self, a, s);
      ctx.check(calls.length === 1 && calls[0].i === want, 'the function calls the callback of the last committed render', { calls, want });
      ctx.check(calls.length === 1 && calls[0].self === self && ctx.eq(calls[0].args, [a, s]) , 'this and the arguments are passed on');
      ctx.check(ctx.same(r, ctx.atom('r' + want)), 'the result is passed back');
    }
  }
  ctx.reach('event');
}

async function handle(ctx, c, host, app) {
  let made = 0, outer = [];
  const refs = [new Ref(null), new Ref(null)], log = [];
  const fnRefs = [0, 1].map((i) => (h) => { log.push(['set', i, h]); return c.cleanup ? () => { log.push(['unset', i, h]); } : h; }); // as (h) => (handle = h) does
  const target = (r) => r === 'n' ? null : r === 'u' ? undefined : c.fnRef ? fnRefs[r] : refs[r];
  const Comp = createComponent(function Comp(props) { this.use(ImperativeHandle(target(props.r), () => ({ n: ++made, v: props.v }), c.deps === 'none' ? undefined : props.deps)); return html`<p></p>`; }, { arePropsEqual: () => false });
  let prev = null, cur = null;
  for (let s = 0; s < c.steps; s++) {
    const r = ctx.pick('r' + s, c.targets), deps = Array.from({ length: c.ndeps ?? 1 }, (_, i) => ctx.any(`d${s}.${i}`, ['undefined', 'null', 'number', 'string', 'empty']));
    const before = made; log.length = 0;
    const v = ctx.atom('v' + s);
    const h = await show(app, Comp({ r, deps, v }));
    ctx.check(h.ok === true, 'the render completes', { e: h.error });
    const changed = prev === null || c.deps === 'none' ? true : ctx.or(prev.r !== r, ...deps.map((d, i) => ctx.not(ctx.same(d, prev.deps[i]))));
    const attached = typeof r === 'number';
    if (attached) {
      ctx.check(ctx.iff(changed, made > before), 'the handle is made anew exactly when its dependencies or the reference changed', { s, made, before });
      if (made > before) cur = { n: made, v };
      if (c.fnRef) {
        const sets = log.filter((l) => l[0] === 'set');
        ctx.check(made > before ? sets.length === 1 && sets[0][1] === r && ctx.eq(sets[0][2], cur) : sets.length === 0, 'the function receives the new handle once', { log });
      } else ctx.check(refs[r].current !== null && ctx.eq(refs[r].current, cur), 'the reference holds the handle', { s });
    } else ctx.check(made === before, 'without a reference no handle is made', { s });
    if (!c.fnRef) for (const i of [0, 1]) if (i !== r) ctx.check(refs[i].current === null, 'a reference that is no longer used is cleared', { s, i });
    if (c.fnRef && c.cleanup && prev !== null) ctx.check(log.filter((l) => l[0] === 'unset').length === (typeof prev.r === 'number' && (made > before || !attached) ? 1 : 0), 'the cleanup of the previous handle runs once', { s, log });
    prev = { r, deps };
    ctx.reach('handle');
  }
  log.length = 0;
  app.root.unmount(); await settle(app);
  if (!c.fnRef) ctx.check(refs.every((x) => x.current === null), 'unmounting clears the reference');
  else ctx.check(log.length === (c.cleanup && typeof prev.r === 'number' ? 1 : 0), 'unmounting runs the cleanup once', { log });
}
