// Updates that are ready together are processed by priority, parents first, then in request order.
import { createComponent, html } from '@src/index.js';
import { content, mount, show, settle, track } from './lib/app.mjs';
import { OPT, ready } from './lib/sched.mjs';
const RANK = { s: 0, h: 1, H: 1, b: 2, v: 3, g: 4, t: 5, u: 5, d: 6, e: 6 };
const rank = (o) => Math.min(...[...o].map((k) => RANK[k === 'n' ? 'g' : k]));
const norm = (o) => o === 'n' ? 'g' : [...o].sort().join('');
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const set = {};
  const comp = (name, child) => createComponent(function C() {
    const [s, d] = this.useState(0);
    set[name] = d;
    return child ? html`<p>${s}</p><${child({})}>` : html`<p>${s}</p>`;
  });
  const Leaf = comp('z'), Mid = comp('y', Leaf), Top = comp('x', Mid);
  const Main = createComponent(function Main(props) { return html`<i>${props.n}</i><${props.top}>`; }, { arePropsEqual: () => false });
  const top = Top({});
  await show(app, Main({ n: 0, top }));
  const texts = () => content(app.container).map((e) => e.c[0]); // [n, x, y, z]
  const at = { R: 0, x: 1, y: 2, z: 3 };
  const ups = [], log = [];
  let clock = 0;
  const viaHandler = () => { // what an update with a handler shows has been put there by a handler
    const now = texts();
    for (const u of ups) if (/[hH]/.test(u.o) && now[at[u.target]] === String(u.value)) ctx.check(u.through === true, 'an update with a handler is committed through a handler', { u: u.target + u.o, now });
  };
  app.runtime.use({ handle(update, render) { const u = ups.find((v) => v.id === update.id); if (u) u.handled = ++clock; return render(update); } });
  const act = async (a, i) => {
    const target = a[0], o = a.slice(1);
    const opts = OPT[o](host);
    const u = { target, o, value: i + 1, handled: null, staged: null, task: null, via: null };
    if (opts.handler) {
      const inner = opts.handler;
      opts.handler = (commit) => inner(() => {
        const before = texts();
        commit();
        const after = texts();
        for (const k in at) {
          if (before[at[k]] === after[at[k]]) continue;
          const w = ups.find((v) => v.target === k && String(v.value) === after[at[k]]);
          if (w) w.through = true;
          ctx.check(w !== undefined && /[hH]/.test(w.o), 'a commit handler commits only updates that have a handler', { before, after, u: a });
        }
        ctx.reach('handler');
      });
    }
    const before = new Set(host.pending);
    const idle = ups.every((v) => v.track.done) && host.pending.length === 0;
    const h = target === 'R' ? app.root.render(Main({ n: u.value, top }), opts) : set[target](u.value, opts);
    u.id = h.id; u.track = track(h);
    u.task = host.pending.find((t) => !before.has(t)) ?? null;
    if (u.task === null && !o.includes('s')) u.via = ups.find((v) => norm(v.o) === norm(o) && v.staged === null) ?? null;
    ups.push(u);
    await ctx.drain();
    if (o.includes('s')) {
      u.staged = ++clock;
      if (idle) { ctx.check(u.track.done && texts()[at[target]] === String(u.value), 'a synchronous update is committed without waiting for the host', { done: u.track.done }); ctx.reach('sync'); }
    }
  };
  let i = 0;
  for (let step = 0; step < 60; step++) {
    const cands = ready(host);
    const n = cands.length + (i < c.acts.length ? 1 : 0);
    if (n === 0) break;
    const k = ctx.choose('s' + step, n);
    if (i < c.acts.length && k === 0) { await act(c.acts[i], i); i++; continue; }
    const t = cands[k - (i < c.acts.length ? 1 : 0)];
    host.run(t);
    for (const u of ups) if (u.staged === null && (u.task === t || u.via?.task === t)) u.staged = ++clock;
    await ctx.drain();
    viaHandler();
  }
  await settle(app);
  viaHandler();
  ctx.check(ups.every((u) => u.track.done), 'every update completes', { done: ups.map((u) => u.track.done) });
  ups.forEach((u, iu) => ups.forEach((v, iv) => {
    if (u.handled === null || v.handled === null || !(u.handled < v.handled) || v.staged === null || !(v.staged < u.handled)) return;
    ctx.reach('ready together');
    const info = { first: u.target + u.o, second: v.target + v.o };
    ctx.check(!(rank(v.o) < rank(u.o)), 'a more urgent update that is ready is rendered first', info);
    // of one priority, whatever transitions and delays go with it
    if (norm(u.o) !== norm(v.o) && (rank(u.o) !== rank(v.o) || rank(u.o) > 4)) return;
    ctx.check(!(at[v.target] < at[u.target]), 'of the same priority, parents are rendered before children', info);
    ctx.check(!(at[v.target] === at[u.target] && iv < iu), 'of the same priority and depth, updates are rendered in request order', info);
  }));
  const roots = ups.filter((u) => u.target === 'R');
  if (roots.length > 0 && roots.every((u) => norm(u.o) === norm(roots[0].o))) ctx.check(texts()[0] === String(roots.at(-1).value), 'the last of several render requests of the same priority wins', { shown: texts()[0] });
  ctx.obs('order', ups.map((u) => u.handled));
}
