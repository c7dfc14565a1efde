// Effects run once per dependency change and are cleaned up.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const NE = c.effects ?? 1;
  const log = [];
  const mkDeps = (s, e) => { const d = c.deps[s][e] ?? c.deps[s][0]; return d === 'u' ? undefined : d === 'n' ? null : Array.from({ length: Number(d) }, (_, i) => ctx.any(`d${s}.${e}.${i}`, c.tags ?? ['undefined', 'null', 'boolean', 'number', 'string', 'empty'])); };
  let force = null, step = -1, cur = null;
  let thrown = [];
  const failed = new Set(); // runs that threw
  const boom = (k) => { if (c.throws?.[step]?.includes(k)) { thrown.push(k); throw new Error(k); } };
  const text = () => content(app.container).map((e) => e.c[0]).join();
  const Fx = createComponent(function Fx(props) {
    force = (o) => this.forceUpdate(o);
    const now = cur;
    for (let e = 0; e < NE; e++) {
      const id = `${e}@${now.step}`;
      this.useEffect(() => {
        log.push({ op: 's', id, text: text() });
        boom(e + '+');
        return c.clean === 'none' || (c.clean === 'odd' && now.step % 2 === 0) ? undefined : () => { log.push({ op: 'c', id }); boom(e + '-'); };
      }, now.deps[e]);
    }
    return html`<p>${now.step}</p>`;
  }, { arePropsEqual: () => false });
  const Bomb = createComponent(function Bomb(props) { if (props.on) throw new Error('bomb'); return null; }, { arePropsEqual: () => false });
  const Outer = createComponent(function Outer(props) { return c.where === 'comp' ? [Fx({}), html`<${Bomb({ on: props.on })}>`] : html`<${Fx({})}><${Bomb({ on: props.on })}>`; }, { arePropsEqual: () => false });
  const changed = (a, b) => a == null || b == null || a.length !== b.length ? true : ctx.or(false, ...a.map((x, i) => ctx.not(ctx.same(x, b[i]))));
  let committed = null; // dependencies of the last committed render
  const active = Array(NE).fill(null); // the run whose cleanup is still due
  let tainted = false;
  const cleans = (id) => failed.has(id) ? false : c.clean === 'none' ? false : c.clean === 'odd' ? Number(id.split('@')[1]) % 2 !== 0 : true;
  for (step = 0; step < c.deps.length; step++) {
    const deps = Array.from({ length: NE }, (_, e) => mkDeps(step, e));
    cur = { step, deps };
    log.length = 0; thrown = [];
    const bomb = c.bomb?.includes(step);
    let h;
    if (step > 0 && c.via?.[step] === 'own') { h = track(force(c.sync ? { flushSync: true } : {})); await settle(app); } else h = await show(app, Outer({ on: bomb }), c.sync ? { flushSync: true } : {});
    ctx.check(h.ok === (!bomb && thrown.length === 0), 'the render completes, and fails when something of it throws', { step, error: h.error });
    if (bomb) {
      ctx.check(log.length === 0, 'nothing of an effect runs for a render that is not committed', { log });
      tainted = true;
      continue;
    }
    for (let e = 0; e < NE; e++) {
      const mine = log.filter((l) => l.id.startsWith(e + '@'));
      const ran = mine.some((l) => l.op === 's');
      const ch = committed === null ? true : changed(committed[e], deps[e]);
      if (tainted) ctx.check(ctx.implies(ch, ran), 'an effect runs again when its dependencies changed', { step, e });
      else ctx.check(ctx.iff(ch, ran), 'an effect runs again exactly when its dependencies changed', { step, e, ran, deps: deps[e] });
      const want = ran ? [...(active[e] !== null && cleans(active[e]) ? ['c' + active[e]] : []), `s${e}@${step}`] : [];
      ctx.check(ctx.eq(mine.map((l) => l.op + l.id), want), 'the previous run is cleaned up once, before the next', { got: mine.map((l) => l.op + l.id), want });
      for (const l of mine) if (l.op === 's') ctx.check(l.text === String(step), 'effects are set up after the document shows the render', { text: l.text });
      if (ran) { active[e] = `${e}@${step}`; if (thrown.includes(e + '+')) { failed.add(active[e]); ctx.reach('threw'); } }
    }
    ctx.check(ctx.eq(log.filter((l) => l.op === 's').map((l) => l.id[0]), log.filter((l) => l.op === 's').map((l) => l.id[0]).sort()), 'effects run in the order they were declared');
    committed = deps; tainted = false;
    ctx.reach('step');
  }
  log.length = 0;
  const late = force;
  if (c.end === 'remove') await show(app, html`<hr>`); else { track(app.root.unmount()); await settle(app); }
  ctx.check(ctx.eq(log.map((l) => l.op + l.id).sort(), active.filter((a) => a !== null && cleans(a)).map((a) => 'c' + a).sort()), 'every effect still set up is cleaned up exactly once at unmount', { got: log.map((l) => l.op + l.id), active });
  log.length = 0;
  const h = track(late());
  await settle(app);
  ctx.check(h.done && log.length === 0, 'nothing runs after unmount', { done: h.done, log });
  ctx.reach('unmounted');
}
