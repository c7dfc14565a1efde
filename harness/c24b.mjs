// A component that takes in its updates and fails now and then: what completes is shown, what fails leaves the document alone.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  host.observe(app.container);
  const log = [];
  let fails = null, set = null, force = null, dispatch = null;
  const error = new Error('now and then');
  const Flaky = createComponent(function Flaky(props) {
    if (fails === 'first') throw error;
    const [s, up] = this.useState(0);
    set = up; force = (o) => this.forceUpdate(o);
    const [t, send] = this.useReducer((_, a) => a, 0);
    dispatch = send;
    if (fails === 'middle') throw error;
    this.useEffect(() => { log.push(['+', s, t]); return () => { log.push(['-', s, t]); }; }, [s, t]);
    if (fails === 'last') throw error;
    return html`<p>${s}</p><b>${t}</b><i>${props.v}</i><${fails === 'child' ? Bomb({}) : null}>`;
  }, { arePropsEqual: () => false });
  const Bomb = createComponent(function Bomb() { throw error; });
  const top = (v) => c.deep ? html`<div><${Flaky({ v })}></div>` : Flaky({ v });
  const parts = () => { const box = c.deep ? content(app.container).find((e) => e.c).c : content(app.container); return box.filter((e) => e.c).map((e) => e.c[0]); };
  // what was last asked for and reported as done, and what may have been taken in by a render that failed
  const cur = { s: 0, t: 0, v: 0 }, maybe = { s: [], t: [] };
  const h0 = await show(app, top(0)); ctx.check(h0.ok === true, 'the first render completes', { e: h0.error });
  for (let k = 0; k < c.steps; k++) {
    fails = ctx.pick('fails' + k, [null, 'first', 'middle', 'last', 'child']);
    const shownBefore = parts();
    log.length = 0; host.takeWrites();
    const what = ctx.pick(`what${k}of${c.what.length}`, c.what), opts = OPT[c.opt ?? 'n'](host);
    const next = (name) => ctx.pick(`value${k}${name}`, [0, 1, 2]);
    const asked = {};
    const hs = [];
    for (const w of what) {
      if (w === 's') { asked.s = next('s'); hs.push(track(set(asked.s, opts))); }
      else if (w === 't') { asked.t = next('t'); hs.push(track(dispatch(asked.t, opts))); }
      else if (w === 'f') hs.push(track(force(opts)));
      else { asked.v = k + 1; hs.push(track(app.root.render(top(k + 1), opts))); }
    }
    await settle(app);
    ctx.check(hs.every((h) => h.done), 'every update settles');
    if (hs.some((h) => h.ok === false)) {
      ctx.check(fails !== null, 'an update fails only when the component does', { fails });
      ctx.check(hs.every((h) => h.ok || (h.error instanceof Error && h.error.cause === error)), 'for the reason thrown');
      ctx.check(ctx.eq(parts(), shownBefore) && host.takeWrites().length === 0 && log.length === 0, 'the document and the effects stay', { got: parts(), log });
      for (const n of ['s', 't']) if (n in asked) maybe[n].push(asked[n]);
      ctx.reach('failed');
      continue;
    }
    const now = parts();
    // An update that is dropped because nothing changes is done without a render.
    for (const [i, n] of ['s', 't'].entries()) {
      if (n in asked) { ctx.check(now[i] === String(asked[n]), 'an update that completes is shown', { n, asked, now, fails }); }
      else ctx.check(now[i] === String(cur[n]) || maybe[n].some((x) => now[i] === String(x)), 'the state is one that was asked for', { n, cur, maybe, now });
      cur[n] = Number(now[i]);
      if (n in asked || now.join() !== shownBefore.join()) maybe[n] = n in asked ? [] : maybe[n];
    }
    if ('v' in asked) { cur.v = asked.v; ctx.check(now[2] === String(cur.v), 'and so are the properties', { now }); maybe.s = []; maybe.t = []; }
    const plus = log.filter((l) => l[0] === '+');
    if (plus.length > 0) ctx.check(ctx.eq(plus.at(-1), ['+', cur.s, cur.t]), 'the effect is that of the state shown', { log, cur });
    else ctx.check(now[0] === shownBefore[0] && now[1] === shownBefore[1], 'the effect runs again when the state shown has changed', { now, shownBefore });
    ctx.reach('works');
  }
  ctx.obs('shown', parts());
}
