// Work is requested from the host at the priority of what caused it, and done exactly once.
import { createComponent, DOMAdapter, html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';

const CONTINUOUS = ['drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave', 'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel'];
const OPTIONS = {
  none: () => [undefined, {}], empty: () => [undefined, { flushSync: false }], undef: () => [undefined, { priority: undefined, transition: undefined, delay: undefined, handler: undefined }],
  blocking: () => ['user-blocking', { priority: 'user-blocking' }], visible: () => ['user-visible', { priority: 'user-visible' }], background: () => ['background', { priority: 'background' }],
  transition: () => ['background', { transition: 3 }], nth: (d, ctx, k) => ['background', { transition: ctx.choose('transition' + k, 75) }], nthBoth: (d, ctx, k) => ['user-blocking', { transition: ctx.choose('transition' + k, 75), priority: 'user-blocking' }], delay: (d) => ['background', { delay: d }], both: (d) => ['user-visible', { priority: 'user-visible', transition: 2, delay: d }],
  handler: () => ['user-blocking', { handler: (commit) => { commit(); } }], prioHandler: () => ['background', { priority: 'background', handler: (commit) => { commit(); } }], delayHandler: (d) => ['user-blocking', { delay: d, handler: (commit) => { commit(); } }],
};
/** Runs `act` in the situation chosen; returns the priority of work caused by it. */
function situation(ctx, c, host, act, k) {
  const ready = ctx.pick('ready' + k, ['complete', 'loading', 'interactive']);
  host.setReadyState(ready);
  if (c.len === undefined) { act(); return ready === 'complete' ? 'background' : 'user-blocking'; }
  const type = ctx.str(`type${c.len}.${k}`, c.len, [[97, 122], [c.other, c.other]]);
  host.during(type, act);
  return CONTINUOUS.some((t) => t === type) ? 'user-visible' : 'user-blocking';
}
async function priorities(ctx, c, host) {
  const app = mount(ctx, host);
  let set;
  const C = createComponent(function C() { const [s, d] = this.useState(0); set = d; return html`<p>${s}</p>`; });
  await show(app, C({}));
  for (let k = 0; k < c.steps; k++) {
    const [given, options] = OPTIONS[ctx.pick('option' + k, c.options)](c.delay ?? 0, ctx, k);
    let h;
    const caused = situation(ctx, c, host, () => { h = track(c.root ? app.root.render(html`<b>${k + 1}</b>`, options) : set(k + 1, options)); }, k);
    ctx.check(host.pending.length === 1 && host.pending[0].kind === 'task', 'the host is asked to run the update', { pending: host.pending.map((t) => t.kind) });
    const o = host.pending[0].opts;
    ctx.check(o.priority === (given ?? caused), 'the host is asked with the priority given, or else that of what is going on', { is: o.priority, given, caused });
    ctx.check((o.delay ?? 0) === (options.delay ?? 0), 'and with the delay given', { is: o.delay, given: options.delay });
    if (given === undefined) ctx.reach(caused);
    host.setReadyState('complete');
    await settle(app);
    ctx.check(h.ok === true && app.container.textContent === String(k + 1), 'the update is done');
  }
}
/** The facilities of a host without a task scheduler. */
async function fallback(ctx, c, host) {
  if (!c.modern) host.legacy();
  const app = mount(ctx, host);
  let n = 0;
  const delay = c.delay ? ctx.int('delay', 1, 100000) : c.zero ? 0 : undefined;
  const options = { priority: c.priority, delay };
  let done = 0, finished = false, finish;
  if (c.adapter) {
    new DOMAdapter().requestCallback(() => { n++; if (c.later) return new Promise((r) => { finish = () => { finished = true; r(); }; }); }, c.bare ? undefined : options).then(() => { done++; ctx.check(n === 1 && (!c.later || finished), 'the promise settles after the callback has run'); });
  } else app.root.render(html`<b>${1}</b>`, options).finished.then(() => { done++; });
  await ctx.drain();
  ctx.check(n === 0 && host.pending.length === 1, 'the host is asked once, and nothing runs before it', { pending: host.pending.length });
  const t = host.pending[0];
  const at = (t.opts?.delay ?? 0);
  if (c.modern) ctx.check(t.kind === 'task', 'the scheduler of the host is used');
  else if (delay > 0) { ctx.check(t.kind === 'timeout' && at === delay, 'a delay is waited for', { kind: t.kind, at, delay }); ctx.reach('delayed'); }
  else if (c.priority === 'user-blocking') { ctx.check(t.kind === 'message' || (t.kind === 'timeout' && at === 0), 'urgent work is done at once', { kind: t.kind, at }); ctx.reach('urgent'); }
  else if (c.priority === 'background') { ctx.check(t.kind === (c.env.noIdle ? 'timeout' : 'idle') && at <= 1, 'background work is left until the host is idle', { kind: t.kind, at }); ctx.reach('background'); }
  else { ctx.check(t.kind === 'timeout' && at === 0, 'other work follows soon', { kind: t.kind, at }); ctx.reach('other'); }
  host.run(t);
  await ctx.drain();
  if (c.later) { ctx.check(n === 1 && done === 0, 'the promise waits for the callback to finish'); finish(); await ctx.drain(); }
  if (c.adapter) { ctx.check(n === 1 && done === 1 && host.pending.length === 0, 'the callback is run exactly once', { n, done }); return; }
  await settle(app);
  ctx.check(done === 1 && app.container.textContent === '1', 'the update is done');
}
/** The commit comes with the next frame, or at last after 100 ms. */
async function commits(ctx, c, host) {
  let n = 0, done = 0, failed = 0;
  const fails = ctx.flag('fails');
  const asked = Array.from({ length: c.commits }, () => new DOMAdapter().requestCommit(() => { n++; if (fails) throw new Error('commit'); }).then(() => { done++; }, () => { failed++; }));
  await ctx.drain();
  ctx.check(n === 0 && host.pending.length > 0, 'the commit waits for the host');
  ctx.check(host.pending.filter((t) => t.kind === 'frame').length === asked.length, 'a frame is asked for');
  const timers = host.pending.filter((t) => t.kind === 'timeout');
  ctx.check(timers.length === asked.length && timers.every((t) => t.opts.delay > 0 && t.opts.delay <= 100), 'without frames, the commit comes after 100 ms at the latest', { timers: timers.map((t) => t.opts.delay) });
  for (let i = 0; host.pending.length > 0 && i < 10; i++) {
    const t = host.pending[ctx.choose('run' + i, host.pending.length)];
    ctx.reach(t.kind);
    host.run(t);
    const before = n;
    await ctx.drain();
    ctx.check(n === before || n === before + 1, 'each commit is made once', { n });
  }
  ctx.check(n === asked.length && (fails ? failed : done) === asked.length, 'every commit is made and reported', { n, done, failed });
}
export default async function main(ctx, c, host) {
  if (c.kind === 'fallback') return fallback(ctx, c, host);
  if (c.kind === 'commit') return commits(ctx, c, host);
  return priorities(ctx, c, host);
}
