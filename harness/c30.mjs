// Pending flags of transitions, deferred values and state set in transitions settle.
import { createComponent, html } from '@src/index.js';
import { DeferredValue, Transition } from '@src/addons/hooks.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT, ready } from './lib/sched.mjs';
const TAGGED = ['F', 'G', 'H'].map((tag) => Object.assign((x) => 'result' + tag, { tag }));
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let start = null, set = null, setQ = null, other = null, kidSet = null;
  const give = (name) => (c.functions ? ctx.pick('f' + name, TAGGED) : ctx.atom(name));
  const v0 = give('v0');
  let value = v0, state = 's0', outside = 'o0', kidState = 'k0';
  const initial = c.initial ? ctx.atom('initial') : undefined;
  const seen = [];
  let given = null; // renders of different priorities take effect in processing order
  const Kid = createComponent(function Kid() { const [k, up] = this.useState('k0'); kidSet = up; return html`<u>${k}</u>`; });
  const App = createComponent(function App(props) {
    const [pending, startTransition] = this.use(Transition());
    start = startTransition;
    const [s, up] = this.useState('s0'); set = up;
    const [o, upO] = this.useState('o0'); other = upO;
    let d = null;
    if (c.deferred) { d = this.use(DeferredValue(props.v, c.initial ? { initialValue: c.initialFn ? () => initial : initial, ...(c.dopts ?? {}) } : c.dopts)); seen.push(d); given = props.v; }
    return html`<i>${pending ? 'pending' : 'idle'}</i><p>${s}</p><b>${o}</b><s>${typeof d === 'function' ? d.tag : d}</s><${Kid({})}>`;
  }, { arePropsEqual: () => false });
  const top = () => (c.deferred ? App({ v: value }) : App({}));
  await show(app, top());
  const view = () => { const x = content(app.container); return { pending: x[0].c[0], s: x[1].c[0], o: x[2].c[0], d: x[3].c[0] ?? null, k: x[4].c[0] }; };
  if (c.deferred) { ctx.check(ctx.same(seen[0], c.initial ? initial : v0), 'a deferred value starts with its initial value', { first: seen[0] }); }
  const running = new Set(), handles = [];
  const quiet = () => {
    if (host.pending.some((t) => t.kind !== 'action')) return;
    const v = view();
    ctx.check(v.pending === (running.size > 0 ? 'pending' : 'idle'), 'the pending flag is shown exactly while an action is running', { shown: v.pending, running: [...running] });
    ctx.check(ctx.eq([v.s, v.o, v.k], [state, outside, kidState]), 'state set in a transition is shown once it settles', { v, state, outside });
    if (c.deferred) ctx.check(ctx.same(v.d, typeof given === 'function' ? given.tag : given), 'a deferred value ends up equal to the latest value', { d: v.d, given });
    ctx.reach('quiet');
  };
  const act = (a, i) => {
    const [kind, o] = [a[0], a.slice(1)];
    switch (kind) {
      case 'V': value = give('v' + (i + 1)); handles.push(track(app.root.render(top(), OPT[o || 'n'](host)))); break;
      case 'O': outside = 'o' + (i + 1); handles.push(track(other(outside, OPT[o || 'n'](host)))); break;
      case 'J': for (let k = Number(o); k > 0; k--) app.runtime.nextTransition(); break;
      case 'S': // action without waiting
        start((transition) => { state = 's' + (i + 1); handles.push(track(set(state, { transition }))); if (o.includes('k')) { kidState = 'k' + (i + 1); handles.push(track(kidSet(kidState, { transition }))); } });
        ctx.reach('action');
        break;
      case 'A': case 'F': { // action that finishes or fails later
        running.add(i);
        const r = start((transition) => new Promise((res, rej) => {
          if (o.includes('b')) { state = 's' + (i + 1); handles.push(track(set(state, { transition }))); }
          host.add('action', () => { if (o.includes('e')) { state = 's' + (i + 1) + 'e'; handles.push(track(set(state, { transition }))); } running.delete(i); if (kind === 'F') rej(new Error('failed')); else res(i); });
        }));
        r.then((x) => { ctx.check(kind === 'A' && x === i, 'the result of the action is handed through'); }, (e) => { ctx.check(kind === 'F', 'the failure of the action is handed through'); });
        ctx.reach('action');
        break;
      }
      case 'T': { // action that throws
        let caught = null;
        try { start((transition) => { if (o.includes('b')) { state = 's' + (i + 1); handles.push(track(set(state, { transition }))); } throw new Error('thrown'); }); } catch (e) { caught = e; }
        ctx.check(caught !== null && caught.message === 'thrown', 'what the action throws is handed through', { caught });
        ctx.reach('action');
        break;
      }
    }
  };
  for (let k = c.skip === '?' ? ctx.choose('skip', c.most) : c.skip ?? 0; k > 0; k--) app.runtime.nextTransition(); // others came before
  let i = 0;
  for (let step = 0; step < 80; step++) {
    await ctx.drain();
    quiet();
    const cands = ready(host, false);
    const n = cands.length + (i < c.acts.length ? 1 : 0);
    if (n === 0) break;
    const k = ctx.choose('s' + step, n);
    if (i < c.acts.length && k === 0) { act(c.acts[i], i); i++; if (c.sync && i < c.acts.length && ctx.flag('y' + step)) { act(c.acts[i], i); i++; } } else host.run(cands[k - (i < c.acts.length ? 1 : 0)]);
  }
  await settle(app);
  ctx.check(host.pending.length === 0 && running.size === 0, 'everything has run');
  quiet();
  ctx.check(handles.every((h) => h.ok === true), 'every update completes', { e: handles.map((h) => h.error) });
  ctx.obs('end', view());
  ctx.reach('settled');
}
