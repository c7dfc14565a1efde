// Nondeterministic scheduling: actions of the user and callbacks of the host in any order.
export const OPT = {
  n: () => ({}), s: () => ({ flushSync: true }),
  b: () => ({ priority: 'user-blocking' }), v: () => ({ priority: 'user-visible' }), g: () => ({ priority: 'background' }),
  t: () => ({ transition: 0 }), T: () => ({ transition: 23 }), w: () => ({ transition: 24 }), u: () => ({ transition: 1 }), d: () => ({ delay: 10 }), e: () => ({ delay: 1000 }),
  bt: () => ({ priority: 'user-blocking', transition: 0 }), gt: () => ({ priority: 'background', transition: 0 }), gu: () => ({ priority: 'background', transition: 1 }),
  gd: () => ({ priority: 'background', delay: 10 }), td: () => ({ transition: 0, delay: 10 }), st: () => ({ flushSync: true, transition: 0 }),
  h: () => ({ handler: (commit) => { commit(); } }),
  H: (host) => ({ handler: (commit) => new Promise((res) => { host.add('handler', () => { commit(); res(); }); }) }),
  X: () => ({ handler: () => Promise.reject(new Error('handler')) }),
  ht: () => ({ transition: 0, handler: (commit) => { commit(); } }),
};
/** Host callbacks that may fire now.  A visible page runs frames before timers, a hidden one never runs frames while a timer is left. */
export function ready(host, hidden = false) {
  const frames = host.pending.filter((t) => t.kind === 'frame');
  const timers = host.pending.filter((t) => t.kind === 'timeout');
  const rest = host.pending.filter((t) => t.kind !== 'timeout' && t.kind !== 'frame');
  if (hidden) return timers.length + rest.length > 0 ? [...rest, ...timers] : frames;
  return frames.length + rest.length > 0 ? [...rest, ...frames] : timers;
}
/** Performs the actions in order, interleaved in every way with the host's callbacks. */
export async function play(app, acts, { hidden = false, limit = 60, sync = false, name = 's', onRun, only } = {}) {
  const { ctx, host } = app;
  let i = 0;
  for (let step = 0; step < limit; step++) {
    const cands = ready(host, hidden);
    const canAct = i < acts.length;
    const n = cands.length + (canAct ? 1 : 0);
    if (n === 0) return;
    const k = only && !only(i) ? (cands.length > 0 ? (canAct ? 1 : 0) : 0) : ctx.choose(name + step, n);
    if (canAct && k === 0) {
      acts[i++]();
      if (sync && i < acts.length && ctx.flag(name + step + 'y')) { step--; step++; continue; }
    } else {
      const t = cands[k - (canAct ? 1 : 0)];
      onRun?.(t);
      host.run(t);
    }
    await ctx.drain();
  }
  ctx.fail('the host never becomes idle');
}
