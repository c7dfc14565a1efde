// Every processed update passes through every registered middleware once, in order, and their commits nest.
import { createComponent, html } from '@src/index.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  const log = [];
  const set = {};
  const text = () => JSON.stringify(ctx.show(content(app.container)));
  const Kid = createComponent(function Kid(props) {
    const [s, up] = this.useState(0);
    set[props.id] = up; log.push('render ' + props.id);
    if (s === 'bomb') throw 'bomb';
    return html`<p>${s}</p>`;
  });
  const kx = Kid({ id: 'x' }), ky = Kid({ id: 'y' });
  const top = (n) => [html`<i>${n}</i>`, kx, ky];
  await show(app, top(0));
  const make = (name) => ({
    handle(update, render) {
      // each is given what the one before it has passed on
      const before = log.findLast((l) => /^[<>!]/.test(l) && l.endsWith(':' + update.id));
      if (c.sub) ctx.check(regs.length < 2 || update.from === (before?.[0] === '>' ? before[1] : undefined), 'a middleware is given the update that the one before it passed on', { name, from: update.from, log });
      log.push(`>${name}:${update.id}`);
      let commit;
      try { commit = render(c.sub ? { ...update, from: name } : update); } catch (e) { log.push(`!${name}:${update.id}`); throw e; }
      log.push(`<${name}:${update.id}`);
      return () => { log.push(`(${name}:${update.id}`, text()); commit(); log.push(text(), `)${name}:${update.id}`); };
    },
  });
  const pool = Array.from({ length: c.pool ?? 3 }, (_, i) => make('ABCDEFGH'[i]));
  const regs = []; // registrations in force, in order
  const gone = [];
  const add = (k) => { regs.push({ name: 'ABCDEFGH'[k], off: app.runtime.use(pool[k]) }); };
  let n = 0;
  for (let s = 0; s < c.steps.length; s++) {
    const step = c.steps[s];
    if (step[0] === '+' && step.length > 1) { add(Number(step[1])); continue; }
    if (step[0] === '+') { // register one that is not registered yet, or any of them
      const free = pool.map((_, k) => k).filter((k) => c.again || !regs.some((r) => r.name === 'ABCDEFGH'[k]));
      if (free.length > 0) add(ctx.pick('add' + s, free));
      continue;
    }
    if (step[0] === '-') { // remove one
      if (regs.length > 0) { const k = ctx.choose('rem' + s, regs.length); regs[k].off(); gone.push(...regs.splice(k, 1)); }
      continue;
    }
    if (step[0] === '=') { if (gone.length > 0) ctx.pick('rep' + s, gone).off(); continue; } // removing again does nothing
    log.length = 0;
    const before = text();
    const hs = [];
    n++;
    for (const a of step.split('+')) {
      const [what, o] = a.split(':');
      const opts = OPT[o ?? 'n'](host);
      const h = what === 'R' ? app.root.render(top(n), opts) : what[0] === '!' ? set[what[1]]('bomb', opts) : what[0] === '?' ? set[what[1]](0, opts) : set[what](n, opts);
      hs.push({ h: track(h), what, id: h.id });
    }
    await settle(app);
    const names = regs.map((r) => r.name), dup = new Set(names).size < names.length;
    const idsSeen = [...new Set(log.filter((l) => /^[<>]/.test(l)).map((l) => Number(l.split(':')[1])))];
    if (names.length > 0) {
      for (const { what, id } of hs) if (id >= 0) ctx.check(idsSeen.includes(id), 'every update passes through the middleware', { what, log });
      ctx.check(idsSeen.every((id) => hs.some((h) => h.id === id)), 'only updates pass through the middleware', { log });
    }
    for (const { h, what, id } of hs) {
      const failing = what[0] === '!';
      const seen = log.filter((l) => /^[<>!]/.test(l) && l.endsWith(':' + id));
      const want = [...names.map((m) => `>${m}:${id}`), ...[...names].reverse().map((m) => `${failing ? '!' : '<'}${m}:${id}`)];
      ctx.check(ctx.eq(seen, want), 'an update passes through every registered middleware once in registration order', { s, seen, want });
      const i = log.indexOf(`>${names.at(-1)}:${id}`), j = log.indexOf(`${failing ? '!' : '<'}${names.at(-1)}:${id}`);
      const r = what === 'R' ? null : 'render ' + what.at(-1);
      if (names.length > 0 && !dup && r !== null) ctx.check(j === i + 2 && log[i + 1] === r, 'the update is rendered after all middleware have been entered', { s, log });
      if (failing || hs.some((x) => x.what[0] === '!' && (x.what !== what))) { if (failing) ctx.check(h.ok === false && h.error?.cause === 'bomb', 'errors reach the caller through the middleware', { e: h.error }); continue; }
      ctx.check(h.ok === true, 'the update completes', { s, e: h.error });
      const wraps = log.filter((l) => /^[()]/.test(l) && l.endsWith(':' + id));
      ctx.check(ctx.eq(wraps, [...names.map((m) => `(${m}:${id}`), ...[...names].reverse().map((m) => `)${m}:${id}`)]), 'commits nest in registration order', { s, wraps });
      if (names.length > 0 && !dup) {
        const a = log.indexOf(`(${names[0]}:${id}`), b = log.indexOf(`)${names[0]}:${id}`);
        const alike = what[0] === '?';
        ctx.check(alike || log[a + 1] !== log[b - 1], 'a middleware that wraps the commit surrounds the document change', { s, a: log[a + 1], b: log[b - 1] });
        const ai = log.indexOf(`(${names.at(-1)}:${id}`);
        ctx.check(log[ai + 1] === log[a + 1], 'the document changes inside the innermost commit', { s });
      }
      ctx.reach('passed');
    }
    const ins = log.filter((l) => l.startsWith('[')); // no change outside the wrapped commits
    if (names.length > 0 && ins.length > 0) ctx.check(ins[0] === before && ins.at(-1) === text(), 'the document changes only inside commits', { before, ins });
    const outer = []; if (!dup) log.forEach((l, i) => { if (l.startsWith(`(${names[0]}:`)) outer.push(['b', log[i + 1]]); if (l.startsWith(`)${names[0]}:`)) outer.push(['e', log[i - 1]]); });
    for (let i = 0; i + 1 < outer.length; i++) if (outer[i][0] === 'e') ctx.check(outer[i][1] === outer[i + 1][1], 'the document does not change between commits', { outer });
    if (hs.some((h) => h.what[0] === '!')) { const back = track(set.x(n + 100)), back2 = track(set.y(n + 100)); await settle(app); ctx.check(back.ok && back2.ok, 'later updates complete', {}); }
  }
}
