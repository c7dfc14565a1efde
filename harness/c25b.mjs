// Logging and profiling change neither what is rendered nor which errors surface.
import { createComponent, html } from '@src/index.js';
import { UpdateLogger } from '@src/addons/update-logger.js';
import { UpdateProfiler } from '@src/addons/update-profiler.js';
import { content, mount, settle, show, track } from './lib/app.mjs';
import { OPT } from './lib/sched.mjs';
export default async function main(ctx, c, host) {
  const run = async (which) => {
    const app = mount(ctx, host);
    const calls = [], marks = [], effects = [];
    const logger = { groupCollapsed: () => { calls.push('('); }, groupEnd: () => { calls.push(')'); }, log: () => { calls.push('.'); } };
    const timing = { mark: (m) => { marks.push(m); }, measure: (name, a, b) => { calls.push('m'); ctx.check(marks.includes(a) && marks.includes(b), 'measures refer to marks that were set', { a, b, marks }); } };
    for (const w of which) app.runtime.use(w === 'L' ? new UpdateLogger(logger) : w === 'P' ? new UpdateProfiler(timing) : { handle: (u, r) => r(u) });
    let armed = null; // another middleware that fails before, after or while committing
    if (c.fails) app.runtime.use({ handle(u, r) {
      const a = armed;
      if (a?.when === 'before') throw a.e;
      const commit = r(u);
      if (a?.when === 'after') throw a.e;
      return () => { commit(); if (a?.when === 'commit') throw a.e; };
    } });
    const set = {};
    const Kid = createComponent(function Kid(props) {
      const [s, up] = this.useState(null);
      set[props.id] = up;
      this.useEffect(() => { effects.push(props.id); }, [s]);
      if (s?.bomb) throw s.error;
      return html`<p ${s?.thrower ?? null} @x=${s?.bad ? s.error : null} title=${props.v}>${s === null || s.bad || s.thrower ? 'none' : s.v}</p>`;
    }, { arePropsEqual: () => false });
    const top = (v, on) => html`<div><${Kid({ id: 'x', v })}><${on ? Kid({ id: 'y', v }) : null}></div>`;
    const out = [];
    await show(app, top(ctx.atom('v0'), true));
    for (let s = 0; s < c.steps.length; s++) {
      const hs = [];
      for (const a of c.steps[s].split('+')) {
        const [what, o] = a.split(':');
        const opts = OPT[o ?? 'n'](host);
        if (what === 'R') hs.push(app.root.render(top(ctx.atom('v' + s), ctx.flag('on' + s)), opts));
        else if (what === 'U') hs.push(app.root.unmount(opts));
        else if (what[0] === '!') hs.push(set[what[1]]({ bomb: 1, error: ctx.any('e' + s) }, opts));
        else if (what[0] === '#') hs.push(set[what[1]]({ bad: 1, error: 5 }, opts)); // fails while committing
        else if (what[0] === '%') { const e = ctx.any('t' + s); hs.push(set[what[1]]({ thrower: () => { throw e; } }, opts)); } // anything thrown while committing
        else hs.push(set[what]({ v: ctx.atom('s' + s) }, opts));
      }
      if (c.fails === s + 1) armed = { when: ctx.pick('when', ['before', 'after', 'commit']), e: ctx.any('m') };
      const tr = hs.map(track);
      await settle(app);
      armed = null;
      out.push(['step', s, content(app.container), tr.map((t) => [t.done, t.ok, t.error instanceof Error ? [t.error.constructor.name, t.error.message.split('\n')[0], t.error.cause] : t.error]), [...effects]]);
      effects.length = 0;
    }
    let depth = 0;
    for (const x of calls) { if (x === '(') depth++; if (x === ')') depth--; ctx.check(depth >= 0 && depth <= 1, 'log groups are balanced', { calls }); }
    ctx.check(depth === 0, 'log groups are closed', { calls });
    app.root.unmount(); await settle(app); app.container.remove();
    return out;
  };
  const plain = await run([]), watched = await run(c.with);
  ctx.check(ctx.eq(plain, watched), 'logging and profiling do not change the outcome', { plain, watched });
  ctx.obs('outcome', plain);
  ctx.reach('compared');
}
