// Several listeners on one element, and abort signals.
import { html } from '@src/index.js';
import { mount, settle, show, track } from './lib/app.mjs';
export default async function main(ctx, c, host) {
  const app = mount(ctx, host);
  let calls = [];
  const mk = (id) => () => { calls.push(id); };
  const fns = { A: mk('A'), B: mk('B'), C: mk('C') };
  let div = null;
  for (let s = 0; s < c.len.length; s++) {
    const ids = [], vals = [];
    const acs = [];
    for (let i = 0; i < c.len[s]; i++) {
      const k = ctx.pick(`v${s}.${i}`, c.kinds ?? (c.signal ? ['A', 'n', 'x'] : ['A', 'B', 'n', 'o']));
      if (k === 'n') { ids.push(null); vals.push(null); } else if (k === 'o') { const id = `o${s}.${i}`; ids.push(id); vals.push({ handleEvent: mk(id), capture: ctx.bool(`c${s}.${i}`) }); } else if (k === 'x') { const id = `x${s}.${i}`; const ac = new AbortController(); acs.push([ac, i]); ids.push(id); vals.push({ handleEvent: mk(id), signal: ac.signal }); } else { if (c.kinds) fns[k + i] ??= mk(k + i); const id = c.kinds ? k + i : k; ids.push(id); vals.push(fns[id]); }
    }
    const h = await show(app, html`<div @click=${vals}></div>`);
    ctx.check(h.ok === true, 'the render completes', { error: h.error });
    div = app.container.querySelector('div');
    const fire = (want) => {
      calls = [];
      div.dispatchEvent(new Event('click', { bubbles: true, cancelable: true }));
      ctx.check(ctx.eq(calls.slice().sort(), want.slice().sort()), 'each of the latest listeners is invoked once', { calls, want });
    };
    fire(ids.filter((x) => x !== null));
    for (const [ac, i] of acs) if (ctx.flag(`abort${s}.${i}`)) { ac.abort(); ids[i] = null; fire(ids.filter((x) => x !== null)); }
    ctx.reach('listed');
    // an aborted listener that stays bound is not claimed to come back; start the next step from fresh listeners
  }
  await show(app, html`<hr>`);
  calls = [];
  div.dispatchEvent(new Event('click'));
  ctx.check(calls.length === 0, 'no listener is invoked after its element was unmounted', { calls });
}
